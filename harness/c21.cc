#include "common.h"
// C21: every option takes the value given for it, its default otherwise (C++, JSON options)
struct XW: Wisard { XW(int a, nlj::json c): Wisard(a, c) {} XW(int a): Wisard(a) {} nlj::json all(){ return nlj::json{{"bleachingActivated", bleachingActivated}, {"verbose", verbose}, {"ignoreZero", ignoreZero}, {"completeAddressing", completeAddressing}, {"mapping", mapping}, {"indexes", indexes}, {"base", base}, {"confidence", confidence}, {"searchBestConfidence", searchBestConfidence}, {"returnConfidence", returnConfidence}, {"returnActivationDegree", returnActivationDegree}, {"returnClassesDegrees", returnClassesDegrees}, {"addressSize", addressSize}}; } };
struct XC: ClusWisard { XC(int a, float m, int t, int l, nlj::json c): ClusWisard(a, m, t, l, c) {} XC(int a, float m, int t, int l): ClusWisard(a, m, t, l) {} XC(str s): ClusWisard(s) {} nlj::json all(){ return nlj::json::parse(jsonConfig()); } };
struct XK: KernelCanvas { XK(int d, int k, nlj::json c): KernelCanvas(d, k, c) {} XK(int d, int k): KernelCanvas(d, k) {} int bits(){ return bitsByKernel; } bool dir(){ return useDirection; } int n(){ return numberOfKernelsToActivate; } size_t dims(){ return kernels[0].size(); } size_t ks(){ return kernels.size(); } };
static nlj::json pick(const nlj::json& all){ nlj::json o = nlj::json::object(); for(auto it = all.begin(); it != all.end(); ++it) if(P(45)) o[it.key()] = P(8) ? nlj::json() : it.value(); if(P(20)) o["other"] = R(0, 9); return o; }
static nlj::json expect(const nlj::json& def, const nlj::json& o){ nlj::json e = def; for(auto it = def.begin(); it != def.end(); ++it) if(o.count(it.key()) && !o[it.key()].is_null()) e[it.key()] = o[it.key()]; return e; }
#define SAME(got, want, w) do { nlj::json g_ = got, w_ = want; for(auto it_ = w_.begin(); it_ != w_.end(); ++it_) CHECK(g_[it_.key()] == it_.value(), w << ": " << it_.key() << " is " << g_[it_.key()].dump() << " instead of " << it_.value().dump()); } while(0)
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int entry = R(4, 14), as = R(2, 4), base = R(2, 7); vi ix(entry); for(int i = 0; i < entry; i++) ix[i] = i; for(int i = 0; i < entry; i++) std::swap(ix[i], ix[R(0, entry - 1)]);
    nlj::json wopt = {{"bleachingActivated", P(50)}, {"verbose", P(50)}, {"ignoreZero", P(50)}, {"completeAddressing", P(50)}, {"mapping", {{"a", rand_mapping(entry, 4, 4)}, {"b::", rand_mapping(entry, 4, 4)}}}, {"indexes", ix}, {"base", base}, {"confidence", R(-2, 9)}, {"searchBestConfidence", P(50)}, {"returnConfidence", P(50)}, {"returnActivationDegree", P(50)}, {"returnClassesDegrees", P(50)}};
    nlj::json wdef = {{"bleachingActivated", true}, {"verbose", false}, {"ignoreZero", false}, {"completeAddressing", true}, {"mapping", nlj::json::object()}, {"indexes", nlj::json::array()}, {"base", 2}, {"confidence", 1}, {"searchBestConfidence", false}, {"returnConfidence", false}, {"returnActivationDegree", false}, {"returnClassesDegrees", false}};
    int what = R(0, 3); nlj::json o = pick(wopt);
    if(what == 0){
      note("Wisard " + show(as) + " " + o.dump());
      XW* w = P(10) ? (o = nlj::json(), new XW(as)) : new XW(as, o); nlj::json e = expect(wdef, o); e["addressSize"] = as;
      SAME(w->all(), e, "Wisard"); nlj::json s = e; s.erase("searchBestConfidence"); SAME(nlj::json::parse(w->json()), s, "Wisard json"); SAME(nlj::json::parse(w->jsonConfig()), s, "Wisard jsonConfig");
      // what it creates
      int b = e["base"], cf = e["confidence"]; bool ca = e["completeAddressing"]; vvi X; std::vector<str> y = {"a", "b::", "z"}; for(int i = 0; i < 3; i++) X.push_back(rand_image(entry, b)); int rn = entry / as + (ca && entry % as ? 1 : 0);
      bool t = throws([&]{ w->train(X, y); }); CHECK(t == (cf > rn), "confidence " << cf << " with " << rn << " RAMs" << (t ? " throws" : " does not throw"));
      if(!t){ auto j = nlj::json::parse(w->json())["classes"]; for(auto& l: y){ vvi m = j[l]["mapping"]; if(e["mapping"].count(l)) CHECK(m == e["mapping"][l].get<vvi>(), "mapping of " << l << " is " << show(m)); else if(e["indexes"].size()){ CHECK((int)m.size() == entry / as, "RAMs by indexes"); for(size_t i = 0; i < m.size(); i++) for(int k = 0; k < as; k++) CHECK(m[i][k] == ix[i * as + k], "mapping by indexes is " << show(m)); } else CHECK((int)m.size() == rn, "RAMs of " << l << ": " << m.size()); }
        auto zero = vi(entry, 0), big = vi(entry, 0); big[R(0, entry - 1)] = b; X = {zero}; y = {"z"}; w->train(X, y); auto d = Discriminator(expect({{"x", 0}}, o).is_null() ? nlj::json() : [&]{ nlj::json q = nlj::json::parse(w->json())["classes"]["z"]; q["base"] = b; q["ignoreZero"] = e["ignoreZero"]; return q; }()); vi v = d.classify(zero); if(e["ignoreZero"]) CHECK(v == vi(v.size(), 0), "ignoreZero"); else CHECK(v.size() && v[0] >= 1, "ignoreZero off");
        vvi m = nlj::json::parse(w->json())["classes"]["z"]["mapping"]; bool covered = false; for(auto& r: m) for(int p: r) if(big[p]) covered = true; X = {big}; CHECK(throws([&]{ w->train(X, y); }) == covered, "a value equal to the base"); }
      delete w;
    } else if(what == 1){
      nlj::json def = wdef; def.erase("mapping"); def.erase("indexes"); o.erase("mapping"); o.erase("indexes"); float ms = P(70) ? R(0, 8) / 8.0f : P(50) ? R(-20, 40) / 10.0f : P(50) ? NAN : -INFINITY; int th = R(-1, 9), lim = R(-1, 9); if(P(10)) th = INT_MAX;
      note("ClusWisard " + show(as) + " " + show(ms) + " " + show(th) + " " + show(lim) + " " + o.dump()); bool ok = ms >= 0 && ms <= 1 && th >= 1 && lim >= 1; bool plain = P(10); if(plain) o = nlj::json();
      XC* w = 0; bool t = throws([&]{ w = plain ? new XC(as, ms, th, lim) : new XC(as, ms, th, lim, o); }); CHECK(t != ok, (t ? "rejected" : "accepted")); 
      if(w){ nlj::json e = expect(def, o); e.erase("searchBestConfidence"); e["addressSize"] = as; e["minScore"] = ms; e["threshold"] = th; e["discriminatorsLimit"] = lim; SAME(w->all(), e, "ClusWisard"); SAME(nlj::json::parse(w->json()), e, "ClusWisard json");
        nlj::json j = w->all(); if(P(50)){ nlj::json k = j; int f = R(0, 2); double bad = P(50) ? 1.5 : -0.25; k[f == 0 ? "minScore" : f == 1 ? "threshold" : "discriminatorsLimit"] = f == 0 ? nlj::json(bad) : nlj::json(R(-3, 0)); CHECK(throws([&]{ XC x(k.dump()); }), "accepted " << k.dump()); }
        int b = e["base"], cf = e["confidence"]; vvi X = {rand_image(entry, b)}; std::vector<str> y = {"q"}; int rn = entry / as + (e["completeAddressing"] && entry % as ? 1 : 0); t = throws([&]{ w->train(X, y); }); CHECK(t == (cf > rn), "confidence " << cf << " with " << rn << " RAMs");
        if(!t){ auto d = nlj::json::parse(w->json())["clusters"]["q"]["discriminators"]; CHECK(d.size() == 1 && (int)d[0]["mapping"].size() == rn, "created " << d.dump()); vi big(entry, b); X = {big}; CHECK(throws([&]{ w->train(X, y); }), "a value equal to the base"); }
        delete w; }
    } else if(what == 2){
      nlj::json dopt = {{"ignoreZero", wopt["ignoreZero"]}, {"completeAddressing", wopt["completeAddressing"]}, {"base", base}, {"indexes", ix}, {"mapping", wopt["mapping"]["a"]}}; o = pick(dopt); bool plain = P(10); if(plain) o = nlj::json(); nlj::json e = expect({{"ignoreZero", false}, {"completeAddressing", true}, {"base", 2}, {"indexes", nlj::json::array()}, {"mapping", nlj::json::array()}}, o);
      note("Discriminator " + show(as) + " " + show(entry) + " " + o.dump()); Discriminator* d = plain ? new Discriminator(as, entry) : new Discriminator(as, entry, o); auto j = nlj::json::parse(d->json()); CHECK(j["ignoreZero"] == e["ignoreZero"] && j["base"] == e["base"] && j["entrySize"] == entry && j["count"] == 0, "settings " << j.dump());
      vvi m = j["mapping"]; if(e["mapping"].size()) CHECK(m == e["mapping"].get<vvi>(), "mapping " << show(m)); else if(e["indexes"].size()){ CHECK((int)m.size() == entry / as, "RAMs by indexes"); for(size_t i = 0; i < m.size(); i++) for(int k = 0; k < as; k++) CHECK(m[i][k] == ix[i * as + k], "mapping by indexes is " << show(m)); } else CHECK((int)m.size() == entry / as + (e["completeAddressing"] && entry % as ? 1 : 0), "number of RAMs " << m.size());
      delete d;
    } else {
      int dim = R(1, 6), ks = R(1, 40); nlj::json kopt = {{"bitsByKernel", R(1, 6)}, {"activationDegree", R(0, 64) / 64.0}, {"useDirection", P(50)}}; o = pick(kopt); bool plain = P(10); if(plain) o = nlj::json(); nlj::json e = expect({{"bitsByKernel", 3}, {"activationDegree", 0.07}, {"useDirection", false}}, o); note("KernelCanvas " + show(dim) + " " + show(ks) + " " + o.dump());
      XK* k = plain ? new XK(dim, ks) : new XK(dim, ks, o); CHECK(k->bits() == e["bitsByKernel"] && k->dir() == e["useDirection"] && (int)k->ks() == ks, "bits " << k->bits() << " direction " << k->dir()); float f = (float)e["activationDegree"].get<double>(); double want = std::round((double)(f * ks)); CHECK(k->n() == (int)std::min((double)ks, want), "active kernels " << k->n()); CHECK((int)k->dims() == (k->dir() ? 3 * (dim + 2 * (dim - 1)) : dim), "size of a kernel " << k->dims());
      std::vector<std::vector<double>> s(3, std::vector<double>(dim)); for(auto& p: s) for(auto& v: p) v = R(0, 99); CHECK((int)k->transform(s).size() == ks * e["bitsByKernel"].get<int>(), "output size"); delete k;
    }
  }
}
