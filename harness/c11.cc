#include "common.h"
// C11: ClusWisards restored from their json
static str dnorm(const nlj::json& j){ nlj::json k = j; str s; if(k.count("data") && k["data"].is_string()){ str d = k["data"]; str suf = ".wdpkg"; if(d.size() >= 6 && d.substr(d.size() - 6) == suf){ std::ifstream f(d); std::stringstream o; o << f.rdbuf(); d = o.str(); } for(auto& b: split(d, '.')) s += show(ram_data(b)) + ";"; k["data"] = s; } return k.dump(); }
static void cnorm(nlj::json& c){ if(c.count("discriminators") && !c["discriminators"].is_null()) for(auto& d: c["discriminators"]) d = dnorm(d); }
static nlj::json norm(const str& s){ nlj::json j = nlj::json::parse(s); if(j.count("clusters") && !j["clusters"].is_null()) for(auto it = j["clusters"].begin(); it != j["clusters"].end(); ++it) cnorm(*it); if(j.count("unsupervisedCluster")) cnorm(j["unsupervisedCluster"]); return j; }
static str label(){ static const char* L[] = {"a", "b", "cc", "1", "", " ", "x.y", "::", "a::1", "\xc3\xa9", "\"q\"", "new\nline", "#", "data", "clusters", "x__", "\\"}; str s = L[R(0, 16)]; if(P(20)) s += L[R(0, 16)]; return s; }
static void clean(){ DIR* d = opendir("."); std::vector<str> n; while(dirent* e = readdir(d)) n.push_back(e->d_name); closedir(d); for(auto& s: n) if(s.size() > 6 && s.substr(s.size() - 6) == ".wdpkg") remove(s.c_str()); }
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    if(n_cases % 20 == 0) clean();
    int base = P(70) ? 2 : R(3, 5), entry = R(3, 14), as = R(2, std::min(entry, 5)), conf = P(80) ? 1 : R(0, 3);
    float ms = P(30) ? 0 : P(10) ? 1 : (float)(R(0, 1000) / (P(50) ? 1000.0 : 1024.0)); int th = P(80) ? R(1, 12) : R(1, INT_MAX), lim = P(85) ? R(1, 14) : R(1, INT_MAX);
    nlj::json opt = {{"base", base}, {"ignoreZero", P(40)}, {"completeAddressing", P(60)}, {"bleachingActivated", P(75)}, {"confidence", conf}, {"verbose", P(10)}, {"returnConfidence", P(30)}, {"returnActivationDegree", P(30)}, {"returnClassesDegrees", P(30)}};
    note("ClusWisard(" + show(as) + ", " + show(ms) + ", " + show(th) + ", " + show(lim) + ", " + opt.dump() + ") entry " + show(entry));
    ClusWisard w(as, ms, th, lim, opt);
    std::vector<str> names; for(int i = R(1, 3); i > 0; i--) names.push_back(label());
    auto img = [&]{ vi x(entry); int z = P(20) ? 100 : R(0, 60); for(int& v: x) v = P(z) ? 0 : R(0, base - 1); return x; };
    auto feed = [&](std::vector<ClusWisard*> ws){
      vvi X; std::vector<str> y; std::map<int,str> m; for(int i = R(0, 14); i > 0; i--){ X.push_back(img()); if(P(3)) X.back().resize(R(0, entry + 3)); y.push_back(names[R(0, names.size() - 1)]); if(P(60)) m[y.size() - 1] = y.back(); }
      int how = R(0, 4); note(str(how == 0 ? "trainUnsupervised " : how == 1 ? "train (semi) " : "train ") + show(X) + " " + (how == 1 ? show(m) : show(y)));
      unsigned s = rnd(); str f; for(size_t i = 0; i < ws.size(); i++){ srand(s); std::map<int,str> mm = m; str g = what_of([&]{ if(how == 0) ws[i]->trainUnsupervised(X); else if(how == 1) ws[i]->train(X, mm); else ws[i]->train(X, y); }); if(i == 0) f = g; CHECK(f == g, "the original: " << f << ", the restored: " << g); }
    };
    for(int k = R(0, 3); k > 0; k--) feed({&w});
    auto agree = [&](ClusWisard& a, ClusWisard& b, const char* s){
      auto x = norm(a.json()), y = norm(b.json()); CHECK(x == y, s << ": " << y.dump() << " instead of " << x.dump());
      vvi X; for(int k = 0; k < 5; k++) X.push_back(img()); str u, v; str p = what_of([&]{ u = show(a.classify(X)); }), q = what_of([&]{ v = show(b.classify(X)); }); CHECK(p == q && u == v, s << ": classify gives " << q << " " << v << " instead of " << p << " " << u);
      p = what_of([&]{ u = show(a.classifyUnsupervised(X)); }), q = what_of([&]{ v = show(b.classifyUnsupervised(X)); }); CHECK(p == q && u == v, s << ": classifyUnsupervised gives " << q << " " << v << " instead of " << p << " " << u);
      CHECK(show(a.getMentalImages()) == show(b.getMentalImages()), s << ": mental images");
    };
    auto before = norm(w.json()); bool huge = P(30); str j = huge ? w.json(true, P(50) ? "" : "clu_") : w.json(); note((huge ? "json in files " : "json ") + j);
    ClusWisard r(j); CHECK(norm(w.json()) == before, "saving changed the model");
    auto rj = nlj::json::parse(r.json()); for(auto it = opt.begin(); it != opt.end(); ++it) CHECK(rj[it.key()] == it.value(), "option " << it.key() << " of the restored one");
    CHECK(rj["addressSize"] == as && rj["minScore"].get<float>() == ms && rj["threshold"] == th && rj["discriminatorsLimit"] == lim, "settings of the restored one " << rj.dump());
    agree(w, r, "restored");
    str cfg = w.jsonConfig(); ClusWisard c(cfg), f(as, ms, th, lim, opt); agree(f, c, "restored from jsonConfig"); feed({&f, &c}); agree(f, c, "restored from jsonConfig and trained");
    CHECK(norm(w.json()) == before, "jsonConfig changed the model");
    feed({&w, &r}); agree(w, r, "trained on"); feed({&w, &r}); agree(w, r, "trained on more");
    ClusWisard r2(r.json()); agree(w, r2, "restored twice");
  }
}
