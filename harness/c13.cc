#include "common.h"
// C13: ClusWisard trains and answers per class
static str rlabel(){ str n; int l = P(5) ? 0 : R(1, 3); for(int k = 0; k < l; k++) n += (char)(P(70) ? 'a' + R(0, 2) : P(60) ? ':' : R(1, 126)); return n; }
struct CW {
  std::map<str,OClu> c; OClu un; OClu proto; bool bl; int conf; bool unclear;
  void train(const vi& x, const str& l, const nlj::json& j){
    if(!c.count(l)){ c[l] = proto; c[l].entry = x.size(); }
    nlj::json d = j.is_null() || !j.count(l) ? nlj::json() : j[l]["discriminators"];
    c[l].train(x, clu_maps(d)); if(c[l].unclear) unclear = true;
  }
  str answer(const vi& x){
    std::map<str,vi> v; for(auto& p: c) for(size_t i = 0; i < p.second.d.size(); i++) v[p.first + "::" + std::to_string(i)] = p.second.d[i].votes(x);
    str w = o_winner(o_bleach(v, bl, conf)); size_t q = w.rfind("::"); return q == str::npos ? w : w.substr(0, q);
  }
  str un_answer(const vi& x){ std::map<str,vi> v; for(size_t i = 0; i < un.d.size(); i++) v[std::to_string(i)] = un.d[i].votes(x); return o_winner(o_bleach(v, bl, 1)); }
};
static str diff(const nlj::json& j, const CW& o){
  nlj::json c = j.count("clusters") ? j["clusters"] : nlj::json();
  if((c.is_null() ? 0 : c.size()) != o.c.size()) return show(c.is_null() ? 0 : c.size()) + " clusters instead of " + show(o.c.size());
  for(auto& p: o.c){ if(!c.count(p.first)) return "no cluster " + show(p.first); str s = clu_diff(c[p.first]["discriminators"], p.second); if(s.size()) return "cluster " + show(p.first) + ": " + s; }
  str s = clu_diff(j.count("unsupervisedCluster") ? j["unsupervisedCluster"]["discriminators"] : nlj::json(), o.un);
  return s.empty() ? "" : "unsupervised cluster: " + s;
}
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int entry = R(2, 9), as = R(2, std::min(entry, 4)); bool comp = P(60), iz = P(30), bl = P(80); int base = P(75) ? 2 : 3;
    float ms = P(40) ? 0 : R(0, 16) / 16.0f; int th = 1 << R(0, 6), lim = R(1, 4);
    int rn = entry / as + (comp && entry % as ? 1 : 0); int conf = P(80) ? 1 : R(0, rn + 1);
    nlj::json opt = {{"bleachingActivated", bl}, {"ignoreZero", iz}, {"completeAddressing", comp}, {"base", base}, {"confidence", conf}, {"verbose", P(20)}};
    note("ClusWisard(" + show(as) + ", " + show(ms) + ", " + show(th) + ", " + show(lim) + ", " + opt.dump() + ") entry " + show(entry));
    ClusWisard w(as, ms, th, lim, opt);
    CW o; o.proto = OClu(entry, as, ms, th, lim, comp, iz, base); o.un = o.proto; o.bl = bl; o.conf = conf; o.unclear = false;
    std::vector<str> names; int nl = R(1, 4); for(int i = 0; i < nl; i++) names.push_back(rlabel());
    std::vector<vi> pool; int np = R(1, 6); for(int i = 0; i < np; i++){ vi x = rand_image(entry, base); if(P(15)) std::fill(x.begin(), x.end(), 0); pool.push_back(x); }
    int steps = R(1, 10);
    for(int s = 0; s < steps; s++){
      int n = R(0, 6); vvi X; std::vector<str> y; for(int i = 0; i < n; i++){ X.push_back(pool[R(0, np - 1)]); y.push_back(names[R(0, nl - 1)]); }
      int act = R(0, 9);
      bool high = conf > rn;
      if(act <= 2){
        bool mism = P(12); if(mism){ if(P(50) && n) y.pop_back(); else y.push_back("a"); }
        note("train " + show(X) + " " + show(y));
        bool t = throws([&]{ w.train(X, y); }), rej = mism || (high && n);
        CHECK(t == rej, (rej ? "accepted" : "rejected"));
        if(!rej){ nlj::json j = nlj::json::parse(w.json()); nlj::json c = j.count("clusters") ? j["clusters"] : nlj::json(); for(int i = 0; i < n && !o.unclear; i++) o.train(X[i], y[i], c); }
      } else if(act <= 4){
        std::map<int,str> m; for(int i = 0; i < n; i++) if(P(50)) m[i] = y[i];
        bool odd = false; if(P(15)){ if(P(50)) for(int i = 0; i <= n; i++) m[i * 3 + 1] = "x"; else { m.clear(); if(P(50)) m[n] = "x"; else m[-1] = "x"; } odd = true; }
        std::map<int,str> m0 = m;
        note("semi-supervised " + show(X) + " " + show(m));
        int have = 0; for(int i = 0; i < n; i++) have += m.count(i);
        bool rej = (int)m.size() > n || (n && (high || have == 0)); (void)odd;
        bool t = throws([&]{ w.train(X, m); });
        CHECK(t == rej, (rej ? "accepted" : "rejected"));
        CHECK(m == m0, "the labels given were changed: " << show(m));
        if(!rej){
          nlj::json j = nlj::json::parse(w.json()); nlj::json c = j.count("clusters") ? j["clusters"] : nlj::json();
          for(int i = 0; i < n && !o.unclear; i++) if(m.count(i)) o.train(X[i], m[i], c);
          for(int i = 0; i < n && !o.unclear; i++) if(!m.count(i)) { str a = o.answer(X[i]); CHECK(o.c.count(a), "no answer"); o.train(X[i], a, c); }
        }
      } else if(act == 5){
        note("unsupervised " + show(X)); w.trainUnsupervised(X);
        nlj::json j = nlj::json::parse(w.json()); auto maps = clu_maps(j.count("unsupervisedCluster") ? j["unsupervisedCluster"]["discriminators"] : nlj::json());
        for(auto& x: X) if(!o.unclear) { o.un.train(x, maps); if(o.un.unclear) o.unclear = true; }
      } else if(act == 6 && o.c.size()){
        vi x = rand_image(P(50) ? entry + 1 : entry - 1, base); note("wrong size " + show(x));
        CHECK(throws([&]{ w.train(vvi{x}, std::vector<str>{o.c.begin()->first}); }), "trained");
        CHECK(throws([&]{ w.classify(vvi{x}); }), "classified");
        if(o.un.d.size()){ CHECK(throws([&]{ w.trainUnsupervised(vvi{x}); }), "trained"); CHECK(throws([&]{ w.classifyUnsupervised(vvi{x}); }), "classified"); }
      } else {
        for(auto& x: X) if(P(50)) x = rand_image(entry, base);
        note("classify " + show(X));
        auto got = w.classify(X); CHECK(got.size() == X.size(), "number of answers");
        for(size_t i = 0; i < X.size(); i++){ str a = o.answer(X[i]); CHECK(got[i] == a, "answer " << i << " is " << show(got[i]) << " instead of " << show(a)); }
        got = w.classifyUnsupervised(X); CHECK(got.size() == X.size(), "number of answers");
        for(size_t i = 0; i < X.size(); i++){ str a = o.un_answer(X[i]); CHECK(got[i] == a, "unsupervised answer " << i << " is " << show(got[i]) << " instead of " << show(a)); }
      }
      if(o.unclear) break;
      str f = diff(nlj::json::parse(w.json()), o); CHECK(f.empty(), f);
    }
  }
}
