#include "common.h"
// C06: bleaching, by itself and in Wisard, ClusWisard
static std::map<str,vi> rand_votes(){
  std::map<str,vi> v; int nc = P(10) ? R(0, 1) : R(2, 6), nr = P(10) ? R(0, 1) : R(1, 12), mx = P(40) ? R(0, 3) : P(80) ? R(2, 12) : R(10, 400);
  vi proto(nr); for(int& x: proto) x = R(0, mx);
  for(int c = 0; c < nc; c++){ vi w = proto; int ch = P(50) ? R(0, 2) : nr; for(int k = 0; k < ch && nr; k++) w[R(0, nr - 1)] = R(0, mx); if(P(30)) std::random_shuffle(w.begin(), w.end()); if(P(3)) w.resize(R(0, nr + 2), 1);
    str n; int l = R(0, 3); for(int k = 0; k < l; k++) n += (char)(P(70) ? 'a' + R(0, 3) : R(0, 255)); v[n] = w; }
  return v;
}
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    if(P(70)){
      auto v = rand_votes(); bool on = P(85); int conf = P(50) ? 1 : P(90) ? R(1, 8) : R(-2, 100); bool best = P(20);
      note("votes " + show(v) + " bleaching " + show(on) + " confidence " + show(conf));
      auto want = o_bleach(v, on, conf); auto w = v;
      auto got = Bleaching::make(w, on, best, conf);
      CHECK(got == want, "degrees are " << show(got) << " instead of " << show(want));
      CHECK(w == v, "the votes changed");
      if(conf >= 1 && v.size() > 1){      // names and order do not matter
        std::map<str,vi> u; std::map<str,str> nm; std::vector<str> names; for(auto& p: v) names.push_back("k" + show(R(0, 1000)) + "_" + p.first);
        for(size_t i = names.size(); i-- > 1;) std::swap(names[i], names[R(0, i)]);
        size_t i = 0; for(auto& p: v){ nm[p.first] = names[i]; u[names[i++]] = p.second; }
        auto g2 = Bleaching::make(u, on, best, conf);
        for(auto& p: got) CHECK(g2[nm[p.first]] == p.second, "the degree of " << show(p.first) << " depends on the names: " << show(g2));
      }
    } else {
      int entry = R(4, 10), nc = R(1, 4), base = P(70) ? 2 : 3; bool on = P(85), iz = P(30); vvi m = rand_mapping(entry, 6, 3);
      int conf = P(60) ? 1 : R(1, m.size());
      std::map<str,vvi> mm; std::map<str,ODisc> o; std::vector<str> names;
      for(int c = 0; c < nc; c++){ str n = "c" + show(R(0, 9)); mm[n] = m; o[n] = ODisc(m, entry, iz, base); names.push_back(n); }
      note("Wisard mapping " + show(mm) + " bleaching " + show(on) + " confidence " + show(conf) + " ignoreZero " + show(iz) + " base " + show(base));
      Wisard w(2, {{"mapping", mm}, {"bleachingActivated", on}, {"confidence", conf}, {"ignoreZero", iz}, {"base", base}, {"searchBestConfidence", P(20)}});
      vvi pool; for(int i = 0; i < 4; i++) pool.push_back(rand_image(entry, base));
      vvi X; std::vector<str> y; int n = R(1, 25); for(int i = 0; i < n; i++){ vi x = pool[R(0, 3)]; if(P(40)) x[R(0, entry - 1)] = R(0, base - 1); X.push_back(x); y.push_back(names[R(0, nc - 1)]); }
      note("train " + show(X) + " " + show(y));
      std::map<str,ODisc> oo; for(int i = 0; i < n; i++){ if(!oo.count(y[i])) oo[y[i]] = o[y[i]]; oo[y[i]].train(X[i]); }
      if((int)conf > (entry + 1) / 2){ CHECK(throws([&]{ w.train(X, y); }), "confidence above the number of rams"); continue; }
      w.train(X, y);
      for(int t = 0; t < 5; t++){
        vi x = P(60) ? pool[R(0, 3)] : rand_image(entry, base);
        std::map<str,vi> votes; for(auto& p: oo) votes[p.first] = p.second.votes(x);
        str want = o_winner(o_bleach(votes, on, conf)), got = w.classify(vvi{x})[0];
        CHECK(got == want, "classify " << show(x) << " gives " << show(got) << " instead of " << show(want) << " for votes " << show(votes));
      }
    }
  }
}
