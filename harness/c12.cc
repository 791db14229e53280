#include "common.h"
// C12: growth policy of a cluster
static nlj::json discs(Cluster& c){ return c.getJson(false, "")["discriminators"]; }
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int entry = R(2, 10), as = R(2, std::min(entry, 4)); bool comp = P(60), iz = P(30); int base = P(75) ? 2 : R(3, 4);
    float ms = P(30) ? 0 : P(30) ? R(0, 16) / 16.0f : R(0, 1000) / 1000.0f; int th = P(50) ? 1 << R(0, 5) : R(1, 60); int lim = R(1, 5);
    if(P(3)) { th = R(1, INT_MAX); }
    note("Cluster(" + show(entry) + ", " + show(as) + ", " + show(ms) + ", " + show(th) + ", " + show(lim) + ", " + show(comp) + ", " + show(iz) + ", " + show(base) + ")");
    Cluster c(entry, as, ms, th, lim, comp, iz, base);
    OClu o(entry, as, ms, th, lim, comp, iz, base);
    std::vector<vi> pool; int np = R(1, 6); for(int i = 0; i < np; i++){ vi x = rand_image(entry, base); if(P(15)) std::fill(x.begin(), x.end(), 0); if(P(40) && pool.size()){ x = pool[R(0, (int)pool.size() - 1)]; x[R(0, entry - 1)] = R(0, base - 1); } pool.push_back(x); }
    if(P(20)){ vi v(R(1, 6)); for(int& x: v) x = P(30) ? 0 : P(60) ? R(0, 5) : R(0, INT_MAX); note("score of " + show(v)); float g = c.getScore(v); CHECK(fabsl(g - o_score(v)) < 1e-5L, g << " instead of " << (double)o_score(v)); }
    int steps = R(1, 40);
    for(int s = 0; s < steps; s++){
      vi x = pool[R(0, np - 1)];
      if(P(6) && o.d.size()){       // a wrong size changes nothing
        x.resize(P(50) ? entry + 1 : entry - 1); note("wrong size " + show(x));
        CHECK(throws([&]{ c.train(x); }), "accepted");
        CHECK(throws([&]{ c.classify(x); }), "accepted");
      } else if(P(20)){
        note("classify " + show(x));
        vvi v = c.classify(x); CHECK(v.size() == o.d.size(), "number of lists " << v.size());
        for(size_t i = 0; i < v.size(); i++) CHECK(v[i] == o.d[i].votes(x), "votes of " << i << ": " << show(v[i]) << " instead of " << show(o.d[i].votes(x)));
        if(base == 2) CHECK(c.classify(BinInput(std::vector<short>(x.begin(), x.end()))) == v, "other votes for the BinInput");
      } else {
        bool bin = base == 2 && P(30);
        note((bin ? "train BinInput " : "train ") + show(x));
        if(bin) c.train(BinInput(std::vector<short>(x.begin(), x.end()))); else c.train(x);
        nlj::json j = discs(c);
        // what happened: which counts went up
        size_t n0 = o.d.size(), n1 = j.is_null() ? 0 : j.size();
        CHECK(n1 >= n0 && n1 <= n0 + 1, n1 << " discriminators after " << n0);
        CHECK((int)n1 <= std::max(lim, 1), n1 << " discriminators");
        std::vector<int> must, may, got; std::vector<long double> sc;
        for(size_t i = 0; i < n0; i++){ vi v = o.d[i].votes(x); int t = o_takes(v, ms, o.d[i].count, th); sc.push_back(o_score(v)); if(t == 1) must.push_back(i); if(t) may.push_back(i); if(j[i]["count"].get<int>() != o.d[i].count) got.push_back(i); }
        auto desc = [&]{ str r = "scores"; for(size_t i = 0; i < n0; i++) r += " " + show((double)sc[i]) + " (limit " + show(std::min(1.0, (double)ms + (double)o.d[i].count / th)) + ")"; return r + ", trained: " + show(got) + ", " + show(n0) + " -> " + show(n1) + " discriminators"; };
        for(int i: must) CHECK(std::count(got.begin(), got.end(), i), "discriminator " << i << " reaches its limit and is not trained: " << desc());
        if(n1 > n0){ CHECK(got.empty() && must.empty() && o.room(), "a new discriminator was added: " << desc()); }
        else if(must.empty()){
          bool allmay = !got.empty(); for(int i: got) if(!std::count(may.begin(), may.end(), i)) allmay = false;
          if(!allmay){
            CHECK(!o.room(), "no discriminator was added: " << desc());
            CHECK(got.size() == 1, "not one discriminator is trained: " << desc());
            for(auto q: sc) CHECK(q <= sc[got[0]] + 1e-5L, "not the best one is trained: " << desc());
          }
        } else for(int i: got) CHECK(std::count(may.begin(), may.end(), i), "discriminator " << i << " does not reach its limit and is trained: " << desc());
        for(int i: got) o.d[i].train(x);
        if(n1 > n0){ vvi m = j[n0]["mapping"].get<vvi>(); str f = map_diff(m, as, comp, entry); CHECK(f.empty(), "new discriminator: " << f); o.d.push_back(ODisc(m, entry, iz, base)); o.d.back().train(x); }
      }
      str f = clu_diff(discs(c), o); CHECK(f.empty(), f);
      CHECK(c.getNumberOfDiscriminators() == o.d.size() && c.getSize() == (int)o.d.size(), "number of discriminators");
    }
  }
}
