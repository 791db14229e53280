#include "common.h"
// C18: mental images
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int entry = R(2, 9), base = P(60) ? 2 : P(70) ? R(3, 5) : R(6, 40);
    bool iz = P(30);
    vvi m = rand_mapping(entry, 5, base > 5 ? 12 : 6); for(auto& r: m) while(!fits64(base, r.size())) r.pop_back();
    if(P(10)) m.clear();
    note("Discriminator(" + show(m) + ", " + show(entry) + ", {ignoreZero " + show(iz) + ", base " + show(base) + "})");
    Discriminator d(m, entry, iz, base); ODisc o(m, entry, iz, base);
    std::vector<vi> pool; int np = R(1, 5); for(int i = 0; i < np; i++){ vi x = rand_image(entry, base); if(P(20)) std::fill(x.begin(), x.end(), P(50) ? 0 : base - 1); pool.push_back(x); }
    int k = R(0, 12);
    for(int i = 0; i < k; i++){ vi x = pool[R(0, np - 1)]; if(P(15)){ note("untrain " + show(x)); d.untrain(x); o.untrain(x); } else { note("train " + show(x)); d.train(x); o.train(x); } 
      if(P(30)){ vi g = d.getMentalImage(); CHECK(g == o.mental(), show(g) << " instead of " << show(o.mental())); } }
    vi g = d.getMentalImage(); CHECK(g == o.mental(), show(g) << " instead of " << show(o.mental()));
    str f = disc_diff(nlj::json::parse(d.json()), o); CHECK(f.empty(), "the model changed: " << f);
    if(P(50)){
      int as = R(2, std::min(entry, 4)); std::vector<str> names{"b", "a", "", "a::0", "z"};
      Wisard w(as, {{"base", base}, {"ignoreZero", iz}}); note("Wisard(" + show(as) + ")");
      float ms = R(0, 8) / 8.0f; ClusWisard cw(as, ms, R(1, 20), R(1, 4), {{"base", base}, {"ignoreZero", iz}});
      vvi X; std::vector<str> y; int n = R(0, 8); for(int i = 0; i < n; i++){ X.push_back(pool[R(0, np - 1)]); y.push_back(names[R(0, 3)]); }
      note("train " + show(X) + show(y));
      if(!fits64(base, as)) continue;
      w.train(X, y); cw.train(X, y);
      str before = w.json(), cbefore = cw.json();
      auto got = w.getMentalImages(); nlj::json j = nlj::json::parse(before)["classes"];
      CHECK(got.size() == (j.is_null() ? 0 : j.size()), "number of classes");
      std::map<str,ODisc> od;
      for(int i = 0; i < n; i++){ if(!od.count(y[i])) od[y[i]] = ODisc(j[y[i]]["mapping"].get<vvi>(), entry, iz, base); od[y[i]].train(X[i]); }
      for(auto& p: od){ CHECK(got.count(p.first) && got[p.first] == p.second.mental(), "class " << show(p.first) << ": " << show(got[p.first]) << " instead of " << show(p.second.mental())); }
      auto cg = cw.getMentalImages(); nlj::json cj = nlj::json::parse(cbefore); cj = cj.count("clusters") ? cj["clusters"] : nlj::json();
      CHECK(cg.size() == (cj.is_null() ? 0 : cj.size()), "number of classes");
      if(!cj.is_null()) for(auto it = cj.begin(); it != cj.end(); ++it){
        str l = it.key(); nlj::json ds = it.value()["discriminators"];
        CHECK(cg.count(l), "no images of class " << show(l)); CHECK(cg[l].size() == ds.size(), "number of images of class " << show(l)); CHECK(cw.getMentalImage(l) == cg[l], "getMentalImage of " << show(l) << " differs");
        for(size_t i = 0; i < ds.size(); i++){
          vvi mp = ds[i]["mapping"].get<vvi>(); vi want(entry, 0); auto bl = split(ds[i]["data"].get<str>(), '.');
          for(size_t r = 0; r < mp.size(); r++) for(auto& p: r < bl.size() ? ram_data(bl[r]) : std::map<unsigned long long,int>()){ unsigned long long a = p.first; if(a) for(size_t q = 0; q < mp[r].size(); q++){ if(a % base) want[mp[r][q]] += p.second; a /= base; } }
          CHECK(cg[l][i] == want, "class " << show(l) << " discriminator " << i << ": " << show(cg[l][i]) << " instead of " << show(want));
        }
      }
      CHECK(cw.getMentalImage("unknown").empty(), "images of an unknown class");
      CHECK(w.json() == before && cw.json() == cbefore, "the model changed");
    }
  }
}
