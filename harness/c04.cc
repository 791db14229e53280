#include "common.h"
// C04: mappings
static vvi mapping_of(Discriminator& d){ return nlj::json::parse(d.json())["mapping"].get<vvi>(); }
static void common(Discriminator& d, int entry){
  CHECK(d.getNumberOfTrainings() == 0, "a new discriminator has trainings");
  nlj::json j = nlj::json::parse(d.json());
  CHECK(j["entrySize"] == entry, "entry size");
  vvi m = j["mapping"].get<vvi>();
  CHECK(d.getNumberOfRAMS() == (int)m.size(), "number of rams");
  for(auto& r: m) for(int p: r) CHECK(p >= 0 && p < entry, "position " << p << " outside of the entry");
  vi z(entry, 0); CHECK(d.classify(z) == vi(m.size(), 0), "votes of a new discriminator");
}
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int entry = P(10) ? R(-3, 3) : P(80) ? R(2, 40) : R(2, 400), as = P(15) ? R(-2, entry + 2) : R(2, P(50) ? 6 : 20), base = P(10) ? R(-2, 2) : P(60) ? 2 : R(2, 12);
    bool iz = P(50), comp = P(50);
    int how = R(0, 2);
    if(how == 0){
      bool json = P(50);
      note("Discriminator(" + show(as) + "," + show(entry) + ") complete " + show(comp) + " base " + show(base) + (json ? " by json" : ""));
      bool bad = as < 2 || entry < 2 || as > entry || base < 2 || !fits64(base, as);
      Discriminator* d = 0;
      bool t = throws([&]{ nlj::json c = {{"ignoreZero", iz}, {"completeAddressing", comp}, {"base", base}}; d = json ? new Discriminator(as, entry, c) : new Discriminator(as, entry, iz, comp, base); });
      CHECK(t == bad, (bad ? "is accepted" : "is rejected"));
      if(!bad){
        common(*d, entry);
        vvi m = mapping_of(*d);
        CHECK((int)m.size() == entry / as + (comp && entry % as ? 1 : 0), "number of rams " << m.size());
        std::map<int,int> n; size_t tot = 0;
        for(auto& r: m){ CHECK((int)r.size() == as, "ram of " << r.size() << " positions"); for(int p: r) n[p]++; tot += r.size(); }
        if(comp){ CHECK((int)n.size() == entry, "only " << n.size() << " of " << entry << " positions are mapped: " << show(m)); CHECK((int)tot - (int)n.size() == (entry % as ? as - entry % as : 0), "positions repeated"); }
        else for(auto& p: n) CHECK(p.second == 1, "position " << p.first << " is used " << p.second << " times");
        delete d;
      }
    } else if(how == 1){
      vi ix; for(int i = 0; i < entry; i++) ix.push_back(i);
      for(int i = entry - 1; i > 0; i--) std::swap(ix[i], ix[R(0, i)]);
      if(P(30) && entry > 0){ int k = R(0, 4); if(k == 0) ix[R(0, entry-1)] = ix[R(0, entry-1)]; if(k == 1) ix[R(0, entry-1)] = P(50) ? -1 : entry; if(k == 2) ix.push_back(R(0, entry)); if(k == 3) ix.pop_back(); if(k == 4) ix[R(0, entry - 1)] = R(INT_MIN, INT_MAX); }
      note("indexes " + show(ix) + " addressSize " + show(as) + " entry " + show(entry) + " base " + show(base));
      std::set<int> s(ix.begin(), ix.end());
      bool perm = (int)ix.size() == entry && (int)s.size() == entry && (entry == 0 || (*s.begin() >= 0 && *s.rbegin() < entry));
      bool bad = !perm || as < 2 || entry < 2 || as > entry || base < 2 || !fits64(base, as);
      bool json = P(50) && ix.size();
      Discriminator* d = 0;
      bool t = throws([&]{ nlj::json c = {{"ignoreZero", iz}, {"base", base}, {"indexes", ix}}; d = json ? new Discriminator(as, entry, c) : new Discriminator(ix, as, entry, iz, base); });
      CHECK(t == bad, (bad ? "is accepted" : "is rejected"));
      if(!bad){
        common(*d, entry);
        vvi m = mapping_of(*d);
        CHECK((int)m.size() == entry / as, "number of rams " << m.size());
        for(size_t i = 0; i < m.size(); i++) CHECK(m[i] == vi(ix.begin() + i * as, ix.begin() + (i + 1) * as), "ram " << i << " has " << show(m[i]));
        delete d;
      }
    } else {
      vvi m(R(0, 5)); for(auto& r: m){ r.resize(R(0, 6)); for(int& p: r) p = P(97) && entry > 0 ? R(0, entry - 1) : P(50) ? entry : P(50) ? -1 : R(INT_MIN, INT_MAX); }
      note("mapping " + show(m) + " entry " + show(entry) + " base " + show(base));
      bool bad = base < 2;
      for(auto& r: m){ if(!fits64(base, r.size())) bad = true; for(int p: r) if(p < 0 || p >= entry) bad = true; }
      if(entry < 0) continue;
      bool json = P(50) && m.size();
      Discriminator* d = 0;
      bool t = throws([&]{ nlj::json c = {{"ignoreZero", iz}, {"base", base}, {"mapping", m}}; d = json ? new Discriminator(as, entry, c) : new Discriminator(m, entry, iz, base); });
      CHECK(t == bad, (bad ? "is accepted" : "is rejected"));
      if(!bad){ common(*d, entry); CHECK(mapping_of(*d) == m, "mapping is " << show(mapping_of(*d))); delete d; }
    }
  }
}
