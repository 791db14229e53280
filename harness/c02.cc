#include "common.h"
// C02: votes are the numbers of trainings that agree; classification changes nothing
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int base = P(60) ? 2 : R(2, 9);
    int entry = R(2, 24);
    bool iz = P(35);
    vvi m = rand_mapping(entry, 6, P(20) ? 20 : 5);
    note("mapping " + show(m) + " entry " + show(entry) + " base " + show(base) + " ignoreZero " + show(iz));
    Discriminator d(m, entry, iz, base);
    ODisc o(m, entry, iz, base);
    vvi h;
    std::vector<vi> pool; for(int i = 0; i < R(1, 6); i++){ vi x = rand_image(entry, P(50) ? 2 : base); if(P(25)) std::fill(x.begin(), x.end(), 0); pool.push_back(x); if(P(50)){ x[R(0, entry-1)] = R(0, base-1); pool.push_back(x); } }
    for(int s = 0; s < R(3, 60); s++){
      vi x = pool[R(0, pool.size() - 1)];
      if(P(15)) x[R(0, entry-1)] = R(0, base-1);
      bool bin = base == 2 && P(50);
      BinInput b((index_size_t)entry); if(bin) for(int i = 0; i < entry; i++) b.set(i, x[i]);
      if(P(50)){
        note("train " + show(x) + (bin ? " (BinInput)" : ""));
        if(bin) d.train(b); else if(P(20)){ vvi l(R(0, 3), x); d.train(l); for(size_t i = 0; i < l.size(); i++){ o.train(x); h.push_back(x); } CHECK(d.getNumberOfTrainings() == (int)h.size(), "number of trainings"); continue; } else d.train(x);
        o.train(x); h.push_back(x);
      } else {
        note("classify " + show(x));
        str before = d.json();
        vi v = bin ? d.classify(b) : d.classify(x);
        CHECK(v.size() == m.size(), "one vote per ram");
        for(size_t r = 0; r < m.size(); r++){
          int n = 0; bool zero = true;
          for(int p: m[r]) if(x[p] != 0) zero = false;
          if(!(iz && zero)) for(auto& y: h){ bool same = true; for(int p: m[r]) if(x[p] != y[p]) same = false; n += same; }
          CHECK(v[r] == n, "vote of ram " << r << " is " << v[r] << ", but " << n << " trainings agree");
        }
        CHECK(d.json() == before, "classifying changed the model");
      }
      CHECK(d.getNumberOfTrainings() == (int)h.size(), "number of trainings " << d.getNumberOfTrainings() << " instead of " << h.size());
      CHECK(d.getNumberOfRAMS() == (int)m.size(), "number of rams");
    }
    // a single ram without content address: many trainings
    if(P(5)){ RAM r(m[0], iz, base); vi x = pool[0]; int n = R(100, 3000); for(int i = 0; i < n; i++) r.train(x); bool z = true; for(int p: m[0]) if(x[p]) z = false; note("trained " + show(n) + " times"); CHECK(r.getVote(x) == (iz && z ? 0 : n), "vote"); }
  }
}
