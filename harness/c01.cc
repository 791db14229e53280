#include "common.h"
// C01: addresses exact and injective, bad values rejected, too large RAMs rejected
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int base = P(40) ? 2 : P(70) ? R(2, 20) : P(50) ? R(2, 70000) : R(2, INT_MAX);
    int n = P(30) ? R(1, 70) : R(1, 12);
    if(P(25)){ // right at the limit
      n = 0; while(fits64(base, n + 1)) n++;
      n += R(-1, 1); if(n < 1) n = 1;
    }
    int entry = n + R(0, 3);
    vi pos; for(int i = 0; i < n; i++) pos.push_back(P(85) ? i : R(0, entry - 1));
    bool iz = P(20);
    bool disc = P(50);
    note("base " + show(base) + " positions " + show(pos) + " entry " + show(entry) + " ignoreZero " + show(iz) + (disc ? " through Discriminator" : " RAM"));
    bool fits = fits64(base, n);
    RAM* r = 0; Discriminator* d = 0;
    bool thrown = throws([&]{ if(disc) d = new Discriminator(vvi{pos}, entry, iz, base); else r = new RAM(pos, iz, base); });
    CHECK(thrown == !fits, "construction " << (thrown ? "throws" : "does not throw") << " but base^positions " << (fits ? "fits" : "exceeds 2^64"));
    if(thrown) continue;
    ORam o(pos, iz, base);
    auto val = [&]() -> int { return P(60) ? R(0, std::min(base - 1, 3)) : P(60) ? base - 1 - R(0, std::min(base - 1, 2)) : R(0, base - 1); };
    std::vector<vi> pool;
    for(int i = 0; i < R(1, 10); i++){
      vi x(entry); for(int& v: x) v = val();
      pool.push_back(x);
      for(int k = 0; k < R(0, 3); k++){ vi y = x; y[R(0, entry - 1)] = val(); pool.push_back(y); }
    }
    for(int s = 0; s < R(5, 40); s++){
      vi x = pool[R(0, pool.size() - 1)];
      bool bad = P(15);
      if(bad){ int p = R(0, entry - 1); x[p] = P(40) ? base : P(50) ? -1 - R(0, 5) : P(50) ? INT_MIN : (base < INT_MAX - 5 ? base + R(0, 5) : -7); if(x[p] >= 0 && x[p] < base) x[p] = -1; }
      int op = R(0, 3);
      bool binary = base == 2 && !bad && P(50);
      note(str(op == 0 ? "train " : op == 1 ? "untrain " : "vote ") + show(x) + (binary ? " as BinInput" : ""));
      bool ok = o.ok(x);
      int got = -1;
      bool t = throws([&]{
        if(binary){ BinInput b((index_size_t)entry); for(int i = 0; i < entry; i++) b.set(i, x[i]);
          if(op == 0) { if(r) r->train(b); else d->train(b); } else if(op == 1) { if(r) r->untrain(x); else d->untrain(x); } else got = r ? r->getVote(b) : d->classify(b)[0]; }
        else { if(op == 0) { if(r) r->train(x); else d->train(x); } else if(op == 1) { if(r) r->untrain(x); else d->untrain(x); } else got = r ? r->getVote(x) : d->classify(x)[0]; }
      });
      CHECK(t == !ok, (t ? "throws for a valid input" : "a value outside of the base is accepted"));
      if(!ok) continue;
      if(op == 0) o.train(x); else if(op == 1) o.untrain(x); else CHECK(got == o.vote(x), "vote " << got << " instead of " << o.vote(x));
    }
    if(r){ auto a = ram_data(r->getData()); auto b = o.data(); CHECK(a == b, "contents " << show(a) << " instead of " << show(b)); }
    delete r; delete d;
  }
}
