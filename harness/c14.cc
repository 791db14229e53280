#include "common.h"
// C14: BinInput against a vector of bits
static void same(const BinInput& b, const vi& o, const char* w){
  CHECK(b.size() == o.size(), w << ": size " << b.size() << " instead of " << o.size());
  for(size_t i = 0; i < o.size(); i++){ CHECK(b.get(i) == o[i], w << ": bit " << i << " is " << b.get(i)); CHECK(b[i] == o[i], w << ": operator[] " << i << " is " << b[i]); }
  for(index_size_t i: {(index_size_t)o.size(), (index_size_t)o.size() + 1, (index_size_t)o.size() + R(0, 100), (index_size_t)-1, (index_size_t)1 << 63, ((index_size_t)1 << 35) + R(0, 10)}){
    CHECK(throws([&]{ b.get(i); }), w << ": get(" << i << ") of size " << o.size() << " does not throw");
    CHECK(throws([&]{ b[i]; }), w << ": operator[] " << i << " of size " << o.size() << " does not throw");
  }
}
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int n = P(20) ? R(0, 9) : P(80) ? R(0, 70) : R(0, 3000);
    vi o(n, 0);
    BinInput* b;
    int how = R(0, 2);
    note("size " + show(n) + (how == 0 ? " BinInput(size)" : how == 1 ? " BinInput(vector)" : " BinInput()"));
    if(how == 0) b = new BinInput((index_size_t)n);
    else if(how == 1){
      std::vector<short> v(n); for(int i = 0; i < n; i++){ v[i] = P(50) ? 0 : P(50) ? 1 : P(50) ? R(-32768, 32767) : P(50) ? 256 : -32768; o[i] = v[i] != 0; }
      note(show(v)); b = new BinInput(v);
    } else { b = new BinInput(); n = 0; o.clear(); }
    same(*b, o, "after construction");
    for(int k = 0; k < R(0, 30); k++){
      index_size_t i = n && P(85) ? R(0, n - 1) : P(50) ? n + R(0, 9) : P(50) ? (index_size_t)-1 - R(0, 8) : rnd();
      int v = P(35) ? 0 : P(40) ? 1 : P(50) ? R(-5, 300) : P(30) ? 256 : P(50) ? INT_MIN : R(INT_MIN, INT_MAX);
      note("set " + show((unsigned long long)i) + " " + show(v));
      bool t = throws([&]{ b->set(i, v); });
      CHECK(t == (i >= (index_size_t)n), "set at " << i << " of size " << n << (t ? " throws" : " does not throw"));
      if(!t) o[i] = v != 0;
      if(P(15)) same(*b, o, "after set");
    }
    same(*b, o, "after the sets");
    str d = b->data(); note("data " + show(d));
    // format: base64 of the number of unused bits and the bytes
    str raw(1, (char)((8 - n % 8) % 8)); for(int i = 0; i < n; i += 8){ int c = 0; for(int j = 0; j < 8; j++) if(i + j < n && o[i + j]) c |= 1 << (7 - j); raw += (char)c; }
    CHECK(d == b64(raw), "data is " << d << " instead of " << b64(raw));
    BinInput c(d); same(c, o, "restored from data");
    CHECK(c.data() == d, "data of the restored one is " << c.data());
    BinInput e(*b); if(n){ e.set(R(0, n - 1), 1); } same(*b, o, "after changing a copy");
    delete b;
    // texts that describe nothing
    str bad; int rem = R(-128, 127); int len = R(0, 4);
    bad = str(1, (char)rem); for(int i = 0; i < len; i++) bad += (char)R(-128, 127);
    note("text of remain " + show(rem) + " and " + show(len) + " bytes");
    bool t = throws([&]{ BinInput x(b64(bad)); x.data(); });
    bool invalid = rem < 0 || rem > 7 || (len == 0 && rem != 0);
    CHECK(t == invalid, (t ? "valid text rejected" : "invalid text accepted"));
    str junk; for(int i = 0; i < R(0, 12); i++) junk += (char)(P(70) ? R(33, 126) : R(-128, 127));
    note("junk " + show(junk));
    throws([&]{ BinInput x(junk); for(index_size_t i = 0; i < x.size(); i++) x.get(i); x.data(); });
    if(junk.size() % 4) CHECK(throws([&]{ BinInput x(junk); }), "text of " << junk.size() << " characters accepted");
  }
}
