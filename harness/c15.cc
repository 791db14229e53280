#include "common.h"
// C15: two equal models, one fed with lists, the other with BinInput / DataSet of the same bits
struct XDisc: Discriminator { using Discriminator::Discriminator; };
static BinInput bits(const vi& x){ std::vector<short> v(x.begin(), x.end()); return BinInput(v); }
template<typename F> static str run(F f){ try { return f(); } catch(const std::exception& e) { return str("throws ") + e.what(); } catch(...) { return "throws"; } }
static vi image(int entry){ int n = P(88) ? entry : P(30) ? 0 : P(50) ? entry + R(1, 9) : R(0, entry); vi x(n); int d = P(20) ? 0 : P(20) ? 100 : R(10, 90); for(int& b: x) b = P(d); return x; }
static void discs(){
  int entry = P(70) ? R(2, 20) : R(2, 140); bool iz = P(40);
  vvi m = rand_mapping(entry, 8, P(80) ? 6 : 40);
  note("Discriminator entry " + show(entry) + " ignoreZero " + show(iz) + " mapping " + show(m));
  Discriminator a(m, entry, iz, 2), b(m, entry, iz, 2);
  for(int k = R(1, 25); k-- > 0;){
    vi x = image(entry); BinInput y = bits(x); bool t = P(55);
    note((t ? "train " : "classify ") + show(x));
    str r = run([&]{ if(t){ a.train(x); return str(); } return show(a.classify(x)); });
    str s = run([&]{ if(t){ b.train(y); return str(); } return show(b.classify(y)); });
    CHECK(r == s, "the list gives " << r << ", the BinInput " << s);
    CHECK(y.size() == x.size() && bits(x).data() == y.data(), "the input changed");
    CHECK(a.json() == b.json(), "models differ: " << a.json() << "  BinInput: " << b.json());
  }
}
static void clusters(){
  int entry = R(2, 30), as = R(2, std::min(entry, 6)); bool iz = P(40);
  float ms = P(40) ? 0 : R(0, 100) / 100.0f; int th = R(1, 20), lim = R(1, 4);
  note("Cluster entry " + show(entry) + " addressSize " + show(as) + " minScore " + show(ms) + " threshold " + show(th) + " limit " + show(lim));
  Cluster a(entry, as, ms, th, lim, true, iz, 2), b(entry, as, ms, th, lim, true, iz, 2);
  for(int k = R(1, 15); k-- > 0;){
    vi x = image(entry); BinInput y = bits(x); bool t = P(60); unsigned seed = rnd();
    note((t ? "train " : "classify ") + show(x));
    srand(seed); str r = run([&]{ if(t){ a.train(x); return str(); } return show(a.classify(x)); });
    srand(seed); str s = run([&]{ if(t){ b.train(y); return str(); } return show(b.classify(y)); });
    CHECK(r == s, "the list gives " << r << ", the BinInput " << s);
    str ja = run([&]{ return a.getJson(false, "").dump(); }), jb = run([&]{ return b.getJson(false, "").dump(); });
    CHECK(ja == jb, "models differ: " << ja << "  BinInput: " << jb);
  }
}
static void wisards(){
  int entry = R(2, 30), as = R(2, std::min(entry, 6));
  std::vector<str> names = {"a", "b", "c", "dd", "e::f"};
  nlj::json opt = {{"ignoreZero", P(40)}, {"bleachingActivated", P(70)}, {"completeAddressing", P(60)}, {"confidence", P(80) ? 1 : R(1, 9)}, {"searchBestConfidence", P(20)}, {"verbose", P(10)}};
  std::map<str,vvi> maps; for(auto& n: names) maps[n] = rand_mapping(entry, 6, 6);
  if(P(60)) opt["mapping"] = maps;
  note("Wisard(" + show(as) + ", " + opt.dump() + ") entry " + show(entry));
  Wisard a(as, opt), b(as, opt);
  for(int k = R(1, 8); k-- > 0;){
    vvi X(R(0, 6)); std::vector<str> L; DataSet D; bool t = P(60); unsigned seed = rnd(); bool sh = P(50);
    for(auto& x: X){ x = image(entry); L.push_back(names[R(0, 4)]); std::vector<short> v(x.begin(), x.end()); if(!t && P(40)){ if(sh) D.add(v); else D.add(bits(x)); } else if(sh) D.add(v, L.back()); else D.add(bits(x), L.back()); }
    note((t ? "train " : "classify ") + show(X) + " " + show(L));
    CHECK(D.size() == X.size(), "size of the DataSet is " << D.size());
    srand(seed); str r = run([&]{ if(t){ a.train(X, L); return str(); } return show(a.classify(X)); });
    srand(seed); str s = run([&]{ if(t){ b.train(D); return str(); } return show(b.classify(D)); });
    CHECK(r == s, "the lists give " << r << ", the DataSet " << s);
    CHECK(a.json() == b.json(), "models differ: " << a.json() << "  DataSet: " << b.json());
  }
}
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){ int k = R(0, 3); if(k == 0) clusters(); else if(k == 1) wisards(); else discs(); }
}
