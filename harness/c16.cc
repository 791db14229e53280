#include "common.h"
// C16: DataSet against lists
struct O { std::vector<vi> x; std::map<int,str> l; };
static void same(const DataSet& d, const O& o, const char* w){
  CHECK(d.size() == o.x.size(), w << ": size " << d.size() << " instead of " << o.x.size());
  for(size_t i = 0; i < o.x.size(); i++){
    const BinInput& b = P(50) ? d.get(i) : d[i];
    CHECK(b.size() == o.x[i].size(), w << ": size of input " << i << " is " << b.size());
    for(size_t j = 0; j < o.x[i].size(); j++) CHECK(b.get(j) == o.x[i][j], w << ": bit " << j << " of input " << i);
    if(o.l.count(i)){ str s; CHECK(!throws([&]{ s = d.getLabel(i); }), w << ": no label at " << i); CHECK(s == o.l.at(i), w << ": label " << i << " is " << show(s) << " instead of " << show(o.l.at(i))); }
    else CHECK(throws([&]{ d.getLabel(i); }), w << ": label of the unlabelled " << i << " is " << show(d.getLabel(i)));
  }
  int n = o.x.size();
  for(int i: {-1, n, n + 1, INT_MIN, INT_MAX, -n - 1}) { CHECK(throws([&]{ d.get(i); }), w << ": get(" << i << ") does not throw"); CHECK(throws([&]{ d[i]; }), w << ": [" << i << "] does not throw"); }
  for(unsigned long long i: {(unsigned long long)n, (unsigned long long)n + 1, ~0ull, 1ull << 32, (1ull << 32) + R(0, n + 1), 1ull << 63}) CHECK(throws([&]{ d.getLabel(i); }), w << ": getLabel(" << i << ") does not throw");
}
static str label(){ int k = R(0, 5); str s; int n = k == 0 ? 0 : P(80) ? R(1, 6) : R(1, 60); for(int i = 0; i < n; i++) s += (char)(k == 1 ? R(-128, 127) : k == 2 ? "#.\n\0/="[R(0, 5)] : R(32, 126)); return s; }
static vi image(){ vi x(P(10) ? 0 : P(80) ? R(1, 20) : R(1, 400)); int p = P(20) ? 0 : P(20) ? 100 : 50; for(int& b: x) b = P(p); return x; }
static void add(DataSet& d, O& o){
  vi x = image(); bool l = P(65); str s = l ? label() : ""; std::vector<short> v(x.begin(), x.end()); for(short& b: v) if(b && P(20)) b = R(2, 9);
  note("add " + show(x) + (l ? " " + show(s) : ""));
  if(P(50)){ BinInput b(v); if(l) d.add(b, s); else d.add(b); } else if(l) d.add(v, s); else d.add(v);
  if(s.size()) o.l[o.x.size()] = s; o.x.push_back(x);
}
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    DataSet d; O o;
    int n = P(20) ? R(0, 1) : P(85) ? R(1, 8) : R(1, 40); for(int i = 0; i < n; i++) add(d, o);
    same(d, o, "after adding");
    str f = "d" + show(R(0, 3)); if(P(40)){ std::ofstream x(f + ".wpkds"); x << (P(50) ? "AAAA#AIA=.AAAA#AIA=" : "junk"); for(int i = R(0, 400); i > 0; i--) x << (char)R(1, 127); }
    d.save(f); same(d, o, "after saving");
    DataSet e(f + ".wpkds"); same(e, o, "loaded from the file");
    O p = o; int m = R(0, 3); for(int i = 0; i < m; i++) add(e, p);
    same(e, p, "loaded and added to"); same(d, o, "after adding to the loaded one");
    if(P(60)){ if(P(50)){ e.save(f); } else { f = "e"; e.save(f); } DataSet g(f + ".wpkds"); same(g, p, "saved again"); }
    DataSet c(d); add(c, o); same(c, o, "a copy");
    str bad = P(50) ? "x" : P(50) ? "wpkds" : "a.wpkd"; CHECK(throws([&]{ DataSet x(bad); }), "file name " << bad << " accepted");
    if(P(20)){ { std::ofstream x("z.wpkds"); for(int i = R(0, 30); i > 0; i--) x << (char)(P(70) ? "AB+/=#."[R(0, 6)] : R(-128, 127)); } throws([&]{ DataSet x("z.wpkds"); for(size_t i = 0; i < x.size(); i++) x.get(i).size(); }); }
    remove("d0.wpkds"); remove("d1.wpkds"); remove("d2.wpkds"); remove("d3.wpkds"); remove("e.wpkds"); remove("z.wpkds");
  }
}
