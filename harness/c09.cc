#include "common.h"
// C09: RAMDataHandle against maps
typedef std::map<unsigned long long,int> omap;
typedef std::map<int,omap> oset;
static unsigned long long raddr(){ int k = R(0, 9); return k < 3 ? R(0, 20) : k < 5 ? rnd() : k < 6 ? (unsigned long long)-1 - R(0, 3) : k < 7 ? (1ull << R(0, 63)) : k < 8 ? 0x7fffffffull + R(0, 2) : rnd() >> R(0, 63); }
static int rval(){ int k = R(0, 9); return k < 4 ? R(1, 9) : k < 5 ? 0 : k < 6 ? R(-9, -1) : k < 7 ? INT_MIN : k < 8 ? INT_MAX : (int)rnd(); }
static str otext(const omap& m){ str s; for(auto& p: m){ char b[12]; memcpy(b, &p.first, 8); memcpy(b + 8, &p.second, 4); s.append(b, 12); } return b64(s); }
static str show(const oset& s){ str o; for(auto& p: s) o += show(p.first) + ":" + show(p.second) + " "; return o; }
static omap mapof(const ram_t& r){ return omap(r.begin(), r.end()); }
static void same(RAMDataHandle& h, const oset& o, const char* w){
  for(int r = -1; r < (o.empty() ? 1 : o.rbegin()->first + 3); r++){
    omap m = mapof(h.get(r)), e = o.count(r) ? o.at(r) : omap();
    CHECK(m == e, w << ": RAM " << r << " is " << show(m) << " instead of " << show(e));
    for(int k = 0; k < 4; k++){ int a = R(-3, 20); unsigned long long u = (unsigned long long)(long long)a; int v = e.count(u) ? e[u] : 0; CHECK(h.get(r, a) == v, w << ": get(" << r << "," << a << ") is " << h.get(r, a)); }
    for(auto& p: e) if((unsigned long long)(long long)(int)p.first == p.first) CHECK(h.get(r, (int)p.first) == p.second, w << ": get(" << r << "," << (int)p.first << ") is " << h.get(r, (int)p.first));
  }
  for(int r: {INT_MIN, INT_MAX, 1 << 20}) if(!o.count(r)) CHECK(h.get(r, 0) == 0 && h.get(r).empty(), w << ": RAM " << r);
}
static oset norm(const oset& o){ oset n; int k = 0; for(auto& p: o) n[k++] = p.second; return n; }
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int n = P(30) ? 1 : P(80) ? R(1, 6) : R(1, 30);
    oset o; str t;
    for(int r = 0; r < n; r++){ int c = P(25) ? 0 : P(70) ? R(1, 5) : R(1, 60); for(int i = 0; i < c; i++) o[r][raddr()] = rval(); o[r]; if(r) t += "."; t += otext(o[r]); }
    note("contents " + show(o)); note("text " + show(t));
    RAMDataHandle h(t); same(h, o, "read from the text");
    str d = h.data(); note("data " + show(d));
    RAMDataHandle g(d); same(g, o, "read back from data()"); same(h, o, "after data()");
    CHECK(h.compare(g) && g.compare(h), "the set is not equal to the one read from its data");
    auto parts = split(d, '.'); CHECK(parts.size() == (size_t)n, "data() has " << parts.size() << " parts");
    for(int r = 0; r < n; r++){ CHECK(ram_data(parts[r]) == o[r], "part " << r << " of data()"); str x = h.data(r); CHECK(ram_data(x) == o[r], "data(" << r << ") is " << x); CHECK(x.size() == otext(o[r]).size(), "length of data(" << r << ")"); }
    CHECK(throws([&]{ h.data(-1 - R(0, 5)); }), "data of a negative RAM"); 
    { RAMDataHandle one(h.get(n - 1)); oset q; q[0] = o[n - 1]; same(one, q, "from one RAM"); }
    // files
    if(P(30)){ str f = "p" + show(R(0, 3)); if(P(50)){ std::ofstream x(f + ".wdpkg"); x << "AAAA.junk"; } h.save(f); RAMDataHandle k(f + ".wdpkg"); same(k, o, "read from the file"); CHECK(k.compare(h), "read from the file: not equal"); same(h, o, "after save()"); remove((f + ".wdpkg").c_str()); }
    // changes: one at a time
    oset og = o; int steps = R(1, 8);
    for(int s = 0; s < steps; s++){
      int r = P(85) ? R(0, n - 1) : P(50) ? n : -R(1, 9); int a = !o.count(r) || o[r].empty() || P(40) ? (P(50) ? R(-2, 20) : (int)rnd()) : (int)(std::next(o[r].begin(), R(0, o[r].size() - 1))->first); int v = rval();
      note("set(" + show(r) + "," + show(a) + "," + show(v) + ")");
      bool t = throws([&]{ g.set(r, a, v); }); CHECK(t == (r < 0), "set of RAM " << r << (t ? " throws" : " does not throw"));
      if(!t){ og[r][(unsigned long long)(long long)a] = v; if(r == n) n++; }
      same(g, og, "after set"); same(h, o, "other set after set");
      bool eq = og == o; CHECK(h.compare(g) == eq, "compare says " << h.compare(g)); CHECK(g.compare(h) == eq, "compare the other way says " << g.compare(h));
    }
    RAMDataHandle k(g.data()); same(k, og, "read back after the changes"); CHECK(k.compare(g), "read back after the changes: not equal");
    // texts that are no data
    str bad = P(50) ? t.substr(0, R(0, t.size())) : t; if(bad.size()) bad[R(0, bad.size() - 1)] = (char)R(1, 127);
    note("text " + show(bad)); throws([&]{ RAMDataHandle x(bad); for(int r = 0; r < 4; r++) x.get(r); x.data(); });
  }
}
