// Shared by the harnesses: random cases, reporting, and an independent oracle of the models.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <iostream>
#include <fstream>
#include <cmath>
#include <climits>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <dirent.h>
#include <exception>
#include <tuple>
#include "wisard_tu.h"
using namespace wisardpkg;
namespace nlj = nlohmann;
extern "C" void __sanitizer_set_death_callback(void (*)(void));

typedef std::vector<int> vi;
typedef std::vector<vi> vvi;
typedef std::string str;

static uint64_t rng_s = 88172645463325252ull;
static uint64_t rnd(){ rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return rng_s; }
static int R(int a, int b){ return (int)((long long)a + (long long)(rnd() % (uint64_t)((long long)b - a + 1))); }
static bool P(int pct){ return R(0, 99) < pct; }

template<typename T> static str show(const T& v){ std::ostringstream o; o << v; return o.str(); }
static str esc(const str& s){ str o = "\""; char b[8]; for(unsigned char c: s){ if(c < 32 || c > 126 || c == '"' || c == '\\'){ snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; } return o + "\""; }
static str show(const str& s){ return esc(s); }
static str show(const char* s){ return s; }
template<typename T> static str show(const std::vector<T>& v);
template<typename K, typename V> static str show(const std::map<K,V>& v);
template<typename K, typename V> static str show(const std::unordered_map<K,V>& v){ return show(std::map<K,V>(v.begin(), v.end())); }
template<typename T> static str show(const std::vector<T>& v){ str o = "{"; for(size_t i = 0; i < v.size(); i++){ if(i) o += ","; o += show(v[i]); } return o + "}"; }
template<typename K, typename V> static str show(const std::map<K,V>& v){ str o = "{"; bool f = true; for(auto& p: v){ if(!f) o += ","; f = false; o += show(p.first) + ":" + show(p.second); } return o + "}"; }
static str show(const BinInput& b){ str o = "bits:"; for(size_t i = 0; i < b.size(); i++) o += b.get(i) ? '1' : '0'; return o; }

static str ctx;                // what the current case did so far
static std::ostream& real_out(){ static std::ostream o(std::cout.rdbuf()); return o; }
static void note(const str& s){ ctx += s + "\n"; }
static void report(const char* what){
  str c = ctx;
  if(c.size() > 5000) c = c.substr(0, 2500) + "\n ...\n" + c.substr(c.size() - 2500);
  printf("FAILS: %s\ncase:\n%s\n", what, c.c_str());
  fflush(stdout);
}
static void died(){ report("the program was stopped by the sanitizer (see above)"); }
static void on_alarm(int){ report("the operation does not end (20 s)"); _exit(1); }
static void on_term(){ try { if(std::current_exception()) std::rethrow_exception(std::current_exception()); } catch(const std::exception& e) { note(str("exception: ") + e.what()); } catch(...) {} report("an exception left a function that must not throw"); _exit(1); }
static void on_abrt(int){ report("the program was aborted (see above)"); _exit(1); }
static void on_segv(int){ report("segmentation fault"); _exit(1); }
#define CHECK(c, what) do { if(!(c)){ std::ostringstream o_; o_ << what; report((str(#c) + " is false: " + o_.str()).c_str()); _exit(1); } } while(0)

static double t_end = 0;
static long n_cases = 0;
static std::set<size_t> distinct;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static long max_cases = 0;
static uint64_t base_seed = 1;
static bool next_case(){
  if(n_cases > 0){
    distinct.insert(std::hash<str>()(ctx));
    if(n_cases <= 3){ str s = ctx.substr(0, 400); std::replace(s.begin(), s.end(), '\n', ';'); printf("SAMPLE %s\n", s.c_str()); }
  }
  if(now() > t_end || (max_cases && n_cases >= max_cases)){ printf("CASES %ld %zu\n", n_cases, distinct.size()); fflush(stdout); return false; }
  n_cases++;
  ctx = "";
  rng_s = base_seed * 0x9E3779B97F4A7C15ull + n_cases * 0xD1B54A32D192ED03ull; if(!rng_s) rng_s = 1;
  for(int i = 0; i < 4; i++) rnd();
  alarm(20);
  return true;
}
static std::ofstream null_out;
static void setup(int argc, char** argv){
  base_seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  t_end = now() + (argc > 2 ? atof(argv[2]) : 5);
  max_cases = argc > 3 ? atol(argv[3]) : 0;
  __sanitizer_set_death_callback(died);
  std::set_terminate(on_term);
  signal(SIGALRM, on_alarm);
  signal(SIGABRT, on_abrt);
  std::cout.setstate(std::ios_base::failbit);      // verbose models print
}
// does f throw?
template<typename F> static bool throws(F f){ try { f(); } catch(...) { return true; } return false; }
template<typename F> static str what_of(F f){ try { f(); } catch(const std::exception& e) { return str("throws ") + e.what(); } catch(...) { return "throws"; } return "ok"; }

// ------------------------------------------------------------------ oracle
typedef unsigned __int128 u128;
static bool fits64(int base, int n){ if(base < 2) return true; u128 p = 1; for(int i = 0; i < n; i++){ p *= base; if(p > ((u128)1 << 64)) return false; } return true; }

struct ORam {                  // a RAM as the list of the inputs it was trained with
  vi pos; int base; bool iz;
  std::map<vi,int> content;    // values at the mapped positions -> content
  ORam(const vi& p = vi(), bool z = false, int b = 2): pos(p), base(b), iz(z) {}
  vi key(const vi& x) const { vi k; for(int p: pos) k.push_back(x[p]); return k; }
  bool ok(const vi& x) const { for(int p: pos) if(x[p] < 0 || x[p] >= base) return false; return true; }
  void train(const vi& x){ content[key(x)]++; }
  void untrain(const vi& x){ auto i = content.find(key(x)); if(i != content.end()) i->second--; }
  int vote(const vi& x) const { vi k = key(x); if(iz && std::all_of(k.begin(), k.end(), [](int v){ return v == 0; })) return 0; auto i = content.find(k); return i == content.end() ? 0 : i->second; }
  unsigned long long addr(const vi& k) const { unsigned long long a = 0, p = 1; for(int v: k){ a += v * p; p *= base; } return a; }
  std::map<unsigned long long,int> data() const { std::map<unsigned long long,int> m; for(auto& c: content) m[addr(c.first)] = c.second; return m; }
};
struct ODisc {
  std::vector<ORam> rams; int entry; int count;
  ODisc(): entry(0), count(0) {}
  ODisc(const vvi& mapping, int e, bool iz, int base): entry(e), count(0) { for(auto& m: mapping) rams.push_back(ORam(m, iz, base)); }
  bool ok(const vi& x) const { if((int)x.size() != entry) return false; for(auto& r: rams) if(!r.ok(x)) return false; return true; }
  void train(const vi& x){ count++; for(auto& r: rams) r.train(x); }
  void untrain(const vi& x){ count--; for(auto& r: rams) r.untrain(x); }
  vi votes(const vi& x) const { vi v; for(auto& r: rams) v.push_back(r.vote(x)); return v; }
  vi mental() const { vi m(entry, 0); for(auto& r: rams) for(auto& c: r.content){ bool z = std::all_of(c.first.begin(), c.first.end(), [](int v){ return v == 0; }); if(!z) for(size_t i = 0; i < r.pos.size(); i++) if(c.first[i] > 0) m[r.pos[i]] += c.second; } return m; }
};
// bleaching: degrees at the first threshold that separates the classes
static std::map<str,int> o_degrees(const std::map<str,vi>& votes, int b){ std::map<str,int> d; for(auto& v: votes){ int n = 0; for(int x: v.second) if(x >= b) n++; d[v.first] = n; } return d; }
static std::map<str,int> o_bleach(const std::map<str,vi>& votes, bool on, int conf){
  for(int b = 1;; b++){
    auto d = o_degrees(votes, b);
    if(!on) return d;
    vi v; for(auto& p: d) v.push_back(p.second);
    std::sort(v.rbegin(), v.rend());
    int top = v.empty() ? 0 : v[0];
    bool amb = v.size() >= 2 ? v[0] - v[1] < conf : (v.size() == 1 && 0 >= 1);
    if(v.size() == 1 && conf > 0) amb = false;
    if(!amb || top <= 1) return d;
  }
}
static str o_winner(const std::map<str,int>& d){ str l; int best = 0; for(auto& p: d) if(p.second >= best){ best = p.second; l = p.first; } return l; }
struct OWis { std::map<str,ODisc> d; };
static vi rand_image(int n, int base, int pool = 0){ vi x(n); for(int& v: x) v = R(0, base - 1); return x; }
static vvi rand_mapping(int entry, int maxram, int maxaddr){ vvi m(R(1, maxram)); for(auto& r: m){ r.resize(R(1, maxaddr)); for(int& p: r) p = R(0, entry - 1); } return m; }
static str b64(const str& s){ static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; str o; size_t i = 0; for(; i + 2 < s.size(); i += 3){ unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i+1] << 8 | (unsigned char)s[i+2]; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += A[v & 63]; }
  if(i + 1 == s.size()){ unsigned v = (unsigned char)s[i] << 16; o += A[v >> 18]; o += A[v >> 12 & 63]; o += "=="; } else if(i + 2 == s.size()){ unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i+1] << 8; o += A[v >> 18]; o += A[v >> 12 & 63]; o += A[v >> 6 & 63]; o += "="; } return o; }
static str unb64(const str& t){ str o; int v[256]; for(int& x: v) x = -1; const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for(int i = 0; i < 64; i++) v[(int)A[i]] = i; unsigned a = 0; int n = 0; for(unsigned char c: t){ if(c == '=') break; a = a << 6 | (v[c] & 63); n += 6; if(n >= 8){ n -= 8; o += (char)(a >> n & 255); } } return o; }
static std::map<unsigned long long,int> ram_data(const str& block){ str s = unb64(block); std::map<unsigned long long,int> m; for(size_t i = 0; i + 12 <= s.size(); i += 12){ unsigned long long a; int v; memcpy(&a, &s[i], 8); memcpy(&v, &s[i + 8], 4); m[a] = v; } return m; }
static std::vector<str> split(const str& s, char c){ std::vector<str> o; size_t p = 0; for(;;){ size_t q = s.find(c, p); if(q == str::npos){ o.push_back(s.substr(p)); return o; } o.push_back(s.substr(p, q - p)); p = q + 1; } }
// contents of every ram of a discriminator json against the oracle
static str disc_diff(const nlj::json& j, const ODisc& o, bool zero_is_absent = true){
  if(j["entrySize"].get<int>() != o.entry) return "entrySize";
  if(j["count"].get<int>() != o.count) return "count is " + show(j["count"].get<int>()) + " instead of " + show(o.count);
  vvi m = j["mapping"].get<vvi>();
  if(m.size() != o.rams.size()) return "number of rams";
  auto blocks = split(j["data"].get<str>(), '.');
  for(size_t i = 0; i < m.size(); i++){
    if(m[i] != o.rams[i].pos) return "mapping of ram " + show(i);
    auto a = i < blocks.size() ? ram_data(blocks[i]) : std::map<unsigned long long,int>(); auto b = o.rams[i].data();
    for(auto& p: a) if((b.count(p.first) ? b[p.first] : 0) != p.second) return "contents of ram " + show(i) + ": " + show(a) + " instead of " + show(b);
    for(auto& p: b) if((a.count(p.first) ? a[p.first] : 0) != p.second) return "contents of ram " + show(i) + ": " + show(a) + " instead of " + show(b);
  }
  return "";
}
// ------------------------------------------------------------------ clusters
// 1: the score reaches the limit, 0: it does not, -1: too close to tell (rounding)
static int o_takes(const vi& v, float ms, int count, int th){
  long long top = 0, sum = 0; for(int x: v){ if(x > top) top = x; sum += x; }
  long double n = v.size(), sc = top == 0 ? 0 : (long double)sum / (top * n), li = (long double)ms + (long double)count / th;
  if(li > 1) li = 1;
  if(fabsl(sc - li) > 1e-5L) return sc > li;
  long double a = top == 0 ? 0 : (long double)sum * th, b = ((long double)ms * th + count) * (top == 0 ? th : top * n);
  if(li == 1 && top && sum == (long long)(top * n)) return 1;
  if((th & (th - 1)) == 0 && top && (((long long)(top * n)) & ((long long)(top * n) - 1)) == 0 && ldexpf(ms, 8) == floorf(ldexpf(ms, 8))) return sc >= li;
  if(a == b && (ms == 0 || top == 0)) return top == 0 ? (li == 0 ? 1 : -1) : 1;
  return -1;
}
static long double o_score(const vi& v){ long long top = 0, sum = 0; for(int x: v){ if(x > top) top = x; sum += x; } return top == 0 ? 0 : (long double)sum / ((long double)top * v.size()); }
struct OClu {
  int entry, as; float ms; int th, limit; bool comp, iz; int base; std::vector<ODisc> d; bool unclear;
  OClu(int e = 0, int a = 0, float m = 0, int t = 1, int l = 1, bool c = true, bool z = false, int b = 2): entry(e), as(a), ms(m), th(t), limit(l), comp(c), iz(z), base(b), unclear(false) {}
  bool room() const { return d.empty() || (int)d.size() < limit; }
  // exact replay; maps: the mappings of the discriminators, known afterwards
  void train(const vi& x, const std::vector<vvi>& maps){
    bool any = false; std::vector<int> T;
    for(size_t i = 0; i < d.size(); i++){ int t = o_takes(d[i].votes(x), ms, d[i].count, th); if(t < 0) { unclear = true; return; } if(t) T.push_back(i); }
    if(T.empty() && room()){ if(d.size() >= maps.size()){ unclear = true; return; } d.push_back(ODisc(maps[d.size()], entry, iz, base)); T.push_back(d.size() - 1); }
    if(T.empty()){ int b = 0; for(size_t i = 1; i < d.size(); i++){ long double p = o_score(d[i].votes(x)), q = o_score(d[b].votes(x)); if(p != q && fabsl(p - q) < 1e-5L) { unclear = true; return; } if(p >= q) b = i; } T.push_back(b); }
    for(int i: T) d[i].train(x);
    (void)any;
  }
};
static std::vector<vvi> clu_maps(const nlj::json& ds){ std::vector<vvi> m; if(!ds.is_null()) for(auto& x: ds) m.push_back(x["mapping"].get<vvi>()); return m; }
static str map_diff(const vvi& m, int as, bool comp, int entry){
  if((int)m.size() != entry / as + (comp && entry % as ? 1 : 0)) return "number of rams " + show(m.size());
  std::set<int> s; size_t n = 0; for(auto& r: m){ if((int)r.size() != as) return "size of a ram"; for(int p: r){ if(p < 0 || p >= entry) return "position " + show(p); s.insert(p); n++; } }
  if(comp ? (int)s.size() != entry : s.size() != n) return "positions " + show(m);
  return "";
}
// the discriminators of a cluster json against the oracle
static str clu_diff(const nlj::json& ds, const OClu& o){
  size_t n = ds.is_null() ? 0 : ds.size();
  if(n != o.d.size()) return show(n) + " discriminators instead of " + show(o.d.size());
  for(size_t i = 0; i < n; i++){ str s = disc_diff(ds[i], o.d[i]); if(s.size()) return "discriminator " + show(i) + ": " + s; }
  return "";
}
