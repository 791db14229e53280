// C17: KernelCanvas against an independent computation of the nearest kernels
#include "common.h"
#include <limits>
struct KC: public KernelCanvas {
  KC(int d, int n, nlj::json c): KernelCanvas(d, n, c) {}
  std::vector<std::vector<double>> kern() const { return kernels; }
  int active() const { return numberOfKernelsToActivate; }
};
typedef std::vector<std::vector<double>> vvd;
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    int dim = P(8) ? R(-2, 0) : R(1, 5), n = P(8) ? R(-2, 0) : R(1, P(70) ? 8 : 60), bits = P(8) ? R(-2, 0) : R(1, 5);
    bool dir = P(35), given = P(85);
    float deg = P(8) ? (P(50) ? -0.25f : 1.25f) : P(10) ? (P(50) ? 0.f : 1.f) : R(0, 1000) / 1000.f;
    if(P(2)) deg = std::numeric_limits<float>::quiet_NaN();
    nlj::json o = nlj::json::object();
    bool gb = P(80), gd = given, gu = P(80);
    if(gb) o["bitsByKernel"] = bits; else bits = 3;
    if(gu) o["useDirection"] = dir; else dir = false;
    if(gd) o["activationDegree"] = deg; else deg = 0.07f;
    note("KernelCanvas(" + show(dim) + ", " + show(n) + ", bits " + show(bits) + ", degree " + show(deg) + ", direction " + show(dir) + ")");
    bool bad = dim < 1 || n < 1 || bits < 1 || !(deg >= 0 && deg <= 1);
    if(gd && deg != deg){ bad = true; }
    KC* k = 0;
    try { k = new KC(dim, n, o); } catch(...) {}
    CHECK((k == 0) == bad, (bad ? "bad arguments accepted" : "good arguments rejected"));
    if(!k) continue;
    int act = (int)roundf(deg * n);
    CHECK(k->active() == act, "kernels to activate: " << k->active() << " instead of " << act);
    for(int rep = R(1, 3); rep-- > 0;){
      vvd s(P(5) ? 0 : R(1, 6));
      bool wrong = false; str t;
      for(auto& p: s){ int d = dim; if(P(3)){ d = R(0, dim + 1); } if(d != dim) wrong = true; for(int j = 0; j < d; j++) p.push_back(P(70) ? R(-100, 100) / 16.0 : R(-1, 1)); }
      if(P(10) && s.size() && !wrong) for(auto& p: s) p = s[0];
      if(P(3) && s.size() && s[0].size()) s[0][0] = P(50) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
      for(auto& p: s) t += show(p) + " ";
      note("transform " + t);
      vvd before = k->kern(), s0 = s; vi out; bool th = false;
      try { out = k->transform(s); } catch(...) { th = true; }
      CHECK(th == wrong, (wrong ? "points of the wrong dimension accepted" : "transform throws"));
      CHECK(k->kern() == before, "transform changed the kernels");
      for(size_t i = 0; i < s.size(); i++) CHECK(s[i].size() == s0[i].size() && (s[i].empty() || !memcmp(&s[i][0], &s0[i][0], s[i].size() * sizeof(double))), "transform changed its input");
      if(th) continue;
      CHECK((int)out.size() == n * bits, "size " << out.size());
      int on = 0;
      for(int g = 0; g < n; g++){ CHECK(out[g * bits] == 0 || out[g * bits] == 1, "value " << out[g * bits]); on += out[g * bits]; for(int b = 1; b < bits; b++) CHECK(out[g * bits + b] == out[g * bits], "bits of kernel " << g << " differ: " << show(out)); }
      if(s.empty()) { CHECK(on == 0, "no point, but kernels are active"); continue; }
      CHECK(on >= act && on <= (long long)act * (long long)s.size(), on << " active kernels, " << act << " per point, " << s.size() << " points");
      if(dir) continue;
      int T = s.size(); bool odd = false;
      std::vector<long double> m(dim, 0), sd(dim, 0);
      for(int j = 0; j < dim; j++){ for(auto& p: s) m[j] += p[j]; m[j] /= T; for(auto& p: s) sd[j] += (m[j] - p[j]) * (m[j] - p[j]); sd[j] = sqrtl(sd[j] / T); if(!(sd[j] > 1e-9L)) odd = true; for(auto& p: s) if(!std::isfinite(p[j])) odd = true; }
      if(odd) continue;
      vi must(n, 0), may(n, 0);
      for(auto& p: s){
        std::vector<std::pair<long double,int>> d;
        for(int g = 0; g < n; g++){ long double q = 0; for(int j = 0; j < dim; j++){ long double x = tanhl((m[j] - p[j]) / sd[j]) - before[g][j]; q += x * x; } d.push_back({sqrtl(q), g}); }
        std::sort(d.begin(), d.end());
        for(int i = 0; i < n; i++){
          if(i < act && (act == n || d[i].first < d[act].first - 1e-9L)) must[d[i].second] = 1;
          if(act > 0 && d[i].first <= d[act - 1].first + 1e-9L) may[d[i].second] = 1;
        }
      }
      for(int g = 0; g < n; g++){ CHECK(!(must[g] && !out[g * bits]), "kernel " << g << " is among the nearest, but its bits are 0: " << show(out)); CHECK(!(out[g * bits] && !may[g]), "kernel " << g << " is not among the nearest of any point, but its bits are 1: " << show(out)); }
    }
    delete k;
  }
}
