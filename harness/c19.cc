#include "common.h"
// C19: synthesizer. rand() and time() are ours, so that every draw is independent.
static uint64_t rs = 1;
extern "C" int rand(void) noexcept { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (int)(rs >> 20 & 0x7fffffff); }
extern "C" void srand(unsigned) noexcept {}
static long tick = 1000;
extern "C" time_t time(time_t* t) noexcept { tick++; if(t) *t = tick; return tick; }
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    rs = rnd() | 1;
    int n = P(5) ? 0 : R(1, 12), kind = R(0, 9);
    vi img(n); for(int& v: img) v = kind < 5 ? R(0, R(1, 6)) : kind < 7 ? R(-3, 5) : kind == 7 ? R(-5, 0) : kind == 8 ? (P(50) ? 0 : R(1, 3000)) : (P(20) ? INT_MIN : P(20) ? -1 : R(0, 3));
    int m = 0; for(int v: img) m = std::max(m, v);
    note("Synthesizer(" + show(img) + ")");
    Synthesizer s(img);
    int N = m == 0 ? 20 : m <= 8 ? 1500 : 600;
    vi one(n, 0); std::set<vi> seen;
    for(int k = 0; k < N; k++){
      vi p = s.make();
      CHECK((int)p.size() == n, "pattern of size " << p.size());
      for(int i = 0; i < n; i++){ CHECK(p[i] == 0 || p[i] == 1, "pattern " << show(p)); CHECK(!(img[i] <= 0 && p[i]), "a position of value 0 or less is 1: " << show(p)); CHECK(!(m > 0 && img[i] == m && !p[i]), "a position of the largest value is 0: " << show(p)); one[i] += p[i]; }
    }
    if(m > 0) for(int i = 0; i < n; i++){
      double q = std::min(std::max(img[i], 0), m) / (double)m, sd = std::sqrt(q * (1 - q) / N), f = one[i] / (double)N;
      CHECK(std::fabs(f - q) <= 7 * sd + 15.0 / N, "position " << i << " of value " << img[i] << " is 1 in " << one[i] << " of " << N << " patterns, largest value " << m);
    }
  }
}
