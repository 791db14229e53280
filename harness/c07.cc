#include "common.h"
// C07: the winner and the confidence
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    std::map<str,int> d; int n = P(10) ? 0 : R(1, 7), mx = P(50) ? R(0, 4) : P(80) ? R(5, 60) : P(50) ? R(1000, 40000000) : INT_MAX;
    for(int i = 0; i < n; i++){ str k; int l = R(0, 3); for(int j = 0; j < l; j++) k += (char)(P(70) ? 'a' + R(0, 3) : R(0, 255)); d[k] = P(20) ? mx - R(0, std::min(mx, 2)) : R(0, mx); }
    note("degrees " + show(d));
    auto e = d; str w = Bleaching::getBiggestCandidate(e);
    CHECK(e == d, "the degrees changed");
    int top = 0; str want; for(auto& p: d) if(p.second >= top){ top = p.second; want = p.first; }
    CHECK(w == want, "the winner is " << show(w) << " instead of " << show(want));
    vi vals{0}; for(auto& p: d) vals.push_back(p.second);
    for(int b: vals){
      float c = Bleaching::getConfidence(e, b);
      CHECK(e == d, "the degrees changed");
      int s = 0; for(auto& p: d) if(p.second < b && p.second > s) s = p.second;
      float x = b == 0 ? 0 : ((float)b - (float)s) / (float)b;
      CHECK(c >= 0 && c <= 1, "the confidence of " << b << " is " << c);
      CHECK(c == x || fabs(c - x) < 1e-6 , "the confidence of " << b << " is " << c << " instead of " << x);
      if(b && !s) CHECK(c == 1, "the confidence of " << b << " alone is " << c);
    }
  }
}
