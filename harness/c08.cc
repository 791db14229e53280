#include "common.h"
// C08: base64
int main(int argc, char** argv){
  setup(argc, argv);
  int sys = 0;
  while(next_case()){
    if(sys < 66000){ // every text of up to two bytes
      for(int k = 0; k < 200; k++, sys++){
        str s = sys == 0 ? str() : sys <= 256 ? str(1, (char)(sys - 1)) : sys - 257 < 65536 ? str(1, (char)((sys - 257) >> 8)) + str(1, (char)(sys - 257)) : str();
        ctx = "text " + show(s);
        str e = Base64::encode(s);
        CHECK(e == b64(s), "encoding " << show(e) << " instead of " << show(b64(s)));
        str d = Base64::decode(e);
        CHECK(d == s, "decoding gives " << show(d));
      }
      continue;
    }
    str s; int n = P(80) ? R(0, 40) : R(0, 3000);
    for(int i = 0; i < n; i++) s += (char)(P(20) ? 255 : P(20) ? 0 : R(0, 255));
    note("text " + show(s));
    str e = Base64::encode(s);
    CHECK(e == b64(s), "encoding " << show(e) << " instead of " << show(b64(s)));
    str d = Base64::decode(e);
    CHECK(d == s, "decoding gives " << show(d));
    // texts that are no encodings: no out of bounds access, length not a multiple of 4 throws
    str t = e;
    for(int k = 0; k < R(1, 4); k++){ int op = R(0, 3); size_t p = t.size() ? rnd() % t.size() : 0; if(op == 0 && t.size()) t[p] = (char)R(0, 255); else if(op == 1 && t.size()) t.erase(p, 1); else if(op == 2) t.insert(p, 1, P(50) ? '=' : (char)R(0, 255)); else t = t.substr(0, p); }
    note("decode " + show(t));
    bool th = throws([&]{ d = Base64::decode(t); });
    CHECK(th == (t.size() % 4 != 0), (th ? "throws for a text of valid length" : "accepts a text whose length is not a multiple of 4"));
  }
}
