#include "common.h"
// C05: classes of a Wisard
static str model_diff(Wisard& w, const std::map<str,ODisc>& o){
  nlj::json j = nlj::json::parse(w.json());
  nlj::json c = j["classes"];
  if((c.is_null() ? 0 : c.size()) != o.size()) return "the classes are " + show(c.size()) + " instead of " + show(o.size());
  for(auto& p: o){ if(!c.count(p.first)) return "no class " + show(p.first); str d = disc_diff(c[p.first], p.second); if(d.size()) return "class " + show(p.first) + ": " + d; }
  return "";
}
// an oracle for a class that has just been created: its mapping is read back, and checked against the configuration
struct Cfg { int as; bool comp, iz; int base; vi ix; std::map<str,vvi> mm; };
static str fresh_diff(const vvi& m, const Cfg& c, const str& l, int entry){
  if(c.mm.count(l)) return m == c.mm.at(l) ? "" : "the mapping of " + show(l) + " is " + show(m);
  if(c.ix.size()){ if((int)m.size() != entry / c.as) return "rams"; for(size_t i = 0; i < m.size(); i++) if(m[i] != vi(c.ix.begin() + i * c.as, c.ix.begin() + (i + 1) * c.as)) return "ram " + show(i) + " has " + show(m[i]); return ""; }
  if((int)m.size() != entry / c.as + (c.comp && entry % c.as ? 1 : 0)) return "number of rams " + show(m.size());
  std::set<int> s; size_t n = 0; for(auto& r: m){ if((int)r.size() != c.as) return "size of a ram"; for(int p: r){ s.insert(p); n++; } }
  if(c.comp ? (int)s.size() != entry : s.size() != n) return "positions " + show(m);
  return "";
}
static str rlabel(){ str n; int l = P(5) ? 0 : R(1, 3); for(int k = 0; k < l; k++) n += (char)(P(80) ? 'a' + R(0, 2) : R(1, 126)); return n; }
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){
    Cfg c; int entry = R(2, 12); c.as = R(2, std::min(entry, 5)); c.comp = P(60); c.iz = P(40); c.base = P(70) ? 2 : R(3, 5);
    std::vector<str> names; int nl = R(1, 4); for(int i = 0; i < nl; i++) names.push_back(rlabel());
    int kind = R(0, 3);
    if(kind == 1 || kind == 3){ for(int i = 0; i < entry; i++) c.ix.push_back(i); for(int i = entry - 1; i > 0; i--) std::swap(c.ix[i], c.ix[R(0, i)]); }
    if(kind >= 2) for(auto& n: names) if(P(70)) c.mm[n] = rand_mapping(entry, 5, 3);
    bool bl = P(80); int rn = entry / c.as + (c.comp && entry % c.as ? 1 : 0); int conf = P(70) ? 1 : R(1, rn + 1);
    nlj::json opt = {{"bleachingActivated", bl}, {"ignoreZero", c.iz}, {"completeAddressing", c.comp}, {"base", c.base}, {"confidence", conf}, {"verbose", P(20)}};
    if(c.ix.size()) opt["indexes"] = c.ix;
    if(c.mm.size()) opt["mapping"] = c.mm;
    note("Wisard(" + show(c.as) + ", " + opt.dump(-1, ' ', true) + ") entry " + show(entry));
    Wisard w(c.as, opt);
    std::map<str,ODisc> o;
    int rounds = R(1, 5);
    bool dead = false;
    for(int r = 0; r < rounds && !dead; r++){
      int n = R(0, 6); vvi X; std::vector<str> y;
      for(int i = 0; i < n; i++){ vi x = rand_image(entry, c.base); if(P(30)) std::fill(x.begin(), x.end(), 0); X.push_back(x); y.push_back(names[R(0, nl - 1)]); }
      int act = R(0, 9);
      if(act <= 4){                       // train
        bool ds = P(40) && c.base == 2;
        bool mism = !ds && P(10);
        if(mism) { if(P(50) && y.size()) y.pop_back(); else y.push_back("zz"); }
        if(ds) for(auto& l: y) if(l.empty()) ds = false;
        note((ds ? "train dataset " : "train ") + show(X) + " " + show(y));
        bool rej = mism || (conf > rn && X.size());
        bool t;
        if(ds){ DataSet d; for(int i = 0; i < n; i++){ std::vector<short> s(X[i].begin(), X[i].end()); if(P(50)) d.add(s, y[i]); else d.add(BinInput(s), y[i]); } t = throws([&]{ w.train(d); }); }
        else t = throws([&]{ w.train(X, y); });
        CHECK(t == rej, (rej ? "is accepted" : "is rejected"));
        if(!rej) for(int i = 0; i < n; i++){
          if(!o.count(y[i])){
            nlj::json j = nlj::json::parse(w.json())["classes"]; CHECK(j.count(y[i]), "class " << show(y[i]) << " was not created");
            vvi m = j[y[i]]["mapping"].get<vvi>(); str f = fresh_diff(m, c, y[i], entry); CHECK(f.empty(), "new class: " << f);
            o[y[i]] = ODisc(m, entry, c.iz, c.base);
          }
          o[y[i]].train(X[i]);
        }
      } else if(act <= 6 && o.size()){    // leave out
        bool mism = P(15); if(mism) y.push_back("q");
        if(P(30) && n) y[0] = "unknown";
        for(int i = 0; i < n; i++) if(P(70) && o.count(y[i]) && o[y[i]].rams.size() && o[y[i]].rams[0].content.size()){}
        note("leave out " + show(X) + " " + show(y));
        bool t = throws([&]{ if(n == 1 && !mism && P(50)) w.leaveOneOut(X[0], y[0]); else w.leaveMoreOut(X, y); });
        CHECK(t == mism, (mism ? "is accepted" : "is rejected"));
        if(!mism) for(int i = 0; i < n; i++) if(o.count(y[i])) o[y[i]].untrain(X[i]);
      } else if(act == 7 && o.size()){    // an image of the wrong size changes nothing
        vi x = rand_image(entry + (P(50) ? 1 : -1), c.base); str l = o.begin()->first;
        note("wrong size " + show(x));
        CHECK(throws([&]{ w.train(vvi{x}, std::vector<str>{l}); }), "an image of the wrong size is trained");
        CHECK(throws([&]{ w.leaveOneOut(x, l); }), "an image of the wrong size is left out");
        CHECK(throws([&]{ w.classify(vvi{x}); }), "an image of the wrong size is classified");
      } else {                            // classify
        for(auto& x: X) if(P(50)) x = rand_image(entry, c.base);
        note("classify " + show(X));
        auto got = w.classify(X);
        CHECK(got.size() == X.size(), "number of answers");
        for(size_t i = 0; i < X.size(); i++){
          std::map<str,vi> v; for(auto& p: o) v[p.first] = p.second.votes(X[i]);
          str want = o_winner(o_bleach(v, bl, conf));
          CHECK(got[i] == want, "answer " << i << " is " << show(got[i]) << " instead of " << show(want));
        }
        if(c.base == 2){ DataSet d; for(auto& x: X) d.add(std::vector<short>(x.begin(), x.end())); CHECK(w.classify(d) == got, "the answers for the data set differ"); }
      }
      str df = model_diff(w, o); CHECK(df.empty(), df);
    }
  }
}
