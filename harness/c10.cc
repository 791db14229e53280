#include "common.h"
// C10: discriminators and Wisards restored from their json
static int rbase(){ return P(60) ? 2 : P(70) ? R(3, 10) : P(60) ? 16 : R(11, 300); }
static int maxaddr(int base){ int n = 0; unsigned __int128 p = 1; while(n < 62 && p * base <= ((unsigned __int128)1 << 64)){ p *= base; n++; } return std::max(1, std::min(n, 63)); }
static vvi mapping(int entry, int base){ int mx = maxaddr(base); vvi m(R(1, 8)); for(auto& r: m){ r.resize(P(85) ? R(1, std::min(mx, 6)) : R(1, mx)); for(int& p: r) p = R(0, entry - 1); } return m; }
static vi image(int entry, int base){ vi x(n_cases ? entry : 0); int z = P(20) ? 100 : R(0, 60); for(int& v: x) v = P(z) ? 0 : P(10) ? base - 1 : R(0, base - 1); return x; }
static vi wrong(int entry, int base){ vi x(P(50) ? entry + R(1, 5) : R(0, entry - 1)); for(int& v: x) v = R(0, base - 1); return x; }
static str dnorm(const nlj::json& j){ // the contents of the RAMs without their order
  nlj::json k = j; str s; if(k.count("data") && k["data"].is_string()){ str d = k["data"]; str suf = ".wdpkg"; if(d.size() >= 6 && d.substr(d.size() - 6) == suf){ std::ifstream f(d); std::stringstream o; o << f.rdbuf(); d = o.str(); } for(auto& b: split(d, '.')) s += show(ram_data(b)) + ";"; k["data"] = s; } return k.dump();
}
static str label(bool file){ static const char* L[] = {"a", "b", "cc", "1", "", " ", "x.y", "::", "a::1", "\xc3\xa9", "\"q\"", "new\nline", "#", "data", "classes", "x__", "\\"}; str s = L[R(0, 16)]; if(P(20)) s += L[R(0, 16)]; return s; }
static void discs(){
  int base = rbase(), entry = R(1, 20); bool iz = P(40); vvi m = mapping(entry, base);
  note("Discriminator mapping " + show(m) + " entry " + show(entry) + " ignoreZero " + show(iz) + " base " + show(base));
  Discriminator d(m, entry, iz, base); ODisc o(m, entry, iz, base);
  for(int k = P(15) ? 0 : R(1, 14); k > 0; k--){ vi x = image(entry, base); note("train " + show(x)); d.train(x); o.train(x); }
  if(P(1)){ vi x = image(entry, base); int n = R(0, 4) ? R(32766, 33500) : R(65530, 66500); note("train " + show(n) + " times " + show(x)); for(int k = 0; k < n; k++){ d.train(x); o.train(x); } }
  for(int k = P(70) ? 0 : R(1, 6); k > 0; k--){ vi x = image(entry, base); note("untrain " + show(x)); d.untrain(x); o.untrain(x); }
  str before = dnorm(nlj::json::parse(d.json()));
  bool huge = P(35); str j = huge ? (P(50) ? d.json(true) : d.json(true, "pre")) : P(50) ? d.json() : d.json(false, "no");
  note((huge ? "json in a file " : "json ") + j);
  Discriminator r(j);
  str cfg = d.jsonConfig();
  CHECK(dnorm(nlj::json::parse(d.json())) == before, "saving changed the model: " << before << " " << d.json());
  auto agree = [&](Discriminator& r, ODisc& o, const char* w){
    str e = disc_diff(nlj::json::parse(r.json()), o); CHECK(e.empty(), w << ": " << e);
    nlj::json q = nlj::json::parse(r.json()); CHECK(q["base"].get<int>() == base && q["ignoreZero"].get<bool>() == iz, w << ": base or ignoreZero");
    CHECK(r.getNumberOfTrainings() == o.count && r.getNumberOfRAMS() == (int)o.rams.size(), w << ": numbers");
    for(int k = 0; k < 4; k++){ vi x = image(entry, base); vi v = r.classify(x); CHECK(v == o.votes(x), w << ": votes for " << show(x) << " are " << show(v) << " instead of " << show(o.votes(x))); }
    CHECK(r.getMentalImage() == o.mental(), w << ": mental image"); CHECK(throws([&]{ r.train(wrong(entry, base)); }), w << ": wrong size accepted");
  };
  agree(r, o, "restored"); ODisc o2 = o;
  for(int k = R(0, 5); k > 0; k--){ vi x = image(entry, base); if(P(70)){ r.train(x); o2.train(x); } else { r.untrain(x); o2.untrain(x); } }
  agree(r, o2, "restored and trained on"); agree(d, o, "original after training the restored one");
  Discriminator r2(r.json(P(30))); agree(r2, o2, "restored twice");
  Discriminator c(cfg); ODisc fresh(m, entry, iz, base); agree(c, fresh, "restored from jsonConfig");
  for(int k = R(0, 4); k > 0; k--){ vi x = image(entry, base); c.train(x); fresh.train(x); } agree(c, fresh, "restored from jsonConfig and trained");
}
static nlj::json wnorm(const str& s){ nlj::json j = nlj::json::parse(s); if(j.count("classes") && !j["classes"].is_null()) for(auto it = j["classes"].begin(); it != j["classes"].end(); ++it) *it = dnorm(*it); return j; }
static void wisards(){
  int base = P(70) ? 2 : R(3, 5), entry = R(3, 16), as = R(2, std::min(entry, 5)), conf = P(70) ? 1 : R(0, 4);
  std::vector<str> names; for(int i = R(1, 4); i > 0; i--) names.push_back(label(true));
  nlj::json opt = {{"base", base}, {"ignoreZero", P(40)}, {"completeAddressing", P(60)}, {"bleachingActivated", P(75)}, {"confidence", conf}, {"verbose", P(10)}, {"returnConfidence", P(30)}, {"returnActivationDegree", P(30)}, {"returnClassesDegrees", P(30)}};
  bool given = P(30); if(given){ std::map<str,vvi> m; for(auto& n: names) m[n] = mapping(entry, base); opt["mapping"] = m; } else if(P(40)){ vi ix(entry); for(int i = 0; i < entry; i++) ix[i] = i; for(int i = 0; i < entry; i++) std::swap(ix[i], ix[R(0, entry - 1)]); opt["indexes"] = ix; }
  note("Wisard(" + show(as) + ", " + opt.dump() + ") entry " + show(entry));
  Wisard w(as, opt);
  auto feed = [&](std::vector<Wisard*> ws){ vvi X; std::vector<str> y; for(int i = R(0, 5); i > 0; i--){ X.push_back(image(entry, base)); y.push_back(names[R(0, names.size() - 1)]); } note("train " + show(X) + " " + show(y)); unsigned s = rnd(); str f; for(size_t i = 0; i < ws.size(); i++){ srand(s); str g = what_of([&]{ ws[i]->train(X, y); }); if(i == 0) f = g; CHECK(f == g, "the original: " << f << ", the restored: " << g); } };
  feed({&w}); if(P(50)) feed({&w}); if(P(20)) for(int k = 0; k < 2; k++) w.leaveOneOut(image(entry, base), names[0]);
  auto agree = [&](Wisard& a, Wisard& b, const char* s){
    auto x = wnorm(a.json()), y = wnorm(b.json()); CHECK(x == y, s << ": " << y.dump() << " instead of " << x.dump());
    vvi X; for(int k = 0; k < 5; k++) X.push_back(image(entry, base)); str u, v; str p = what_of([&]{ u = show(a.classify(X)); }), q = what_of([&]{ v = show(b.classify(X)); }); CHECK(p == q && u == v, s << ": classify gives " << q << " " << v << " instead of " << p << " " << u);
    CHECK(show(a.getMentalImages()) == show(b.getMentalImages()), s << ": mental images");
  };
  auto before = wnorm(w.json()); bool huge = P(30); str j = huge ? w.json(true, P(50) ? "" : "wis_") : w.json(); note((huge ? "json in files " : "json ") + j);
  Wisard r(j); CHECK(wnorm(w.json()) == before, "saving changed the model");
  CHECK(nlj::json::parse(j)["addressSize"] == as, "addressSize"); for(auto it = opt.begin(); it != opt.end(); ++it) CHECK(nlj::json::parse(r.json())[it.key()] == it.value(), "option " << it.key() << " of the restored one");
  agree(w, r, "restored"); feed({&w, &r}); agree(w, r, "trained on");
  for(int k = R(0, 2); k > 0; k--){ vi x = image(entry, base); str n = names[R(0, names.size() - 1)]; w.leaveOneOut(x, n); r.leaveOneOut(x, n); } agree(w, r, "left out");
  str cfg = w.jsonConfig(); Wisard c(cfg); auto cj = nlj::json::parse(c.json()), wj = nlj::json::parse(w.json());
  size_t n = wj["classes"].is_null() ? 0 : wj["classes"].size(); CHECK((cj["classes"].is_null() ? 0 : cj["classes"].size()) == n, "classes from jsonConfig: " << cj.dump());
  if(n) for(auto it = wj["classes"].begin(); it != wj["classes"].end(); ++it){ CHECK(cj["classes"].count(it.key()), "no class " << it.key() << " from jsonConfig"); auto& d = cj["classes"][it.key()]; ODisc o((*it)["mapping"].get<vvi>(), (*it)["entrySize"], opt["ignoreZero"], base); str e = disc_diff(d, o); CHECK(e.empty(), "jsonConfig, class " << it.key() << ": " << e); }
  cj.erase("classes"); wj.erase("classes"); CHECK(cj == wj, "settings from jsonConfig: " << cj.dump() << " instead of " << wj.dump());
}
static void clean(){ DIR* d = opendir("."); std::vector<str> n; while(dirent* e = readdir(d)) n.push_back(e->d_name); closedir(d); for(auto& s: n) if(s.size() > 6 && s.substr(s.size() - 6) == ".wdpkg") remove(s.c_str()); }
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){ if(P(65)) discs(); else wisards(); if(n_cases % 20 == 0) clean(); }
}
