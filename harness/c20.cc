#include "common.h"
// C20: any call, any arguments: an exception at most; rejected inputs of a wrong size change nothing
static int wild(){ int k = R(0, 19); return k < 10 ? R(0, 9) : k < 14 ? R(-3, 40) : k < 15 ? INT_MIN : k < 16 ? INT_MAX : k < 17 ? -R(1, 1000) : k < 18 ? R(0, 1000) : k < 19 ? INT_MAX - R(1, 3) : (int)rnd(); }
static int size(){ int k = R(0, 29); return k < 26 ? R(1, 12) : k < 27 ? 0 : k < 28 ? R(0, 200) : k < 29 ? -R(1, 9) : P(50) ? INT_MIN : INT_MAX; }
static vi wvec(int n){ vi v(n); int k = R(0, 9); for(int& x: v) x = k < 6 ? R(0, 1) : k < 8 ? R(0, 5) : wild(); return v; }
static vi anyvec(int entry){ int n = P(70) ? entry : P(50) ? R(0, 14) : (int)std::max(-9LL, std::min(9000LL, (long long)entry + R(-2, 2))); return wvec(std::max(0, std::min(n, 5000))); }
static vvi wmap(int entry){ vvi m(R(0, 5)); for(auto& r: m){ r.resize(P(95) ? R(0, 6) : R(60, 70)); for(int& p: r) p = P(97) ? R(0, entry > 0 ? entry - 1 : 0) : wild(); } return m; }
static str wlabel(){ str s; for(int i = R(0, 5); i > 0; i--) s += (char)(P(80) ? 'a' + R(0, 2) : P(50) ? ":/.#\"\0"[R(0, 5)] : R(-128, 127)); return s; }
static str junk(){ str s; for(int i = R(0, 30); i > 0; i--) s += (char)(P(60) ? "AB+/=#."[R(0, 6)] : R(-128, 127)); return s; }
static nlj::json wjson(int d = 0){ int k = R(0, d > 1 ? 7 : 9); switch(k){ case 0: return nullptr; case 1: return P(50); case 2: case 3: return R(-3, 12); case 4: return R(0, 100) / 64.0; case 5: return R(0, 3) ? "" : "x"; case 6: return nlj::json::array(); case 7: return nlj::json::object(); case 8: { nlj::json a = nlj::json::array(); for(int i = R(0, 3); i > 0; i--) a.push_back(wjson(d + 1)); return a; } default: { nlj::json o = nlj::json::object(); for(int i = R(0, 3); i > 0; i--) o[wlabel().c_str()[0] == 'a' ? "mapping" : "base"] = wjson(d + 1); return o; } } }
// one random change somewhere in the json
static void mutate(nlj::json& j){
  if((j.is_object() || j.is_array()) && !j.empty() && P(85)){
    int n = R(0, j.size() - 1); auto it = j.begin(); std::advance(it, n);
    if(P(60)) mutate(*it); else if(P(35) && j.is_object()) j.erase(it); else if(j.is_array() && P(40)) j.erase(it); else if(j.is_array() && P(40)){ nlj::json c = *it; j.push_back(c); } else *it = P(50) ? wjson() : nlj::json((long long)wild() % 100000);
    return;
  }
  if(j.is_string()){ str s = j; if(s.size() && P(60)) s[R(0, s.size() - 1)] = "AQ=.b"[R(0, 4)]; else if(s.size()) s.resize(R(0, s.size())); else s = "AAAA"; j = s; }
  else if(j.is_number_integer()) j = P(70) ? (int)(j.get<long long>() % 1000000) + R(-2, 2) : wild() % 100000;
  else j = wjson();
}
static str dj(Discriminator& d){ str s; throws([&]{ s = d.json(); }); return s; }
static void disc(Discriminator& d, int entry, bool small){
  for(int k = R(1, 8); k > 0; k--){
    vi x = anyvec(entry); int op = R(0, 6); note("op " + show(op) + " " + show(x)); str b = dj(d); bool bad = false; vi m; throws([&]{ bad = nlj::json::parse(b)["entrySize"].get<int>() != (int)x.size(); });
    bool t = false;
    if(op == 0) t = throws([&]{ d.train(x); }); else if(op == 1) t = throws([&]{ d.untrain(x); }); else if(op == 2) t = throws([&]{ d.classify(x); });
    else if(op == 3){ std::vector<short> v(x.begin(), x.end()); BinInput y(v); if(P(50)) t = throws([&]{ d.train(y); }); else t = throws([&]{ d.classify(y); }); }
    else if(op == 4){ if(small) throws([&]{ d.getMentalImage(); }); throws([&]{ d.getsizeof(); }); throws([&]{ d.getNumberOfRAMS(); d.getNumberOfTrainings(); }); continue; }
    else if(op == 5){ throws([&]{ d.jsonConfig(); d.getConfigJSON(); d.getJSON(false, ""); d.json(P(20), P(50) ? "" : "d"); }); continue; }
    else { Discriminator c; throws([&]{ c = Discriminator(d.json()); c.train(x); c.classify(x); }); continue; }
    if(bad){ CHECK(t, "an input of the wrong size is accepted"); CHECK(dj(d) == b, "an input of the wrong size changed the model: " << b << " " << dj(d)); }
  }
}
static void discs(){
  int entry = size(), as = P(90) ? R(1, 6) : wild(), how = R(0, 6), base = P(80) ? R(2, 4) : wild(); bool iz = P(50), ca = P(50);
  if(entry > 100000 && how != 4 && how < 6) entry = 3;
  vi ix(P(90) ? std::max(0, std::min(entry, 300)) : R(0, 9)); for(size_t i = 0; i < ix.size(); i++) ix[i] = P(98) ? (int)i : wild(); vvi m = wmap(std::min(entry, 1000));
  nlj::json o = {{"ignoreZero", iz}, {"completeAddressing", ca}, {"base", base}}; if(P(30)) o["indexes"] = ix; if(P(30)) o["mapping"] = m; if(P(20)) mutate(o);
  note("Discriminator how " + show(how) + " address " + show(as) + " entry " + show(entry) + " base " + show(base) + " options " + o.dump() + " indexes " + show(ix) + " mapping " + show(m));
  Discriminator* d = 0;
  throws([&]{ if(how == 0) d = new Discriminator(as, entry); else if(how == 1) d = new Discriminator(as, entry, o); else if(how == 2) d = new Discriminator(as, entry, iz, ca, base); else if(how == 3) d = new Discriminator(ix, as, entry, iz, base); else if(how == 4) d = new Discriminator(m, entry, iz, base); else if(how == 5) d = new Discriminator(entry); else {
      Discriminator s(wmap(5), 5, iz, R(2, 4)); for(int k = 0; k < 3; k++) throws([&]{ s.train(wvec(5)); }); nlj::json j = nlj::json::parse(s.json()); for(int k = R(1, 3); k > 0; k--) mutate(j); note("json " + j.dump()); entry = 5; d = P(50) ? new Discriminator(j) : new Discriminator(P(95) ? j.dump() : j.dump().substr(0, R(0, 20))); } });
  if(d){ disc(*d, std::min(entry, 5000), entry < 5000000); delete d; }
}
static void wisards(){
  int entry = P(90) ? R(2, 9) : R(0, 3), as = P(85) ? R(2, 4) : wild();
  nlj::json o = {{"base", P(85) ? R(2, 3) : wild()}, {"confidence", P(85) ? 1 : wild()}, {"ignoreZero", P(50)}, {"bleachingActivated", P(70)}, {"completeAddressing", P(50)}, {"searchBestConfidence", P(50)}}; 
  if(P(20)){ nlj::json m = nlj::json::object(); m["a"] = wmap(entry); o["mapping"] = m; } else if(P(20)){ vi ix(entry); for(int i = 0; i < entry; i++) ix[i] = i; o["indexes"] = ix; } if(P(15)) mutate(o);
  note("Wisard " + show(as) + " " + o.dump() + " entry " + show(entry));
  Wisard* w = 0; throws([&]{ w = P(90) ? new Wisard(as, o) : new Wisard(as); }); if(!w) return;
  for(int k = R(1, 7); k > 0; k--){
    vvi X; std::vector<str> y; for(int i = R(0, 4); i > 0; i--){ X.push_back(anyvec(entry)); y.push_back(wlabel()); } if(P(5)) y.push_back("x"); DataSet D; for(size_t i = 0; i < X.size() && i < y.size(); i++){ std::vector<short> v(X[i].begin(), X[i].end()); D.add(v, y[i]); }
    int op = R(0, 9); note("op " + show(op) + " " + show(X) + " " + show(y));
    if(op < 3) throws([&]{ w->train(X, y); }); else if(op == 3) throws([&]{ w->train(D); }); else if(op == 4) throws([&]{ w->classify(X); }); else if(op == 5) throws([&]{ w->classify(D); });
    else if(op == 6) throws([&]{ w->leaveMoreOut(X, y); if(X.size()) w->leaveOneOut(X[0], wlabel()); });
    else if(op == 7){ throws([&]{ w->getMentalImages(); w->getsizeof(); }); }
    else if(op == 8){ throws([&]{ w->json(P(30), P(60) ? "" : wlabel()); w->jsonConfig(); }); }
    else throws([&]{ nlj::json j = nlj::json::parse(P(80) ? w->json() : w->jsonConfig()); for(int k = R(0, 3); k > 0; k--) mutate(j); note("json " + j.dump()); Wisard* v = new Wisard(j.dump()); delete w; w = v; });
    // an input of a wrong size alone
    for(auto& l: y) throws([&]{ nlj::json j = nlj::json::parse(w->json()); if(!j["classes"].is_object() || !j["classes"].count(l)) return; vi x = anyvec(entry); if((int)x.size() == j["classes"][l]["entrySize"].get<int>()) return; bool t = throws([&]{ w->train(vvi{x}, std::vector<str>{l}); }); if(!t) note("train " + show(x) + " " + show(l)); CHECK(t, "an input of the wrong size is accepted"); CHECK(nlj::json::parse(w->json()) == j, "an input of the wrong size changed the model"); });
  }
  delete w;
}
static void cluswisards(){
  int entry = P(90) ? R(2, 9) : R(0, 3), as = P(85) ? R(2, 4) : wild(); float ms = P(80) ? R(0, 10) / 10.0f : P(50) ? R(-20, 30) / 10.0f : P(50) ? NAN : INFINITY; int th = P(85) ? R(1, 9) : wild(), lim = P(85) ? R(1, 5) : wild();
  nlj::json o = {{"base", P(85) ? R(2, 3) : wild()}, {"confidence", P(85) ? 1 : wild()}, {"ignoreZero", P(50)}, {"bleachingActivated", P(70)}, {"completeAddressing", P(50)}, {"searchBestConfidence", P(50)}}; if(P(15)) mutate(o);
  note("ClusWisard " + show(as) + " " + show(ms) + " " + show(th) + " " + show(lim) + " " + o.dump() + " entry " + show(entry));
  ClusWisard* w = 0; throws([&]{ w = P(90) ? new ClusWisard(as, ms, th, lim, o) : new ClusWisard(as, ms, th, lim); }); if(!w) return;
  for(int k = R(1, 8); k > 0; k--){
    vvi X; std::vector<str> y; std::map<int,str> m; for(int i = R(0, 4); i > 0; i--){ X.push_back(anyvec(entry)); y.push_back(wlabel()); if(P(60)) m[P(95) ? y.size() - 1 : wild()] = y.back(); } if(P(5)) y.push_back("x");
    int op = R(0, 9); note("op " + show(op) + " " + show(X) + " " + show(y) + " " + show(m));
    if(op < 2) throws([&]{ w->train(X, y); }); else if(op < 4) throws([&]{ w->train(X, m); }); else if(op == 4) throws([&]{ w->classify(X); }); else if(op == 5) throws([&]{ w->classifyUnsupervised(X); });
    else if(op == 6) throws([&]{ w->trainUnsupervised(X); }); else if(op == 7){ throws([&]{ w->getMentalImages(); w->getMentalImage(wlabel()); w->getsizeof(); }); }
    else if(op == 8){ throws([&]{ w->json(P(30), P(60) ? "" : wlabel()); w->jsonConfig(); }); }
    else throws([&]{ nlj::json j = nlj::json::parse(P(80) ? w->json() : w->jsonConfig()); for(int k = R(0, 3); k > 0; k--) mutate(j); note("json " + j.dump()); ClusWisard* v = new ClusWisard(j.dump()); delete w; w = v; });
    for(auto& l: y) throws([&]{ nlj::json j = nlj::json::parse(w->json()); if(!j.count("clusters") || !j["clusters"].is_object() || !j["clusters"].count(l)) return; auto& c = j["clusters"][l]; if(!c["discriminators"].is_array() || c["discriminators"].empty()) return; vi x = anyvec(entry); if((int)x.size() == c["entrySize"].get<int>()) return; for(auto& d: c["discriminators"]) if(d["entrySize"] != c["entrySize"]) return; bool t = throws([&]{ w->train(vvi{x}, std::vector<str>{l}); }); if(!t) note("train " + show(x) + " " + show(l)); CHECK(t, "an input of the wrong size is accepted"); CHECK(nlj::json::parse(w->json()) == j, "an input of the wrong size changed the model"); });
  }
  delete w;
}
static void clusters(){
  int entry = size(); if(entry > 5000 || entry < 0) entry = P(50) ? 0 : 7; Cluster d; bool def = P(10);
  int as = P(85) ? R(2, 4) : wild(), th = P(85) ? R(0, 9) : wild(), lim = P(85) ? R(0, 5) : wild(), base = P(90) ? R(2, 3) : wild(); float ms = R(-5, 15) / 10.0f;
  note("Cluster " + show(def) + " entry " + show(entry) + " address " + show(as) + " " + show(ms) + " " + show(th) + " " + show(lim) + " base " + show(base));
  Cluster c(entry, as, ms, th, lim, P(50), P(50), base); if(def) c = d;
  for(int k = R(1, 12); k > 0; k--){ vi x = anyvec(entry); std::vector<short> v(x.begin(), x.end()); BinInput y(v); int op = R(0, 5); note("op " + show(op) + " " + show(x));
    if(op < 2) throws([&]{ c.train(x); }); else if(op == 2) throws([&]{ c.train(y); }); else if(op == 3) throws([&]{ c.classify(x); c.classify(y); }); else if(op == 4) throws([&]{ c.getMentalImages(); c.getSize(); c.getNumberOfDiscriminators(); c.getsizeof(); c.getScore(wvec(R(0, 4))); }); else throws([&]{ nlj::json j = c.getJson(false, ""); if(P(50)) mutate(j); Cluster r(j); r.train(x); r.classify(x); }); }
}
static void rams(){
  vi a = wvec(P(90) ? R(0, 9) : R(60, 70)); for(int& x: a) if(x > 50 && P(90)) x = 1; int base = P(80) ? R(2, 5) : wild(); bool two = P(30); int as = P(90) ? R(0, 8) : wild() % 100000, en = size();
  note("RAM " + show(a) + " base " + show(base) + (two ? " RAM(" + show(as) + "," + show(en) + ")" : ""));
  RAM r; throws([&]{ if(two) r = RAM(as, en, P(50), base); else if(P(95)) r = RAM(a, P(50), base); });
  for(int k = R(1, 8); k > 0; k--){ vi x = wvec(R(0, 12)); std::vector<short> v(x.begin(), x.end()); BinInput y(v); int op = R(0, 6); note("op " + show(op) + " " + show(x));
    if(op < 2) throws([&]{ r.train(x); }); else if(op == 2) throws([&]{ r.train(y); }); else if(op == 3) throws([&]{ r.untrain(x); }); else if(op == 4) throws([&]{ r.getVote(x); r.getVote(y); }); else if(op == 5) throws([&]{ r.getMentalImage(); r.getsizeof(); r.getAddressSize(); }); else throws([&]{ nlj::json j = r.getConfig(); j["data"] = r.getData(); j["addresses"] = a; if(P(60)) mutate(j); r = RAM(j); }); }
  throws([&]{ calculateNumberOfRams(wild(), wild(), P(50)); }); getRandomString(R(0, 20));
}
static void data(){
  int op = R(0, 5);
  if(op == 0){ str s = junk(); note("Base64 " + show(s)); throws([&]{ Base64::decode(s); }); str e = Base64::encode(s); CHECK(Base64::decode(e) == s, "round trip"); }
  else if(op == 1){ str s = junk(); note("BinInput " + show(s)); throws([&]{ BinInput b(P(50) ? s : b64(s)); b.size(); for(int k = 0; k < 9; k++){ throws([&]{ b.get(rnd()); }); throws([&]{ b.set(wild(), wild()); }); } b.data(); }); }
  else if(op == 2){ str s = P(50) ? junk() : b64(junk()) + "." + b64(junk()); note("RAMDataHandle " + show(s)); throws([&]{ RAMDataHandle h(s), g(b64(str(12, 'a'))); for(int k = 0; k < 6; k++){ throws([&]{ h.set(P(80) ? R(0, 5) : wild() < 0 ? -1 : R(0, 50), wild(), wild()); }); h.get(wild(), wild()); h.get(wild()); throws([&]{ h.data(P(80) ? R(-1, 9) : -5); }); h.compare(g); } h.data(); }); }
  else if(op == 3){ vi m = wvec(R(0, 9)); for(int& x: m) if(x > 100) x %= 100; note("Synthesizer " + show(m)); Synthesizer s(m); for(int k = 0; k < 3; k++) CHECK(s.make().size() == m.size(), "size"); }
  else if(op == 4){ int dim = P(90) ? R(-1, 5) : wild(), n = P(90) ? R(0, 8) : wild(); if(dim > 100 || n > 100 ) { if(dim > 0 && n > 0){ if((double)dim * n < 1e12){ dim = 2; n = 3; } } } nlj::json o = {{"bitsByKernel", P(90) ? R(0, 4) : wild() % 100000}, {"activationDegree", P(80) ? R(0, 10) / 10.0 : R(-30, 30) / 10.0}, {"useDirection", P(50)}}; if(P(10)) mutate(o); note("KernelCanvas " + show(dim) + " " + show(n) + " " + o.dump());
    throws([&]{ KernelCanvas k(dim, n, o); for(int q = 0; q < 3; q++){ std::vector<std::vector<double>> s(R(0, 6), std::vector<double>(dim)); for(auto& p: s){ if(P(5)) p.resize(R(0, 7)); for(auto& v: p) v = P(90) ? R(-100, 100) / 7.0 : P(30) ? NAN : P(50) ? INFINITY : 1e308; } throws([&]{ k.transform(s); }); } }); }
  else { DataSet d; for(int i = R(0, 4); i > 0; i--){ vi x = wvec(R(0, 9)); std::vector<short> v(x.begin(), x.end()); if(P(50)) d.add(v); else d.add(BinInput(v), wlabel()); } for(int k = 0; k < 5; k++){ throws([&]{ d.get(wild()); }); throws([&]{ d[wild()]; }); throws([&]{ d.getLabel(P(50) ? wild() : rnd()); }); } throws([&]{ DataSet(P(50) ? "none.wpkds" : junk()); });
    std::map<str,vi> votes; for(int i = R(0, 4); i > 0; i--) { vi v = wvec(R(0, 6)); for(int& x: v) x = std::abs(x % 1000); votes[wlabel()] = v; } auto c = Bleaching::make(votes, P(70), P(50), P(80) ? 1 : wild()); str b = Bleaching::getBiggestCandidate(c); Bleaching::getConfidence(c, c[b]); }
}
static void clean(){ DIR* d = opendir("."); std::vector<str> n; while(dirent* e = readdir(d)) n.push_back(e->d_name); closedir(d); for(auto& s: n) if(s.size() > 6 && s.substr(s.size() - 6) == ".wdpkg") remove(s.c_str()); }
int main(int argc, char** argv){
  setup(argc, argv);
  while(next_case()){ if(n_cases % 50 == 0) clean(); switch(R(0, 5)){ case 0: discs(); break; case 1: wisards(); break; case 2: cluswisards(); break; case 3: clusters(); break; case 4: rams(); break; default: data(); } }
}
