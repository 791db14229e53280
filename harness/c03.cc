#include "common.h"
// C03: untraining reverses training, in the given class only
static vvi votes_of(Discriminator& d, const std::vector<vi>& pool){ vvi o; for(auto& x: pool) o.push_back(d.classify(x)); return o; }
static void disc_case(){
  int base = P(60) ? 2 : R(2, 9), entry = R(2, 24); bool iz = P(30);
  vvi m = rand_mapping(entry, 6, P(20) ? 20 : 5);
  note("Discriminator mapping " + show(m) + " entry " + show(entry) + " base " + show(base) + " ignoreZero " + show(iz));
  Discriminator d(m, entry, iz, base);
  ODisc o(m, entry, iz, base);
  std::vector<vi> pool; for(int i = 0; i < R(2, 6); i++){ vi x = rand_image(entry, P(50) ? 2 : base); if(P(20)) std::fill(x.begin(), x.end(), 0); pool.push_back(x); if(P(50)){ x[R(0, entry-1)] = R(0, base-1); pool.push_back(x); } }
  for(int s = 0; s < R(3, 40); s++){
    vi x = pool[R(0, pool.size() - 1)];
    int k = R(0, 3);
    if(k == 0){
      note("train " + show(x)); d.train(x); o.train(x);
    } else if(k == 1){
      note("untrain " + show(x)); d.untrain(x); o.untrain(x);
    } else if(k == 2){
      note("train and untrain " + show(x));
      vvi before = votes_of(d, pool); int n = d.getNumberOfTrainings();
      d.train(x); o.train(x); d.untrain(x); o.untrain(x);
      CHECK(votes_of(d, pool) == before, "votes after training and untraining");
      CHECK(d.getNumberOfTrainings() == n, "number of trainings after training and untraining");
    } else {
      // an input no ram knows
      vi y = rand_image(entry, base); bool known = false;
      for(auto& r: o.rams) if(r.content.count(r.key(y))) known = true;
      if(known) continue;
      note("untrain unknown " + show(y));
      vvi before = votes_of(d, pool); d.untrain(y); o.untrain(y);
      CHECK(votes_of(d, pool) == before, "votes after untraining an unknown input");
    }
    CHECK(d.getNumberOfTrainings() == o.count, "number of trainings " << d.getNumberOfTrainings() << " instead of " << o.count);
    for(auto& y: pool) CHECK(d.classify(y) == o.votes(y), "votes " << show(d.classify(y)) << " of " << show(y) << " instead of " << show(o.votes(y)));
    str df = disc_diff(nlj::json::parse(d.json()), o);
    CHECK(df == "", df);
  }
  // wrong size changes nothing
  str b = d.json(); vi w(entry + (P(50) ? 1 : -1), 0);
  CHECK(throws([&]{ d.untrain(w); }), "untraining an input of size " << w.size());
  CHECK(d.json() == b, "untraining an input of the wrong size changed the model");
}
static void wis_case(){
  int entry = R(4, 16), as = R(2, 4), base = P(70) ? 2 : 3;
  nlj::json c = {{"base", base}, {"ignoreZero", P(30)}};
  note("Wisard " + show(as) + " " + c.dump() + " entry " + show(entry));
  Wisard w(as, c);
  std::vector<str> names = {"a", "b", "", "c c", "zz"};
  vvi pool; for(int i = 0; i < 6; i++) pool.push_back(rand_image(entry, base));
  vvi X; std::vector<str> Y; for(int i = 0; i < R(1, 8); i++){ X.push_back(pool[R(0, 5)]); Y.push_back(names[R(0, 3)]); }
  note("train " + show(X) + " " + show(Y)); w.train(X, Y);
  std::map<str,ODisc> o;
  nlj::json j = nlj::json::parse(w.json());
  for(auto it = j["classes"].begin(); it != j["classes"].end(); ++it) o[it.key()] = ODisc(it.value()["mapping"].get<vvi>(), entry, c["ignoreZero"], base);
  for(size_t i = 0; i < X.size(); i++) o[Y[i]].train(X[i]);
  for(int s = 0; s < R(1, 8); s++){
    if(P(50)){
      vi x = P(60) ? X[R(0, X.size() - 1)] : pool[R(0, 5)]; str l = names[R(0, 4)];
      note("leaveOneOut " + show(x) + " " + show(l)); w.leaveOneOut(x, l); if(o.count(l)) o[l].untrain(x);
    } else if(P(50)){
      vvi U; std::vector<str> V; for(int i = 0; i < R(0, 5); i++){ U.push_back(pool[R(0, 5)]); V.push_back(names[R(0, 4)]); }
      note("leaveMoreOut " + show(U) + " " + show(V)); w.leaveMoreOut(U, V); for(size_t i = 0; i < U.size(); i++) if(o.count(V[i])) o[V[i]].untrain(U[i]);
    } else {
      vi x = pool[R(0, 5)]; str l = Y[R(0, Y.size() - 1)];
      note("train " + show(x) + " " + show(l)); w.train(vvi(1, x), std::vector<str>(1, l)); o[l].train(x);
    }
    j = nlj::json::parse(w.json());
    CHECK(j["classes"].size() == o.size(), "classes " << j["classes"].size());
    for(auto& p: o){ CHECK(j["classes"].count(p.first) == 1, "class " << show(p.first) << " is lost"); str df = disc_diff(j["classes"][p.first], p.second); CHECK(df == "", "class " << show(p.first) << ": " << df); }
  }
  str b = w.json();
  CHECK(throws([&]{ w.leaveMoreOut(vvi(2, pool[0]), std::vector<str>(1, Y[0])); }), "leaveMoreOut with lists of different sizes");
  CHECK(throws([&]{ w.leaveMoreOut(vvi(1, pool[0]), std::vector<str>(2, Y[0])); }), "leaveMoreOut with lists of different sizes");
  CHECK(w.json() == b, "rejected leaveMoreOut changed the model");
}
int main(int argc, char** argv){ setup(argc, argv); while(next_case()){ if(P(60)) disc_case(); else wis_case(); } }
