// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
// C11: (1) in every state reached by token histories, what can be merged onto
// what and which tokens are on which object is compared with an enumeration of
// tokens and domains; (2) every history of making and deleting objects and
// object variables, closing types and asking queries is compared with sets.
#include "token_history.hh"

static const char* INHERIT =
  "class R { int id; R(int a){ id = a; } predicate A { int p; p = [0 3]; } predicate B { int q; R r; q = [0 3]; } }\n"
  "class S extends R { S(int a) { super(a); } }\n"
  "class U extends S { U(int a) { super(a); } predicate A { } predicate B { } }\n"
  "R::B { meets(R.A s); }\n"
  "R o1 = new R(1); U o2 = new U(2); S o3 = new S(3); close();\n";
static std::vector<std::string> names(const std::vector<TokenId>& ts, Names& n) { std::vector<std::string> r; for (auto t : ts) r.push_back(n.of(t)); std::sort(r.begin(), r.end()); return r; }
static std::string join(const std::vector<std::string>& v) { std::string s = "{"; for (auto& x : v) s += x + " "; return s + "}"; }
static bool meet(const Domain& a, const Domain& b) {
  if (a.isOpen() && b.isOpen()) return true;
  if (a.isInterval() && b.isInterval()) return std::max(cast_double(a.getLowerBound()), cast_double(b.getLowerBound())) <= std::min(cast_double(a.getUpperBound()), cast_double(b.getUpperBound()));
  std::list<edouble> x, y;
  if (a.isInterval()) { b.getValues(y); for (auto v : y) if (v >= a.getLowerBound() && v <= a.getUpperBound()) return true; return false; }
  a.getValues(x);
  if (b.isInterval()) { for (auto v : x) if (v >= b.getLowerBound() && v <= b.getUpperBound()) return true; return false; }
  b.getValues(y); for (auto v : x) for (auto u : y) if (v == u) return true;
  return false;
}
// Class hierarchy of the models, by the declarations.
static bool derived(std::string a, const std::string& b) {
  static std::map<std::string, std::string> up = {{"S", "R"}, {"U", "S"}, {"R", "Object"}, {"W", "Object"}, {"TL", "Timeline"}, {"Timeline", "Object"}};
  for (;;) { if (a == b) return true; if (!up.count(a)) return false; a = up[a]; }
}
static bool kindOf(const std::string& p, const std::string& q) {   // token type p usable where q is asked
  size_t i = p.find('.'), j = q.find('.');
  return p.substr(i) == q.substr(j) && derived(p.substr(0, i), q.substr(0, j));
}
static std::unordered_map<std::string, bool>* can;
static void queries(Plan& p, mc::Ctx& c, bool ok, const std::vector<Op>& f, const std::string& what) {
  const World& w = p.w; PlanDatabaseId db = p.e->db(); std::string fs = str(f);
  std::vector<TokenId> all(db->getTokens().begin(), db->getTokens().end());
  p.n.scan(db);
  for (const char* pred : {"R.A", "R.B", "U.A", "U.B"}) {
    if (!p.e->schema()->isPredicate(pred)) continue;
    std::vector<TokenId> want, got(db->getActiveTokens(pred).begin(), db->getActiveTokens(pred).end());
    for (auto t : all) if (t->isActive() && kindOf(t->getPredicateName(), pred)) want.push_back(t);
    c.evals();
    if (names(got, p.n) != names(want, p.n)) c.violation("C11:active-tokens", std::string("active tokens of ") + pred + " are " + join(names(want, p.n)) + " but " + join(names(got, p.n)) + " are listed after " + what);
  }
  if (!ok) {
    for (auto t : all) if (t->isInactive()) { std::vector<TokenId> r; db->getCompatibleTokens(t, r); c.evals(); if (!r.empty()) c.violation("C11:compatible-inconsistent", "tokens offered while the plan is inconsistent after " + what); }
    return;
  }
  for (auto o : db->getObjects()) {
    std::vector<TokenId> want, got(o->tokens().begin(), o->tokens().end());
    for (auto t : all) if (t->isActive() && t->getObject()->lastDomain().isMember(o->getKey())) want.push_back(t);
    c.evals();
    if (names(got, p.n) != names(want, p.n)) c.violation("C11:object-tokens", o->getName() + " can be the object of " + join(names(want, p.n)) + " but reports " + join(names(got, p.n)) + " after " + what);
    for (auto t : all) { bool in = std::count(want.begin(), want.end(), t) && t->getObject()->lastDomain().isSingleton(); if (o->hasToken(t) != in) c.violation("C11:object-has", o->getName() + " is wrong about having " + p.n.of(t) + " after " + what); }
  }
  for (auto t : all) {
    if (!t->isInactive()) continue;
    std::vector<TokenId> want, got, exact; std::string me = p.n.of(t);
    for (auto u : all) if (u != t && u->isActive() && kindOf(u->getPredicateName(), t->getPredicateName()) && u->getVariables().size() == t->getVariables().size()) {
      bool m = true;
      for (size_t i = 1; i < t->getVariables().size(); ++i) m = m && meet(t->getVariables()[i]->lastDomain(), u->getVariables()[i]->lastDomain());
      if (m) want.push_back(u);
    }
    db->getCompatibleTokens(t, got); c.evals();
    if (names(got, p.n) != names(want, p.n)) { c.violation("C11:compatible", "compatible with " + me + " are " + join(names(want, p.n)) + " but " + join(names(got, p.n)) + " are offered after " + what); continue; }
    if (db->hasCompatibleTokens(t) != !want.empty()) c.violation("C11:has-compatible", "wrong about whether anything is compatible with " + me + " after " + what);
    db->getCompatibleTokens(t, exact, std::numeric_limits<unsigned int>::max(), true);
    std::vector<std::string> wn = names(want, p.n), xn = names(exact, p.n);
    if (!std::includes(wn.begin(), wn.end(), xn.begin(), xn.end())) c.violation("C11:exact-more", "the exact query offers " + join(xn) + " for " + me + ", the other " + join(wn) + " after " + what);
    for (unsigned int lim = 1; lim <= want.size() + 1; ++lim) for (int ex = 0; ex < 2; ++ex) {
      const std::vector<std::string>& full = ex ? xn : wn; std::vector<TokenId> part; db->getCompatibleTokens(t, part, lim, ex);
      std::vector<std::string> pn = names(part, p.n); size_t n = std::min((size_t)lim, full.size()); c.evals();
      if (pn.size() != n || !std::includes(full.begin(), full.end(), pn.begin(), pn.end())) c.violation("C11:compatible-limit", "limit " + std::to_string(lim) + " gives " + join(pn) + " of " + join(full) + " for " + me + " after " + what);
      if (db->countCompatibleTokens(t, lim, ex) != n) c.violation("C11:compatible-count", "count with limit " + std::to_string(lim) + " is not " + std::to_string(n) + " for " + me + " after " + what);
    }
    // the exact query: everything that can be merged, and only what can coincide
    int ti = -1; for (int i = 0; i < (int)w.labels.size(); ++i) if (me == w.labels[i]) ti = i;
    if (ti < 0) continue;
    for (auto u : want) {
      std::string un = p.n.of(u); int ui = -1; for (int i = 0; i < (int)w.labels.size(); ++i) if (un == w.labels[i]) ui = i;
      if (ui < 0) continue;
      auto trial = [&](const char* x) -> int {
        std::string k = std::string(w.model).substr(0, 200) + std::to_string(&w - &worlds()[0]) + fs + x + std::to_string(ti) + ">" + std::to_string(ui);
        auto it = can->find(k); if (it != can->end()) return it->second;
        Plan q(w, p.lazy); bool r = false;
        try {
          q.applyAll(f); TokenId a = q.tok(ti), b = q.tok(ui);
          if (*x == 'm') q.e->client()->merge(a, b);
          else q.e->ce()->createConstraint("concurrent", *x == 's' ? makeScope(V(a->start()), V(b->start())) : makeScope(V(a->end()), V(b->end())));
          r = q.e->ce()->propagate() && q.consistent();
        } catch (Plan::Missing&) { return -1; } catch (Error& er) { q.hurt = true; c.violation("C11:trial", std::string("trying ") + x + " of " + me + " and " + un + " raised " + er.getMsg() + " after " + what); return -1; }
        c.trace(); if (can->size() > 200000) can->clear();
        (*can)[k] = r; return r;
      };
      bool offered = std::count(xn.begin(), xn.end(), un); c.evals();
      if (offered && (trial("s") == 0 || trial("e") == 0)) c.violation("C11:exact-impossible", "the exact query offers " + un + " for " + me + " though they cannot coincide after " + what);
      if (!offered && trial("m") == 1) c.violation("C11:exact-denied", "the exact query denies " + un + " to " + me + " though merging is consistent after " + what);
      if (!offered && trial("s") == 1 && trial("e") == 1) c.violation("C11:exact-denied", "the exact query denies " + un + " to " + me + " though each of their ends can coincide after " + what);
    }
  }
}
static std::vector<World>& worlds() {
  static std::vector<World> w = {
    {INHERIT, {{"t0", "R.A", true, false}, {"t1", "U.A", false, false}, {"t2", "R.A", false, false}, {"t3", "U.A", false, false}}, {"t0", "t1", "t2", "t3"},
     {{"precedes", {{0, "end"}, {1, "start"}}}, {"lt", {{0, "p"}, {2, "p"}}}, {"eq", {{0, "object"}, {1, "object"}}}, {"temporalDistance", {{0, "start"}, {3, "duration"}, {2, "start"}}}},
     {{0, "p", 1}, {1, "p", 2}, {2, "object", 0}, {3, "duration", 2}},
     {{2, "end", 9}}, true, false, queries},
    {INHERIT, {{"t0", "R.B", false, false}, {"t1", "U.B", false, false}, {"t2", "R.A", false, false}}, {"t0", "t1", "t2", "t0/R.A:meets", "t1/R.A:meets"},
     {{"eq", {{0, "r"}, {1, "object"}}}, {"precedes", {{3, "end"}, {1, "start"}}}, {"lt", {{3, "p"}, {4, "p"}}}},
     {{0, "r", 0}, {3, "object", 1}, {2, "p", 1}},
     {{1, "q", 1}}, true, false, queries}};
  return w;
}

// ---- objects and object variables ----
static const char* OBJ =
  "class R { int id; R(int a){ id = a; } predicate A { int p; } }\n"
  "class S extends R { S(int a) { super(a); } }\n"
  "class U extends S { U(int a) { super(a); } predicate B { R r; } }\n"
  "class W { int k; W(int a) { k = a; } predicate C { } }\n";
static const char* TYPES[] = {"R", "S", "U", "W"};
static const char* PREDS[] = {"R.A", "U.B", "W.C"};
struct Ob { std::string type, name; bool alive; };
struct Va { std::string type, name; V v; std::set<std::string> set; bool shut; };
static std::set<std::string> of(const std::list<ObjectId>& l) { std::set<std::string> s; for (auto o : l) s.insert(o->getName()); return s; }
static std::string join(const std::set<std::string>& v) { std::string s = "{"; for (auto& x : v) s += x + " "; return s + "}"; }
static std::string said(const std::string& h) {
  std::istringstream i(h); std::string t, s;
  while (i >> t) {
    int a = atoi(t.c_str() + 1);
    switch (t[0]) {
      case 'o': s += std::string("new ") + TYPES[a] + "; "; break; case 'd': s += "delete object " + std::to_string(a) + "; "; break;
      case 'v': s += std::string("variable ") + TYPES[a] + "; "; break; case 'x': s += std::string("close ") + TYPES[a] + "; "; break; case 'X': s += "close; "; break;
      case 'q': s += std::string("objects for ") + PREDS[a] + "?; "; break; case 't': s += std::string("token ") + PREDS[a] + "; "; break; case 'a': s += "activate token " + std::to_string(a) + "; "; break;
      case 'P': s += "propagate; "; break;
    }
  }
  return "[" + s + "]";
}
static void objects(const std::string& h, mc::Ctx& c, int depth) {
  c.begin(h);
  std::istringstream in(h.substr(2)); std::string t, what = said(h.substr(2));
  Eng* e = new Eng(); std::string r = e->load(OBJ); if (!r.empty()) { fprintf(stderr, "%s\n", r.c_str()); abort(); }
  std::vector<Ob> obs; std::vector<Va> vars; std::vector<TokenId> toks; std::set<std::string> closed; bool shut = false;
  std::map<std::string, int> asked; int steps = 0; bool hurt = false;
  auto fit = [&](const std::string& type) { std::set<std::string> s; for (auto& o : obs) if (o.alive && derived(o.type, type)) s.insert(o.name); return s; };
  auto pending = [&](const std::string& type) { return fit(type); };
  PlanDatabaseId db = e->db(); DbClientId cl = e->client();
  try {
    while (in >> t) {
      int a = atoi(t.c_str() + 1); ++steps;
      switch (t[0]) {
        case 'o': {
          std::string n = "o" + std::to_string(obs.size()); IntervalIntDomain arg(1, 1); std::vector<const Domain*> args(1, &arg);
          cl->createObject(TYPES[a], n, args);
          obs.push_back({TYPES[a], n, true}); for (auto& v : vars) if (!v.shut && derived(TYPES[a], v.type)) v.set.insert(n);
          break;
        }
        case 'd': cl->deleteObject(db->getObject(obs[a].name)); obs[a].alive = false; for (auto& v : vars) v.set.erase(obs[a].name); break;
        case 'v': { std::string n = "v" + std::to_string(vars.size()); V v = cl->createVariable(TYPES[a], n); vars.push_back({TYPES[a], n, v, fit(TYPES[a]), shut || closed.count(TYPES[a])}); break; }
        case 'x': cl->close(TYPES[a]); closed.insert(TYPES[a]); for (auto& v : vars) if (v.type == TYPES[a]) v.shut = true; break;
        case 'X': cl->close(); shut = true; for (auto& v : vars) v.shut = true; break;
        case 'q': { std::list<ObjectId> l; db->getObjectsByPredicate(PREDS[a], l); asked[PREDS[a]] = 1; break; }
        case 't': {
          std::string n = "t" + std::to_string(toks.size()), owner = std::string(PREDS[a]).substr(0, 1); TokenId k = cl->createToken(PREDS[a], n.c_str()); toks.push_back(k);
          vars.push_back({owner, n + ".object", k->getObject(), fit(owner), true});
          if (a == 1) vars.push_back({"R", n + ".r", k->parameters()[0], fit("R"), shut || closed.count("R")});
          break;
        }
        case 'a': cl->activate(toks[a]); break;
        case 'P': e->ce()->propagate(); break;
      }
    }
  } catch (Error& x) { c.violation("C11:objects-error", "a permitted step raised an error (" + x.getMsg() + ") in " + what); return; }
  c.transitions();
  std::string key = "O|";
  for (auto& o : obs) key += o.type + (o.alive ? "+" : "-");
  for (auto& v : vars) key += v.type + v.name + (v.shut ? "!" : "") + join(v.set);
  for (auto& s : closed) key += "x" + s;
  for (auto& q : asked) key += "q" + q.first;
  for (auto k : toks) key += k->isActive() ? "a" : "i";
  if (shut) key += "X";
  key += t.empty() ? "" : t.substr(0, 1);
  try {
    for (const char* ty : TYPES) {
      std::set<std::string> want = fit(ty); std::list<ObjectId> l; db->getObjectsByType(ty, l); c.evals();
      if (of(l) != want || l.size() != want.size()) c.violation("C11:objects-by-type", std::string("objects of ") + ty + " are " + join(want) + " but " + join(of(l)) + " are listed after " + what);
      std::set<std::string> ps; PSList<PSObject*> pl = static_cast<PSPlanDatabase*>(static_cast<PlanDatabase*>(db))->getObjectsByType(ty); for (int i = 0; i < pl.size(); ++i) ps.insert(pl.get(i)->getEntityName());
      if (ps != want) c.violation("C11:objects-by-type", std::string("objects of ") + ty + " are " + join(want) + " but " + join(ps) + " are listed (client interface) after " + what);
      if (db->hasObjectInstances(ty) != !want.empty()) c.violation("C11:object-instances", std::string("wrong about whether there is an object of ") + ty + " after " + what);
      if (db->isClosed(ty) != (shut || closed.count(ty))) c.violation("C11:closed", std::string("wrong about ") + ty + " being closed after " + what);
    }
    for (const char* p : PREDS) {
      std::set<std::string> want = fit(std::string(p).substr(0, 1)); std::list<ObjectId> l; db->getObjectsByPredicate(p, l); c.evals();
      if (of(l) != want || l.size() != want.size()) c.violation("C11:objects-by-predicate", std::string("objects that can have ") + p + " are " + join(want) + " but " + join(of(l)) + " are listed after " + what);
    }
    for (auto& o : obs) if ((db->getObject(o.name).isId()) != o.alive) c.violation("C11:object-by-name", "wrong about object " + o.name + " after " + what);
    for (auto& v : vars) {
      std::set<std::string> got; std::list<edouble> vs; v.v->baseDomain().getValues(vs); bool dead = false;
      for (auto x : vs) { std::string n = "(deleted)"; for (auto o : db->getObjects()) if (o->getKey() == cast_int(x)) n = o->getName(); got.insert(n); }
      c.evals();
      if (got != v.set) c.violation(std::string("C11:object-variable") + (v.name.find('.') == std::string::npos ? "" : v.name.substr(v.name.find('.'))), "variable " + v.name + " of " + v.type + " can be " + join(v.set) + " but holds " + join(got) + " after " + what);
      if (v.v->isClosed() != v.shut) c.violation("C11:variable-closed", "variable " + v.name + " of " + v.type + (v.shut ? " is not closed" : " is closed") + " after " + what);
    }
    if (e->ce()->propagate() && e->ce()->constraintConsistent())
      for (auto& o : obs) if (o.alive) {
        ObjectId ob = db->getObject(o.name); std::set<std::string> want, got;
        for (size_t i = 0; i < toks.size(); ++i) if (toks[i]->isActive()) for (auto& v : vars) if (v.name == "t" + std::to_string(i) + ".object" && v.set.count(o.name)) want.insert(toks[i]->getName());
        for (auto k : ob->tokens()) got.insert(k->getName());
        c.evals();
        if (got != want) c.violation("C11:object-tokens", o.name + " can be the object of " + join(want) + " but reports " + join(got) + " after " + what);
      }
  } catch (Error& x) { c.violation("C11:objects-query-error", "a query raised an error (" + x.getMsg() + ") after " + what); return; }
  bool fresh = c.state(key);
  bool stuck = false;   // a closed variable without values: nothing more can be built on that
  for (auto& v : vars) if (v.shut && v.set.empty()) stuck = true;
  if (fresh && steps < depth && !stuck) {
    auto go = [&](const std::string& s) { c.emit(h + s + " "); };
    for (int i = 0; i < 4; ++i) {
      if (!shut && !closed.count(TYPES[i]) && std::count_if(obs.begin(), obs.end(), [&](Ob& o) { return o.type == TYPES[i]; }) < 2 && obs.size() < 4) go("o" + std::to_string(i));
      if (vars.size() < 3) go("v" + std::to_string(i));
      if (!shut && !closed.count(TYPES[i])) go("x" + std::to_string(i));
    }
    if (!shut) go("X");
    // an object is deleted only while nothing depends on it
    for (size_t i = 0; i < obs.size(); ++i) if (obs[i].alive) { bool used = false; for (auto& v : vars) if (v.shut && v.set.count(obs[i].name)) used = true; if (!used) go("d" + std::to_string(i)); }
    for (int i = 0; i < 3; ++i) { if (!asked.count(PREDS[i])) go("q" + std::to_string(i)); if (toks.size() < 2 && !fit(std::string(PREDS[i]).substr(0, 1)).empty()) go("t" + std::to_string(i)); }
    for (size_t i = 0; i < toks.size(); ++i) if (toks[i]->isInactive()) go("a" + std::to_string(i));
    if (t != "P") go("P");
  }
  try { delete e; } catch (Error& x) { c.violation("C11:shutdown", "taking the engine down raised " + x.getMsg() + " after " + what); }
}

int main(int argc, char** argv) {
  PID = "C11";
  mc::Runner r("C11", argc, argv);
  memo = new std::unordered_map<std::string, View>(); can = new std::unordered_map<std::string, bool>();
  quiet();
  auto one = [&](const std::string& s, mc::Ctx& c, int depth) { if (s[0] == 'O') objects(s, c, depth); else explore(s, c, depth); };
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { one(s, c, 0); });
  int depth = r.quick ? 3 : 5, od = r.quick ? 5 : 7;
  std::vector<std::string> roots = {"0Eb|", "1Eb|"};
  int d0 = r.bfs(roots, depth, [&](const std::string& h, mc::Ctx& c) { one(h, c, depth); });
  roots = {"0Eb2|a1 a2 ", "0Eb4|a1 a2 k0 k2 ", "1Eb2|a0 a1 ", "1Eb3|a0 a3 a2 "};
  int d1 = r.bfs(roots, depth, [&](const std::string& h, mc::Ctx& c) { one(h, c, depth); });
  roots = {"O|"};
  int d2 = r.bfs(roots, od, [&](const std::string& h, mc::Ctx& c) { one(h, c, od); });
  r.rule = "all histories of token operations and of object and object-variable operations, queries compared with enumeration";
  r.extras.push_back({"depth", std::to_string(d0)}); r.extras.push_back({"depth_after_prefixes", std::to_string(d1)}); r.extras.push_back({"depth_objects", std::to_string(d2)});
  r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0Eb|a1 k0"); r.sample("O|o0 q0 o1");
  r.assumptions = {"merges only onto a token of the same predicate whose domains intersect", "an object is deleted only while no closed variable can be it"};
  return r.finish();
}
