// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
// C17: every history of client operations up to a depth is recorded; its log is
// played into a fresh database of the same model -- as it is, and after being
// written out and read back -- and the two plans are compared item by item.
#define PLAN_NDDL
#include "plan_lib.hh"
#include "DbClient.hh"
#include "DbClientTransactionLog.hh"
#include "DbClientTransactionPlayer.hh"
#include "tinyxml.h"
#include "CESchema.hh"
using namespace plan;

static const char* MODEL =
  "enum Mode { On, Off, Idle }\n"
  "class R { int id; R(int a) { id = a; } predicate A { int p; int q; p = [0 2]; q = [0 1]; eq(duration, 2); leq(0, start); leq(end, 6); } predicate C { int s; Mode m; float f; bool b; string n; f = [0.0 1.5]; s = [0 1]; leq(duration, 2); } predicate D { int t; t = [0 1]; } }\n"
  "class S extends R { Mode mode; float w; bool flag; string tag; R mate; S(int a, Mode m, float f, bool b, string s, R r) { super(a); mode = m; w = f; flag = b; tag = s; mate = r; } }\n"
  "class TL extends Timeline { predicate X { int p; p = [0 1]; eq(duration, 2); leq(0, start); leq(end, 5); } }\n"
  "R::A { if (p == 1) { meets(R.C c); neq(c.s, q); } int k; k == [0 1]; neq(k, q); }\n"
  "R::C { if (s == 1) { contains(R.D d); eq(d.t, s); ends(R.D f); } }\n"
  "TL::X { before(R.C c); }\n"
  "class W { R part; int n; W(int a) { part = new R(a); n = a; } predicate P { int p; p = [0 3]; } }\n"
  "W::P { eq(p, object.n); }\n"
  "R r1 = new R(1); R r2 = new R(2); TL t1 = new TL(); TL t2 = new TL();\n";

struct World { bool close; std::vector<const char*> start, ops; int deeper; };
static const std::vector<World>& worlds() {
  static std::vector<World> w = {
    // 0: variables of every type
    {true, {}, {"v int i 0 3", "v float x 0.25 1e7", "v bool b", "v Mode m", "v string s", "v R o", "v int j", "s .i 1", "s .x 0.3333333333333333", "s .x 1234567.5", "s .b true", "s .b false", "s .m Off", "s .s hello", "s .s <a&\"b'>", "s .o r2", "s .j -3000000000", "u .i", "u .x", "u .b", "u .m", "u .o", "R .i 1 2", "R .x 0.3333333333333333 1234567.5", "R .j -5000000000 7", "R .m On,Idle", "R .o r1", "R .b true", "k leq .i .j", "k eq .i .x", "k neq .m .m2", "v Mode m2 On,Off", "K", "V i", "V x", "V m", "Z .o", "Z .s"}, 0},
    // 1: tokens, rules, sub-goals
    {true, {}, {"T a R.A man", "T b R.A rej", "T c R.C fact", "D a", "D b", "D c", "a a", "a b", "a c", "r b", "r a", "c a", "c b", "c c", "m a b", "m b a", "s a.p 1", "u a.p", "s a.q 1", "u a.q", "s a.object r2", "a a/R.C:meets", "c a/R.C:meets"}, 1},
    // 2: from the middle: rule variables, sub-goal variables
    {true, {"T a R.A man", "s a.p 1", "a a", "T c R.C rej"}, {"a a/R.C:meets", "c a/R.C:meets", "s a/R.C:meets.s 1", "u a/R.C:meets.s", "s a/R.C:meets.f 0.1", "s a/R.C:meets.m Idle", "s a:rule.k 1", "u a:rule.k", "R a:rule.k 0 0", "m a/R.C:meets c", "m c a/R.C:meets", "a c", "c c", "r c", "s c.n abc", "s c.b true", "R c.start 0 3", "s a.start 1", "u a.start", "u a.p", "c a", "k eq a/R.C:meets.s a.q", "a a/R.C:meets/R.D:contains", "s a/R.C:meets/R.D:ends.t 0", "m a/R.C:meets/R.D:contains a/R.C:meets/R.D:ends", "a a/R.C:meets/R.D:ends", "k precedes c.end a.start", "k temporalDistance c.end .d a.start", "v int d 1 2", "K", "D c"}, 0},
    // 3: ordering
    {true, {"T x TL.X man", "T y TL.X rej", "a x", "a y"}, {"o t1 x y", "o t1 y x", "f t1 x y", "f t1 y x", "o t2 x x", "o t1 x x", "f t1 x x", "s x.object t1", "s y.object t2", "u x.object", "T z TL.X fact", "a z", "o t1 y z", "f t1 y z", "c x", "c y", "c z", "D z", "r y", "s x.start 2", "u x.start"}, 0},
    // 4: objects and types
    {false, {}, {"N R r3 7", "N S s1 3 On 0.1 true abc r1", "N S s2 3000000000 Idle 123456789.5 false x_y r2", "N TL t3", "v R o", "v S z", "s .o r3", "s .o s1", "R .o r1,r3", "u .o", "z", "z R", "z S", "X r3", "X s1", "X t3", "T a R.A man", "s a.object r3", "u a.object", "a a", "c a", "D a", "N W w1 2", "N W w2 3", "T g W.P rej", "a g", "s .o w1.part", "Z .o", "Z .z"}, 0},
  };
  return w;
}

struct Sim {
  Eng* e; Names n; DbClientTransactionLogId log, chrono; std::vector<std::string> open_; std::vector<std::pair<std::string, ConstraintId>> posted; std::set<std::string> orders;
  Sim(const World& w) : e(new Eng()) {
    std::string r = e->load(std::string(MODEL) + (w.close ? "close();" : "")); if (!r.empty()) { fprintf(stderr, "%s\n", r.c_str()); abort(); }
    e->ce()->propagate(); e->client()->enableTransactionLogging(); log = (new DbClientTransactionLog(e->client(), false))->getId(); chrono = (new DbClientTransactionLog(e->client(), true))->getId();
  }
  ~Sim() { delete static_cast<DbClientTransactionLog*>(log); if (chrono.isId()) delete static_cast<DbClientTransactionLog*>(chrono); delete e; }
  void scan() { // roots are named by the place of their making, which the log keeps
    n.scan(e->db());
  }
  TokenId tok(const std::string& l) { n.scan(e->db()); for (auto t : e->db()->getTokens()) if (n.of(t) == l) return t; return TokenId::noId(); }
  V var(const std::string& l) {
    size_t d = l.rfind('.'); std::string o = l.substr(0, d), v = l.substr(d + 1);
    if (o.empty()) return e->db()->isGlobalVariable(v) ? e->db()->getGlobalVariable(v) : V();
    size_t r = o.find(":rule"); if (r != std::string::npos) { n.scan(e->db()); for (auto x : e->ce()->getVariables()) if (x->getName() == v && varName(x, n) == l) return x; return V(); }
    TokenId t = tok(o); if (t.isNoId()) return V(); for (auto x : t->getVariables()) if (x->getName() == v) return x; return V();
  }
  ObjectId obj(const std::string& x) { for (auto o : e->db()->getObjects()) if (o->getName() == x) return o; return ObjectId::noId(); }
  // the value as the type of the variable reads it; false if there is none
  bool value(const Domain& d, const std::string& s, edouble& r) {
    if (d.isEntity()) { ObjectId o = obj(s); if (o.isNoId()) return false; r = o->getKey(); return true; }
    if (d.isBool()) { r = s == "true"; return true; }
    if (d.isNumeric()) { r = strtod(s.c_str(), 0); return true; }
    r = LabelStr(s).getKey(); return true;
  }
  bool consistent() { return e->ce()->constraintConsistent(); }
  bool touched(TokenId t) { for (auto& c : posted) for (auto v : c.second->getScope()) if (v->parent().isId() && TokenId::convertable(v->parent()) && TokenId(v->parent()) == t) return true; return false; }
  // nothing said about the sub-goals of t, or about theirs
  bool bare(TokenId t) { for (auto s : t->slaves()) { if (!bare(s) || touched(s) || !s->getMergedTokens().empty()) return false; for (auto v : s->getVariables()) if (v->isSpecified() && v->getName() != "state") return false; } return true; }
  Domain* domain(const Domain& like, const std::string& a, const std::string& b) {
    if (!b.empty()) { Domain* d = like.copy(); edouble x, y; value(like, a, x); value(like, b, y); IntervalDomain i(x, y); if (!d->intersects(i)) { delete d; return 0; } d->intersect(x, y); return d; }
    Domain* d = like.copy(); if (d->isOpen() && !d->isEntity()) d->close(); std::list<edouble> vs; std::istringstream i(a); std::string t; while (std::getline(i, t, ',')) { edouble x; if (!value(like, t, x)) { delete d; return 0; } if (like.isMember(x)) vs.push_back(x); }
    if (vs.empty()) { delete d; return 0; }
    if (like.isBool() || (like.isNumeric() && like.isInterval())) { d->set(vs.front()); return d; }
    delete d;
    if (like.isEntity()) { std::list<ObjectId> os; for (auto v : vs) os.push_back(Entity::getTypedEntity<Object>(v)); return new ObjectDomain(like.getDataType(), os); }
    return new EnumeratedDomain(like.getDataType(), vs);
  }
  bool enabled(const std::string& o) {
    std::istringstream i(o); std::string k, x, y, z; i >> k >> x >> y >> z; bool ok = consistent();
    switch (k[0]) {
      case 'v': return ok && var("." + y).isNoId();
      case 'V': { V v = var("." + x); if (v.isNoId()) return false; std::set<ConstraintId> cs; v->constraints(cs); return cs.empty(); }
      case 'T': return ok && tok(x).isNoId() && e->db()->hasObjectInstances(y.substr(0, y.find('.')));
      case 'D': { TokenId t = tok(x); return t.isId() && t->isInactive() && !touched(t) && e->client()->m_keysOfTokensCreated.back() == t->getKey(); }
      case 'N': return ok && obj(y).isNoId() && !e->db()->isClosed(x) && ((x != "S" && x != "W") || !e->db()->isClosed("R"));
      case 'X': { ObjectId b = obj(x); if (b.isNoId()) return false; for (auto v : e->ce()->getVariables()) if (v->parent() != EntityId(b) && v->baseDomain().isEntity() && v->isClosed() && v->baseDomain().isMember(b->getKey()) && v != b->getThis()) return false; else if (v != b->getThis() && v->baseDomain().isEntity() && v->isSpecified() && v->getSpecifiedValue() == edouble(b->getKey())) return false; return true; }
      case 'Z': { V v = var(x); return ok && v.isId() && !v->isClosed() && !v->baseDomain().isEmpty(); }
      case 'z': if (!ok) return false; if (x.empty()) return !e->db()->isClosed(); return !e->db()->isClosed(x);
      case 'a': { TokenId t = tok(x); return ok && t.isId() && t->isInactive() && t->getState()->lastDomain().isMember(Token::ACTIVE); }
      case 'r': { TokenId t = tok(x); return ok && t.isId() && t->isInactive() && t->getState()->lastDomain().isMember(Token::REJECTED); }
      case 'm': {
        TokenId s = tok(x), t = tok(y); if (!ok || s.isNoId() || t.isNoId() || !s->isInactive() || !t->isActive() || !s->getState()->lastDomain().isMember(Token::MERGED)) return false;
        for (size_t j = 1; j < s->getVariables().size(); ++j) if (!s->getVariables()[j]->lastDomain().intersects(t->getVariables()[j]->lastDomain())) return false;
        return true; }
      case 'c': { TokenId t = tok(x); if (t.isNoId() || t->isInactive() || t->isIncomplete() || !bare(t)) return false; for (auto& r : orders) if ((" " + r + " ").find(" " + x + " ") != std::string::npos) return false; return true; }
      case 's': { V v = var(x); edouble r; return ok && v.isId() && v->isActive() && !v->isSpecified() && v->canBeSpecified() && value(v->lastDomain(), y, r) && (v->lastDomain().isMember(r) || (v->lastDomain().isOpen() && v->lastDomain().isString())); }
      case 'u': { V v = var(x); if (v.isNoId() || !v->isSpecified() || !v->isActive()) return false; if (v->parent().isId() && TokenId::convertable(v->parent()) && !bare(TokenId(v->parent()))) return false; return true; }
      case 'R': { V v = var(x); if (!ok || v.isNoId() || !v->isActive() || v->isSpecified()) return false; if (v->baseDomain().isEntity() && !v->isClosed()) return false; Domain* d = domain(v->baseDomain(), y, z); if (!d) return false; bool r = !(*d == v->baseDomain()) && v->lastDomain().intersects(*d); delete d; return r; }
      case 'k': { std::string t; if (!ok || posted.size() > 1) return false; for (auto& c : posted) if (c.first == o) return false; i.str(o); i.clear(); i >> k >> x; while (i >> t) { V v = var(t); if (v.isNoId() || !v->isActive()) return false; } return true; }
      case 'K': return !posted.empty();
      case 'o': { ObjectId b = obj(x); TokenId s = tok(y), t = tok(z); if (!ok || s.isNoId() || t.isNoId() || !s->isActive() || !t->isActive()) return false;
        std::string me = x + " " + y + " " + z; if (orders.count(me)) return false;
        for (auto q : {s, t}) { if (!q->getObject()->lastDomain().isMember(b->getKey())) return false; for (auto& r : orders) if ((r + " ").find(" " + n.of(q) + " ") != std::string::npos && r.substr(0, r.find(' ')) != x) return false; }
        if (orders.count(x + " " + z + " " + y)) return false;
        // after the first pair one of the two is already there
        bool some = false, there = s == t; for (auto& r : orders) if (r.substr(0, r.find(' ')) == x) { some = true; for (auto q : {s, t}) if ((r + " ").find(" " + n.of(q) + " ") != std::string::npos) there = true; }
        return s == t ? !some : (!some || there); }
      case 'f': return orders.count(x + " " + y + " " + z) > 0;
    }
    return false;
  }
  // A log told that retractions are chronological drops what they undo: it is kept
  // only while each retraction undoes the latest operation left in it.
  void chronological(const std::string& o) {
    std::istringstream i(o); std::string k, x; i >> k >> x; if (chrono.isNoId()) return;
    if (!strchr("cuf", k[0])) { open_.push_back(o); return; }
    std::string b = open_.empty() ? "" : open_.back(), bk, bx; std::istringstream j(b); j >> bk >> bx;
    bool undo = k == "c" ? (bx == x && (bk == "a" || bk == "r" || bk == "m")) : k == "u" ? (bk == "s" && bx == x) : (bk == "o" && b.substr(1) == o.substr(1));
    if (undo) { open_.pop_back(); return; }
    delete static_cast<DbClientTransactionLog*>(chrono); chrono = DbClientTransactionLogId::noId();
  }
  void apply(const std::string& o) {
    chronological(o);
    std::istringstream i(o); std::string k, x, y, z; i >> k >> x >> y >> z; DbClientId c = e->client();
    switch (k[0]) {
      case 'v': { std::string w; i >> w; const Domain& b = e->db()->getConstraintEngine()->getCESchema()->baseDomain(x); if (z.empty()) c->createVariable(x, y); else { Domain* d = domain(b, z, w); c->createVariable(x, *d, y, false, true); delete d; } break; }
      case 'V': c->deleteVariable(var("." + x)); break;
      case 'T': { TokenId t = c->createToken(y, x, z == "rej", z == "fact"); n.root(t, x); break; }
      case 'D': { TokenId t = tok(x); n.byKey.erase(Names::k(t)); c->deleteToken(t); break; }
      case 'N': { std::vector<const Domain*> as; std::vector<std::string> ts; std::string a; if (!z.empty()) ts.push_back(z); while (i >> a) ts.push_back(a);
        CESchemaId s = e->ce()->getCESchema(); static const char* ty[] = {"int", "Mode", "float", "bool", "string", "R"};
        for (size_t j = 0; j < ts.size(); ++j) { if (!strcmp(ty[j], "R")) { as.push_back(new ObjectDomain(s->getDataType("R"), obj(ts[j]))); continue; } const Domain& b = s->baseDomain(ty[j]); edouble v; value(b, ts[j], v); Domain* d = b.copy(); if (d->isOpen() && !d->isMember(v)) d->insert(v); d->set(v); as.push_back(d); }
        c->createObject(x, y, as); for (auto d : as) delete const_cast<Domain*>(d); break; }
      case 'X': c->deleteObject(obj(x)); break;
      case 'z': if (x.empty()) c->close(); else c->close(x); break;
      case 'Z': c->close(var(x)); break;
      case 'a': c->activate(tok(x)); break;
      case 'r': c->reject(tok(x)); break;
      case 'm': c->merge(tok(x), tok(y)); break;
      case 'c': c->cancel(tok(x)); break;
      case 's': { V v = var(x); edouble r; value(v->lastDomain(), y, r); c->specify(v, r); break; }
      case 'u': c->reset(var(x)); break;
      case 'R': { V v = var(x); Domain* d = domain(v->baseDomain(), y, z); c->restrict(v, *d); delete d; break; }
      case 'k': { std::vector<V> s; std::string t; i.str(o); i.clear(); i >> k >> x; while (i >> t) s.push_back(var(t)); posted.push_back(std::make_pair(o, c->createConstraint(x, s, ""))); break; }
      case 'K': { ConstraintId q = posted.front().second; posted.erase(posted.begin()); c->deleteConstraint(q); break; }
      case 'o': c->constrain(obj(x), tok(y), tok(z)); orders.insert(x + " " + y + " " + z); break;
      case 'f': c->free(obj(x), tok(y), tok(z)); orders.erase(x + " " + y + " " + z); break;
    }
    c->propagate();
  }
};

// A fresh database of the same model the log is played into.
struct Replay {
  Eng* e; Names n;
  Replay(const World& w) : e(new Eng()) { e->load(std::string(MODEL) + (w.close ? "close();" : "")); e->ce()->propagate(); e->client()->enableTransactionLogging(); }
  ~Replay() { delete e; }
  // tokens made by the client, in their order, carry the names they had in the original
  void name(Sim& s) { auto& k1 = s.e->client()->m_keysOfTokensCreated; auto& k2 = e->client()->m_keysOfTokensCreated; size_t j = 0; for (auto k : k1) { if (j >= k2.size()) break; EntityId x = Entity::getEntity(k2[j]); if (x.isId()) n.root(TokenId(x), s.n.of(TokenId(Entity::getEntity(k)))); ++j; } }
};
static std::vector<std::string> view(Eng& e, Names& n, bool consistent) {
  DumpOpts o; o.derived = consistent; std::vector<std::string> l = dump(e, n, o);
  for (auto t : e.db()->getTokens()) { std::string s = "kind " + n.of(t) + (t->isFact() ? " fact" : "") + " state " + domText(t->getState()->baseDomain()); l.push_back(s); }
  for (auto v : e.ce()->getVariables()) if (v->getName().find("PSEUDO") == std::string::npos) l.push_back("open " + varName(v, n) + (v->isClosed() ? " closed" : " open"));
  for (auto o2 : e.db()->getObjects()) { l.push_back("type " + o2->getName() + " " + o2->getType()); }
  std::sort(l.begin(), l.end()); return l;
}

static void explore(const std::string& h, mc::Ctx& c, int depth) {
  c.begin(h); c.trace();
  size_t bar = h.find('|'); const World& w = worlds()[atoi(h.c_str())];
  std::vector<int> ops; std::istringstream i(h.substr(bar + 1)); int x; while (i >> x) ops.push_back(x);
  std::string what = "["; for (auto o : w.start) what += std::string(o) + "; "; for (int o : ops) what += std::string(w.ops[o]) + "; "; what += "]";
  Sim* s = new Sim(w); std::string kind = ops.empty() ? "start" : std::string(1, w.ops[ops.back()][0]);
  try {
    for (auto o : w.start) s->apply(o);
    for (int o : ops) { s->apply(w.ops[o]); c.transitions(); }
  } catch (Error& er) { c.violation("C17:history-error-" + kind, "an error was raised (" + er.getMsg() + ") while recording " + what); return; }
  bool ok = s->consistent(); s->scan();
  std::vector<std::string> mine = view(*s->e, s->n, ok);
  for (auto t : s->e->db()->getTokens()) if (t->master().isNoId() && s->n.of(t).find('/') != std::string::npos) { delete s; return; }   // retraction out of order: not loggable
  std::ostringstream txt; for (auto t : s->log->getBufferedTransactions()) txt << *t << std::endl;
  for (int mode = 0; mode < 4; ++mode) {
    if (s->log->getBufferedTransactions().empty() || (mode == 3 && s->chrono.isNoId())) break;
    Replay* r = new Replay(w); static const char* how[] = {"played as recorded", "written out and read back", "played from the log of its replay", "recorded without what was retracted"};
    try {
      DbClientTransactionPlayer p(r->e->client());
      if (mode == 0) p.play(s->log);
      else if (mode == 1) { std::istringstream in(txt.str()); p.play(in); }
      else if (mode == 3) p.play(s->chrono);
      else { Replay* m = new Replay(w); DbClientTransactionLog l2(m->e->client(), false); DbClientTransactionPlayer q(m->e->client()); q.play(s->log); std::ostringstream o2; l2.flush(o2); std::istringstream in(o2.str()); p.play(in); if (o2.str() != txt.str()) c.violation("C17:relog-" + kind, "the log of the replay differs from the log: " + o2.str() + " instead of " + txt.str() + " for " + what); }
      r->name(*s); c.evals(); bool ok2 = r->e->ce()->constraintConsistent();
      if (ok != ok2) c.violation("C17:consistency-" + kind, std::string("the plan is ") + (ok ? "consistent" : "inconsistent") + " but its replay (" + how[mode] + ") is not, after " + what);
      else { std::vector<std::string> other = view(*r->e, r->n, ok); if (mine != other) c.violation("C17:" + diffClass(mine, other) + "-" + kind, diff(mine, other, "plan", "replay") + " when " + how[mode] + ", after " + what + " log " + txt.str()); }
      delete r;
    } catch (Error& er) { c.violation("C17:replay-error-" + kind, "an error was raised (" + er.getMsg() + ") when " + how[mode] + ", for " + what + " log " + txt.str()); break; }
  }
  std::string key = std::to_string(atoi(h.c_str())) + (ok ? "" : "!") + text(mine); for (auto& o : s->orders) key += o; for (auto& p : s->posted) key += p.first;
  if (c.state(key) && (int)ops.size() < depth + w.deeper) for (size_t o = 0; o < w.ops.size(); ++o) if (s->enabled(w.ops[o])) c.emit(h + std::to_string(o) + " ");
  delete s;
}

int main(int argc, char** argv) {
  mc::Runner r("C17", argc, argv);
  quiet();
  int depth = r.quick ? 4 : 5;
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  std::vector<std::string> front; for (size_t i = 0; i < worlds().size(); ++i) front.push_back(std::to_string(i) + "|");
  r.bfs(front, depth + 2, [&](const std::string& h, mc::Ctx& c) { explore(h, c, depth); });
  r.rule = "all histories of client operations up to " + std::to_string(depth) + " steps in five settings, each log played three ways into fresh databases";
  r.sample("0|0 7 "); r.sample("1|0 6 ");
  return r.finish();
}
