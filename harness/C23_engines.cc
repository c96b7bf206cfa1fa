// modules: ALL
// C23: every interleaving of creating, loading, solving, resetting, upsetting,
// restarting and destroying up to two engines, through the system's facade.
// Each history runs in a process of its own; what an engine shows after each
// step is compared with what it shows when it is the first and only one.
#include <sys/wait.h>
#define PLAN_NDDL
#define PLAN_SOLVERS
#define PLAN_RESOURCES
#include "plan_lib.hh"
#include "PSEngineImpl.hh"
#include "Solver.hh"
#include "tinyxml.h"
#include "IdTable.hh"
#include "Constraint.hh"
#include "ConstraintType.hh"
#include "CESchema.hh"
#include "Rule.hh"
#include "NddlInterpreter.hh"
#include "RuleInstance.hh"
#include <boost/cast.hpp>
using namespace plan;

// ---------------------------------------------------------------- models
// The same names stand for different things in different models.
static const char* MODEL[] = {
  "enum Mode { On, Off } class R extends Timeline { predicate A { int p; p = [0 2]; eq(duration, 2); } predicate B { int q; Mode m; eq(duration, 1); } R() { } } "
  "R::A { meets(object.B b); if (p == 1) { b.m == On; } else { b.m == Off; } } int k = [0 9];",
  "enum Mode { Off, Slow, Fast } typedef int [1 3] small; class R { small s; string w; predicate A { Mode q; eq(duration, 3); } predicate C { } R(int x) { s = x; w = \"w\"; } } class S extends R { S() { super(2); } } "
  "R::A { if (q == Fast) { any(R.C c); starts_before c; } } int k = [0 9]; int j; k + j == 7;",
  "class R extends Reservoir { string profileType; R(float i, float lo, float hi) { super(i, lo, hi); profileType = \"IncrementalFlowProfile\"; } } class W extends Timeline { predicate A { int p; p = [1 2]; eq(duration, 2); } W() { } } "
  "W::A { starts(R.consume c); eq(c.quantity, 2.0); ends(R.produce g); eq(g.quantity, 1.0); } string k = {\"On\", \"Off\"};"};
static const char* PROBLEM[] = {
  "R r1 = new R(); R r2 = new R(); close(); goal(R.A a); a.start = [0 20]; a.end = [0 20]; goal(R.A b); b.start = [0 20]; b.end = [0 20]; a.object = r1; b.p = 1;",
  "R r1 = new R(1); S r2 = new S(); close(); goal(R.A a); a.start = [0 20]; a.end = [0 20]; a.q = Fast; a.object = r2; k > 3;",
  "R r1 = new R(4.0, 0.0, 6.0); W r2 = new W(); close(); goal(W.A a); a.start = [0 9]; a.end = [0 9]; goal(W.A b); b.start = [0 9]; b.end = [0 9];"};
static const int NM = 3;
// Texts that go wrong at different moments
static const char* UPSET[] = {"int bad = ; class", "Nothing n = new Nothing();",
  "class Bad extends Timeline { int z; predicate P { int y; } Bad() { z = 1.5; } } Bad bad = new Bad();",
  "class Bod { predicate O { int w; } predicate P { int y; y = 3; nothing(y, y); } } Bod bod = new Bod(); goal(Bod.P bp);",
  "class Bid { int z; Bid(int a) { z = a; } predicate P { int y; } } Bid::P { nothing(y, y); } Bid bid = new Bid(1); ",
  "class Bud { predicate P { int y; leq(y, 3); eq(duration, 2.5); } } Bud::P { any(Bud.P q); } Bud bud = new Bud(); goal(Bud.P up); up.y = [7 9]; up.activate(); rejectable(Bud.P ur); ur.y = 4.5;",
  "int m1 = [0 3]; m1 = 9; int m2 = \"t\"; leq(m1, nowhere);", "enum Dup { D1, D1 }; typedef Nope small2; Dup d = D7;"};
static const char* XML = "<Solver name=\"S\"><ThreatManager><FlawHandler component=\"StandardThreatHandler\"/></ThreatManager><OpenConditionManager><FlawHandler component=\"StandardOpenConditionHandler\"/></OpenConditionManager>"
  "<UnboundVariableManager><FlawFilter var-match=\"start\"/><FlawFilter var-match=\"end\"/><FlawFilter var-match=\"duration\"/><FlawFilter component=\"InfiniteDynamicFilter\"/><FlawHandler component=\"StandardVariableHandler\"/></UnboundVariableManager></Solver>";

// ---------------------------------------------------------------- one engine's life
struct Pse : public PSEngineImpl {
  ConstraintEngineId ce() { return getConstraintEngine(); }
  PlanDatabaseId db() { return getPlanDatabase(); }
};
struct Life {
  Pse* e; TiXmlDocument doc; SOLVERS::Solver* s; int model, problem; Names names; std::string said; bool upset, up;
  Life() : e(0), s(0), model(-1), problem(0), upset(false), up(false) { doc.Parse(XML); }
  // Sets of texts are ordered by when each was first seen in the process (a
  // known finding, tried on its own below): see all of them first, in one order.
  static void words() { for (auto t : MODEL) { std::string w; for (const char* p = t;; ++p) { if (isalnum((unsigned char)*p) || *p == '_') { w += *p; continue; } if (!w.empty()) LabelStr x(w); w.clear(); if (!*p) break; } } }
  void fresh() { model = -1; problem = 0; upset = false; names = Names(); said.clear(); }
  void script(const std::string& t) { std::string o; try { o = e->executeScript("nddl", t, false); } catch (Error& x) { o = "raised " + x.getMsg(); } catch (std::string& x) { o = "raised " + x; } catch (PSLanguageExceptionList& l) { std::ostringstream w; w << l; o = w.str(); } said += "<" + o + ">"; }
  bool enabled(char op) const {
    switch (op) {
      case 'C': return !e;
      case 'D': return e;
      case 'Z': return up && !s;
      case '0': case '1': case '2': return up && model < 0;
      case 'P': return up && model >= 0 && !problem;
      case 'S': return up && problem && !s;
      case 'T': return up && s && s->getStepCount() < 3;
      case 'K': return up && s;
      case 'U': return up && !upset;
    }
    return false;
  }
  void start() { e->start(); quiet(); up = true; }
  void stop() { if (s) { delete s; s = 0; } if (e) { delete e; e = 0; } up = false; fresh(); }
  void apply(char op) {
    switch (op) {
      case 'C': e = new Pse(); start(); break;
      case 'D': stop(); break;
      case 'Z': e->shutdown(); up = false; fresh(); start(); break;   // the same engine once more
      case '0': case '1': case '2': model = op - '0'; script(MODEL[model]); break;
      case 'P': problem = 1; script(PROBLEM[model]); break;
      case 'S': s = new SOLVERS::Solver(e->db(), *doc.RootElement()); try { said += s->solve(300, 300) ? "<solved>" : "<not solved>"; } catch (Error& x) { said += "<raised " + x.getMsg() + ">"; } break;
      case 'T': s->reset(); try { s->step(); s->step(); } catch (Error& x) { said += "<raised " + x.getMsg() + ">"; } break;
      case 'K': s->reset(); s->clear(); delete s; s = 0; break;
      case 'U': upset = true; for (auto t : UPSET) script(t); break;
    }
  }
  std::string show() {
    if (!up) return e ? "down" : "none";
    e->ce()->propagate();
    std::string t = "said " + said + "\n" + text(dump(*e, names));
    if (s) t += "solver depth " + std::to_string(s->getDepth()) + " steps " + std::to_string(s->getStepCount()) + " noflaws " + std::to_string(s->noMoreFlaws()) + " exhausted " + std::to_string(s->isExhausted()) + "\n";
    SchemaId sc = e->db()->getSchema(); std::set<std::string> l;
    for (auto& x : sc->getAllObjectTypes()) { std::string m = "type " + x; if (sc->isObjectType(x)) { if (sc->hasParent(x)) m += " extends " + sc->getParent(x); std::set<std::string> ps; sc->getPredicates(x, ps); for (auto& p : ps) { m += " " + p; const TokenTypeId tt = sc->getTokenType(x + "." + p); if (tt.isId()) for (auto& a : tt->getArgs()) m += " " + a.first + ":" + (a.second.isId() ? a.second->getName() : "?"); } } l.insert(m); }
    for (auto x : {"Mode", "small", "R", "S", "W", "int"}) { std::string m = std::string("is ") + x + " type " + std::to_string(sc->isType(x)) + " enum " + std::to_string(sc->isEnum(x)) + " data " + std::to_string(e->ce()->getCESchema()->isDataType(x)); if (sc->isEnum(x)) { std::set<std::string> vs; for (auto v : sc->getEnumValues(x)) vs.insert(LabelStr(v).toString()); for (auto& v : vs) m += " " + v; } l.insert(m); }
    for (auto x : {"R.A", "R.B", "R.C", "S.A", "S.C", "W.A", "W.B", "R.consume", "S.consume"}) { std::string m = std::string("is ") + x + " predicate " + std::to_string(sc->isPredicate(x)); if (sc->isPredicate(x)) for (auto y : {"p", "q", "m", "duration", "quantity"}) { m += std::string(" ") + y + (sc->hasMember(x, y) ? "+" : "-"); } l.insert(m); }
    for (auto x : {"R", "S", "W"}) if (sc->isObjectType(x)) { std::string m = std::string("line of ") + x; for (auto& y : sc->getAllObjectTypes(x)) m += " " + y; m += sc->hasPredicates(x) ? " with" : " without"; for (auto y : {"R", "S", "W", "Timeline", "Reservoir"}) if (sc->isObjectType(y) && sc->isA(x, y)) m += std::string(" a ") + y; l.insert(m); }
    for (auto x : {"On", "Off", "Slow", "Fast"}) if (sc->isEnumValue(LabelStr(x))) l.insert(std::string("value ") + x + " of " + sc->getEnumForValue(LabelStr(x)));
    std::multiset<std::string> rs; for (auto& r : boost::polymorphic_cast<RuleSchema*>(e->getComponent("RuleSchema"))->getRules()) rs.insert(r.first); for (auto& r : rs) l.insert("rule " + r + " *" + std::to_string(rs.count(r)));
    for (auto& x : l) t += x + "\n";
    return t;
  }
};

// ---------------------------------------------------------------- processes
static std::string inChild(const std::function<std::string()>& f, bool& died, std::string& how) {
  int fd[2]; if (pipe(fd)) abort();
  pid_t p = fork();
  if (!p) { close(fd[0]); std::string o; try { o = f(); } catch (Error& x) { o = "!an error was raised: " + x.getMsg(); } catch (std::exception& x) { o = std::string("!an exception was raised: ") + x.what(); } size_t k = 0; while (k < o.size()) { ssize_t n = write(fd[1], o.data() + k, o.size() - k); if (n <= 0) break; k += n; } _exit(0); }
  close(fd[1]); std::string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n); close(fd[0]);
  int st; waitpid(p, &st, 0); died = !WIFEXITED(st) || WEXITSTATUS(st);
  if (died) how = WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
  return o;
}
static size_t entities() { std::set<EntityId> s; Entity::getEntities(s); return s.size(); }
static std::map<std::string, int> ids() { std::map<std::string, int> m; for (auto& x : IdTable::getInstance().m_collection) ++m[LabelStr(x.second.second).toString()]; return m; }

// What a lone engine shows after a sequence of its own steps: filled on demand,
// each in a fresh process.  Kept per worker.
static std::map<std::string, std::string> lone;
static const std::string& alone(const std::string& ops) {
  auto i = lone.find(ops); if (i != lone.end()) return i->second;
  bool died; std::string how;
  std::string o = inChild([&]() { Life::words(); Life l; for (char c : ops) l.apply(c); return l.show(); }, died, how);
  if (died) o = "!the lone engine died: " + how;
  return lone[ops] = o;
}
static void explore(const std::string& h, mc::Ctx& c) {
  c.begin(h); c.trace(); c.evals();
  bool died; std::string how;
  // one part per step: slot, its own steps so far, what it shows; at the end counts
  std::string o = inChild([&]() {
    Life::words(); Life l[2]; std::string out; std::string own[2]; std::map<std::string, int> first; bool haveFirst = false; (void)haveFirst;
    for (size_t i = 0; i + 1 < h.size(); i += 2) {
      int k = h[i] - 'a'; char op = h[i + 1];
      if (!l[k].enabled(op)) return std::string("?");
      l[k].apply(op);
      if (op == 'C' || op == 'D') own[k].clear();
      if (op == 'Z') own[k] = "C"; else if (op != 'D') own[k] += op;
      for (int j = 0; j < 2; ++j) if (j == k || l[j].e) { out += std::string(1, 'a' + j) + own[j] + "\n" + l[j].show() + "\x01"; }
      if (!l[0].e && !l[1].e && entities()) { std::set<EntityId> s; Entity::getEntities(s); std::map<std::string, int> m; for (auto& x : s) ++m[x->getEntityType() + ":" + stripDigits(x->getName())]; out += "entities"; for (auto& x : m) out += " " + x.first + "*" + std::to_string(x.second); out += "\x01"; }
    }
    std::string can; for (int k = 0; k < 2; ++k) for (char op : std::string("CD012PSTKUZ")) if (l[k].enabled(op)) { can += char('a' + k); can += op; }
    return out + "can" + can;
  }, died, how);
  c.transitions(h.size() / 2);
  if (o == "?") return;
  if (died) { c.violation(std::string("C23:died") + h.substr(h.size() - 1), "after " + h + " the process dies with " + how); return; }
  if (o[0] == '!') { c.violation("C23:error", "after " + h + ": " + o.substr(1)); return; }
  std::istringstream in(o); std::string part, can;
  while (std::getline(in, part, '\x01')) {
    if (part.compare(0, 3, "can") == 0) { can = part.substr(3); break; }
    if (part.compare(0, 8, "entities") == 0) { c.violation("C23:left", "after " + h + " all engines are gone but there remain " + part.substr(8)); continue; }
    size_t nl = part.find('\n'); std::string own = part.substr(1, nl - 1), shows = part.substr(nl + 1);
    const std::string& want = alone(own); c.evals();
    if (want[0] == '!') { c.violation("C23:lone", "a lone engine after " + own + ": " + want.substr(1)); continue; }
    if (want != shows) {
      auto lines = [](const std::string& t) { std::vector<std::string> v; std::istringstream s(t); std::string l; while (std::getline(s, l)) v.push_back(l); std::sort(v.begin(), v.end()); return v; };
      auto a = lines(shows), b = lines(want);
      c.violation("C23:" + diffClass(a, b), "in " + h + " engine " + part[0] + " after its own steps " + own + " differs from a lone one: " + diff(a, b, "here", "alone")); return;
    }
  }
  c.state(h);
  for (size_t i = 0; i + 1 < can.size(); i += 2) {
    // engines are alike: the first to be made is a
    if (can[i] == 'b' && h.find("aC") == std::string::npos) continue;
    c.emit(h + can.substr(i, 2));
  }
}
// The Id table after the same life once, twice and three times.
static void again(const std::string& ops, mc::Ctx& c) {
  c.begin("again-" + ops); c.trace(); c.evals(); c.state("again-" + ops);
  bool died; std::string how;
  std::string o = inChild([&]() {
    std::map<std::string, int> was; std::string out;
    for (int k = 0; k < 3; ++k) {
      { Life l; for (char x : ops) if (l.enabled(x)) l.apply(x); l.stop(); }
      std::map<std::string, int> now = ids(); if (k) for (auto& x : now) if (x.second > was[x.first]) out += x.first + " " + std::to_string(was[x.first]) + "->" + std::to_string(x.second) + " ";
      was = now; if (!out.empty()) break;
    }
    return out; }, died, how);
  c.transitions(ops.size() * 3);
  if (died) { c.violation("C23:died-again", "the life " + ops + " a second time dies with " + how); return; }
  if (!o.empty()) c.violation("C23:ids", "after the life " + ops + " again there are more of: " + o);
}
// The same life with the texts seen in the order of another model before.
static void labels(int m, int other, mc::Ctx& c) {
  std::string name = "labels-" + std::to_string(m) + std::to_string(other), life = std::string("C") + char('0' + m) + "PS";
  c.begin(name); c.trace(); c.evals(2); c.state(name); c.transitions(8);
  std::string o[2]; for (int k = 0; k < 2; ++k) { bool died; std::string how; o[k] = inChild([&]() { if (k) { Life x; x.apply('C'); x.apply(char('0' + other)); x.stop(); } Life l; for (char op : life) l.apply(op); return l.show(); }, died, how); if (died) { c.violation("C23:died", name + " dies with " + how); return; } }
  if (o[0] != o[1]) c.violation("C23:label-order", "after an engine with model " + std::to_string(other) + " is gone, another one with model " + std::to_string(m) + " is not solved as if it were the first");
}
int main(int argc, char** argv) {
  mc::Runner r("C23", argc, argv);
  quiet();
  auto one = [&](const std::string& s, mc::Ctx& c) { if (s.compare(0, 6, "again-") == 0) again(s.substr(6), c); else if (s.compare(0, 7, "labels-") == 0) labels(s[7] - '0', s[8] - '0', c); else explore(s, c); };
  if (getenv("C23_SHOW")) { Life l; for (char x : std::string(getenv("C23_SHOW"))) l.apply(x); std::cout << l.show(); return 0; }
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { one(s, c); });
  std::vector<std::string> lives;
  for (int m = 0; m < NM; ++m) for (std::string t : {"C", "CU", "CM", "CMU", "CMP", "CMPU", "CMPS", "CMPST", "CMPSK", "CMPSTK", "CMPZMPS", "CMPSKZMP"}) { std::string x; for (char ch : t) x += ch == 'M' ? char('0' + m) : ch; if (std::find(lives.begin(), lives.end(), x) == lives.end()) lives.push_back(x); }
  if (!getenv("C23_H")) r.parallel(lives.size(), [&](size_t i, mc::Ctx& c) { again(lives[i], c); });
  r.parallel(NM * NM, [&](size_t i, mc::Ctx& c) { if (i % NM != i / NM) labels(int(i % NM), int(i / NM), c); });
  int d = getenv("C23_DEPTH") ? atoi(getenv("C23_DEPTH")) : r.quick ? 5 : 6;
  std::vector<std::string> f(1, "aC"), starts;
  // longer histories start where an engine, or two, are already at work or gone
  r.bfs(f, d, [&](const std::string& h, mc::Ctx& c) { explore(h, c); });
  r.rule = "all interleavings of create, load (three models that use the same names for different things), pose, solve, step, clear, upset with faulty text, restart and destroy of two engines; after every step each engine against a lone one in a fresh process; entities gone when all engines are; Ids no more after a life again";
  r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("aCa0aPbCb0bPaSbS"); r.sample("aCa1aPaSaDaCa0");
  r.assumptions = {"a solver is deleted before its engine", "one thread", "Ids of process-wide constants made on first use may remain"};
  return r.finish();
}
