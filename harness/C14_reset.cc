// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,Solvers,NDDL
// C14: every history of solver commands (single steps, bounded solves, resets
// and backjumps of every depth, clear) on a set of problems.  After each
// command the plan equals the one recorded when the present depth was last
// reached from below; limits are exact; and solving on gives the right answer.
// Also: enumerating solutions by backjumping yields each solution once.
#include "solver_lib.hh"
#include "SearchListener.hh"
using namespace sol;
struct Problem { const char* text; int cfg; };
static const Problem PROBLEMS[] = {
  {"C 1 1 0 2 1", 0}, {"C 0 0 0 5", 1}, {"C 1 2 1 5 3", 6}, {"C 3 1 1 0 7", 1},
  {"P 1 1 5 0 1", 0}, {"P 63 1 5 0", 1}, {"P 20 1 5 5 5 8", 2}, {"P 24 2 5 9 6 13", 4}, {"P 0 1 5 6 6 6", 0}, {"P 0 1 5 6 7 12", 3}, {"P 44 2 5 0 13", 5}, {"P 3 1 5 0 14 2", 6}, {"P 0 2 5 7 6 6", 2}, {"P 21 1 5 0 7", 3}};
static const int NPROB = sizeof PROBLEMS / sizeof PROBLEMS[0];
typedef std::vector<std::string> Dump;
struct Run;
struct Rec : public SOLVERS::SearchListener { Run& r; Rec(Run& x) : r(x) {} void notifyStepSucceeded(SOLVERS::DecisionPointId); void notifyCreated(SOLVERS::DecisionPointId); void notifyRetractSucceeded(SOLVERS::DecisionPointId); void notifyDeleted(SOLVERS::DecisionPointId); };
struct Run {
  const Problem& pr; Csp csp; Prob prob; bool isCsp, sat; Eng* e; Sol* so; Names n; std::vector<V> vs; std::vector<TokenId> toks; std::vector<Dump> at; Rec* rec; size_t deepest; unsigned steps; bool pending;
  Run(const Problem& p) : pr(p), isCsp(p.text[0] == 'C'), deepest(0), steps(0), pending(false) {
    e = new Eng();
    if (isCsp) { std::istringstream i(pr.text + 2); int x; for (int k = 0; k < 3; ++k) { i >> x; csp.dom.push_back(x); } while (i >> x) csp.con.push_back(x); csp.build(*e, vs); sat = csp.solutions() > 0; }
    else { prob = Prob::parse(pr.text + 2); prob.build(*e, toks, n); long k = 0; std::vector<Inst> h; sat = prob.satisfiable(k, h); }
    e->ce()->propagate(); at.push_back(dump());
    so = new Sol(*e, solverXml(CFGS[pr.cfg])); rec = new Rec(*this); (*so)->addListener(rec->getId());
  }
  ~Run() { delete so; delete rec; delete e; }
  Solver& s() { return *so->s; }
  Dump dump() { return plan::dump(*e, n); }
  std::string check() {
    if (!isCsp) return prob.check(*e, n);
    std::vector<int> v; for (auto x : vs) { if (!x->isSpecified()) return x->getName() + " is undecided"; v.push_back((int)cast_double(x->lastDomain().getSingletonValue())); } return csp.ok(v) ? "" : "a constraint is violated";
  }
  std::string text() const { return (isCsp ? csp.text() : prob.text()) + ", configuration " + std::to_string(pr.cfg); }
};
void Rec::notifyStepSucceeded(SOLVERS::DecisionPointId) { size_t d = r.s().getDepth(); ++r.steps; r.pending = false; r.at.resize(d); r.at.push_back(r.dump()); r.deepest = std::max(r.deepest, d); }
void Rec::notifyCreated(SOLVERS::DecisionPointId) { r.pending = true; }
void Rec::notifyRetractSucceeded(SOLVERS::DecisionPointId) { r.pending = true; }
void Rec::notifyDeleted(SOLVERS::DecisionPointId) { r.pending = false; }
static std::string say(const std::string& o) { switch (o[0]) { case 's': return "step"; case 'R': return "reset"; case 'r': return "reset(" + o.substr(1) + ")"; case 'j': return "backjump(" + o.substr(1) + ")"; case 'n': return "solve(" + o.substr(1) + " steps)"; case 'd': return "solve(depth " + o.substr(1) + ")"; case 'x': return "solve"; default: return "clear"; } }
static const unsigned INF = std::numeric_limits<unsigned>::max();

static void explore(const std::string& h, mc::Ctx& c, int depth) {
  c.begin(h); c.trace();
  int pi = atoi(h.c_str()); std::vector<std::string> ops; { std::istringstream i(h.substr(h.find('|') + 1)); std::string t; while (i >> t) ops.push_back(t); }
  Run r(PROBLEMS[pi]); Solver& s = r.s();
  std::string what = "["; for (auto& o : ops) what += say(o) + "; "; what += "] on " + r.text();
  bool pruned = false, cleared = false, resetAll = false;
  auto bad = [&](const char* sig, const std::string& m) { c.violation(std::string("C14:") + sig, m + " after " + what); };
  auto restored = [&](const char* sig) {
    r.e->ce()->propagate(); size_t d = s.getDepth(); c.evals();
    if (d >= r.at.size()) return;
    r.at.resize(d + 1); Dump now = r.dump();
    if (now != r.at[d]) bad(sig, "the plan at depth " + std::to_string(d) + " is not what it was when that depth was reached: " + diff(now, r.at[d], "now", "then"));
  };
  try {
    for (size_t k = 0; k < ops.size(); ++k) {
      const std::string& o = ops[k]; unsigned a = o.size() > 1 ? atoi(o.c_str() + 1) : 0; size_t d0 = s.getDepth(); unsigned n0 = s.getStepCount(); r.deepest = d0; r.steps = 0;
      c.transitions();
      switch (o[0]) {
        case 's': s.step(); if (s.getDepth() > d0 + 1 || s.getStepCount() > n0 + 1) bad("step", "a single step made more than one decision"); break;
        case 'x': case 'n': case 'd': {
          bool ok = o[0] == 'n' ? s.solve(a) : o[0] == 'd' ? s.solve(INF, a) : s.solve();
          if (o[0] == 'n') { unsigned did = s.getStepCount() - n0; if (did > a) bad("step-limit", "a limit of " + std::to_string(a) + " steps allowed " + std::to_string(did)); if (s.isTimedOut() && did != a) bad("step-limit", "timed out after " + std::to_string(did) + " of " + std::to_string(a) + " steps"); }
          if (o[0] == 'd') { if (r.deepest > d0 + a + 1) bad("depth-limit", "a depth limit of " + std::to_string(a) + " let the stack grow from " + std::to_string(d0) + " to " + std::to_string(r.deepest)); if (s.isTimedOut() && s.getDepth() != d0 + a + 1) bad("depth-limit", "timed out at depth " + std::to_string(s.getDepth()) + " from " + std::to_string(d0) + " with limit " + std::to_string(a)); }
          if (o[0] == 'x' && s.isTimedOut()) bad("spurious-timeout", "a solve without limits timed out");
          if ((int)ok + s.isExhausted() + s.isTimedOut() != 1) bad("outcome", "not exactly one of success, exhaustion and timeout");
          break; }
        case 'R': s.reset(); r.pending = false; if (s.getDepth()) bad("reset-depth", "reset leaves decisions"); break;
        case 'r': s.reset(a); r.pending = false; if (s.getDepth() != d0 - a) bad("reset-depth", "reset(" + std::to_string(a) + ") went from depth " + std::to_string(d0) + " to " + std::to_string(s.getDepth())); break;
        case 'j': { unsigned p = r.pending ? 1 : 0; bool ex = s.backjump(a); pruned = true; if (ex != s.isExhausted()) bad("backjump", "the result of backjump disagrees with isExhausted"); if (!ex && s.getDepth() + a > d0 + p) bad("backjump", "backjump(" + std::to_string(a) + ") went from depth " + std::to_string(d0) + " to " + std::to_string(s.getDepth())); break; }
        case 'c': s.clear(); r.pending = false; cleared = true; r.e->ce()->propagate(); { Dump now = r.dump(); Dump was = r.at.size() > d0 ? r.at[d0] : now; if (now != was) bad("clear", "clear changed the plan: " + diff(now, was, "now", "before")); r.at.assign(1, now); } break;
      }
      if (s.getDepth() <= d0 || o[0] != 's') restored(o[0] == 'r' || o[0] == 'R' ? "reset-restores" : o[0] == 'j' ? "backjump-restores" : "backtrack-restores");
      if (o[0] == 'R' && !pruned && !cleared) resetAll = k + 1 == ops.size();
    }
    bool done = s.isExhausted();
    std::string flags = std::to_string(s.getDepth()) + (done ? "X" : "") + (pruned ? "P" : "") + (cleared ? "C" : "");
    c.state(std::to_string(pi) + flags + text(r.dump()) + s.getLastExecutedDecision());
    if ((int)ops.size() < depth) {
      auto go = [&](const std::string& o) { c.emit(h + o + " "); };
      unsigned long d = s.getDepth();
      if (!done) { go("s"); for (int k = 1; k <= 3; ++k) go("n" + std::to_string(k)); for (int k = 0; k <= 2; ++k) go("d" + std::to_string(k)); if (ops.empty() || ops.back() != "x") go("x"); }
      if (!ops.empty() && ops.back() != "R") go("R");
      for (unsigned long k = 1; k <= d && k <= 4; ++k) { go("r" + std::to_string(k)); if (!done) go("j" + std::to_string(k)); }
      if (!ops.empty() && ops.back() != "c" && !cleared && !done && d) go("c");
    }
    // the answer from here
    if (!done) {
      unsigned n0 = s.getStepCount(); bool ok = s.solve(20000);
      if (s.isTimedOut()) bad("answer", "solving on does not end");
      else if (!pruned && !cleared && ok != r.sat) bad("answer", std::string("solving on reports ") + (ok ? "success" : "exhaustion") + " but the problem has " + (r.sat ? "a" : "no") + " solution,");
      if (ok) { std::string b = r.check(); if (!b.empty()) bad("answer", "solving on succeeds but " + b + ","); }
      if (resetAll) { Run f(PROBLEMS[pi]); f.s().solve(20000); if (f.s().getStepCount() != s.getStepCount() - n0) bad("fresh", "solving after a reset takes " + std::to_string(s.getStepCount() - n0) + " steps, a first solve " + std::to_string(f.s().getStepCount())); Dump x = r.dump(), y = f.dump(); r.e->ce()->propagate(); if (ok && x != y) bad("fresh", "solving after a reset gives another plan than a first solve: " + diff(x, y, "again", "first")); }
      restored("backtrack-restores");
    }
    s.reset(); restored("reset-restores");
  } catch (Error& e) { bad("error", "an error was raised (" + e.getMsg() + ")"); }
}
static void enumerate(const std::string& h, mc::Ctx& c) {
  c.begin(h); c.trace(); Csp p; int cfg, x; std::istringstream i(h.substr(2)); i >> cfg; for (int k = 0; k < 3; ++k) { i >> x; p.dom.push_back(x); } while (i >> x) p.con.push_back(x);
  Eng* e = new Eng(); std::vector<V> vs; p.build(*e, vs); std::set<std::vector<int>> got; std::string what = p.text() + "configuration " + std::to_string(cfg);
  try { Sol so(*e, solverXml(CFGS[cfg])); int guard = 0;
    while (so->solve(20000) && ++guard < 200) {
      std::vector<int> v; for (auto y : vs) v.push_back((int)cast_double(y->lastDomain().getSingletonValue()));
      if (!p.ok(v)) c.violation("C14:enumerate", "a wrong assignment is offered for " + what);
      if (!got.insert(v).second) { c.violation("C14:enumerate", "the same solution is offered twice for " + what); break; }
      if (!so->getDepth() || so->backjump(1)) break;
    }
    if ((int)got.size() != p.solutions()) c.violation("C14:enumerate", "backjumping from each solution finds " + std::to_string(got.size()) + " of the " + std::to_string(p.solutions()) + " solutions of " + what);
    c.state("E" + what); c.transitions(got.size() + 1); so->reset();
  } catch (Error& x) { c.violation("C14:error", "an error was raised (" + x.getMsg() + ") while enumerating solutions of " + what); }
  delete e;
}
int main(int argc, char** argv) {
  mc::Runner r("C14", argc, argv); quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { if (s[0] == 'E') enumerate(s, c); else explore(s, c, 0); });
  int depth = r.quick ? 3 : 4, after = r.quick ? 2 : 3;
  std::vector<std::string> roots; for (int i = 0; i < NPROB; ++i) roots.push_back(std::to_string(i) + "|");
  int a = r.bfs(roots, depth, [&](const std::string& h, mc::Ctx& c) { explore(h, c, depth); });
  std::vector<std::string> deep; for (auto& x : roots) for (const char* p : {"n3 ", "n5 ", "n8 ", "x "}) deep.push_back(x + p);
  int b = r.bfs(deep, after + 1, [&](const std::string& h, mc::Ctx& c) { explore(h, c, after + 1); });
  std::vector<std::string> en; int nc = cons().size();
  for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) for (int z = 0; z < 4; ++z) for (int i = -1; i < nc; ++i) for (int j = i; j < nc; ++j) { std::vector<int> k; if (i >= 0) k.push_back(i); if (j > i) k.push_back(j); if (!Csp::usable(x, y, z, k)) continue; for (int cfg : {0, 1, 6}) { std::string s = "E " + std::to_string(cfg) + " " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(z); for (int q : k) s += " " + std::to_string(q); en.push_back(s); } }
  r.parallel(en.size(), [&](size_t i, mc::Ctx& c) { enumerate(en[i], c); });
  r.rule = "all histories of solver commands, and all enumerations of solutions by backjumping";
  r.extras.push_back({"problems", std::to_string(NPROB)}); r.extras.push_back({"depth", std::to_string(a)}); r.extras.push_back({"depth_after_prefixes", std::to_string(b)}); r.extras.push_back({"enumerations", std::to_string(en.size())}); r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0|s n2 r1 "); r.sample("7|n5 j2 x ");
  r.assumptions = {"a decision that is being worked on counts as one of those backjumped over", "a depth limit is exceeded once the stack has grown by more than the limit, as the existing tests take it", "backjumping and clear discard choices, so only soundness is required of a later solve"};
  return r.finish();
}
