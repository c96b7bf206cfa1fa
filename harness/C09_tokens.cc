// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
// C09: every history of token operations up to a depth; each state reached is
// compared with (1) a fresh plan database given only the steps still in force,
// and (2) one in which every merge is replaced by explicit equalities.
#include "token_history.hh"

static const char* M1 =
  "class R { int id; R(int a){ id = a; } predicate A { int p; p = [0 3]; } predicate B { int q; q = [0 3]; } predicate C { int p; p = [0 3]; } predicate D { int p; p = [0 3]; } }\n"
  "R::C { meets(R.B b); eq(b.q, p); }\n"
  "R::D { if (p == 2) { starts_before(R.B b); leq(b.q, p); } }\n"
  "R o1 = new R(1); R o2 = new R(2); close();\n";
static std::vector<World>& worlds() {
  static std::vector<World> w = {
    {M1, {{"t0", "R.A", true, false}, {"t1", "R.A", false, false}, {"t2", "R.A", false, false}}, {"t0", "t1", "t2"},
     {{"precedes", {{0, "end"}, {1, "start"}}}, {"eq", {{0, "p"}, {2, "p"}}}, {"lt", {{1, "p"}, {2, "p"}}}, {"eq", {{0, "object"}, {1, "object"}}}, {"leq", {{2, "duration"}, {0, "duration"}}}},
     {{0, "p", 1}, {1, "p", 2}, {0, "start", 5}, {2, "object", 1}, {1, "p", 1}},
     {{0, "p", 2}, {1, "end", 9}}, true, false, nullptr},
    {M1, {{"t0", "R.C", false, false}, {"t1", "R.B", true, false}, {"t2", "R.C", false, false}}, {"t0", "t1", "t2", "t0/R.B:meets", "t2/R.B:meets"},
     {{"lt", {{1, "q"}, {0, "p"}}}, {"leq", {{3, "end"}, {1, "end"}}}, {"eq", {{3, "object"}, {0, "object"}}}},
     {{3, "q", 1}, {1, "q", 2}, {0, "p", 2}},
     {{2, "p", 1}}, true, false, nullptr},
    {M1, {{"t0", "R.D", false, false}, {"t1", "R.B", false, false}, {"t2", "R.D", false, false}}, {"t0", "t1", "t2", "t0/R.B:starts_before", "t2/R.B:starts_before"},
     {{"eq", {{0, "p"}, {2, "p"}}}, {"lt", {{1, "q"}, {0, "p"}}}},
     {{0, "p", 2}, {2, "p", 2}, {0, "p", 1}, {3, "q", 0}},
     {}, false, false, nullptr}};
  return w;
}

int main(int argc, char** argv) {
  PID = "C09";
  mc::Runner r("C09", argc, argv);
  memo = new std::unordered_map<std::string, View>();
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  int depth = r.quick ? 4 : 6, lazyDepth = r.quick ? 3 : 5;
  std::vector<std::string> roots;
  for (int w = 0; w < (int)worlds().size(); ++w) roots.push_back(std::to_string(w) + "Eb|");
  int reached0 = r.bfs(roots, depth, [&](const std::string& h, mc::Ctx& c) { explore(h, c, depth); });
  // deeper, from plans in which merges and sub-goals are already there
  roots = {"0Eb2|b0 b1 ", "0Eb4|b0 a2 m0>2 m1>2 ", "0Eb3|a1 s0 m0>1 ", "1Eb3|a0 a3 m1>3 ", "1Eb4|a0 a2 a4 m3>4 ", "2Eb4|a0 s0 a3 m1>3 "};
  int after = r.quick ? 3 : 5;
  int reached = r.bfs(roots, after, [&](const std::string& h, mc::Ctx& c) { explore(h, c, after); });
  roots.clear(); for (int w = 0; w < (int)worlds().size(); ++w) roots.push_back(std::to_string(w) + "Lb|");
  int lreached = r.bfs(roots, lazyDepth, [&](const std::string& h, mc::Ctx& c) { explore(h, c, lazyDepth); });
  r.rule = "all histories of token and constraint operations, states compared with a plan given only the steps in force";
  r.extras.push_back({"worlds", std::to_string(worlds().size())});
  r.extras.push_back({"depth", std::to_string(reached0)}); r.extras.push_back({"depth_after_prefixes", std::to_string(reached)}); r.extras.push_back({"depth_lazy", std::to_string(lreached)});
  r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0Eb|a1 m0>1 s1 c0"); r.sample("1Eb|a0 a1 m3>1 c0");
  r.assumptions = {"a reset, retraction or deletion is made only of something made before", "merges only onto a token of the same predicate whose domains intersect"};
  return r.finish();
}
