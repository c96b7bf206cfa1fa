// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,Solvers,NDDL,Resource
// C16: every history of usages coming, changing and going on real resources
// with limits; violations and flaws compared with what every schedule of the
// current usages does to the limits, and with those of a fresh database.
#include "resource_lib.hh"
using namespace rs;

static const std::vector<World>& worlds() {
  static std::vector<World> w = {
    // 0: a reservoir with level limits
    {'V', 1, {2, 0, 4, PI, PI, PI, PI}, {{"a.time", 't', 0, 3}, {"a.q", 'q', 1, 2}, {"b.time", 't', 1, 4}, {"b.q", 'q', 3, 3}, {"c.time", 't', 2, 3}, {"c.q", 'q', 2, 3}},
     {{"a", 'c', {0, 1}}, {"b", 'p', {2, 3}}, {"c", 'c', {4, 5}}},
     {{"precedes", {0, 2}}, {"concurrent", {2, 4}}, {"strictlyPrecedes", {4, 2}}},
     {{'A', 0}, {'A', 1}, {'A', 2}, {'C', 0}, {'C', 1}, {'C', 2}, {'D', 2}, {'M', 2, 0}, {'p', 0}, {'p', 1}, {'p', 2}, {'r', 0}, {'r', 1}, {'r', 2}, {'s', 0, 2}, {'u', 0}, {'s', 2, 2}, {'u', 2}, {'s', 4, 2}, {'s', 4, 3}, {'u', 4}, {'s', 1, 1}, {'u', 1}, {'s', 5, 3}, {'u', 5}, {'b', 2, 2, 4}}, 4, 3, {"A0 A1 A2 ", "A0 A1 A2 s0.2 s2.2 s5.3 "}},
    // 1: a reusable resource
    {'U', 1, {3, 0, PI, PI, PI, PI, PI}, {{"a.start", 't', 0, 2}, {"a.duration", 'd', 1, 2}, {"a.end", 't', 1, 4}, {"a.q", 'q', 1, 2}, {"b.start", 't', 1, 3}, {"b.duration", 'd', 2, 2}, {"b.end", 't', 2, 5}, {"b.q", 'q', 2, 2}, {"c.start", 't', 2, 3}, {"c.duration", 'd', 1, 1}, {"c.end", 't', 3, 4}, {"c.q", 'q', 1, 4}},
     {{"a", 'u', {0, 1, 2, 3}}, {"b", 'u', {4, 5, 6, 7}}, {"c", 'u', {8, 9, 10, 11}}},
     {{"precedes", {2, 4}}, {"concurrent", {0, 4}}, {"precedes", {6, 8}}},
     {{'A', 0}, {'A', 1}, {'A', 2}, {'C', 0}, {'C', 1}, {'C', 2}, {'M', 2, 0}, {'p', 0}, {'p', 1}, {'p', 2}, {'r', 0}, {'r', 1}, {'r', 2}, {'s', 0, 2}, {'u', 0}, {'s', 1, 1}, {'u', 1}, {'s', 3, 2}, {'u', 3}, {'s', 4, 2}, {'u', 4}, {'s', 8, 2}, {'u', 8}, {'s', 11, 3}, {'s', 11, 1}, {'u', 11}, {'b', 3, 2, 2}}, 3, 3, {"A0 A1 ", "A0 A1 A2 s0.2 s1.1 s4.2 s3.2 "}},
    // 2: a unary resource
    {'1', 1, {1, 0, 1, PI, PI, PI, PI}, {{"a.start", 't', 0, 2}, {"a.duration", 'd', 1, 3}, {"a.end", 't', 1, 4}, {"b.start", 't', 1, 3}, {"b.duration", 'd', 1, 1}, {"b.end", 't', 2, 5}, {"c.start", 't', 0, 3}, {"c.duration", 'd', 2, 2}, {"c.end", 't', 2, 5}},
     {{"a", 'n', {0, 1, 2}}, {"b", 'n', {3, 4, 5}}, {"c", 'n', {6, 7, 8}}},
     {{"precedes", {2, 3}}, {"concurrent", {0, 3}}, {"precedes", {5, 6}}, {"precedes", {8, 0}}},
     {{'A', 0}, {'A', 1}, {'A', 2}, {'C', 0}, {'C', 1}, {'C', 2}, {'M', 1, 2}, {'D', 1}, {'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'s', 0, 1}, {'u', 0}, {'s', 1, 2}, {'u', 1}, {'s', 3, 2}, {'s', 3, 3}, {'u', 3}, {'s', 6, 2}, {'u', 6}}, 4, 3, {"A0 A1 ", "A0 A1 A2 s0.1 s1.2 s6.3 "}},
    // 3: usage by constraints, two resources to choose from
    {'C', 2, {2, 0, PI, PI, PI, PI, PI}, {{"r", 'r', 0, 1}, {"q", 'q', 1, 2}, {"s", 't', 0, 2}, {"f", 't', 1, 4}, {"r2", 'r', 0, 1}, {"q2", 'q', 1, 3}, {"s2", 't', 1, 3}, {"f2", 't', 2, 5}},
     {}, {{"uses", {0, 1, 2, 3}}, {"uses", {4, 5, 6, 7}}, {"strictlyPrecedes", {2, 3}}, {"strictlyPrecedes", {6, 7}}, {"precedes", {3, 6}}, {"concurrent", {2, 6}}},
     {{'p', 0}, {'p', 1}, {'p', 4}, {'p', 5}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 4}, {'r', 5}, {'s', 0, 0}, {'s', 0, 1}, {'u', 0}, {'s', 4, 0}, {'u', 4}, {'s', 1, 2}, {'u', 1}, {'s', 2, 1}, {'u', 2}, {'s', 3, 3}, {'u', 3}, {'s', 5, 1}, {'s', 5, 3}, {'u', 5}, {'s', 6, 2}, {'u', 6}, {'s', 7, 4}, {'u', 7}}, 3, 3, {"s0.0 s4.0 p2 p3 p0 p1 ", "s0.0 p2 p3 p0 p1 ", "s0.0 s4.0 p2 p3 p0 p1 s1.2 s2.1 s3.3 s6.2 s7.4 "}},
    // 4: a reservoir with rates and totals
    {'V', 1, {5, 0, 10, 3, 5, 2, 4}, {{"a.time", 't', 0, 2}, {"a.q", 'q', 1, 2}, {"b.time", 't', 1, 3}, {"b.q", 'q', 2, 3}, {"c.time", 't', 1, 2}, {"c.q", 'q', 1, 3}, {"e.time", 't', 2, 4}, {"e.q", 'q', 1, 3}},
     {{"a", 'c', {0, 1}}, {"b", 'p', {2, 3}}, {"c", 'c', {4, 5}}, {"e", 'p', {6, 7}}},
     {{"precedes", {0, 2}}, {"concurrent", {2, 6}}, {"concurrent", {0, 4}}},
     {{'A', 0}, {'A', 1}, {'A', 2}, {'A', 3}, {'C', 0}, {'C', 1}, {'C', 2}, {'C', 3}, {'p', 0}, {'p', 1}, {'p', 2}, {'r', 0}, {'r', 1}, {'r', 2}, {'s', 0, 1}, {'u', 0}, {'s', 4, 1}, {'u', 4}, {'s', 2, 3}, {'u', 2}, {'s', 6, 3}, {'s', 6, 4}, {'u', 6}, {'s', 1, 2}, {'u', 1}, {'s', 3, 3}, {'u', 3}, {'s', 5, 1}, {'s', 5, 3}, {'u', 5}, {'s', 7, 1}, {'s', 7, 3}, {'u', 7}}, 3, 2, {"A0 A1 ", "A0 A1 A2 A3 s0.1 s4.2 s2.3 s6.4 ", "A0 A1 A2 A3 s0.1 s1.1 s4.1 s5.1 s2.3 s3.2 s6.4 s7.1 "}},
    // 5: two reservoirs to choose from
    {'V', 2, {1, 0, 3, PI, PI, PI, PI}, {{"a.time", 't', 0, 2}, {"a.q", 'q', 1, 2}, {"b.time", 't', 1, 3}, {"b.q", 'q', 2, 3}},
     {{"a", 'c', {0, 1}}, {"b", 'p', {2, 3}}},
     {{"precedes", {2, 0}}, {"concurrent", {0, 2}}},
     {{'A', 0}, {'A', 1}, {'C', 0}, {'C', 1}, {'o', 0, 0}, {'o', 0, 1}, {'O', 0}, {'o', 1, 0}, {'o', 1, 1}, {'O', 1}, {'p', 0}, {'p', 1}, {'r', 0}, {'r', 1}, {'s', 0, 2}, {'u', 0}, {'s', 2, 2}, {'u', 2}, {'s', 1, 2}, {'u', 1}, {'s', 3, 2}, {'s', 3, 3}, {'u', 3}}, 4, 3, {"A0 A1 o0.0 o1.0 "}},
    // 6: a reusable resource with a rate and a total
    {'U', 1, {4, 0, PI, PI, PI, 3, 4}, {{"a.start", 't', 0, 1}, {"a.duration", 'd', 1, 2}, {"a.end", 't', 1, 3}, {"a.q", 'q', 1, 2}, {"b.start", 't', 1, 2}, {"b.duration", 'd', 1, 1}, {"b.end", 't', 2, 3}, {"b.q", 'q', 2, 3}},
     {{"a", 'u', {0, 1, 2, 3}}, {"b", 'u', {4, 5, 6, 7}}},
     {{"precedes", {2, 4}}, {"concurrent", {0, 4}}},
     {{'A', 0}, {'A', 1}, {'C', 0}, {'C', 1}, {'p', 0}, {'p', 1}, {'r', 0}, {'r', 1}, {'s', 0, 1}, {'u', 0}, {'s', 1, 1}, {'u', 1}, {'s', 3, 2}, {'s', 3, 1}, {'u', 3}, {'s', 4, 1}, {'s', 4, 2}, {'u', 4}, {'s', 7, 2}, {'s', 7, 3}, {'u', 7}}, 4, 3, {"A0 A1 "}}};
  return w;
}
static const char* profileName(char p) { return p == 'B' ? "IncrementalFlowProfile" : p == 'G' ? "GroundedProfile" : "TimetableProfile"; }
static const char* detectorName(char p) { return p == 'B' || p == 'T' ? "ClosedWorldFVDetector" : p == 'O' ? "OpenWorldFVDetector" : "GroundedFVDetector"; }

// what the schedules do to the limits
struct Verdict { bool some, all, fixed, fixedQ, ambiguous; };   // some schedule keeps within them; all do; all times and quantities fixed
static Verdict judge(const World& w, const Ref& ref, int r) {
  std::vector<Ev> ev = ref.events(r); Verdict v = {false, true, true, true, false};
  std::vector<int> qs; for (auto& e : ev) { if (ref.tlo(e.time) != ref.thi(e.time)) v.fixed = false; if (e.qty >= 0 && std::find(qs.begin(), qs.end(), e.qty) == qs.end()) { qs.push_back(e.qty); if (ref.lo[e.qty] != ref.hi[e.qty]) v.fixed = v.fixedQ = false; } }
  const Limits& l = w.lim; double lo = l.lo, hi = w.res == 'V' ? l.hi : w.res == '1' ? 1 : PI, cap = w.res == '1' ? 1 : l.cap;
  ref.schedules(ev, [&](const std::vector<long>& tm) {
    std::map<int, long> q; std::function<void(size_t)> rec = [&](size_t i) {
      if (i < qs.size()) { for (long x = ref.lo[qs[i]]; x <= ref.hi[qs[i]]; ++x) { q[qs[i]] = x; rec(i + 1); } return; }
      std::map<long, std::pair<long, long>> at; long pc = 0, cc = 0; bool good = true, odd = false;
      for (size_t j = 0; j < ev.size(); ++j) { long x = ev[j].qty < 0 ? 1 : q[ev[j].qty]; if (ev[j].sign < 0) { at[tm[j]].second += x; cc += x; } else { at[tm[j]].first += x; pc += x; } }
      double level = cap;
      for (auto& a : at) { level += a.second.first - a.second.second; if (level < lo || level > hi) good = false; if (w.res == 'V' ? a.second.first > l.prate : a.second.first > l.crate) (w.res == 'V' ? good : odd) = w.res != 'V'; if (a.second.second > l.crate) good = false; }
      if (w.res == 'V' && pc > l.prod) good = false;
      if (cc > l.cons) good = false;
      if (odd) v.ambiguous = true; else if (good) v.some = true;
      if (!good && !odd) v.all = false;
    };
    rec(0);
  });
  return v;
}
struct View { std::string flaws; bool flawed; };
static View view(Sim& s, int r) {
  View v; std::ostringstream o; std::vector<InstantId> f; s.resource(r)->getFlawedInstants(f); v.flawed = !f.empty();
  o << "flawed instants"; for (auto i : f) o << " " << i->getTime() << (i->hasLowerLevelFlaw() ? "l" : "") << (i->hasUpperLevelFlaw() ? "u" : "");
  if (s.w.res != 'C') { std::vector<TokenId> t; s.resource(r)->getTokensToOrder(t); std::set<std::string> n; for (auto x : t) n.insert(x->getName()); std::set<int> ids; for (auto x : t) for (size_t j = 0; j < s.toks.size(); ++j) if (s.toks[j] == x) ids.insert(j); o << "; tokens to order"; for (int j : ids) o << " " << s.w.toks[j].name; o << (s.resource(r)->hasTokensToOrder() ? "" : " (none)"); }
  v.flaws = o.str(); return v;
}
static void build(Sim& z, const Abs& a) {
  const World& w = z.w;
  for (size_t v = 0; v < w.vars.size(); ++v) { if (a.based[v] && !a.gone(v)) z.apply({'b', (int)v, a.lb[v], a.ub[v]}); if (a.isSpec[v]) z.apply({'s', (int)v, a.spec[v], 0}); }
  for (size_t t = 0; t < w.toks.size(); ++t) { if (a.on[t] >= 0 && w.nres > 1 && !a.dead[t]) z.apply({'o', (int)t, a.on[t], 0}); if (a.act[t]) z.apply({'A', (int)t, 0, 0}); }
  for (size_t i = 0; i < w.cons.size(); ++i) if (a.posted[i]) z.apply({'p', (int)i, 0, 0});
  bool ok = z.ce()->propagate();
  for (size_t t = 0; ok && t < w.toks.size(); ++t) { if (a.dead[t]) z.apply({'D', (int)t, 0, 0}); if (a.merged[t] >= 0) z.apply({'M', (int)t, a.merged[t], 0}); }
  z.ce()->propagate();
}
// case: world, profile and detector (B flow/closed, T timetable/closed, O timetable/open, G grounded), mode (E eager, L lazy, W violations allowed) | start # operations
static void check(mc::Ctx& c, Sim& s, const std::string& conf, char prof, bool allow, const std::function<std::string()>& what, bool ok, const std::string& tag) {
  const World& w = s.w; Ref ref(s.a); c.evals();
  if (!ref.ok) { if (ok && !allow) c.violation("C16:times" + tag, "propagation ends consistent but the times cannot be scheduled, after " + what()); return; }
  bool bad = allow ? s.ce()->getViolation() > 0 : !ok, every = false, must = false, unsure = false; std::vector<Verdict> vs;
  for (int r = 0; r < w.nres; ++r) { Verdict v = judge(w, ref, r); vs.push_back(v); if (!v.some) every = true; if (v.ambiguous) unsure = true; if (v.fixed && !v.some && !v.ambiguous) must = true; }
  if (bad && !every && !unsure) { c.violation("C16:unfounded" + tag, "a violation is reported although a schedule keeps within all limits, after " + what()); return; }
  if (!bad && must && prof != 'O') { c.violation("C16:missed" + tag, "everything is fixed and a limit is exceeded, but no violation is reported, after " + what()); return; }
  if (allow) {
    PSList<PSConstraint*> viol = s.ce()->getAllViolations();
    if ((viol.size() == 0) == bad) { c.violation("C16:listing" + tag, "the violation is " + std::to_string(s.ce()->getViolation()) + " but there are " + std::to_string(viol.size()) + " violated constraints, after " + what()); return; }
  }
  if (bad && !allow) return;
  std::string got;
  for (int r = 0; r < w.nres; ++r) {
    View v = view(s, r); got += (r ? " | " : "") + v.flaws;
    if (!bad && !v.flawed && !vs[r].all && !vs[r].ambiguous && prof != 'G' && (prof != 'O' || vs[r].fixedQ)) { c.violation("C16:flawless" + tag, "no flaw is reported on res" + std::to_string(r) + " but some schedule exceeds a limit, after " + what()); return; }
  }
  if (allow) { std::set<std::string> n; for (size_t i = 0; i < s.cs.size(); ++i) if (!s.cs[i].isNoId() && s.cs[i]->getViolation() > 0) n.insert("constraint " + std::to_string(i)); for (size_t t = 0; t < s.toks.size(); ++t) if (!s.toks[t].isNoId()) for (auto k : s.toks[t]->getStandardConstraints()) if (k->getViolation() > 0) n.insert(std::string(w.toks[t].name) + " " + k->getName()); got += "; violated:"; for (auto& x : n) got += " " + x; }
  static std::map<std::string, std::string> fresh;
  std::string k = conf + (allow ? "W" : "") + s.a.text(); auto f = fresh.find(k);
  if (f == fresh.end()) {
    Sim z(w, profileName(prof), detectorName(prof)); if (allow) z.ce()->setAllowViolations(true);
    build(z, s.a); std::string t;
    if (allow || !z.ce()->provenInconsistent()) for (int r = 0; r < w.nres; ++r) t += (r ? " | " : "") + view(z, r).flaws;
    if (allow) { std::set<std::string> n; for (size_t i = 0; i < z.cs.size(); ++i) if (!z.cs[i].isNoId() && z.cs[i]->getViolation() > 0) n.insert("constraint " + std::to_string(i)); for (size_t q = 0; q < z.toks.size(); ++q) if (!z.toks[q].isNoId()) for (auto x : z.toks[q]->getStandardConstraints()) if (x->getViolation() > 0) n.insert(std::string(w.toks[q].name) + " " + x->getName()); t += "; violated:"; for (auto& x : n) t += " " + x; }
    f = fresh.emplace(k, t).first;
  }
  if (f->second != got) c.violation("C16:history" + tag, "problems differ from those of a database brought to the same state directly: " + got + " <> " + f->second + ", after " + what());
}
static void explore(const std::string& h, mc::Ctx& c, int depth) {
  c.begin(h); c.trace();
  size_t bar = h.find('|'); int wi = atoi(h.c_str()); const World& w = worlds()[wi]; char mode = h[bar - 1], prof = h[bar - 2]; size_t base = h.find('#') == std::string::npos ? bar + 1 : h.find('#') + 1;
  std::string t = h.substr(bar + 1); for (auto& ch : t) if (ch == '#') ch = ' ';
  std::vector<Op> ops = parse(t); size_t fresh = parse(h.substr(base)).size(), lead = ops.size() - fresh;
  auto what = [&] { return pretty(w, ops); };
  std::string tag = std::string(prof == 'B' ? "-flow" : prof == 'T' ? "-timetable" : prof == 'O' ? "-open" : "-grounded") + (mode == 'L' ? "-lazy" : mode == 'W' ? "-allowed" : "");
  try {
    Sim* s = new Sim(w, profileName(prof), detectorName(prof)); if (mode == 'W') s->ce()->setAllowViolations(true);
    bool ok = s->ce()->propagate(); size_t i = 0;
    for (auto& p : ops) { if (!s->enabled(p)) { delete s; return; } s->apply(p); c.transitions(); if (mode != 'L' || ++i == lead) ok = s->ce()->propagate(); }
    std::string key = std::to_string(wi) + prof + mode + s->key();
    bool neu = c.state(key); if (!neu && fresh && !c.r->replaying) { delete s; return; }
    std::vector<std::string> next; bool dead = mode == 'W' && !Ref(s->a).ok;
    if ((int)fresh < depth && !dead) { for (auto& p : w.ops) if (s->enabled(p)) next.push_back(h + opText(p) + " "); if (mode == 'L' && (ops.empty() || ops.back().k != 'P')) next.push_back(h + "P "); }
    if (mode == 'L') ok = s->ce()->propagate();
    check(c, *s, h.substr(0, bar), prof, mode == 'W', what, ok, tag);
    for (auto& n : next) c.emit(n);
    delete s;
  } catch (Error& er) { c.violation("C16:error" + tag, "an error was raised (" + er.getMsg() + ") in " + what()); }
}
int main(int argc, char** argv) {
  mc::Runner r("C16", argc, argv);
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  const char* only = getenv("C16_WORLD"); int more = r.quick ? 0 : 1;
  for (char mode : {'E', 'L', 'W'}) for (int dd = 1; dd <= 7; ++dd) {
    std::vector<std::string> front;
    for (size_t i = 0; i < worlds().size(); ++i) for (char prof : {'B', 'T', 'O', 'G'}) {
      if (only && atoi(only) != (int)i) continue;
      if (r.quick && ((mode != 'E' && (prof == 'O' || prof == 'G')) || (mode == 'L' && prof == 'T'))) continue;
      const World& w = worlds()[i]; int d = (mode == 'L' ? w.lazy : w.eager) + more - (prof == 'G' || prof == 'O' || (r.quick && prof == 'T' && mode == 'W')); if (d != dd) continue;
      std::string p = std::to_string(i) + prof + mode + "|"; front.push_back(p);
      for (auto& st : w.starts) front.push_back(p + st + "#");
    }
    if (!front.empty()) r.bfs(front, dd, [&](const std::string& h, mc::Ctx& c) { explore(h, c, dd); });
  }
  r.rule = "all histories of usages being activated, cancelled, merged, deleted, moved, ordered and fixed on resources with limits; violations and flaws compared with every schedule (times and quantities) of the current usages and with a database brought to the same state directly";
  r.extras.push_back({"worlds", std::to_string(worlds().size())}); r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0BE|A0 A1 A2 #p0 s4.3 "); r.sample("2BW|A0 A1 #s0.1 ");
  r.assumptions = {"while inconsistent only relaxations are made", "limits do not change over time", "releases of a reusable resource beyond its consumption rate are not judged"};
  return r.finish();
}
