// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,Solvers,NDDL,Resource
// C15: every history of usages coming, changing and going on real resources
// without limits; the reported level bounds compared with the levels of every
// schedule there is, and with those of a fresh database in the same state.
#include "resource_lib.hh"
using namespace rs;

static const Limits FREE = {10, -PI, PI, PI, PI, PI, PI};
static const std::vector<World>& worlds() {
  static std::vector<World> w = {
    // 0: producers and consumers on a reservoir, ordered directly
    {'V', 1, FREE, {{"a.time", 't', 0, 6}, {"a.q", 'q', 1, 2}, {"b.time", 't', 2, 8}, {"b.q", 'q', 3, 3}, {"c.time", 't', 1, 5}, {"c.q", 'q', 2, 4}, {"e.time", 't', 4, 9}, {"e.q", 'q', 1, 1}},
     {{"a", 'c', {0, 1}}, {"b", 'p', {2, 3}}, {"c", 'c', {4, 5}}, {"e", 'p', {6, 7}}},
     {{"precedes", {0, 2}}, {"precedes", {2, 4}}, {"concurrent", {0, 6}}, {"strictlyPrecedes", {4, 6}}},
     {{'N', 0}, {'N', 1}, {'N', 2}, {'N', 3}, {'C', 0}, {'C', 1}, {'A', 0}, {'D', 0}, {'D', 1}, {'D', 2}, {'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'s', 0, 3}, {'u', 0}, {'s', 2, 7}, {'u', 2}, {'s', 5, 3}, {'u', 5}, {'s', 1, 2}, {'u', 1}, {'b', 4, 2, 3}, {'E', 0}, {'X', 0}}, 4, 3, {"N0 N1 N2 N3 ", "N0 N1 N2 N3 p0 p1 "}, true},
    // 1: orderings that come about through other times and through distances
    {'V', 1, FREE, {{"a.time", 't', 0, 8}, {"a.q", 'q', 1, 1}, {"b.time", 't', 0, 8}, {"b.q", 'q', 2, 3}, {"c.time", 't', 0, 8}, {"c.q", 'q', 4, 4}, {"x", 't', 0, 8}, {"d", 'd', -3, 3}, {"g", 'd', -8, 8}},
     {{"a", 'c', {0, 1}}, {"b", 'p', {2, 3}}, {"c", 'c', {4, 5}}},
     {{"precedes", {0, 6}}, {"precedes", {6, 2}}, {"temporalDistance", {0, 7, 4}}, {"temporalDistance", {6, 8, 4}}, {"precedes", {4, 2}}},
     {{'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'p', 4}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'r', 4}, {'s', 7, 2}, {'s', 7, -1}, {'s', 7, 0}, {'u', 7}, {'s', 8, 0}, {'u', 8}, {'b', 8, 0, 8}, {'b', 6, 3, 5}, {'C', 0}, {'A', 0}}, 3, 3, {"A0 A1 A2 ", "A0 A1 A2 p2 p0 "}},
    // 2: a reusable resource
    {'U', 1, FREE, {{"a.start", 't', 0, 4}, {"a.duration", 'd', 1, 3}, {"a.end", 't', 1, 6}, {"a.q", 'q', 1, 2}, {"b.start", 't', 1, 5}, {"b.duration", 'd', 2, 2}, {"b.end", 't', 2, 8}, {"b.q", 'q', 3, 3}},
     {{"a", 'u', {0, 1, 2, 3}}, {"b", 'u', {4, 5, 6, 7}}},
     {{"precedes", {2, 4}}, {"concurrent", {0, 4}}, {"precedes", {4, 2}}, {"strictlyPrecedes", {6, 0}}},
     {{'A', 0}, {'A', 1}, {'C', 0}, {'C', 1}, {'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'s', 0, 2}, {'u', 0}, {'s', 1, 1}, {'u', 1}, {'s', 3, 2}, {'u', 3}, {'b', 2, 3, 5}, {'D', 0}, {'M', 0, 1}}, 4, 3, {"A0 A1 ", "A0 A1 p0 "}},
    // 3: two resources to choose from, a usage merged with another
    {'V', 2, FREE, {{"a.time", 't', 0, 4}, {"a.q", 'q', 1, 2}, {"b.time", 't', 1, 3}, {"b.q", 'q', 2, 2}, {"c.time", 't', 2, 6}, {"c.q", 'q', 1, 5}},
     {{"a", 'c', {0, 1}}, {"b", 'p', {2, 3}}, {"c", 'c', {4, 5}}},
     {{"precedes", {0, 2}}, {"precedes", {2, 4}}},
     {{'A', 0}, {'A', 1}, {'A', 2}, {'C', 0}, {'C', 1}, {'C', 2}, {'o', 0, 0}, {'o', 0, 1}, {'O', 0}, {'o', 1, 0}, {'O', 1}, {'o', 2, 0}, {'o', 2, 1}, {'O', 2}, {'M', 2, 0}, {'p', 0}, {'p', 1}, {'r', 0}, {'r', 1}, {'s', 4, 3}, {'u', 4}, {'s', 0, 1}, {'u', 0}, {'D', 2}, {'E', 0}, {'X', 0}}, 4, 3, {"A0 A1 o0.0 o1.0 ", "A0 A1 A2 o0.0 o1.0 o2.0 p0 "}},
    // 4: usage by constraints
    {'C', 2, FREE, {{"r", 'r', 0, 1}, {"q", 'q', 1, 2}, {"s", 't', 0, 4}, {"f", 't', 1, 6}, {"r2", 'r', 0, 1}, {"q2", 'q', 3, 3}, {"s2", 't', 2, 5}, {"f2", 't', 3, 7}},
     {}, {{"uses", {0, 1, 2, 3}}, {"uses", {4, 5, 6, 7}}, {"strictlyPrecedes", {2, 3}}, {"strictlyPrecedes", {6, 7}}, {"precedes", {3, 6}}, {"concurrent", {2, 6}}},
     {{'p', 0}, {'p', 1}, {'p', 4}, {'p', 5}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 4}, {'r', 5}, {'s', 0, 0}, {'s', 0, 1}, {'u', 0}, {'s', 4, 0}, {'u', 4}, {'s', 1, 2}, {'u', 1}, {'s', 2, 3}, {'u', 2}, {'b', 7, 4, 5}}, 4, 3, {"s0.0 s4.0 p2 p3 p0 p1 ", "s0.0 p2 p3 p0 p1 "}},
    // 5: times without bounds
    {'V', 1, FREE, {{"a.time", 't', -INF, INF}, {"a.q", 'q', 1, 2}, {"b.time", 't', 0, INF}, {"b.q", 'q', 2, 3}, {"c.time", 't', -INF, 3}, {"c.q", 'q', 4, 4}, {"d", 'd', 0, 2}},
     {{"a", 'c', {0, 1}}, {"b", 'p', {2, 3}}, {"c", 'p', {4, 5}}},
     {{"precedes", {0, 2}}, {"temporalDistance", {4, 6, 0}}, {"concurrent", {2, 4}}},
     {{'A', 0}, {'A', 1}, {'A', 2}, {'C', 0}, {'C', 1}, {'C', 2}, {'p', 0}, {'p', 1}, {'p', 2}, {'r', 0}, {'r', 1}, {'r', 2}, {'s', 0, 2}, {'u', 0}, {'s', 4, -1}, {'u', 4}, {'b', 0, -2, 4}, {'b', 2, 0, 5}, {'s', 3, 2}, {'u', 3}}, 4, 3, {"A0 A1 A2 "}}};
  return w;
}
static const char* profileName(char p) { return p == 'B' ? "IncrementalFlowProfile" : p == 'T' ? "TimetableProfile" : "GroundedProfile"; }
static const char* detectorName(char p) { return p == 'B' ? "ClosedWorldFVDetector" : p == 'T' ? "OpenWorldFVDetector" : "GroundedFVDetector"; }
typedef std::map<long, std::pair<long, long>> Levels;
static std::vector<Levels> read(Sim& s, long from, long to) {
  std::vector<Levels> r;
  for (int i = 0; i < s.w.nres; ++i) { Levels l; for (long t = from; t <= to; ++t) { IntervalDomain d; s.profile(i)->getLevel(eint(t), d); l[t] = {of(d.getLowerBound()), of(d.getUpperBound())}; } r.push_back(l); }
  return r;
}
static void span(const World& w, long& from, long& to) { from = 0; to = 0; for (auto& v : w.vars) if (v.kind == 't') { if (v.lb > -INF) from = std::min(from, v.lb); if (v.ub < INF) to = std::max(to, v.ub); } from -= 3; to += 3; }

static void check(mc::Ctx& c, Sim& s, char prof, const std::function<std::string()>& what, bool ok, const std::string& tag) {
  const World& w = s.w; Ref ref(s.a); c.evals();
  if (ok != ref.ok) { c.violation("C15:consistency" + tag, std::string("propagation ends ") + (ok ? "consistent" : "inconsistent") + " but the times " + (ref.ok ? "can" : "cannot") + " be scheduled and there are no limits, after " + what()); return; }
  if (!ok || s.a.batch) return;
  long from, to; span(w, from, to);
  std::vector<Levels> got = read(s, from, to);
  for (int r = 0; r < w.nres; ++r) {
    std::vector<Ev> ev = ref.events(r); std::string rn = "res" + std::to_string(r);
    Levels joint, apart; for (long t = from; t <= to; ++t) { joint[t] = {INF, -INF}; apart[t] = {INF, -INF}; }
    ref.schedules(ev, [&](const std::vector<long>& tm) {
      for (long t = from; t <= to; ++t) {
        long l = 0, u = 0; std::map<int, int> net;
        for (size_t i = 0; i < ev.size(); ++i) if (tm[i] <= t) { const Ev& e = ev[i]; if (e.sign < 0) { l -= ref.qhi(e); u -= ref.qlo(e); } else { l += ref.qlo(e); u += ref.qhi(e); } if (e.qty >= 0) net[e.qty] += e.sign; else { } }
        apart[t].first = std::min(apart[t].first, l * 1000); apart[t].second = std::max(apart[t].second, u * 1000);
        long jl = 0, ju = 0; for (auto& x : net) { Ev e = {0, x.first, 0, 0}; long a = x.second * ref.qlo(e), b = x.second * ref.qhi(e); jl += std::min(a, b); ju += std::max(a, b); }
        for (size_t i = 0; i < ev.size(); ++i) if (tm[i] <= t && ev[i].qty < 0) { jl += ev[i].sign; ju += ev[i].sign; }
        joint[t].first = std::min(joint[t].first, jl * 1000); joint[t].second = std::max(joint[t].second, ju * 1000);
      }
    }, std::max(to, -from));
    for (long t = from; t <= to; ++t) {
      auto g = got[r][t];
      if (g.first > joint[t].first || g.second < joint[t].second) { c.violation("C15:enclose" + tag, "at time " + std::to_string(t) + " the level of " + rn + " is given as [" + sh(g.first) + "," + sh(g.second) + "]/1000 but schedules reach [" + sh(joint[t].first) + "," + sh(joint[t].second) + "]/1000, after " + what()); break; }
      if (prof == 'B' && g != apart[t]) { c.violation("C15:exact" + tag, "at time " + std::to_string(t) + " the level of " + rn + " is given as [" + sh(g.first) + "," + sh(g.second) + "]/1000 but the attainable extremes are [" + sh(apart[t].first) + "," + sh(apart[t].second) + "]/1000, after " + what()); break; }
    }
    // the usage as published
    std::unique_ptr<PSResourceProfile> us(s.resource(r)->getUsage()); PSList<TimePoint> ts = us->getTimes();
    for (int i = 0; i < ts.size(); ++i) { long t = (long)ts.get(i); if (t < from || t > to) continue; long l = of(edouble(us->getLowerBound(ts.get(i)))), u = of(edouble(us->getUpperBound(ts.get(i)))); if (std::make_pair(-u, -l) != got[r][t] && std::make_pair(l, u) != got[r][t]) { c.violation("C15:published" + tag, "at time " + std::to_string(t) + " the usage of " + rn + " is published as [" + sh(l) + "," + sh(u) + "]/1000 but the level is [" + sh(got[r][t].first) + "," + sh(got[r][t].second) + "]/1000, after " + what()); break; } }
  }
  // the same state, reached directly
  static std::map<std::string, std::vector<Levels>> fresh;
  std::string k = std::to_string((long)(&w - &worlds()[0])) + prof + s.a.text(); auto f = fresh.find(k);
  if (f == fresh.end()) {
    Sim z(w, profileName(prof), detectorName(prof)); const Abs& a = s.a; if (w.client) for (size_t t = 0; t < w.toks.size(); ++t) if (!a.dead[t]) { z.apply({'N', (int)t, 0, 0}); if (!a.act[t]) z.apply({'C', (int)t, 0, 0}); }
    for (size_t v = 0; v < w.vars.size(); ++v) { if (a.based[v] && !a.gone(v)) z.apply({'b', (int)v, a.lb[v], a.ub[v]}); if (a.isSpec[v]) z.apply({'s', (int)v, a.spec[v], 0}); }
    for (size_t t = 0; t < w.toks.size(); ++t) { if (a.on[t] >= 0 && w.nres > 1 && !a.dead[t]) z.apply({'o', (int)t, a.on[t], 0}); if (a.act[t] && !w.client) z.apply({'A', (int)t, 0, 0}); }
    for (size_t i = 0; i < w.cons.size(); ++i) if (a.posted[i]) z.apply({'p', (int)i, 0, 0});
    bool zok = z.ce()->propagate();
    for (size_t t = 0; zok && t < w.toks.size(); ++t) { if (a.dead[t] && !w.client) z.apply({'D', (int)t, 0, 0}); if (a.merged[t] >= 0) z.apply({'M', (int)t, a.merged[t], 0}); }
    zok = z.ce()->propagate();
    f = fresh.emplace(k, zok ? read(z, from, to) : std::vector<Levels>()).first;
  }
  if (f->second != got) {
    std::ostringstream o; for (size_t r = 0; r < got.size() && r < f->second.size(); ++r) for (auto& x : got[r]) if (f->second[r][x.first] != x.second) { o << " at time " << x.first << " [" << sh(x.second.first) << "," << sh(x.second.second) << "]/1000, directly [" << sh(f->second[r][x.first].first) << "," << sh(f->second[r][x.first].second) << "]/1000"; break; }
    c.violation("C15:history" + tag, "the level bounds differ from those of a database brought to the same state directly:" + o.str() + ", after " + what());
  }
}
// case: world, profile (B flow, T timetable, G grounded), mode (E eager, L lazy) | start # operations
static void explore(const std::string& h, mc::Ctx& c, int depth) {
  c.begin(h); c.trace();
  size_t bar = h.find('|'); int wi = atoi(h.c_str()); const World& w = worlds()[wi]; char mode = h[bar - 1], prof = h[bar - 2]; size_t base = h.find('#') == std::string::npos ? bar + 1 : h.find('#') + 1;
  std::string t = h.substr(bar + 1); for (auto& ch : t) if (ch == '#') ch = ' ';
  std::vector<Op> ops = parse(t); size_t fresh = parse(h.substr(base)).size(), lead = ops.size() - fresh;
  auto what = [&] { return pretty(w, ops); };
  std::string tag = std::string(prof == 'B' ? "-flow" : prof == 'T' ? "-timetable" : "-grounded") + (mode == 'L' ? "-lazy" : "");
  try {
    Sim* s = new Sim(w, profileName(prof), detectorName(prof)); bool ok = s->ce()->propagate();
    size_t i = 0;
    for (auto& p : ops) { if (!s->enabled(p)) { delete s; return; } s->apply(p); c.transitions(); if (mode != 'L' || ++i == lead) ok = s->ce()->propagate(); }
    std::string key = std::to_string(wi) + prof + mode + s->key();
    bool neu = c.state(key); if (!neu && fresh && !c.r->replaying) { delete s; return; }
    std::vector<std::string> next;
    if ((int)fresh < depth) { for (auto& p : w.ops) if (s->enabled(p)) next.push_back(h + opText(p) + " "); if (mode == 'L' && (ops.empty() || ops.back().k != 'P')) next.push_back(h + "P "); }
    if (mode == 'L') ok = s->ce()->propagate();
    check(c, *s, prof, what, ok, tag);
    for (auto& n : next) c.emit(n);
    delete s;
  } catch (Error& er) { c.violation("C15:error" + tag, "an error was raised (" + er.getMsg() + ") in " + what()); }
}
int main(int argc, char** argv) {
  mc::Runner r("C15", argc, argv);
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  const char* only = getenv("C15_WORLD"); int more = r.quick ? 0 : 1;
  for (char mode : {'E', 'L'}) for (int dd = 2; dd <= 7; ++dd) {
    std::vector<std::string> front;
    for (size_t i = 0; i < worlds().size(); ++i) for (char prof : {'B', 'T', 'G'}) {
      if (only && atoi(only) != (int)i) continue;
      const World& w = worlds()[i]; int d = (mode == 'E' ? w.eager : w.lazy) + more - (prof == 'G'); if (d != dd) continue;
      std::string p = std::to_string(i) + prof + mode + "|"; front.push_back(p);
      for (auto& st : w.starts) front.push_back(p + st + "#");
    }
    if (!front.empty()) r.bfs(front, dd, [&](const std::string& h, mc::Ctx& c) { explore(h, c, dd); });
  }
  r.rule = "all histories of usages being activated, cancelled, merged, moved, ordered, restricted and relaxed; level bounds compared with every schedule of the current usages and with a database brought to the same state directly";
  r.extras.push_back({"worlds", std::to_string(worlds().size())}); r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0BE|A0 A1 A2 A3 #p0 p1 r0 "); r.sample("3TE|A0 A1 o0.0 o1.0 #O0 C1 ");
  r.assumptions = {"exactness is judged with quantities varying independently per transaction", "while inconsistent only relaxations are made", "a distance variable belongs to one temporal constraint"};
  return r.finish();
}
