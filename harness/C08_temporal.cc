// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
// C08: every history of temporal operations on the real propagator, advisor and
// tokens, each propagated state compared with the all-pairs shortest paths of
// what is in force.
#define PLAN_NDDL
#include "plan_lib.hh"
#include "TemporalPropagator.hh"
#include "TemporalNetwork.hh"
#include "TemporalAdvisor.hh"
#include "CommonDefs.hh"
#include <numeric>
using namespace plan;

static const long INF = 1000000000000000L;
struct VD { const char* name; char kind; long lb, ub; };                 // kind: t time, d distance, o other int
struct CD { const char* name; std::vector<int> scope; };
// Operations: p/r post and retract constraint a; s specify variable a to b; u reset; b narrow base of a to [b,c];
// P propagate; A activate token a; M merge token a onto b; C cancel token a; D delete token a
struct Op { char k; int a; long b, c; };
struct World { std::vector<VD> vars; int tokens; std::vector<CD> cons; std::vector<Op> ops; int eager, lazy; std::vector<std::string> starts; };

static const long HUGE_T = 4000000000000L;
static const std::vector<World>& worlds() {
  static std::vector<World> w = {
    // precedence and distances among bounded times
    {{{"x", 't', 0, 10}, {"y", 't', 0, 10}, {"z", 't', 2, 8}, {"d", 'd', 2, 4}, {"g", 'd', -3, 3}}, 0,
     {{"temporalDistance", {0, 3, 1}}, {"precedes", {1, 2}}, {"strictlyPrecedes", {2, 0}}, {"temporalDistance", {1, 4, 2}}, {"concurrent", {0, 2}}},
     {{'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'p', 4}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'r', 4}, {'s', 0, 3}, {'u', 0}, {'s', 2, 6}, {'u', 2}, {'s', 3, 2}, {'s', 3, 4}, {'u', 3}, {'b', 1, 1, 7}, {'b', 4, 1, 3}, {'b', 0, 0, 1}}, 5, 3, {}},
    // unbounded, very large and negative times; parallel constraints
    {{{"x", 't', -INF, INF}, {"y", 't', 0, INF}, {"z", 't', -HUGE_T, HUGE_T}, {"d", 'd', -INF, INF}, {"g", 'd', HUGE_T - 5, INF}, {"k", 'd', -4, -1}}, 0,
     {{"temporalDistance", {0, 3, 1}}, {"temporalDistance", {1, 4, 2}}, {"temporalDistance", {0, 5, 2}}, {"precedes", {2, 1}}, {"concurrent", {1, 0}}},
     {{'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'p', 4}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'r', 4}, {'s', 0, -7}, {'u', 0}, {'s', 2, HUGE_T}, {'u', 2}, {'b', 0, -20, INF}, {'b', 3, -INF, 6}, {'s', 3, 9}, {'u', 3}}, 5, 3, {}},
    // the same pair constrained several times over, a time that is constrained with itself
    {{{"x", 't', 0, 20}, {"y", 't', 0, 20}, {"z", 't', 0, 20}, {"d", 'd', 0, 5}, {"g", 'd', 3, 9}, {"k", 'd', 1, 1}}, 0,
     {{"temporalDistance", {0, 3, 1}}, {"temporalDistance", {0, 4, 1}}, {"temporalDistance", {1, 5, 0}}, {"precedes", {0, 1}}, {"strictlyPrecedes", {0, 1}}, {"concurrent", {1, 2}}},
     {{'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'p', 4}, {'p', 5}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'r', 4}, {'r', 5}, {'s', 3, 4}, {'u', 3}, {'b', 0, 5, 15}, {'s', 2, 12}, {'u', 2}}, 5, 3, {}},
    // times that are bound by other constraints as well
    {{{"x", 't', 0, 12}, {"y", 't', 0, 12}, {"z", 't', 0, 12}, {"d", 'd', 1, 6}, {"w", 'o', 2, 9}, {"v", 'o', 0, 12}}, 0,
     {{"temporalDistance", {0, 3, 1}}, {"precedes", {1, 2}}, {"leq", {4, 0}}, {"leq", {2, 4}}, {"eq", {1, 5}}, {"lt", {5, 2}}},
     {{'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'p', 4}, {'p', 5}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'r', 4}, {'r', 5}, {'s', 4, 5}, {'u', 4}, {'s', 0, 4}, {'u', 0}, {'b', 5, 3, 8}}, 5, 3, {}},
    // tokens: durations, merging, cancelling
    {{{"a.start", 't', -INF, INF}, {"a.duration", 'd', 1, INF}, {"a.end", 't', -INF, INF}, {"b.start", 't', -INF, INF}, {"b.duration", 'd', 1, INF}, {"b.end", 't', -INF, INF}, {"c.start", 't', -INF, INF}, {"c.duration", 'd', 1, INF}, {"c.end", 't', -INF, INF}}, 3,
     {{"precedes", {2, 3}}, {"concurrent", {5, 6}}, {"strictlyPrecedes", {8, 0}}, {"precedes", {0, 6}}},
     {{'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'A', 0}, {'A', 1}, {'M', 2, 0}, {'M', 2, 1}, {'C', 0}, {'C', 1}, {'C', 2}, {'D', 0}, {'D', 1}, {'D', 2}, {'s', 0, 2}, {'u', 0}, {'s', 1, 5}, {'u', 1}, {'b', 8, 0, 9}, {'s', 5, 7}, {'u', 5}, {'b', 4, 2, 4}}, 4, 3, {"A0 A1 p0 s0 s1 ", "A0 M2.0 p1 "}},
    // tokens within a horizon, ordered one after the other
    {{{"a.start", 't', -INF, INF}, {"a.duration", 'd', 1, INF}, {"a.end", 't', -INF, INF}, {"b.start", 't', -INF, INF}, {"b.duration", 'd', 1, INF}, {"b.end", 't', -INF, INF}, {"c.start", 't', -INF, INF}, {"c.duration", 'd', 1, INF}, {"c.end", 't', -INF, INF}}, 3,
     {{"precedes", {2, 3}}, {"precedes", {5, 6}}, {"precedes", {5, 0}}, {"precedes", {8, 3}}, {"concurrent", {0, 6}}},
     {{'p', 0}, {'p', 1}, {'p', 2}, {'p', 3}, {'p', 4}, {'r', 0}, {'r', 1}, {'r', 2}, {'r', 3}, {'r', 4}, {'s', 1, 3}, {'u', 1}, {'s', 7, 2}, {'u', 7}, {'s', 3, 4}, {'u', 3}, {'b', 0, 0, 20}, {'b', 4, 2, 5}, {'A', 0}, {'C', 0}, {'M', 1, 0}, {'D', 1}, {'D', 2}}, 4, 3, {"b0.0.20 s1.3 p0 p1 ", "A0 M1.0 s7.2 "}}};
  return w;
}
static std::string opText(const Op& p) { std::string s(1, p.k); s += std::to_string(p.a); if (strchr("sMb", p.k)) s += "." + std::to_string(p.b); if (p.k == 'b') s += "." + std::to_string(p.c); return s; }
static std::vector<Op> parse(const World& w, const std::string& t) {
  std::vector<Op> r; std::istringstream i(t); std::string x;
  while (i >> x) { if (x == "P") { r.push_back({'P', 0, 0, 0}); continue; } bool f = false; for (auto& p : w.ops) if (opText(p) == x) { r.push_back(p); f = true; break; } if (!f) { Op p = {x[0], atoi(x.c_str() + 1), 0, 0}; size_t d = x.find('.'); if (d != std::string::npos) { p.b = atol(x.c_str() + d + 1); d = x.find('.', d + 1); if (d != std::string::npos) p.c = atol(x.c_str() + d + 1); } r.push_back(p); } }
  return r;
}
static std::string pretty(const World& w, const std::vector<Op>& h) {
  std::ostringstream o; auto cn = [&](int i) { std::string s = std::string(w.cons[i].name) + "("; for (int a : w.cons[i].scope) s += std::string(s.back() == '(' ? "" : ",") + w.vars[a].name; return s + ")"; };
  static const char* tk[] = {"a", "b", "c"};
  for (auto& p : h) switch (p.k) {
    case 'p': o << "post " << cn(p.a) << "; "; break; case 'r': o << "retract " << cn(p.a) << "; "; break;
    case 's': o << "specify " << w.vars[p.a].name << "=" << p.b << "; "; break; case 'u': o << "reset " << w.vars[p.a].name << "; "; break;
    case 'b': o << "restrict " << w.vars[p.a].name << " to [" << p.b << "," << p.c << "]; "; break;
    case 'A': o << "activate " << tk[p.a] << "; "; break; case 'M': o << "merge " << tk[p.a] << " onto " << tk[p.b] << "; "; break;
    case 'D': o << "delete " << tk[p.a] << "; "; break; case 'C': o << "cancel " << tk[p.a] << "; "; break; case 'P': o << "propagate; "; break;
  }
  return o.str();
}

// What is in force, and what it implies.
struct Abs {
  const World& w; std::vector<long> lb, ub, spec; std::vector<char> isSpec, based, posted, act, dead; std::vector<int> merged;
  Abs(const World& w_) : w(w_), spec(w.vars.size(), 0), isSpec(w.vars.size(), 0), based(w.vars.size(), 0), posted(w.cons.size(), 0), act(w.tokens, 0), dead(w.tokens, 0), merged(w.tokens, -1) { for (auto& v : w.vars) { lb.push_back(v.lb); ub.push_back(v.ub); } }
  void apply(const Op& p) {
    switch (p.k) {
      case 'p': posted[p.a] = 1; break; case 'r': posted[p.a] = 0; break;
      case 's': isSpec[p.a] = 1; spec[p.a] = p.b; break; case 'u': isSpec[p.a] = 0; break;
      case 'b': based[p.a] = 1; lb[p.a] = std::max(lb[p.a], p.b); ub[p.a] = std::min(ub[p.a], p.c); break;
      case 'D': dead[p.a] = 1; for (int j = 0; j < 3; ++j) { int v = 3 * p.a + j; isSpec[v] = 0; lb[v] = w.vars[v].lb; ub[v] = w.vars[v].ub; } break;
      case 'A': act[p.a] = 1; break; case 'M': merged[p.a] = p.b; break;
      case 'C': if (merged[p.a] >= 0) merged[p.a] = -1; else { act[p.a] = 0; for (int& m : merged) if (m == p.a) m = -1; } break;
    }
  }
  bool gone(int v) const { return w.tokens && dead[v / 3]; }
  int at(int v) const { return w.tokens && merged[v / 3] >= 0 ? merged[v / 3] * 3 + v % 3 : v; }
};
struct Ref {
  int n; std::vector<std::vector<long>> d; bool ok;
  void edge(int i, int j, long l) { if (l < INF) d[i][j] = std::min(d[i][j], l); }
  void close() {
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (d[i][k] < INF) for (int j = 0; j < n; ++j) if (d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    ok = true; for (int i = 0; i < n; ++i) if (d[i][i] < 0) ok = false;
  }
  Ref(const Abs& a) : n(a.w.vars.size() + 1), d(n, std::vector<long>(n, INF)), ok(true) {   // node 0 is the origin
    for (int i = 0; i < n; ++i) d[i][i] = 0;
    std::vector<long> lo(n, -INF), hi(n, INF);
    for (size_t v = 0; v < a.w.vars.size(); ++v) {
      int x = a.at(v); lo[x] = std::max(lo[x], a.lb[v]); hi[x] = std::min(hi[x], a.ub[v]);
      if (a.isSpec[v]) { lo[x] = std::max(lo[x], a.spec[v]); hi[x] = std::min(hi[x], a.spec[v]); }
    }
    for (size_t v = 0; v < a.w.vars.size(); ++v) { if (lo[v] > hi[v]) { ok = false; return; } edge(0, v + 1, hi[v]); if (lo[v] > -INF) edge(v + 1, 0, -lo[v]); }
    std::vector<std::pair<std::string, std::vector<int>>> cs;
    for (size_t i = 0; i < a.w.cons.size(); ++i) if (a.posted[i]) cs.push_back({a.w.cons[i].name, a.w.cons[i].scope});
    for (int t = 0; t < a.w.tokens; ++t) cs.push_back({"temporalDistance", {3 * t, 3 * t + 1, 3 * t + 2}});
    for (auto& c : cs) {
      std::vector<int> s; for (int v : c.second) s.push_back(a.at(v));
      int x = s[0] + 1, y = s.back() + 1;
      if (s.size() == 3) { edge(x, y, hi[s[1]]); if (lo[s[1]] > -INF) edge(y, x, -lo[s[1]]); }
      else if (c.first == "concurrent" || c.first == "eq") { edge(x, y, 0); edge(y, x, 0); }
      else if (c.first == "strictlyPrecedes" || c.first == "lt") edge(y, x, -1);
      else edge(y, x, 0);
    }
    close();
  }
};
static long of(edouble v) { return v >= PLUS_INFINITY ? INF : v <= MINUS_INFINITY ? -INF : (long)cast_double(v); }
static long of(eint v) { return v >= PLUS_INFINITY ? INF : v <= MINUS_INFINITY ? -INF : (long)cast_long(v); }
static long ofT(Time t) { return t >= POS_INFINITY || t >= cast_long(PLUS_INFINITY) ? INF : t <= NEG_INFINITY || t <= cast_long(MINUS_INFINITY) ? -INF : (long)t; }
static std::string sh(long v) { return v >= INF ? "+inf" : v <= -INF ? "-inf" : std::to_string(v); }

struct Sim {
  const World& w; Eng* e; Abs a; std::vector<V> vars; std::vector<TokenId> toks; std::vector<ConstraintId> cs; std::vector<V> own;
  Sim(const World& w_) : w(w_), e(new Eng()), a(w_), cs(w_.cons.size()) {
    ce()->setAutoPropagation(false);
    if (w.tokens) {
      e->load("class O { predicate P { } } O o = new O(); close();"); ce()->propagate();
      static const char* tk[] = {"a", "b", "c"};
      for (int t = 0; t < w.tokens; ++t) { TokenId k = e->client()->createToken("O.P", tk[t], false, false); toks.push_back(k); vars.push_back(k->start()); vars.push_back(k->duration()); vars.push_back(k->end()); }
    } else for (auto& v : w.vars) { IntervalIntDomain d(v.lb <= -INF ? eint(MINUS_INFINITY) : eint(v.lb), v.ub >= INF ? eint(PLUS_INFINITY) : eint(v.ub)); vars.push_back(ce()->createVariable("int", d, false, true, v.name)); }
    ce()->propagate();
  }
  ~Sim() { delete e; }
  ConstraintEngineId ce() { return e->ce(); }
  TemporalPropagator* tp() { return (TemporalPropagator*)(Propagator*)ce()->getPropagatorByName("Temporal"); }
  bool inconsistent() { return ce()->provenInconsistent(); }
  bool enabled(const Op& p) {
    bool bad = inconsistent();
    if (w.tokens) { if (strchr("sub", p.k) && a.gone(p.a)) return false; if (strchr("AMCD", p.k) && (a.dead[p.a] || (p.k == 'M' && a.dead[p.b]))) return false; if (p.k == 'p') for (int v : w.cons[p.a].scope) if (a.gone(v)) return false; }
    switch (p.k) {
      case 'p': return !a.posted[p.a] && !bad; case 'r': return a.posted[p.a];
      case 's': return !a.isSpec[p.a] && !vars[p.a]->isSpecified() && !bad && p.b >= a.lb[p.a] && p.b <= a.ub[p.a] && !(w.tokens && a.merged[p.a / 3] >= 0);
      case 'u': return a.isSpec[p.a] && !(w.tokens && a.merged[p.a / 3] >= 0);
      case 'b': return !a.based[p.a] && !bad && !(w.tokens && a.merged[p.a / 3] >= 0) && std::max(a.lb[p.a], p.b) <= std::min(a.ub[p.a], p.c) && !vars[p.a]->lastDomain().isEmpty() && (!a.isSpec[p.a] || (a.spec[p.a] >= p.b && a.spec[p.a] <= p.c));
      case 'A': return !a.act[p.a] && a.merged[p.a] < 0 && !bad;
      case 'D': { if (a.act[p.a] || a.merged[p.a] >= 0) return false; for (size_t i = 0; i < w.cons.size(); ++i) if (a.posted[i]) for (int v : w.cons[i].scope) if (v / 3 == p.a) return false; return true; }
      case 'C': return a.act[p.a] || a.merged[p.a] >= 0;
      case 'M': {
        if (a.act[p.a] || a.merged[p.a] >= 0 || !a.act[p.b] || bad || ce()->pending()) return false;
        for (int j = 0; j < 3; ++j) if (!vars[3 * p.a + j]->lastDomain().intersects(vars[3 * p.b + j]->lastDomain())) return false;
        return true;
      }
    }
    return true;
  }
  void apply(const Op& p) {
    switch (p.k) {
      case 'p': { std::vector<V> s; for (int v : w.cons[p.a].scope) s.push_back(vars[v]); cs[p.a] = e->client()->createConstraint(w.cons[p.a].name, s, ""); break; }
      case 'r': e->client()->deleteConstraint(cs[p.a]); cs[p.a] = ConstraintId::noId(); break;
      case 's': vars[p.a]->specify(edouble((double)p.b)); break;
      case 'u': vars[p.a]->reset(); break;
      case 'b': { IntervalIntDomain d(p.b <= -INF ? eint(MINUS_INFINITY) : eint(p.b), p.c >= INF ? eint(PLUS_INFINITY) : eint(p.c)); vars[p.a]->restrictBaseDomain(d); break; }
      case 'A': e->client()->activate(toks[p.a]); break;
      case 'M': e->client()->merge(toks[p.a], toks[p.b]); break;
      case 'D': e->client()->deleteToken(toks[p.a]); toks[p.a] = TokenId::noId(); for (int j = 0; j < 3; ++j) vars[3 * p.a + j] = V::noId(); break;
      case 'C': e->client()->cancel(toks[p.a]); break;
      case 'P': ce()->propagate(); break;
    }
    a.apply(p);
  }
#ifdef MC_PUBLIC_ONLY
  std::string key() { static int n = 0; return std::to_string(getpid()) + "." + std::to_string(++n); }
#else
  std::string key() {
    std::ostringstream o; TemporalPropagator* p = tp(); TemporalNetwork* net = p->m_tnet; std::map<const void*, int> id; id[static_cast<Dnode*>(&net->getOrigin())] = 0;
    std::vector<Timepoint*> l(1, &net->getOrigin()); std::map<V, int> ix; for (size_t i = 0; i < vars.size(); ++i) if (!vars[i].isNoId()) ix[vars[i]] = i + 1;
    for (size_t i = 0; i < vars.size(); ++i) if (!vars[i].isNoId()) { auto it = p->m_varToTimepoint.find(vars[i]); if (it != p->m_varToTimepoint.end()) { l.push_back(it->second); id[static_cast<Dnode*>(it->second)] = i + 1; } }
    int extra = 100; for (auto t : p->m_variablesForDeletion) { id[static_cast<Dnode*>(t)] = extra++; l.push_back(t); }
    o << net->consistent << net->hasDeletions << "|";
    for (auto t : l) {
      o << id[static_cast<Dnode*>(t)] << "=" << t->lowerBound << "," << t->upperBound << "," << t->potential << ":";
      if (t->getBaseDomainConstraint()) { Time x, y; t->getBaseDomainConstraint()->getBounds(x, y); o << "[" << x << "," << y << "]"; }
      for (int k = 0; k < t->outCount; ++k) { o << id[&t->outArray[k]->to] << "/" << t->outArray[k]->length; for (auto q : t->outArray[k]->lengthSpecs) o << "," << q; o << " "; }
      o << "<"; for (int k = 0; k < t->inCount; ++k) o << id[&t->inArray[k]->from] << " ";
      o << ">" << net->m_updatedTimepoints.count(t) << ";";
    }
    for (auto& x : p->m_changedVariables) o << "v" << ix[x.second]; for (auto& x : p->m_activeVariables) o << "a" << ix[x.second];
    o << "d" << p->m_constraintsForDeletion.size();
    for (size_t i = 0; i < cs.size(); ++i) { o << "c" << i; if (cs[i].isNoId()) continue; o << (p->m_changedConstraints.count(cs[i]) ? "!" : "") << cs[i]->isActive() << cs[i]->isRedundant(); auto it = p->m_constrToTempConstr.find(cs[i]); if (it != p->m_constrToTempConstr.end()) { Time x, y; it->second->getBounds(x, y); o << "[" << x << "," << y << "]"; } }
    std::vector<std::pair<long, int>> ord; for (size_t i = 0; i < cs.size(); ++i) if (!cs[i].isNoId()) ord.push_back({(long)cast_long(cs[i]->getKey()), (int)i});
    std::sort(ord.begin(), ord.end()); for (auto& x : ord) o << ">" << x.second;
    for (size_t i = 0; i < vars.size(); ++i) { V v = vars[i]; if (v.isNoId()) { o << ";gone"; continue; } o << ";" << v->lastDomain().toString() << v->isActive() << (int)a.isSpec[i] << a.spec[i] << (int)a.based[i] << (ce()->m_relaxed.count(v) ? "r" : "") << (ce()->getViolationMgr().isEmpty(v) ? "e" : "") << (v->lastRelaxed() >= ce()->m_cycleCount ? "L" : ""); }
    for (int t = 0; t < w.tokens; ++t) o << (int)a.act[t] << a.merged[t];
    o << ce()->m_dirty << p->m_changedConstraints.size();
    return o.str();
  }
#endif
};

static void check(mc::Ctx& c, Sim& s, const std::function<std::string()>& what, bool ok, const std::string& tag) {
  const World& w = s.w; Ref ref(s.a); c.evals();
  if (ok != ref.ok) { c.violation("C08:consistency" + tag, std::string("propagation ends ") + (ok ? "consistent" : "inconsistent") + " but the constraints in force " + (ref.ok ? "admit a schedule" : "admit none") + ", after " + what()); return; }
  if (!ok) return;
  int n = w.vars.size(); bool mixed = false, pure = true; (void)mixed;
  for (auto& v : w.vars) if (v.kind == 'o') pure = false;
  // the variables that speak for themselves
  std::vector<int> times, known;
  for (int i = 0; i < n; ++i) {
    if (s.a.at(i) != i || s.a.gone(i)) continue;
    V v = s.vars[i]; const Domain& d = v->lastDomain(); long lo = of(d.getLowerBound()), hi = of(d.getUpperBound());
    if (w.vars[i].kind != 'd') {
      long l = ref.d[i + 1][0] >= INF ? -INF : -ref.d[i + 1][0], u = ref.d[0][i + 1];
      if (lo != l || hi != u) c.violation("C08:bounds" + tag, std::string(w.vars[i].name) + " is [" + sh(lo) + "," + sh(hi) + "] but the exact bounds are [" + sh(l) + "," + sh(u) + "], after " + what());
      if (w.vars[i].kind == 't') times.push_back(i);
    }
    if (w.vars[i].kind == 't' && s.tp()->getTimepoint(v)) known.push_back(i);
  }
  // what a distance variable keeps must include every distance still possible
  std::vector<std::vector<int>> dist; for (size_t k = 0; k < w.cons.size(); ++k) if (s.a.posted[k] && w.cons[k].scope.size() == 3) dist.push_back(w.cons[k].scope);
  for (int t = 0; t < w.tokens; ++t) if (!s.a.dead[t]) dist.push_back({3 * t, 3 * t + 1, 3 * t + 2});
  for (auto& q : dist) {
    int x = s.a.at(q[0]), y = s.a.at(q[2]), d = s.a.at(q[1]); const Domain& dd = s.vars[d]->lastDomain(); long lo = of(dd.getLowerBound()), hi = of(dd.getUpperBound());
    long l = ref.d[y + 1][x + 1] >= INF ? -INF : -ref.d[y + 1][x + 1], u = ref.d[x + 1][y + 1];
    if (lo > l || hi < u) c.violation("C08:distance-variable" + tag, std::string(w.vars[d].name) + " is [" + sh(lo) + "," + sh(hi) + "] although the distance can be anything in [" + sh(l) + "," + sh(u) + "], after " + what());
  }
  TemporalPropagator* p = s.tp(); TemporalAdvisorId adv = s.e->db()->getTemporalAdvisor();
  auto exact = [&](int x, int y, long& l, long& u) { l = ref.d[y + 1][x + 1] >= INF ? -INF : -ref.d[y + 1][x + 1]; u = ref.d[x + 1][y + 1]; };
  for (int x : times) for (int y : times) {
    if (x == y) continue;
    long l, u; exact(x, y, l, u); bool both = std::count(known.begin(), known.end(), x) && std::count(known.begin(), known.end(), y);
    auto say = [&](const std::string& q, long gl, long gu, const std::string& how) { c.violation("C08:" + q + tag, q + "(" + w.vars[x].name + "," + w.vars[y].name + ") says [" + sh(gl) + "," + sh(gu) + "] but the distance " + how + " [" + sh(l) + "," + sh(u) + "], after " + what()); };
    for (int ex = 0; ex < 2; ++ex) {
      IntervalIntDomain g = p->getTemporalDistanceDomain(s.vars[x], s.vars[y], ex); long gl = of(g.getLowerBound()), gu = of(g.getUpperBound());
      if (ex && both && pure) { if (gl != l || gu != u) say("distance-exact", gl, gu, "is exactly"); }
      else if (gl > l || gu < u) say("distance-approximate", gl, gu, "can be");
      if (w.tokens) { IntervalIntDomain g2 = adv->getTemporalDistanceDomain(s.vars[x], s.vars[y], ex); if (of(g2.getLowerBound()) != gl || of(g2.getUpperBound()) != gu) say("advisor-distance", of(g2.getLowerBound()), of(g2.getUpperBound()), "the propagator gives differs:"); }
    }
    if (!both) continue;
    bool can = p->canPrecede(s.vars[x], s.vars[y]);
    if (!can && u >= 0) say("canPrecede", 0, 0, "is");
    bool con = p->canBeConcurrent(s.vars[x], s.vars[y]);
    if (!con && l <= 0 && u >= 0) say("canBeConcurrent", 0, 0, "is");
  }
  for (int x : known) {
    std::vector<V> others; std::vector<int> who; for (int y : known) if (y != x) { others.push_back(s.vars[y]); who.push_back(y); }
    if (others.empty()) continue;
    std::vector<IntervalIntDomain> ds; p->getTemporalDistanceDomains(s.vars[x], others, ds);
    std::vector<Time> lbs, ubs; p->getTemporalDistanceSigns(s.vars[x], others, lbs, ubs);
    if (ds.size() != who.size() || lbs.size() != who.size() || ubs.size() != who.size()) { c.violation("C08:distances-count" + tag, "distances to " + std::to_string(who.size()) + " times were asked for, " + std::to_string(ds.size()) + " given, after " + what()); continue; }
    auto sg = [](long v) { return v < 0 ? -1 : v > 0; };
    for (size_t k = 0; k < who.size(); ++k) {
      long l, u; exact(x, who[k], l, u); long gl = of(ds[k].getLowerBound()), gu = of(ds[k].getUpperBound()), ol = l, ou = u;
      if (!pure) { if (gl > l || gu < u) c.violation("C08:distances" + tag, "from " + std::string(w.vars[x].name) + " to " + w.vars[who[k]].name + " [" + sh(gl) + "," + sh(gu) + "] excludes some of [" + sh(l) + "," + sh(u) + "], after " + what()); continue; }
      if (gl != ol || gu != ou) c.violation("C08:distances" + tag, "from " + std::string(w.vars[x].name) + " to " + w.vars[who[k]].name + " the distances are given as [" + sh(gl) + "," + sh(gu) + "] but are [" + sh(ol) + "," + sh(ou) + "], after " + what());
      if (sg(lbs[k]) != sg(l) || sg(ubs[k]) != sg(u)) c.violation("C08:signs" + tag, "from " + std::string(w.vars[x].name) + " to " + w.vars[who[k]].name + " the signs are given as of [" + sh(ofT(lbs[k])) + "," + sh(ofT(ubs[k])) + "] but the distances are [" + sh(l) + "," + sh(u) + "], after " + what());
    }
    // times near wanted ones: a schedule, and the wanted ones themselves if they are one
  }
  if (pure && known.size() > 1) {
    std::vector<V> vs; std::vector<Time> want, got; for (int x : known) { vs.push_back(s.vars[x]); long l = ref.d[x + 1][0] >= INF ? -50 : -ref.d[x + 1][0]; want.push_back(l); }
    for (int round = 0; round < 2; ++round) {
      bool fin = true; for (int x : known) if (ref.d[x + 1][0] >= INF) fin = false;
      p->getMinPerturbTimes(vs, want, got);
      bool sched = got.size() == vs.size();
      for (size_t i = 0; sched && i < got.size(); ++i) { long t = got[i]; if (t > ref.d[0][known[i] + 1] || (ref.d[known[i] + 1][0] < INF && -t > ref.d[known[i] + 1][0])) sched = false; for (size_t j = 0; j < got.size(); ++j) if (got[j] - got[i] > ref.d[known[i] + 1][known[j] + 1]) sched = false; }
      std::ostringstream o; for (auto t : got) o << t << " ";
      if (!sched) c.violation("C08:perturb-schedule" + tag, "the times proposed near the wanted ones (" + o.str() + ") are no schedule, after " + what());
      else if (got != want && (round || fin)) c.violation("C08:perturb-change" + tag, "the wanted times are a schedule but others (" + o.str() + ") are proposed, after " + what());
      if (!sched) break; want = got;
    }
  }
  // tokens: could one come before, between, or along with others?
  std::vector<int> live; for (int t = 0; t < w.tokens; ++t) if (s.a.merged[t] < 0 && !s.a.dead[t]) live.push_back(t);
  auto possible = [&](std::vector<std::array<int, 2>> before) { Ref q = ref; for (auto& b : before) q.edge(b[1] + 1, b[0] + 1, 0); q.close(); return q.ok; };
  for (int x : live) for (int y : live) {
    if (x == y) continue;
    bool pos = possible({{{3 * x + 2, 3 * y}}}), can = adv->canPrecede(s.toks[x], s.toks[y]);
    if (pos && !can) c.violation("C08:token-canPrecede" + tag, std::string(w.vars[3 * x].name) + " token can come before " + w.vars[3 * y].name + " token, but that is denied, after " + what());
    pos = possible({{{3 * x, 3 * y}}, {{3 * y, 3 * x}}, {{3 * x + 2, 3 * y + 2}}, {{3 * y + 2, 3 * x + 2}}}); can = adv->canBeConcurrent(s.toks[x], s.toks[y]);
    if (pos && !can) c.violation("C08:token-canBeConcurrent" + tag, std::string(w.vars[3 * x].name) + " token can coincide with " + w.vars[3 * y].name + " token, but that is denied, after " + what());
    for (int z : live) if (z != x && z != y) {
      pos = possible({{{3 * x + 2, 3 * y}}, {{3 * y + 2, 3 * z}}}); can = adv->canFitBetween(s.toks[y], s.toks[x], s.toks[z]);
      if (pos && !can) c.violation("C08:token-canFitBetween" + tag, std::string(w.vars[3 * y].name) + " token fits between " + w.vars[3 * x].name + " token and " + w.vars[3 * z].name + " token, but that is denied, after " + what());
    }
  }
}

// case: world, mode (E eager, L lazy, Q eager with questions in between) | operations
static void explore(const std::string& h, mc::Ctx& c, int depth) {
  c.begin(h); c.trace();
  size_t bar = h.find('|'); int wi = atoi(h.c_str()); const World& w = worlds()[wi]; char mode = h[bar - 1]; size_t base = h.find('#') == std::string::npos ? bar + 1 : h.find('#') + 1;
  std::string t = h.substr(bar + 1); for (auto& ch : t) if (ch == '#') ch = ' ';
  std::vector<Op> ops = parse(w, t); size_t fresh = parse(w, h.substr(base)).size();
  auto what = [&] { return pretty(w, ops); };
  std::string tag = std::string(w.tokens ? "-tokens" : "") + (mode == 'L' ? "-lazy" : "");
  Sim* s = new Sim(w); bool ok = s->ce()->propagate();
  try {
    for (auto& p : ops) { if (!s->enabled(p)) { delete s; return; } s->apply(p); c.transitions(); if (mode != 'L') ok = s->ce()->propagate(); if (mode == 'Q' && ok && &p != &ops.back()) check(c, *s, what, ok, tag + "-between"); }
    std::string key = std::to_string(wi) + mode + s->key();
    bool neu = c.state(key); if (!neu && ops.size() && !c.r->replaying) { delete s; return; }
    std::string succ; std::vector<std::string> next;
    if ((int)fresh < depth) { for (auto& p : w.ops) if (s->enabled(p)) next.push_back(h + opText(p) + " "); if (mode == 'L' && (ops.empty() || ops.back().k != 'P')) next.push_back(h + "P "); }
    if (mode == 'L') ok = s->ce()->propagate();
    check(c, *s, what, ok, tag);
    for (auto& n : next) c.emit(n);
    delete s;
  } catch (Error& er) { c.violation("C08:error" + tag, "an error was raised (" + er.getMsg() + ") in " + what()); }
}

int main(int argc, char** argv) {
  mc::Runner r("C08", argc, argv);
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  const char* only = getenv("C08_WORLD"); int more = r.quick ? 0 : 1;
  for (int pass = 0; pass < 3; ++pass) {
    for (int dd = 3; dd <= 8; ++dd) {
      std::vector<std::string> front;
      for (size_t i = 0; i < worlds().size(); ++i) {
        if (only && atoi(only) != (int)i) continue;
        const World& w = worlds()[i]; int d = (pass == 0 ? w.eager : pass == 1 ? w.lazy + 1 : w.eager - 1) + more; if (d != dd) continue;
        front.push_back(std::to_string(i) + "ELQ"[pass] + "|");
        for (auto& st : w.starts) front.push_back(std::to_string(i) + "ELQ"[pass] + "|" + st + "#");
      }
      if (!front.empty()) r.bfs(front, dd, [&](const std::string& h, mc::Ctx& c) { explore(h, c, dd); });
    }
  }
  r.rule = "all histories of temporal operations (propagated after each step, or lazily), each propagated state compared with all-pairs shortest paths over what is in force";
  r.extras.push_back({"worlds", std::to_string(worlds().size())}); r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("0E|p0 p1 p2 r0 "); r.sample("4E|A0 M2.0 p1 # s1.5 C2 ");
  r.assumptions = {"while inconsistent only relaxations are made", "a distance variable belongs to one temporal constraint", "merges only of tokens whose times intersect"};
  return r.finish();
}
