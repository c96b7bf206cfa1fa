// Histories of token operations on a real plan database: breadth-first
// exploration, each state compared with a fresh plan given only the steps
// still in force (and with merges replaced by equalities).
#ifndef TOKEN_HISTORY_HH
#define TOKEN_HISTORY_HH
#ifndef PLAN_NDDL
#define PLAN_NDDL
#endif
#include "plan_lib.hh"
using namespace plan;

struct Plan;
struct Op { char k; int a, b; };
static std::string PID;
struct Con { const char* name; std::vector<std::pair<int, const char*>> scope; };
struct Spec { int tok; const char* var; double val; };
struct World {
  const char* model;
  struct T { const char* label; const char* pred; bool rejectable; bool fact; };
  std::vector<T> roots;
  std::vector<const char*> labels;       // roots first, then sub-goals that may appear
  std::vector<Con> cons;
  std::vector<Spec> specs;               // value of an object variable: index of object by name order
  std::vector<Spec> bases;               // restrictBase to <= val
  bool mergeIsEq, resetAny;                         // a guard asks for a chosen value, not an implied one
  std::function<void(Plan&, mc::Ctx&, bool, const std::vector<Op>&, const std::string&)> extra;
};
static std::vector<World>& worlds();
static std::string str(const Op& o) { std::ostringstream s; s << o.k << o.a; if (o.k == 'm') s << ">" << o.b; return s.str(); }
static Op opOf(const std::string& s) { Op o; o.k = s[0]; o.a = atoi(s.c_str() + 1); o.b = 0; size_t p = s.find('>'); if (p != std::string::npos) o.b = atoi(s.c_str() + p + 1); return o; }
static std::vector<Op> opsOf(const std::string& s) { std::vector<Op> r; std::istringstream i(s); std::string t; while (i >> t) r.push_back(opOf(t)); return r; }
static std::string str(const std::vector<Op>& h) { std::string s; for (auto& o : h) s += str(o) + " "; return s; }
static std::string pretty(const World& w, const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h) switch (o.k) {
    case 'a': s += std::string("activate ") + w.labels[o.a] + "; "; break;
    case 'm': s += std::string("merge ") + w.labels[o.a] + " onto " + w.labels[o.b] + "; "; break;
    case 'r': s += std::string("reject ") + w.labels[o.a] + "; "; break;
    case 'c': s += std::string("cancel ") + w.labels[o.a] + "; "; break;
    case 'd': s += std::string("delete ") + w.labels[o.a] + "; "; break;
    case 's': s += std::string("specify ") + w.labels[w.specs[o.a].tok] + "." + w.specs[o.a].var + "=" + std::to_string(w.specs[o.a].val).substr(0, 1) + "; "; break;
    case 'u': s += std::string("reset ") + w.labels[w.specs[o.a].tok] + "." + w.specs[o.a].var + "; "; break;
    case 'b': s += std::string("restrict base ") + w.labels[w.bases[o.a].tok] + "." + w.bases[o.a].var + "<=" + std::to_string(w.bases[o.a].val).substr(0, 1) + "; "; break;
    case 'k': case 'K': { s += std::string(o.k == 'k' ? "post " : "retract ") + w.cons[o.a].name + "("; for (auto& v : w.cons[o.a].scope) s += std::string(w.labels[v.first]) + "." + v.second + " "; s += "); "; break; }
  }
  return s;
}

static bool under(const World& w, int t, int root) { std::string l = w.labels[t], r = w.labels[root]; return l.size() > r.size() && l.compare(0, r.size() + 1, r + "/") == 0; }

struct Plan {
  const World& w; Eng* e; Names n; std::vector<ConstraintId> posted; bool lazy; bool mergeAsEq; bool hurt;
  std::set<int> replaced;                       // tokens whose merge was replaced by equalities
  Plan(const World& wo, bool lz, bool meq = false) : w(wo), e(new Eng()), lazy(lz), mergeAsEq(meq), hurt(false) {
    std::string r = e->load(w.model);
    if (!r.empty()) { fprintf(stderr, "model: %s\n", r.c_str()); abort(); }
    for (auto& t : w.roots) { TokenId k = e->client()->createToken(t.pred, t.label, t.rejectable, t.fact); n.root(k, t.label); }
    posted.assign(w.cons.size(), ConstraintId::noId());
    if (lazy) e->ce()->setAutoPropagation(false);
    if (!lazy) e->ce()->propagate();
  }
  ~Plan() { if (!hurt) delete e; }
  TokenId tok(int i) {
    n.scan(e->db());
    for (auto t : e->db()->getTokens()) if (n.of(t) == w.labels[i]) return t;
    return TokenId::noId();
  }
  V var(int i, const char* name) {
    TokenId t = tok(i); if (t.isNoId()) return V();
    for (auto v : t->getVariables()) if (v->getName() == name) return v;
    return V();
  }
  bool consistent() { return e->ce()->constraintConsistent(); }
  edouble value(const Spec& s, V v) {
    if (v->baseDomain().isEntity()) return e->db()->getObject(s.val < 1 ? "o1" : "o2")->getKey();
    return edouble(s.val);
  }
  struct Missing {};
  bool there(const Op& o) {
    switch (o.k) {
      case 's': case 'u': return tok(w.specs[o.a].tok).isId();
      case 'b': return tok(w.bases[o.a].tok).isId();
      case 'k': for (auto& x : w.cons[o.a].scope) if (tok(x.first).isNoId()) return false; return true;
      case 'K': return posted[o.a].isId();
      case 'P': return true;
      case 'm': return tok(o.a).isId() && tok(o.b).isId();
      default: return tok(o.a).isId();
    }
  }
  // Two arguments of one constraint are the same variable once merges are followed.
  bool aliased(const std::vector<Op>& f) {
    for (auto& o : f) if (o.k == 'k') {
      std::set<std::pair<long, std::string>> seen;
      for (auto& x : w.cons[o.a].scope) { TokenId t = tok(x.first); if (t.isNoId()) continue; if (t->isMerged()) t = t->getActiveToken(); if (!seen.insert(std::make_pair(Names::k(t), std::string(x.second))).second) return true; }
    }
    return false;
  }
  void apply(const Op& o) {
    if (!there(o)) throw Missing();   // eager and lazy runs differ in when guards fire
    DbClientId c = e->client();
    switch (o.k) {
      case 'a': c->activate(tok(o.a)); break;
      case 'm':
        if (!mergeAsEq) c->merge(tok(o.a), tok(o.b));
        else {
          TokenId s = tok(o.a), t = tok(o.b); replaced.insert(o.a);
          for (size_t i = 1; i < s->getVariables().size(); ++i) {
            V x = s->getVariables()[i], y = t->getVariables()[i];
            std::string nm = x->getName();
            e->ce()->createConstraint(nm == "start" || nm == "end" ? "concurrent" : "eq", makeScope(x, y));
          }
        }
        break;
      case 'r': c->reject(tok(o.a)); break;
      case 'P': e->ce()->propagate(); break;
      case 'c': c->cancel(tok(o.a)); break;
      case 'd': c->deleteToken(tok(o.a)); break;
      case 's': { V v = var(w.specs[o.a].tok, w.specs[o.a].var); c->specify(v, value(w.specs[o.a], v)); break; }
      case 'u': c->reset(var(w.specs[o.a].tok, w.specs[o.a].var)); break;
      case 'b': { V v = var(w.bases[o.a].tok, w.bases[o.a].var); IntervalIntDomain d(cast_int(v->baseDomain().getLowerBound()), eint((long)w.bases[o.a].val)); v->restrictBaseDomain(d); break; }
      case 'k': { std::vector<V> s; for (auto& x : w.cons[o.a].scope) s.push_back(var(x.first, x.second)); posted[o.a] = c->createConstraint(w.cons[o.a].name, s); break; }
      case 'K': c->deleteConstraint(posted[o.a]); posted[o.a] = ConstraintId::noId(); break;
    }
    if (!lazy) e->ce()->propagate();
    // A sub-goal that others are merged onto stays as their support when its
    // master no longer asks for it; splitting them is part of the step.
    for (int i = w.roots.size(); i < (int)w.labels.size(); ++i) {
      TokenId s = tok(i); if (s.isNoId() || s->master().isId()) continue;
      while ((s = tok(i)).isId() && !s->getMergedTokens().empty()) { TokenId m = *s->getMergedTokens().begin(); e->client()->cancel(m); }
      if (!lazy) e->ce()->propagate();
    }
  }
  // Steps on a sub-goal wait until whatever else asks for it has been done.
  void applyAll(std::vector<Op> f) {
    while (!f.empty()) {
      std::vector<Op> later; size_t n = f.size();
      for (auto& o : f) if (there(o)) apply(o); else later.push_back(o);
      if (lazy && !later.empty()) e->ce()->propagate();
      if (later.size() == n) throw Missing();
      f.swap(later);
    }
  }
  bool isPosted(int i, const std::vector<Op>& inforce) { for (auto& o : inforce) if (o.k == 'k' && o.a == i) return true; return false; }
  static bool has(const std::vector<Op>& f, char k, int a) { for (auto& o : f) if (o.k == k && o.a == a) return true; return false; }
  bool enabled(const Op& o, const std::vector<Op>& f) {
    bool ok = consistent();
    if (o.k == 'P') return lazy;
    switch (o.k) {
      case 'a': { if (!ok) return false; TokenId t = tok(o.a); return t.isId() && t->isInactive() && t->getState()->lastDomain().isMember(Token::ACTIVE); }
      case 'm': {
        if (!ok || o.a == o.b) return false;
        TokenId s = tok(o.a), t = tok(o.b);
        if (s.isNoId() || t.isNoId() || !s->isInactive() || !t->isActive() || s->getPredicateName() != t->getPredicateName() || !s->getState()->lastDomain().isMember(Token::MERGED)) return false;
        // never onto its own sub-goal
        if (std::string(w.labels[o.b]).find(std::string(w.labels[o.a]) + "/") == 0) return false;
        for (size_t i = 1; i < s->getVariables().size(); ++i) if (!s->getVariables()[i]->lastDomain().intersects(t->getVariables()[i]->lastDomain())) return false;
        return true;
      }
      case 'r': { if (!ok) return false; TokenId t = tok(o.a); return t.isId() && t->isInactive() && t->master().isNoId() && t->getState()->lastDomain().isMember(Token::REJECTED); }
      case 'c': {
        TokenId t = tok(o.a); if (t.isNoId() || t->isInactive() || t->isIncomplete()) return false;
        // a constraint posted on a sub-goal is to be retracted before the sub-goal goes
        for (auto& x : f) if (x.k == 'k') for (auto& v : w.cons[x.a].scope) if (under(w, v.first, o.a)) return false;
        return true;
      }
      case 'd': {
        TokenId t = tok(o.a); if (t.isNoId() || !t->master().isNoId() || !t->isInactive()) return false;   // only undecided tokens can be deleted
        // explicit constraints on it go first
        for (auto& x : f) if (x.k == 'k') for (auto& v : w.cons[x.a].scope) if (v.first == o.a || std::string(w.labels[v.first]).find(std::string(w.labels[o.a]) + "/") == 0) return false;
        return true;
      }
      case 's': {
        if (!ok) return false; V v = var(w.specs[o.a].tok, w.specs[o.a].var); if (v.isNoId()) return false; TokenId t = tok(w.specs[o.a].tok);
        return !t->isMerged() && !v->isSpecified() && v->lastDomain().isMember(value(w.specs[o.a], v));
      }
      case 'u':
        // resetting may withdraw sub-goals, as cancelling does
        if (!w.mergeIsEq) for (auto& x : f) if (x.k == 'k') for (auto& v : w.cons[x.a].scope) if (under(w, v.first, w.specs[o.a].tok) || (w.resetAny && v.first >= (int)w.roots.size())) return false;
        return has(f, 's', o.a) && tok(w.specs[o.a].tok).isId();
      case 'b': {
        if (!ok || has(f, 'b', o.a)) return false; V v = var(w.bases[o.a].tok, w.bases[o.a].var); if (v.isNoId() || v->isSpecified()) return false;
        return !tok(w.bases[o.a].tok)->isMerged() && tok(w.bases[o.a].tok)->getMergedTokens().empty() && v->lastDomain().getLowerBound() <= w.bases[o.a].val;
      }
      case 'k': { if (!ok || has(f, 'k', o.a)) return false; for (auto& v : w.cons[o.a].scope) if (tok(v.first).isNoId()) return false; return true; }
      case 'K': return has(f, 'k', o.a);
    }
    return false;
  }
  std::vector<Op> menu(bool base) {
    std::vector<Op> r; int L = w.labels.size();
    for (int i = 0; i < L; ++i) { r.push_back({'a', i, 0}); r.push_back({'c', i, 0}); if (i < (int)w.roots.size()) { if (w.roots[i].rejectable) r.push_back({'r', i, 0}); r.push_back({'d', i, 0}); } for (int j = 0; j < L; ++j) if (i != j) r.push_back({'m', i, j}); }
    for (int i = 0; i < (int)w.specs.size(); ++i) { r.push_back({'s', i, 0}); r.push_back({'u', i, 0}); }
    for (int i = 0; i < (int)w.cons.size(); ++i) { r.push_back({'k', i, 0}); r.push_back({'K', i, 0}); }
    if (base) for (int i = 0; i < (int)w.bases.size(); ++i) r.push_back({'b', i, 0});
    if (lazy) r.push_back({'P', 0, 0});
    return r;
  }
};

// Steps still in force after one more step.  Cancelling an activation takes
// with it the sub-goals and whatever was done to them or merged onto them.
static void dropToken(const World& w, std::vector<Op>& f, int t, bool self);
static void dropActivation(const World& w, std::vector<Op>& f, int t) {
  for (size_t i = 0; i < f.size();) {
    Op o = f[i];
    bool kill = (o.k == 'a' && o.a == t) || (o.k == 'm' && o.b == t);
    if (kill) { f.erase(f.begin() + i); i = 0; } else ++i;
  }
  for (int s = 0; s < (int)w.labels.size(); ++s) if (under(w, s, t)) dropToken(w, f, s, true);
}
static void dropToken(const World& w, std::vector<Op>& f, int t, bool self) {
  dropActivation(w, f, t);
  for (size_t i = 0; i < f.size();) {
    Op o = f[i]; bool kill = false;
    if (o.k == 'a' || o.k == 'm' || o.k == 'r') kill = o.a == t;
    if (o.k == 's' && w.specs[o.a].tok == t) kill = true;
    if (o.k == 'b' && w.bases[o.a].tok == t) kill = true;
    if (o.k == 'k') for (auto& v : w.cons[o.a].scope) if (v.first == t) kill = true;
    if (kill) f.erase(f.begin() + i); else ++i;
  }
}
// A reset may take a guard away and the sub-goals with it.
static void step(const World& w, std::vector<Op>& f, const Op& o) {
  auto erase = [&](char k, int a) { for (size_t i = 0; i < f.size(); ++i) if (f[i].k == k && f[i].a == a) { f.erase(f.begin() + i); return; } };
  switch (o.k) {
    case 'c': { bool act = Plan::has(f, 'a', o.a); if (act) dropActivation(w, f, o.a); else { erase('m', o.a); erase('r', o.a); } break; }
    case 'd': dropToken(w, f, o.a, true); f.push_back(o); break;
    case 'u': erase('s', o.a); break;
    case 'K': erase('k', o.a); break;
    case 'P': break;
    default: f.push_back(o);
  }
}
// Drops whatever refers to tokens that are no longer there.
static void prune(const World& w, std::vector<Op>& f, Plan& p) {
  for (int s = w.roots.size(); s < (int)w.labels.size(); ++s) if (p.tok(s).isNoId()) dropToken(w, f, s, true);
}

struct View { bool ok; std::vector<std::string> lines; };
static View view(Plan& p) {
  View v; v.ok = p.e->ce()->propagate() && p.consistent();
  v.lines = dump(*p.e, p.n);
  if (!v.ok) { std::vector<std::string> k; for (auto& l : v.lines) if (l.compare(0, 4, "var ") && l.compare(0, 7, "object ")) k.push_back(l); v.lines = k; }
  return v;
}
static std::unordered_map<std::string, View>* memo;
static const char* KIND(char k) { switch (k) { case 'a': return "activate"; case 'm': return "merge"; case 'r': return "reject"; case 'c': return "cancel"; case 'd': return "delete"; case 's': return "specify"; case 'u': return "reset"; case 'b': return "restrict"; case 'P': return "propagate"; case 'k': return "post"; default: return "retract"; } }

static void checkStates(Plan& p, mc::Ctx& c, const std::string& what) {
  for (auto t : p.e->db()->getTokens()) {
    int n = t->isActive() + t->isMerged() + t->isRejected() + t->isInactive();
    if (n != 1) c.violation(PID + ":state-count", "a token is in " + std::to_string(n) + " states after " + what);
    if (t->isMerged() != !t->getActiveToken().isNoId()) c.violation(PID + ":merged-target", "a merged token without target, or a target without being merged, after " + what);
    if (t->isMerged() && (!t->getActiveToken()->isActive() || !t->getActiveToken()->getMergedTokens().count(t))) c.violation(PID + ":merged-target", "the target of a merge is not active or does not know of it after " + what);
    for (auto m : t->getMergedTokens()) if (m->getActiveToken() != t) c.violation(PID + ":merged-set", "the merged set is out of step after " + what);
    if (!t->isActive() && (!t->slaves().empty() || !t->getMergedTokens().empty())) c.violation(PID + ":left-over", "sub-goals or merged tokens on a token that is not active after " + what);
  }
}
// Transitions that do not exist are refused.
static void forbidden(Plan& p, const World& w, mc::Ctx& c, const std::string& what) {
  auto refused = [&](const char* name, TokenId t, const std::function<void()>& f) {
    int before = t->isActive() + 2 * t->isMerged() + 4 * t->isRejected() + 8 * t->isInactive(); bool threw = false;
    try { f(); } catch (Error&) { threw = true; }
    p.hurt = true;
    int after = t->isActive() + 2 * t->isMerged() + 4 * t->isRejected() + 8 * t->isInactive();
    c.evals();
    if (!threw || before != after) c.violation(std::string(PID + ":forbidden-") + name, std::string(name) + (threw ? " changed the state though refused" : " was accepted") + " after " + what);
  };
  DbClientId cl = p.e->client();
  for (int i = 0; i < (int)w.labels.size(); ++i) {
    TokenId t = p.tok(i); if (t.isNoId()) continue;
    if (!t->isInactive()) {
      refused("activate-again", t, [&] { cl->activate(t); });
      refused("reject-decided", t, [&] { cl->reject(t); });
    } else refused("cancel-undecided", t, [&] { cl->cancel(t); });
    for (int j = 0; j < (int)w.labels.size(); ++j) {
      TokenId u = p.tok(j); if (u.isNoId()) continue;
      if (!t->isInactive()) refused("merge-decided", t, [&] { cl->merge(t, u); });
      else if (!u->isActive()) refused("merge-onto-inactive", t, [&] { cl->merge(t, u); });
      else if (!p.e->schema()->isA(u->getPredicateName(), t->getPredicateName())) refused("merge-other-kind", t, [&] { cl->merge(t, u); });
    }
  }
}

// Histories may start with steps that are always taken; these do not count.
static int prefixOf(const std::string& h) { return atoi(h.c_str() + 3); }
// Runs one history; returns successors.
static void explore(const std::string& h, mc::Ctx& c, int maxDepth) {
  c.begin(h);
  size_t bar = h.find('|'); int wi = h[0] - '0'; bool lazy = h[1] == 'L', base = h[2] == 'b';
  const World& w = worlds()[wi];
  std::vector<Op> ops = opsOf(h.substr(bar + 1)), f;
  std::string what = "[" + pretty(w, ops) + "]";
  std::string kind = ops.empty() ? "start" : KIND(ops.back().k);
  Plan p(w, lazy);
  try {
    for (auto& o : ops) { p.apply(o); step(w, f, o); if (!lazy || o.k == 'P' || &o == &ops.back()) { if (lazy) p.e->ce()->propagate(); prune(w, f, p); } }
  } catch (Plan::Missing&) { return;
  } catch (Error& x) { p.hurt = true; c.violation(PID + ":error-" + kind, "a permitted step raised an error (" + x.getMsg() + ") in " + what); return; }
  View v;
  try { v = view(p); } catch (Error& x) { p.hurt = true; c.violation(PID + ":error-propagate-" + kind, "propagation raised an error (" + x.getMsg() + ") after " + what); return; }
  c.transitions();
  std::string fs = str(f), key = h.substr(0, bar + 1) + (v.ok ? "" : "!") + text(v.lines) + fs;
  for (size_t i = ops.size(); i-- > 0 && i + 2 >= ops.size();) if (strchr("cudKP", ops[i].k)) { key += str(ops[i]) + std::to_string(ops.size() - i); break; }
  checkStates(p, c, what);
  if (w.extra) w.extra(p, c, v.ok, f, what);
  // (1) a plan in which the undone steps never happened
  std::string mk = h.substr(0, bar + 1) + fs;
  auto it = memo->find(mk);
  if (it == memo->end()) {
    Plan q(w, lazy); View r;
    try { q.applyAll(f); r = view(q); } catch (Plan::Missing&) { r.lines.push_back("missing"); } catch (Error& x) { q.hurt = true; r.ok = false; r.lines.push_back("error " + x.getMsg()); }
    if (memo->size() > 60000) memo->clear();
    it = memo->insert(std::make_pair(mk, r)).first; c.trace();
  }
  const View& r = it->second; c.evals();
  bool missing = r.lines.size() == 1 && r.lines[0] == "missing", alias = p.aliased(f);
  if (missing) { if (!lazy) c.violation(PID + ":sub-goal-missing", "a sub-goal does not appear in a plan with only the steps in force [" + pretty(w, f) + "] after " + what); }
  else if (alias && (r.ok != v.ok || !v.ok)) {}   // lt(x,x): sound only once x is decided
  else if (alias) { std::vector<std::string> a, b; for (auto& l : v.lines) if (l.compare(0, 4, "var ")) a.push_back(l); for (auto& l : r.lines) if (l.compare(0, 4, "var ")) b.push_back(l); if (a != b) c.violation(PID + ":plan-after-" + kind + "-" + diffClass(a, b), "differs from a plan with only the steps in force [" + pretty(w, f) + "] after " + what + " -- " + diff(a, b, "here", "there")); }
  else if (r.ok != v.ok) c.violation(PID + ":verdict-after-" + kind, std::string("consistency is ") + (v.ok ? "true" : "false") + " but " + (r.ok ? "true" : "false") + " in a plan with only the steps in force [" + pretty(w, f) + "] after " + what + (r.lines.size() && !r.ok ? r.lines[0] : ""));
  else if (!v.ok && !w.mergeIsEq) {}   // rules wait until consistency is restored
  else if (r.lines != v.lines) c.violation(PID + ":plan-after-" + kind + "-" + diffClass(v.lines, r.lines), "differs from a plan with only the steps in force [" + pretty(w, f) + "] after " + what + " -- " + diff(v.lines, r.lines, "here", "there"));
  // (2) merging is equality
  bool merged = false; for (auto& o : f) if (o.k == 'm') merged = true;
  if (merged && w.mergeIsEq) { 
    std::string ek = "=" + mk; auto e = memo->find(ek);
    if (e == memo->end()) {
      Plan q(w, lazy, true); View r2;
      try {
        q.applyAll(f);
        r2.ok = q.e->ce()->propagate() && q.consistent(); dump(*q.e, q.n);
        for (auto t : q.e->db()->getTokens()) { int idx = -1; for (int i = 0; i < (int)w.labels.size(); ++i) if (q.n.of(t) == w.labels[i]) idx = i; if (q.replaced.count(idx)) continue; for (size_t i = 1; i < t->getVariables().size(); ++i) r2.lines.push_back(q.n.of(t) + "." + t->getVariables()[i]->getName() + " " + domText(t->getVariables()[i]->lastDomain())); }
        std::sort(r2.lines.begin(), r2.lines.end());
      } catch (Plan::Missing&) { r2.lines.clear(); r2.lines.push_back("missing"); r2.ok = true; } catch (Error& x) { q.hurt = true; r2.lines.clear(); r2.lines.push_back("error " + x.getMsg()); r2.ok = true; }
      e = memo->insert(std::make_pair(ek, r2)).first; c.trace();
    }
    std::vector<std::string> mine;
    for (auto t : p.e->db()->getTokens()) if (!t->isMerged()) for (size_t i = 1; i < t->getVariables().size(); ++i) mine.push_back(p.n.of(t) + "." + t->getVariables()[i]->getName() + " " + domText(t->getVariables()[i]->lastDomain()));
    std::sort(mine.begin(), mine.end()); c.evals();
    if (lazy && e->second.lines.size() == 1 && e->second.lines[0] == "missing") {}
    else if (alias) { if (!v.ok && e->second.ok) c.violation(PID + ":merge-verdict", "merging made the plan inconsistent where explicit equalities do not, after " + what); }
    else if (e->second.ok != v.ok) c.violation(PID + ":merge-verdict", std::string("with merges the plan is ") + (v.ok ? "consistent" : "inconsistent") + ", with explicit equalities it is not so, after " + what + (e->second.lines.size() ? " " + e->second.lines[0] : ""));
    else if (v.ok && e->second.lines != mine) c.violation(PID + ":merge-restrictions", "merging restricts differently than equality after " + what + " -- " + diff(mine, e->second.lines, "merged", "equal"));
  }
  bool fresh = c.state(key);
  if (fresh && (int)ops.size() - prefixOf(h) < maxDepth) for (auto& o : p.menu(base)) if (p.enabled(o, f)) c.emit(h + str(o) + " ");
  if (fresh && !lazy && ops.size() <= 3) forbidden(p, w, c, what);
}

#endif
