// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,Solvers,NDDL
// C21: histories of plan changes under the eyes of several solvers of different
// configurations at once.  After each history every solver's open flaws, the
// handler it takes for each and the flaw it would take next are compared with a
// reading of the configuration's own text.
#define PLAN_NDDL
#define PLAN_SOLVERS
#include "plan_lib.hh"
#include "Solver.hh"
#include "SolverDecisionPoint.hh"
#include "FlawManager.hh"
#include "FlawHandler.hh"
#include "UnboundVariableManager.hh"
#include "OpenConditionManager.hh"
#include "ThreatManager.hh"
#include "MatchingEngine.hh"
#include "RuleVariableListener.hh"
#include "Context.hh"
#include "DbClient.hh"
#include "tinyxml.h"
#include <unordered_map>
using namespace plan;
using namespace EUROPA::SOLVERS;

static const char* MODEL =
  "enum Mode { On, Off }\n"
  "class R { int id; R(int a) { id = a; } predicate A { int p; int q; p = [0 2]; q = [0 1]; eq(duration, 2); leq(0, start); leq(end, 6); } predicate C { int s; s = [0 1]; leq(0, start); leq(end, 6); leq(duration, 2); } }\n"
  "class S extends R { S(int a) { super(a); } predicate D { Mode m; } }\n"
  "class TL extends Timeline { predicate X { int p; p = [0 1]; eq(duration, 2); leq(0, start); leq(end, 5); } }\n"
  "R::A { if (p == 1) { meets(R.C c); neq(c.s, q); } int k; k == [0 1]; neq(k, q); }\n"
  "TL::X { before(R.C c); }\n"
  "R r1 = new R(1); S s1 = new S(2); TL t1 = new TL(); int g = [0 1]; close();\n";

// ------------------------------------------------------------- configurations
static const std::vector<const char*>& confs() {
  static std::vector<const char*> c = {
  // 0: nothing is filtered
  "<Solver name='S0'><OpenConditionManager><FlawHandler label='oc' component='StandardOpenConditionHandler'/></OpenConditionManager>"
  "<ThreatManager><FlawHandler label='th' component='StandardThreatHandler'/></ThreatManager>"
  "<UnboundVariableManager><FlawHandler label='uv' component='Min'/></UnboundVariableManager></Solver>",
  // 1: by name, class, predicate; handlers by specificity and priority
  "<Solver name='S1'><UnboundVariableManager defaultPriority='50'><FlawFilter var-match='start'/><FlawFilter var-match='end'/><FlawFilter var-match='duration'/><FlawFilter class-match='R' predicate-match='A' var-match='q'/><FlawFilter class-match='S'/>"
  "<FlawHandler label='v0' component='Min'/><FlawHandler label='v1' component='Max' class-match='R'/><FlawHandler label='v2' component='Min' predicate-match='A' var-match='p' priority='7'/><FlawHandler label='v3' component='Max' predicate='A' variable='p' priority='6'/><FlawHandler label='v4' component='Max' var-match='s' masterPredicate='A' masterClass='R' masterRelation='meets' priority='3'/><FlawHandler label='v5' component='Max' var-match='s' masterPredicate='X' priority='80'/></UnboundVariableManager>"
  "<OpenConditionManager defaultPriority='50'><FlawFilter class-match='S'/><FlawFilter masterRelation='before'/><FlawHandler label='o0' component='StandardOpenConditionHandler'/><FlawHandler label='o1' component='StandardOpenConditionHandler' class-match='Object' priority='20'/><FlawHandler label='o2' component='StandardOpenConditionHandler' class-match='Timeline' predicate-match='X' priority='60'/></OpenConditionManager>"
  "<ThreatManager><FlawFilter class-match='R'/><FlawHandler label='t0' component='StandardThreatHandler' priority='7'/></ThreatManager></Solver>",
  // 2: guards on handlers
  "<Solver name='S2'><UnboundVariableManager><FlawFilter var-match='start'/><FlawFilter var-match='end'/><FlawFilter var-match='duration'/><FlawHandler label='v0' component='Min' priority='30'/>"
  "<FlawHandler label='v1' component='Max' var-match='q' priority='10'><Guard name='p' value='1'/></FlawHandler><FlawHandler label='v2' component='Max' var-match='q' priority='40'><Guard name='p' value='2'/></FlawHandler><FlawHandler label='v3' component='Min' var-match='q' priority='20'><Guard name='p' value='1'/><Guard name='object' value='r1'/></FlawHandler>"
  "<FlawHandler label='v4' component='Max' var-match='k' priority='15'><Guard name='q' value='1'/></FlawHandler><FlawHandler label='v5' component='Max' predicate-match='C' var-match='s' priority='5'><MasterGuard name='q' value='0'/></FlawHandler></UnboundVariableManager>"
  "<OpenConditionManager><FlawHandler label='o0' component='StandardOpenConditionHandler' priority='35'/><FlawHandler label='o1' component='StandardOpenConditionHandler' priority='11'><Guard name='p' value='1'/></FlawHandler><FlawHandler label='o2' component='StandardOpenConditionHandler' priority='12' predicate-match='D'><Guard name='m' value='On'/></FlawHandler><FlawHandler label='o3' component='StandardOpenConditionHandler' priority='13'><MasterGuard name='p' value='1'/><MasterGuard name='q' value='1'/></FlawHandler></OpenConditionManager>"
  "<ThreatManager><FlawHandler label='t0' component='StandardThreatHandler' priority='35'/><FlawHandler label='t1' component='StandardThreatHandler' priority='1'><Guard name='p' value='1'/></FlawHandler></ThreatManager></Solver>",
  // 3: conditions that change
  "<Solver name='S3'><FlawFilter component='HorizonFilter'/><UnboundVariableManager><FlawFilter component='GuardFilter'/><FlawFilter component='TokenMustBeAssignedFilter' class-match='TL'/><FlawHandler label='v0' component='Min'/></UnboundVariableManager>"
  "<OpenConditionManager><FlawFilter component='MasterMustBeInsertedFilter' predicate-match='C'/><FlawHandler label='o0' component='StandardOpenConditionHandler'/></OpenConditionManager><ThreatManager><FlawHandler label='t0' component='StandardThreatHandler'/></ThreatManager></Solver>",
  // 4
  "<Solver name='S4'><UnboundVariableManager><FlawFilter component='NotGuardFilter' class-match='R'/><FlawFilter component='InfiniteDynamicFilter'/><FlawFilter component='LocalVariableFilter'/><FlawHandler label='v0' component='Min'/></UnboundVariableManager>"
  "<OpenConditionManager><FlawFilter component='HorizonFilter' policy='TotallyContained' class-match='R'/><FlawFilter component='HorizonFilter' policy='PossiblyContained' class-match='TL'/><FlawHandler label='o0' component='StandardOpenConditionHandler'/></OpenConditionManager><ThreatManager><FlawFilter component='HorizonFilter' policy='TotallyContained'/><FlawHandler label='t0' component='StandardThreatHandler'/></ThreatManager></Solver>",
  // 5: the order of managers is the order of preference
  "<Solver name='S5'><ThreatManager><FlawFilter tokenName='yy'/><FlawHandler label='t0' component='StandardThreatHandler'/></ThreatManager><UnboundVariableManager><FlawFilter component='Singleton' class-match='R'/><FlawFilter component='ParameterFilter' class-match='TL'/><FlawFilter component='HorizonVariableFilter' class-match='R' policy='TotallyContained'/><FlawHandler label='v0' component='Min'/><FlawHandler label='v1' component='Min' var-match='g' priority='0'/></UnboundVariableManager>"
  "<OpenConditionManager><FlawFilter masterRelation='none' predicate-match='D'/><FlawFilter masterPredicate='X'/><FlawHandler label='o0' component='StandardOpenConditionHandler'/><FlawHandler label='o1' component='StandardOpenConditionHandler' tokenName='yy' priority='99998'/></OpenConditionManager></Solver>"};
  return c;
}

// ------------------------------------------------------------- the plan
struct World { std::vector<const char*> roots; int effect; std::vector<const char*> ops; std::vector<const char*> before; };
static const std::vector<World>& worlds() {
  static std::vector<World> w = {
    // a guarded rule, parameters, a merge
    {{"a R.A", "b R.A"}, -1, {"a a", "a b", "m a b", "m b a", "c a", "c b", "s a.p 1", "s a.p 2", "u a.p", "s a.q 1", "u a.q", "s a.object r1", "u a.object", "a a/R.C:meets", "c a/R.C:meets", "q"}},
    // sub-goals with conditions on their master
    {{"a R.A"}, -1, {"a a", "c a", "s a.p 1", "u a.p", "s a.q 0", "s a.q 1", "u a.q", "a a/R.C:meets", "c a/R.C:meets", "s a/R.C:meets.s 1", "u a/R.C:meets.s", "s a:rule.k 1", "u a:rule.k", "s .g 1", "u .g", "q"}},
    // ordering on a timeline
    {{"x TL.X", "yy TL.X"}, -1, {"a x", "a yy", "c x", "c yy", "o x yy", "o yy x", "f x yy", "f yy x", "s x.p 1", "u x.p", "s x.start 0", "u x.start", "s x.start 3", "s x.object t1", "u x.object", "q"}},
    // times move in and out of the horizon; tokens come and go
    {{"a R.A", "d S.D"}, -1, {"a a", "c a", "r d", "c d", "a d", "s a.start 0", "s a.start 4", "u a.start", "s d.m On", "u d.m", "k a.start d.start", "K", "h", "d d", "n d", "q"}},
    // effects of actions come first
    {{"d S.D", "a R.A", "x TL.X"}, 1, {"a a", "c a", "a d", "c d", "a x", "c x", "s a.p 1", "u a.p", "k a.q .g", "K", "s .g 1", "u .g", "d a", "n a", "h", "q"}},
    // merging onto a sub-goal
    {{"a R.A", "c R.C", "x TL.X"}, -1, {"a a", "c a", "s a.p 1", "u a.p", "a x", "c x", "a a/R.C:meets", "c a/R.C:meets", "m c a/R.C:meets", "c c", "a c", "m x/R.C:before c", "c x/R.C:before", "s c.s 1", "u c.s", "q"}},
    // its master goes
    {{"a R.A", "c R.C"}, -1, {"c a", "u a.p", "c a/R.C:meets", "a a/R.C:meets", "m c a/R.C:meets", "c c", "s c.s 1", "u c.s", "a a", "s a.p 1", "q"}, {"a a", "s a.p 1", "a a/R.C:meets", "q"}}};
  return w;
}
struct Watch { TiXmlDocument doc, used; Solver* s; TiXmlElement* root; };
struct Sim {
  const World& w; Eng* e; Names n; std::vector<Watch*> sol; ConstraintId posted; bool late; bool hurt;
  Sim(const World& wo) : w(wo), e(new Eng()), late(false), hurt(false) {
    std::string r = e->load(MODEL); if (!r.empty()) { fprintf(stderr, "%s\n", r.c_str()); abort(); }
    for (size_t i = 0; i < w.roots.size(); ++i) create(w.roots[i]);
    e->ce()->propagate();
    for (auto c : confs()) sol.push_back(watch(c));
    for (auto o : w.before) apply(o);
  }
  ~Sim() { if (hurt) return; for (auto x : sol) { delete x->s; delete x; } delete e; }
  Watch* watch(const char* xml) { Watch* k = new Watch(); k->doc.Parse(xml); k->root = k->doc.RootElement(); k->used.Parse(xml); k->s = new Solver(e->db(), *k->used.RootElement()); horizon(k->s); return k; }
  void horizon(Solver* s) { s->getContext()->put("horizonStart", late ? 3 : 0); s->getContext()->put("horizonEnd", late ? 6 : 3); }
  void create(const char* r) { std::string s(r); size_t b = s.find(' '); TokenId t = e->client()->createToken(s.c_str() + b + 1, s.substr(0, b).c_str(), s.find("S.D") != std::string::npos, false); n.root(t, s.substr(0, b)); if (w.effect >= 0 && w.roots[w.effect] == std::string(r)) t->addAttributes(PSTokenType::EFFECT); }
  TokenId tok(const std::string& l) { n.scan(e->db()); for (auto t : e->db()->getTokens()) if (n.of(t) == l) return t; return TokenId::noId(); }
  V var(const std::string& l) {
    size_t d = l.rfind('.'); std::string o = l.substr(0, d), v = l.substr(d + 1);
    if (o.empty()) return e->db()->getGlobalVariable(v);
    size_t r = o.find(":rule"); if (r != std::string::npos) { n.scan(e->db()); for (auto x : e->ce()->getVariables()) if (x->getName() == v && varName(x, n) == l) return x; return V(); }
    TokenId t = tok(o); if (t.isNoId()) return V(); for (auto x : t->getVariables()) if (x->getName() == v) return x; return V();
  }
  ObjectId tl() { return e->db()->getObject("t1"); }
  edouble value(const std::string& s) { if (s == "r1" || s == "t1") return e->db()->getObject(s)->getKey(); if (s == "On") return LabelStr(s).getKey(); return atoi(s.c_str()); }
  bool consistent() { return e->ce()->constraintConsistent(); }
  bool enabled(const std::string& o) {
    std::istringstream i(o); std::string k, x, y; i >> k >> x >> y; bool ok = consistent();
    switch (k[0]) {
      case 'q': return ok;
      case 'h': return true;
      case 'n': return ok && tok(x).isNoId();
      case 'd': { TokenId t = tok(x); if (!t.isId() || !t->isInactive()) return false; if (posted.isId()) for (auto v : posted->getScope()) if (v->parent().isId() && TokenId::convertable(v->parent()) && TokenId(v->parent()) == t) return false; return true; }
      case 'a': { TokenId t = tok(x); return ok && t.isId() && t->isInactive() && t->getState()->lastDomain().isMember(Token::ACTIVE); }
      case 'r': { TokenId t = tok(x); return ok && t.isId() && t->isInactive() && t->getState()->lastDomain().isMember(Token::REJECTED); }
      case 'm': {
        TokenId s = tok(x), t = tok(y); if (!ok || s.isNoId() || t.isNoId() || !s->isInactive() || !t->isActive() || !s->getState()->lastDomain().isMember(Token::MERGED)) return false;
        for (size_t j = 1; j < s->getVariables().size(); ++j) if (!s->getVariables()[j]->lastDomain().intersects(t->getVariables()[j]->lastDomain())) return false;
        return true; }
      case 'c': {
        TokenId t = tok(x); if (t.isNoId() || t->isInactive() || t->isIncomplete()) return false;
        // what was said about a sub-goal is taken back before the sub-goal goes
        for (auto s : t->slaves()) for (auto v : s->getVariables()) if (v->isSpecified() && v->getName() != "state") return false;
        return true; }
      case 's': { V v = var(x); return ok && v.isId() && v->isActive() && !v->isSpecified() && v->canBeSpecified() && v->lastDomain().isMember(value(y)); }
      case 'u': {
        V v = var(x); if (v.isNoId() || !v->isSpecified() || !v->isActive()) return false;
        if (v->parent().isId() && TokenId::convertable(v->parent())) for (auto s : TokenId(v->parent())->slaves()) for (auto z : s->getVariables()) if (z->isSpecified() && z->getName() != "state") return false;
        return true; }
      case 'k': return ok && posted.isNoId() && var(x).isId() && var(y).isId();
      case 'K': return posted.isId();
      case 'o': { TokenId a = tok(x), b = tok(y); if (!ok || !a->isActive() || !b->isActive()) return false; if (!a->getObject()->lastDomain().isMember(tl()->getKey())) return false; TimelineId l = tl(); const std::list<TokenId>& q = l->getTokenSequence(); for (auto t : q) if (t == a || t == b) { if (orders.count(x + ">" + y) || orders.count(y + ">" + x)) return false; } return !orders.count(x + ">" + y) && !orders.count(y + ">" + x); }
      case 'f': return orders.count(x + ">" + y) > 0;
    }
    return false;
  }
  std::set<std::string> orders;
  void apply(const std::string& o) {
    std::istringstream i(o); std::string k, x, y; i >> k >> x >> y; DbClientId c = e->client();
    switch (k[0]) {
      case 'q': for (auto s : sol) { std::vector<EntityId> fl; for (auto m : s->s->m_flawManagers) { IteratorId it = m->createIterator(); fl.clear(); while (!it->done()) fl.push_back(it->next()); delete static_cast<Iterator*>(it); for (auto f : fl) m->getFlawHandler(f); } } break;
      case 'h': late = !late; for (auto s : sol) horizon(s->s); break;
      case 'n': for (auto r : w.roots) if (std::string(r).compare(0, x.size() + 1, x + " ") == 0) create(r); break;
      case 'd': c->deleteToken(tok(x)); break;
      case 'a': c->activate(tok(x)); break;
      case 'r': c->reject(tok(x)); break;
      case 'm': c->merge(tok(x), tok(y)); break;
      case 'c': c->cancel(tok(x)); for (auto z = orders.begin(); z != orders.end();) if (z->find(x + ">") == 0 || (z->size() > x.size() && z->compare(z->size() - x.size() - 1, x.size() + 1, ">" + x) == 0)) z = orders.erase(z); else ++z; break;
      case 's': c->specify(var(x), value(y)); break;
      case 'u': c->reset(var(x)); break;
      case 'k': { std::vector<V> s; s.push_back(var(x)); s.push_back(var(y)); posted = c->createConstraint("eq", s, ""); break; }
      case 'K': c->deleteConstraint(posted); posted = ConstraintId::noId(); break;
      case 'o': c->constrain(tl(), tok(x), tok(y)); orders.insert(x + ">" + y); break;
      case 'f': c->free(tl(), tok(x), tok(y)); orders.erase(x + ">" + y); break;
    }
    e->ce()->propagate();
  }
  std::string name(EntityId x) { if (TokenId::convertable(x)) return n.of(TokenId(x)); return varName(V(x), n); }
  // What the solvers remember: two plans that look alike but whose solvers remember differently are different states.
  std::string memory() {
    std::string r; n.scan(e->db());
    auto nm = [&](eint key) -> std::string { EntityId x = Entity::getEntity(key); return x.isNoId() ? "gone" : name(x); };
    for (auto s : sol) {
      std::vector<FlawManager*> ms; ms.push_back(&s->s->m_masterFlawFilter); for (auto m : s->s->m_flawManagers) ms.push_back((FlawManager*)m);
      for (auto m : ms) {
        std::set<std::string> l;
        if (UnboundVariableManager* u = dynamic_cast<UnboundVariableManager*>(m)) for (auto v : u->m_flawCandidates) l.insert("c" + name(v));
        if (OpenConditionManager* u = dynamic_cast<OpenConditionManager*>(m)) for (auto v : u->m_flawCandidates) l.insert("c" + name(v));
        for (auto& x : m->m_staticFiltersByKey) l.insert("s" + nm(x.first) + (x.second ? "1" : "0"));
        for (auto& x : m->m_activeFlawHandlersByKey) { std::string t = "h" + nm(x.first); for (auto& h : x.second) t += " " + h.second->m_label; l.insert(t); }
        for (auto& x : m->m_flawHandlerGuards) l.insert("g" + nm(x.first) + x.second->m_flawHandler->m_label + (x.second->m_isApplied ? "1" : "0"));
        for (auto& x : l) r += x + ";"; r += "|";
      }
    }
    return r;
  }
};

// ------------------------------------------------------------- what the text says
static std::vector<std::string> typesOf(const std::string& t) {
  if (t == "R") return {"R", "Object"}; if (t == "S") return {"S", "R", "Object"}; if (t == "TL") return {"TL", "Timeline", "Object"}; return {t, "Object"};
}
static bool in(const std::string& x, const std::vector<std::string>& l) { return std::find(l.begin(), l.end(), x) != l.end(); }
struct Oracle {
  Sim& s; Oracle(Sim& x) : s(x) {}
  static TokenId tokenOf(EntityId x) {
    if (TokenId::convertable(x)) return TokenId(x);
    EntityId p = V(x)->parent(); if (p.isNoId() || ObjectId::convertable(p)) return TokenId::noId();
    if (RuleInstanceId::convertable(p)) return RuleInstanceId(p)->getToken();
    return TokenId(p);
  }
  static std::string cls(TokenId t) { return t->getPredicateName().substr(0, t->getPredicateName().find('.')); }
  static std::string pred(TokenId t) { return t->getPredicateName().substr(t->getPredicateName().find('.') + 1); }
  static int attrs(const TiXmlElement* f) { int k = 0; for (auto a = f->FirstAttribute(); a; a = a->Next()) { std::string n = a->Name(); if (n == "class" || n == "class-match" || n == "predicate" || n == "predicate-match" || n == "variable" || n == "var-match" || n.compare(0, 6, "master") == 0 || n == "tokenName") ++k; } return k; }
  bool applies(const TiXmlElement* f, EntityId x) {
    TokenId t = tokenOf(x); bool isVar = !TokenId::convertable(x);
    for (auto a = f->FirstAttribute(); a; a = a->Next()) {
      std::string n = a->Name(), v = a->Value();
      if (n == "class" || n == "class-match") {
        if (t.isId()) { if (!in(v, typesOf(cls(t)))) return false; }
        else if (isVar && V(x)->parent().isId()) { if (!in(v, typesOf(ObjectId(V(x)->parent())->getType()))) return false; }
        else return false;
      } else if (n == "predicate" || n == "predicate-match") { if (t.isNoId() || pred(t) != v) return false; }
      else if (n == "variable" || n == "var-match") { if (!isVar || V(x)->getName() != v) return false; }
      else if (n == "tokenName") { if (t.isNoId() || t->getName() != v) return false; }
      else if (n == "masterRelation") {
        if (t.isNoId()) return false;
        if (v == "none") { if (t->master().isId()) return false; }
        else { if (t->master().isNoId()) return false; std::string r = t->getRelation(); if (r != v && !(v == "before" && r == "meets") && !(v == "after" && r == "met_by")) return false; }
      } else if (n == "masterClass") { if (t.isNoId() || t->master().isNoId() || !in(v, typesOf(cls(t->master())))) return false; }
      else if (n == "masterPredicate") { if (t.isNoId() || t->master().isNoId() || pred(t->master()) != v) return false; }
    }
    return true;
  }
  bool outside(TokenId t, const std::string& policy) {
    long lo = s.late ? 3 : 0, hi = s.late ? 6 : 3;
    edouble sl = t->start()->lastDomain().getLowerBound(), su = t->start()->lastDomain().getUpperBound(), el = t->end()->lastDomain().getLowerBound(), eu = t->end()->lastDomain().getUpperBound();
    if (policy == "PossiblyContained") return !(sl <= hi && su >= lo && el <= hi && eu >= lo);
    if (policy == "TotallyContained") return !(sl >= lo && sl <= hi && eu >= lo && eu <= hi);
    return !(el > lo && su < hi);
  }
  static bool guard(V v) {   // some condition of a fired rule asks for it
    std::set<ConstraintId> cs; v->constraints(cs); for (auto c : cs) if (c->getName() == RuleVariableListener::CONSTRAINT_NAME()) return true; return false;
  }
  bool excluded(const TiXmlElement* f, EntityId x) {
    if (!applies(f, x)) return false;
    const char* cc = f->Attribute("component"); std::string c = cc ? cc : "FlawFilter"; TokenId t = tokenOf(x); bool isVar = !TokenId::convertable(x);
    std::string pol = f->Attribute("policy") ? f->Attribute("policy") : "PartiallyContained";
    if (c == "FlawFilter") return true;
    if (c == "HorizonFilter") return t.isId() && outside(t, pol);
    if (c == "MasterMustBeInsertedFilter") return t->master().isId() && !assigned(t->master());
    if (!isVar) return false;
    V v = x; const Domain& d = v->lastDomain();
    if (c == "HorizonVariableFilter") return t.isId() && outside(t, pol);
    if (c == "TokenMustBeAssignedFilter") return t.isId() && !assigned(t);
    if (c == "GuardFilter") return guard(v);
    if (c == "NotGuardFilter") return !guard(v);
    if (c == "InfiniteDynamicFilter") return d.isOpen() || d.isInfinite();
    if (c == "Singleton") return !d.isSingleton();
    if (c == "ParameterFilter") return v->parent().isId() && TokenId::convertable(v->parent());
    if (c == "LocalVariableFilter") return v->parent().isId() && RuleInstanceId::convertable(v->parent());
    return true;
  }
  // part of a plan: active on an object that is settled
  static bool assigned(TokenId t) {
    if (!t->isActive() || !t->getObject()->lastDomain().isSingleton()) return false;
    ObjectId o = Entity::getTypedEntity<Object>(t->getObject()->lastDomain().getSingletonValue());
    if (TimelineId::convertable(o)) { const std::list<TokenId>& q = TimelineId(o)->getTokenSequence(); return std::find(q.begin(), q.end(), t) != q.end(); }
    return true;
  }
  bool survives(const TiXmlElement* root, const TiXmlElement* man, EntityId x) {
    for (const TiXmlElement* p : {root, man}) for (auto f = p->FirstChildElement("FlawFilter"); f; f = f->NextSiblingElement("FlawFilter")) if (excluded(f, x)) return false;
    return true;
  }
  std::vector<EntityId> flaws(const TiXmlElement* root, const TiXmlElement* man) {
    std::vector<EntityId> r; std::string k = man->Value();
    if (k == "OpenConditionManager") { for (auto t : s.e->db()->getTokens()) if (t->isInactive() && survives(root, man, t)) r.push_back(t); }
    else if (k == "ThreatManager") {
      // active, not yet on the sequence of the timeline it could be on
      for (auto t : s.e->db()->getTokens()) { if (!t->isActive() || cls(t) != "TL") continue; const std::list<TokenId>& q = TimelineId(s.tl())->getTokenSequence(); if (std::find(q.begin(), q.end(), t) == q.end() && survives(root, man, t)) r.push_back(t); }
    } else for (auto v : s.e->ce()->getVariables()) {
      if (!v->canBeSpecified() || v->isSpecified()) continue;
      EntityId p = v->parent(); if (p.isId() && TokenId::convertable(p) && !TokenId(p)->isActive()) continue;
      if (!v->lastDomain().areBoundsFinite()) continue;
      if (survives(root, man, v)) r.push_back(v);
    }
    return r;
  }
  struct H { int n; double prio; std::string label; };
  static double prio(const TiXmlElement* man, const TiXmlElement* h) { if (h->Attribute("priority")) return atof(h->Attribute("priority")); if (man->Attribute("defaultPriority")) return atof(man->Attribute("defaultPriority")); return 99999; }
  bool holds(TokenId t, const TiXmlElement* g) {
    if (t.isNoId()) return false;
    for (auto v : t->getVariables()) if (v->getName() == g->Attribute("name")) {
      if (!v->lastDomain().isSingleton()) return false;
      return v->lastDomain().getSingletonValue() == s.value(g->Attribute("value"));
    }
    return false;
  }
  std::vector<H> handlers(const TiXmlElement* man, EntityId x) {
    std::vector<H> best; TokenId t = tokenOf(x);
    for (auto h = man->FirstChildElement("FlawHandler"); h; h = h->NextSiblingElement("FlawHandler")) {
      if (!applies(h, x)) continue; H k; k.n = attrs(h); k.prio = prio(man, h); k.label = h->Attribute("label"); bool ok = true;
      for (auto g = h->FirstChildElement("Guard"); g; g = g->NextSiblingElement("Guard")) { ++k.n; if (!holds(t, g)) ok = false; }
      for (auto g = h->FirstChildElement("MasterGuard"); g; g = g->NextSiblingElement("MasterGuard")) { ++k.n; if (t.isNoId() || !holds(t->master(), g)) ok = false; }
      if (!ok) continue;
      // the most specific; of these the one to be dealt with first
      if (best.empty() || k.n > best[0].n || (k.n == best[0].n && k.prio < best[0].prio)) { best.clear(); best.push_back(k); }
      else if (k.n == best[0].n && k.prio == best[0].prio) best.push_back(k);
    }
    return best;
  }
  void check(Watch* k, mc::Ctx& c, const std::string& what, const std::string& tag) {
    std::vector<std::string> all, got; double best = 1e9; int bestMan = -1, mi = 0; std::set<std::string> chosen, effects; bool any = false;
    auto man = k->root->FirstChildElement();
    auto text = [&](const std::vector<std::string>& l) { std::string r; for (auto& x : l) r += x + " "; return r; };
    std::map<std::string, std::vector<H>> expect; std::vector<std::pair<FlawManagerId, std::vector<EntityId>>> open;
    bool setsOk = true;
    // a sub-goal that outlived its master because a token is merged onto it: what
    // was found about its master is kept by the solvers (see known_findings.txt)
    std::vector<std::string> orphans; for (auto t : s.e->db()->getTokens()) if (t->master().isNoId() && s.n.of(t).find('/') != std::string::npos) orphans.push_back(s.n.of(t));
    auto orph = [&](const std::string& x) { for (auto& o : orphans) if (x == o || x.compare(0, o.size() + 1, o + ".") == 0 || x.compare(0, o.size() + 1, o + ":") == 0) return true; return false; };
    std::string otag = tag.empty() ? "-orphan-" + k->s->getName() : tag;
    for (auto m : k->s->m_flawManagers) {
      while (!strcmp(man->Value(), "FlawFilter")) man = man->NextSiblingElement();
      std::vector<std::string> want, have; std::vector<EntityId> ws = flaws(k->root, man);
      for (auto x : ws) { want.push_back(s.name(x)); auto hs = handlers(man, x); expect[std::string(man->Value()) + s.name(x)] = hs; double p = hs[0].prio; if (p < best) { best = p; bestMan = mi; chosen.clear(); } if (p == best && bestMan == mi) chosen.insert(s.name(x)); if (!strcmp(man->Value(), "OpenConditionManager") && TokenId(x)->hasAttributes(PSTokenType::EFFECT)) effects.insert(s.name(x)); }
      if (!want.empty()) any = true;
      IteratorId it = m->createIterator(); while (!it->done()) have.push_back(s.name(it->next())); delete static_cast<Iterator*>(it);
      std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end()); c.evals();
      std::vector<std::string> w1, h1; for (auto& x : want) if (!orph(x)) w1.push_back(x); for (auto& x : have) if (!orph(x)) h1.push_back(x);
      if (want != have) { setsOk = false; c.violation("C21:set-" + std::string(man->Value()) + (w1 == h1 ? otag : tag), "the open flaws of " + std::string(man->Value()) + " are { " + text(have) + "} instead of { " + text(want) + "} in " + k->s->getName() + " after " + what); }
      if (m->noMoreFlaws() != want.empty()) c.violation("C21:none-left-" + std::string(man->Value()) + (w1 == h1 && want != have ? otag : tag), std::string(man->Value()) + (want.empty() ? " claims flaws where there are none" : " claims no flaws where there are some") + " in " + k->s->getName() + " after " + what);
      for (auto& x : want) all.push_back(man->Value() + (":" + x));
      open.push_back(std::make_pair(m, ws)); ++mi; man = man->NextSiblingElement();
    }
    if (k->s->noMoreFlaws() == any) c.violation("C21:none-left" + (setsOk ? tag : otag), "noMoreFlaws() is wrong in " + k->s->getName() + " after " + what);
    if (!setsOk) return;
    // the solver's own iterator goes over all of them
    { std::vector<std::string> w2; for (auto& x : all) w2.push_back(x.substr(x.find(':') + 1)); std::sort(w2.begin(), w2.end()); IteratorId it = k->s->createIterator(); while (!it->done()) { EntityId x = it->next(); if (x.isId()) got.push_back(s.name(x)); } delete static_cast<Iterator*>(it); std::sort(got.begin(), got.end());
      if (got != w2) c.violation("C21:iterator" + tag, "the solver's iterator gives { " + text(got) + "} where the flaws are { " + text(w2) + "} in " + k->s->getName() + " after " + what); }
    std::multimap<Priority, std::string> od = k->s->getOpenDecisions(); if (od.size() != all.size()) c.violation("C21:decisions" + tag, "getOpenDecisions() gives " + std::to_string(od.size()) + " of " + std::to_string(all.size()) + " flaws in " + k->s->getName() + " after " + what);
    mi = 0; man = k->root->FirstChildElement();
    for (auto& o : open) {
      while (!strcmp(man->Value(), "FlawFilter")) man = man->NextSiblingElement();
      for (auto x : o.second) {
        FlawHandlerId h = o.first->getFlawHandler(x); auto& hs = expect[std::string(man->Value()) + s.name(x)]; bool ok = false; for (auto& y : hs) if (h->m_label == y.label) ok = true; c.evals();
        if (!ok) c.violation("C21:handler" + (orph(s.name(x)) ? otag : tag), "the flaw " + s.name(x) + " is handled by " + h->m_label + " instead of " + hs[0].label + " in " + k->s->getName() + " after " + what);
        else if (o.first->getPriority(x) != hs[0].prio) c.violation("C21:priority" + (orph(s.name(x)) ? otag : tag), "the priority of " + s.name(x) + " is wrong in " + k->s->getName() + " after " + what);
      }
      man = man->NextSiblingElement();
    }
    // the flaw taken next
    if (!effects.empty()) chosen = effects;
    k->s->allocateNewDecisionPoint(); c.evals();
    DecisionPointId d = k->s->m_activeDecision; std::string is = d.isNoId() ? "none" : s.name(Entity::getEntity(d->getFlawedEntityKey()));
    if (chosen.empty() ? d.isId() : !chosen.count(is)) { std::string l; for (auto& x : chosen) l += x + " "; c.violation("C21:choice" + (orphans.empty() ? tag : otag), "the flaw taken next is " + is + " instead of one of { " + l + "} in " + k->s->getName() + " after " + what); }
    if (d.isId()) { delete static_cast<DecisionPoint*>(d); k->s->m_activeDecision = DecisionPointId::noId(); }
  }
};

static void explore(const std::string& h, mc::Ctx& c, int depth) {
  c.begin(h); c.trace();
  size_t bar = h.find('|'); const World& w = worlds()[atoi(h.c_str())];
  std::vector<int> ops; std::istringstream i(h.substr(bar + 1)); int x; while (i >> x) ops.push_back(x);
  std::string what = "["; for (auto o : w.before) what += std::string(o) + "; "; for (int o : ops) what += std::string(w.ops[o]) + "; "; what += "]";
  Sim s(w);
  try {
    for (int o : ops) { s.apply(w.ops[o]); c.transitions(); }
    std::string mem = s.memory();
    std::string st = dump(*s.e, s.n).size() ? text(dump(*s.e, s.n)) : ""; std::string key = std::to_string(atoi(h.c_str())) + (s.consistent() ? "" : "!") + (s.late ? "L" : "") + (s.posted.isId() ? "k" : "") + st + mem; for (auto& o : s.orders) key += o;
    bool fresh = c.state(key);
    if (!fresh) return;
    if ((int)ops.size() < depth) for (size_t o = 0; o < w.ops.size(); ++o) if (s.enabled(w.ops[o])) c.emit(h + std::to_string(o) + " ");
    if (!s.consistent()) return;
    s.n.scan(s.e->db()); Oracle oracle(s);
    for (size_t k = 0; k < s.sol.size(); ++k) oracle.check(s.sol[k], c, what, "");
    for (auto cf : confs()) { Watch* k = s.watch(cf); oracle.check(k, c, what + " (a solver made afterwards)", "-fresh"); delete k->s; delete k; }
  } catch (Error& e) { s.hurt = true; c.violation("C21:error", "an error was raised (" + e.getMsg() + ") in " + what); }
}

int main(int argc, char** argv) {
  mc::Runner r("C21", argc, argv);
  quiet();
  int depth = r.quick ? 5 : 7;
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { explore(s, c, 0); });
  std::vector<std::string> front; for (size_t i = 0; i < worlds().size(); ++i) front.push_back(std::to_string(i) + "|");
  r.bfs(front, depth + 1, [&](const std::string& h, mc::Ctx& c) { explore(h, c, depth); });
  r.rule = "all histories of plan changes and queries up to " + std::to_string(depth) + " steps in seven plans, each watched by six solvers made at the start and six made at the end";
  r.sample("0|6 0 "); r.sample("2|0 1 4 ");
  return r.finish();
}
