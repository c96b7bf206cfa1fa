// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
#ifndef PLAN_NDDL
#define PLAN_NDDL
#endif
#include "plan_lib.hh"
#include "nddl_grammar.hh"
#include "NddlInterpreter.hh"
using namespace plan;
using nddl::Toks;
// Small well-formed texts which together use every construct of the language.
static const char* PROGS[] = {
  "int x = [ 0 3 ] ; int y ; float f = [ 0.5 , 2.5 ] ; bool b = true ; string s = \"hi\" ; x + y * 2 == 7 : \"why\" ; enforce x <= 2 ; leq ( x , y ) ; y = 3 ;",
  "typedef int [ 0 5 ] Small ; enum Mode { On , Off } ; Small k ; Mode m ; m != On ; k in { 1 , 3 } ; int z ( 4 ) ; Mode w = { On , Off } ; string t = { \"u\" , \"v\" } ;",
  "enum Mode { On , Off } ; class P { int id ; Mode m ; predicate K { Mode k ; k != m ; } P ( int a , Mode b ) { this . id = a ; m = b ; } P ( int a ) { id = a ; m = Off ; } } P p = new P ( 2 ) ; p . m == Off ; new P ( 1 , On ) ;",
  "enum Mode { On , Off } ; class P ; class P { int id ; Mode m ; P ( int a , Mode b ) { id = a ; m = b ; } } class Q extends P { P p ; Q ( P o ) { super ( 2 , On ) ; p = o ; } } P p1 = new P ( 1 , Off ) ; Q q = new Q ( p1 ) ; new P ( 3 , On ) ; P ap = p1 ; ap . id == 1 ; close ( ) ;",
  "class R { predicate A { int p ; p = [ 0 3 ] ; leq ( duration , 5 ) ; } predicate B { int q ; } } R :: A { meets ( object . B b ) ; if ( p == 2 ) { b . q == 1 ; } else b . q == p ; } R r = new R ( ) ; close ( ) ; goal ( R . A g ) ; g . p = 2 ; g . activate ( ) ;",
  "class R { R ( ) { } action A { bool c ; } predicate B { } } R :: A { any ( condition object . B b , effect R . B d ) ; this before b ; b before d ; if ( c || false ) starts ( R . B e ) ; } R r = new R ( ) ; R u = new R ( ) ; R . close ( ) ; rejectable ( r . A g , R . B h ) ; fact ( u . B f ) ; g after h ; g contains ( R . B k ) ;",
  "class R { predicate A { R o ; } predicate B { } } R :: A { R all ; foreach ( x in all ) { starts ( x . B b ) ; } int n = 3 ; n - 1 == 2 ; } R r = new R ( ) ; close ( ) ; goal ( R . A g ) ; g . start . specify ( 3 ) ; g . o = r ; g . activate ( ) ;",
  "class T extends Timeline { predicate A { } } T t = new T ( ) ; T o ; o . close ( ) ; close ( ) ; goal ( T . A g , T . A h ) ; g . activate ( ) ; h . merge ( g ) ; h . cancel ( ) ; h . activate ( ) ; t . constrain ( g , h ) ; t . free ( g , h ) ; rejectable ( T . A k ) ; k . reject ( ) ; int v ; v . specify ( [ 1 2 ] ) ; v . reset ( ) ; o = t ; v = 2 ;",
  "int a , b = 2 ; bool c ; a - b >= 0 ; a * b != 3 || c ; ( a < 5 ) == c ; isSingleton ( b ) == true ; float h = [ -inff inff ] ; h > 1.5 ; filter int m ; int z = [ 0 + inf ] ; z + a == b * m ; a + b <= 9 && c ; allDiff ( a , b , m ) ;",
};
static const int NPROG = sizeof PROGS / sizeof *PROGS;
static const char* ALPHA[] = {";", "{", "}", "(", ")", "[", "]", ",", ".", "=", "==", "::", "+", "-1", "7", "1.5", "inf", "\"s\"", "true", "x", "zz", "R", "A", "int", "class", "new", "if", "else", "goal", "meets", "close", "this", "in", "predicate", "super", "On", "?"};
static std::string load(Eng* e, const std::string& t, bool& thrown) {
  thrown = false;
  try { return e->load(t); }
  catch (PSLanguageExceptionList& l) { std::ostringstream o; o << l; return o.str(); }   // the interface for syntax errors
  catch (Error& er) { thrown = true; return "error: " + er.getMsg(); }
  catch (std::exception& x) { thrown = true; return std::string("exception: ") + x.what(); }
  catch (const std::string& s) { thrown = true; return "string: " + s; }
}
static nddl::Recogniser& recogniser() { static nddl::Recogniser r; return r; }
// case: malformed-<program>-<kind>|text
static void malformed(const std::string& cas, mc::Ctx& c) {
  c.begin(cas); c.trace(); c.evals();
  std::string text = cas.substr(cas.find('|') + 1), kind = cas.substr(0, cas.find('|')); bool thrown;
  bool valid = recogniser().valid(nddl::tokens(text));
  Eng* e = new Eng(); Names n0; std::vector<std::string> before = dump(*e, n0);
  std::string res = load(e, text, thrown); bool syntax = res.compare(0, 4, "Got ") == 0;
  if (getenv("C22_SHOW")) std::cout << (valid ? "valid " : "invalid ") << res << std::endl;
  std::string cl = kind.substr(0, kind.find('-', 10));
  if (thrown) c.violation("C22:thrown-" + cl, "loading throws instead of returning an error: " + res);
  int tr = valid ? -1 : recogniser().trailing(nddl::tokens(text));
  if (!valid && res.empty() && tr >= 0) {
    // at least what is ignored has no effect
    Toks pre = nddl::tokens(text); pre.resize(tr); Eng* e2 = new Eng(); bool th; load(e2, nddl::join(pre), th); Names n1, n2;
    std::vector<std::string> a = dump(*e, n1), b = dump(*e2, n2);
    for (auto v : {&a, &b}) { for (auto& l : *v) for (size_t k = 0; (k = l.find("__Object_", k)) != std::string::npos;) { k += 9; while (k < l.size() && isdigit((unsigned char)l[k])) l.erase(k, 1); } std::sort(v->begin(), v->end()); }
    if (a != b) c.violation("C22:trailing-effect", "text after the last statement is neither reported nor without effect: " + diff(a, b, "whole", "prefix"));
    else c.violation("C22:trailing-text", "text from a token on which no statement can begin with is ignored without an error");
    delete e2;
  }
  else if (!valid && res.empty()) c.violation("C22:accepted-" + cl, "malformed text is accepted without an error");
  if (valid && syntax) c.violation("C22:rejected-" + cl, "text that follows the grammar is rejected: " + res);
  if (kind.compare(0, 14, "malformed-none") == 0 && !res.empty()) c.violation("C22:program", "a correct program is rejected: " + res);
  if (syntax) {
    Names n1; std::vector<std::string> after = dump(*e, n1);
    if (before != after) c.violation("C22:half-" + cl, "text with syntax errors has had an effect: " + diff(before, after, "before", "after"));
  }
  if (!thrown && res.find("addTemporalConstraint") == std::string::npos) {
    // the engine still works
    std::string more = load(e, "int fresh_v = [ 1 , 4 ] ; fresh_v >= 3 ;", thrown);
    if (!e->ce()->provenInconsistent()) {
      if (!more.empty()) c.violation("C22:unusable-" + cl, "after the error (" + res + ") a further statement fails: " + more);
      else if (e->db()->getGlobalVariable("fresh_v")->lastDomain().getLowerBound() != 3) c.violation("C22:unusable-" + cl, "after the error (" + res + ") further statements have no effect");
    }
  }
  delete e;
}
// ---- Part E: expressions mean what ordinary precedence says -------------
struct Val { char t; int v; };   // i, b, or x for ill typed
struct Ev {
  const Toks& k; size_t p; const std::map<std::string, Val>& m;
  Ev(const Toks& k0, const std::map<std::string, Val>& m0) : k(k0), p(0), m(m0) {}
  static int level(const std::string& o) { return o == "||" ? 0 : o == "&&" ? 1 : o == "+" || o == "-" ? 3 : o == "*" ? 4 : o == ")" ? -1 : 2; }
  static Val apply(const std::string& o, Val a, Val b) {
    Val x = {'x', 0}; if (a.t == 'x' || b.t == 'x') return x;
    int l = level(o); if (l < 2) { if (a.t != 'b' || b.t != 'b') return x; return {'b', l ? a.v && b.v : a.v || b.v}; }
    if (l > 2) { if (a.t != 'i' || b.t != 'i') return x; return {'i', o == "+" ? a.v + b.v : o == "-" ? a.v - b.v : a.v * b.v}; }
    if (o == "==" || o == "!=") { if (a.t != b.t) return x; return {'b', (a.v == b.v) == (o == "==")}; }
    if (a.t != 'i' || b.t != 'i') return x;
    return {'b', o == "<" ? a.v < b.v : o == "<=" ? a.v <= b.v : o == ">" ? a.v > b.v : a.v >= b.v};
  }
  Val prim() { std::string t = k[p++]; if (t == "(") { Val v = expr(0); ++p; return v; } if (isdigit((unsigned char)t[0])) return {'i', atoi(t.c_str())}; if (t == "true" || t == "false") return {'b', t == "true"}; return m.at(t); }
  Val expr(int lvl) { if (lvl == 5) return prim(); Val a = expr(lvl + 1); while (p < k.size() && level(k[p]) == lvl) { std::string o = k[p++]; Val b = expr(lvl + 1); a = apply(o, a, b); } return a; }
};
static const char* EV[] = {"x", "y", "p", "q"};
static int evalExpr(const Toks& t, int a, char* type) {
  std::map<std::string, Val> m; m["x"] = {'i', a % 3}; m["y"] = {'i', a / 3 % 3}; m["p"] = {'b', a / 9 % 2}; m["q"] = {'b', a / 18 % 2};
  Ev e(t, m); Val v = e.expr(0); if (type) *type = v.t; return v.v;
}
static std::vector<std::string> expressions(int tier) {
  static const char* OPS[] = {"+", "-", "*", "==", "!=", "<", "<=", ">", ">=", "&&", "||"};
  static const char* OPN[] = {"x", "y", "2", "p", "q", "true"};
  std::vector<std::string> out; std::set<std::string> seen;
  auto add = [&](const Toks& t) { char ty; evalExpr(t, 0, &ty); if (ty == 'b' && seen.insert(nddl::join(t)).second) out.push_back(nddl::join(t)); };
  for (int n = 1; n <= 3; ++n) {
    // operand patterns: everything for one and two operators, one name per type and place for three
    std::vector<Toks> pats(1);
    for (int i = 0; i <= n; ++i) { std::vector<Toks> nx; for (auto& q : pats) for (int o = 0; o < 6; ++o) { if (n == 3 && o != (i % 2) && o != 3 + (i % 2) && !(o == 2 && (i == 1 || (tier && i == 2)))) continue; if (n == 2 && !tier && (o == 5 && i != 1)) continue; Toks r = q; r.push_back(OPN[o]); nx.push_back(r); } pats.swap(nx); }
    int total = 1; for (int i = 0; i < n; ++i) total *= 11;
    for (auto& q : pats) for (int c = 0; c < total; ++c) {
      Toks ops; for (int i = 0, r = c; i < n; ++i, r /= 11) ops.push_back(OPS[r % 11]);
      // no parentheses, and one pair around every proper run of operands
      for (int lo = 0; lo <= n; ++lo) for (int hi = lo; hi <= n; ++hi) {
        if (lo == hi && lo) continue; if (lo == 0 && hi == n) continue; if (n == 3 && !tier && hi - lo == 2 && lo) continue;
        Toks t; for (int i = 0; i <= n; ++i) { if (lo < hi && i == lo) t.push_back("("); t.push_back(q[i]); if (lo < hi && i == hi) t.push_back(")"); if (i < n) t.push_back(ops[i]); }
        add(t);
      }
    }
  }
  return out;
}
static const char* ECTX[] = {"global", "rule", "body", "guard", "enforce"};
// case: expr-<context>|text
static void expression(const std::string& cas, mc::Ctx& c) {
  c.begin(cas); c.trace();
  size_t bar = cas.find('|'); std::string ctx = cas.substr(5, bar - 5), ex = cas.substr(bar + 1); Toks t = nddl::tokens(ex); bool thrown;
  std::string vars = "int x = [ 0 2 ] ; int y = [ 0 2 ] ; bool p ; bool q ; ", prog;
  if (ctx == "global") prog = vars + ex + " ;";
  else if (ctx == "enforce") prog = vars + "enforce " + ex + " : \"m\" ;";
  else {
    prog = "class R { predicate A { int x ; int y ; bool p ; bool q ; x = [ 0 2 ] ; y = [ 0 2 ] ; " + (ctx == "body" ? ex + " ; " : "") + "} predicate B { } predicate C { } } ";
    prog += ctx == "rule" ? "R :: A { " + ex + " ; } " : ctx == "guard" ? "R :: A { if ( " + ex + " ) { any ( R . B b ) ; } else { any ( R . C c ) ; } } " : "R :: A { } ";
    prog += "R r = new R ( ) ; close ( ) ; goal ( R . A g ) ; g . activate ( ) ;";
  }
  Eng* e = new Eng(); std::string res = load(e, prog, thrown);
  // an expression that is never true may be found out at once
  bool some = false; for (int a = 0; a < 36; ++a) if (evalExpr(t, a, 0)) some = true;
  if (ctx == "body" && !thrown && res.find("cannot contain parameter 'implicit_var_") != std::string::npos) { c.violation("C22:body-compound", "a compound expression in a predicate's body is rejected: " + res); return; }
  if (!res.empty() && (some || ctx == "guard" || thrown)) { c.violation("C22:expression-rejected-" + ctx, "the program is rejected: " + res); return; }
  if (!res.empty()) { delete e; return; }
  ConstrainedVariableId v[4]; TokenId g; bool tok = ctx != "global" && ctx != "enforce";
  if (tok) g = *e->db()->getTokens().begin();
  if (tok) for (auto tk : e->db()->getTokens()) if (tk->getUnqualifiedPredicateName() == "A") g = tk;
  for (int i = 0; i < 4; ++i) v[i] = tok ? g->getVariable(EV[i]) : e->db()->getGlobalVariable(EV[i]);
  bool used[4]; for (int i = 0; i < 4; ++i) used[i] = std::find(t.begin(), t.end(), EV[i]) != t.end();
  for (int a = 0; a < 36; ++a) {
    int val[4] = {a % 3, a / 3 % 3, a / 9 % 2, a / 18 % 2}; bool skip = false;
    for (int i = 0; i < 4; ++i) if (!used[i] && val[i]) skip = true;
    if (skip) continue;
    c.evals(); c.transitions();
    bool want = evalExpr(t, a, 0), poss = true; std::string at;
    for (int i = 0; i < 4; ++i) if (used[i] && poss) { at += std::string(" ") + EV[i] + "=" + std::to_string(val[i]); if (!v[i]->lastDomain().isMember(val[i])) { poss = false; break; } v[i]->specify(val[i]); if (!e->ce()->propagate()) poss = false; }
    if (poss) poss = e->ce()->propagate();
    if (ctx == "guard") {
      int nb = 0, nc = 0; for (auto tk : e->db()->getTokens()) { if (tk->getUnqualifiedPredicateName() == "B") ++nb; if (tk->getUnqualifiedPredicateName() == "C") ++nc; }
      if (!poss) c.violation("C22:expression-guard", "inconsistent with" + at);
      else if (nb != (want ? 1 : 0) || nc != (want ? 0 : 1)) c.violation("C22:expression-guard", "with" + at + " the condition is " + (want ? "true" : "false") + " but " + std::to_string(nb) + " sub-goals of the first and " + std::to_string(nc) + " of the second branch exist");
    }
    else if (poss != want) c.violation("C22:expression-" + ctx, "with" + at + " the expression is " + (want ? "true" : "false") + " but the engine finds it " + (poss ? "consistent" : "inconsistent"));
    for (int i = 3; i >= 0; --i) if (used[i] && v[i]->isSpecified()) v[i]->reset();
    e->ce()->propagate();
  }
  delete e;
}

// ---- Part T: temporal relations hold in the direction written -------------
static const char* REL[] = {"after", "any", "before", "contained_by", "contains", "contains_end", "contains_start", "ends", "ends_after", "ends_after_start", "ends_before", "ends_during", "equal", "equals", "meets", "met_by", "parallels", "paralleled_by", "starts", "starts_after", "starts_before", "starts_before_end", "starts_during"};
static bool holds(const std::string& r, int as, int ae, int bs, int be) {
  if (r == "after") return be <= as;
  if (r == "any") return true;
  if (r == "before") return ae <= bs;
  if (r == "contained_by") return bs <= as && ae <= be;
  if (r == "contains") return as <= bs && be <= ae;
  if (r == "contains_end") return as < be && be <= ae;
  if (r == "contains_start") return as <= bs && bs < ae;
  if (r == "ends") return ae == be;
  if (r == "ends_after") return be < ae;
  if (r == "ends_after_start") return bs < ae;
  if (r == "ends_before") return ae < be;
  if (r == "ends_during") return bs < ae && ae <= be;
  if (r == "equal" || r == "equals") return as == bs && ae == be;
  if (r == "meets") return ae == bs;
  if (r == "met_by") return be == as;
  if (r == "parallels") return as <= bs && ae <= be;
  if (r == "paralleled_by") return bs <= as && be <= ae;
  if (r == "starts") return as == bs;
  if (r == "starts_after") return bs < as;
  if (r == "starts_before") return as < bs;
  if (r == "starts_before_end") return as < be;
  return bs <= as && as < be;   // starts_during
}
static const char* TCTX[] = {"subgoal", "this", "implicit", "named", "reversed", "global", "globalnew", "object"};
// case: time-<context>-<relation>
static void temporal(const std::string& cas, mc::Ctx& c, int hi) {
  c.begin(cas); c.trace();
  std::string ctx = cas.substr(5, cas.find('-', 5) - 5), rel = cas.substr(cas.find('-', 5) + 1); bool thrown;
  std::string rule = ctx == "subgoal" ? rel + " ( R . B b ) ;" : ctx == "object" ? rel + " ( object . B b ) ;" : ctx == "this" ? "any ( R . B b ) ; this " + rel + " b ;" : ctx == "implicit" ? "any ( R . B b ) ; " + rel + " b ;" : ctx == "named" ? "any ( R . B b ) ; any ( R . C c ) ; c " + rel + " b ;" : ctx == "reversed" ? "any ( R . B b ) ; b " + rel + " this ;" : "";
  std::string prog = "class R { predicate A { } predicate B { } predicate C { } } R :: A { " + rule + " } R r = new R ( ) ; close ( ) ; goal ( R . A g ) ; ";
  if (ctx == "global") prog += "goal ( R . B h ) ; g " + rel + " h ; h . activate ( ) ; ";
  if (ctx == "globalnew") prog += "goal ( R . C z ) ; g " + rel + " ( R . B h ) ; ";
  prog += "g . activate ( ) ;";
  Eng* e = new Eng(); std::string res = load(e, prog, thrown);
  if (!res.empty()) { c.violation("C22:relation-rejected-" + rel, "the program is rejected: " + res); return; }
  e->ce()->propagate();
  TokenId A, B; const char* src = ctx == "named" ? "C" : ctx == "reversed" ? "B" : "A"; const char* dst = ctx == "reversed" ? "A" : "B"; int found = 0;
  for (auto tk : e->db()->getTokens()) { if (tk->getUnqualifiedPredicateName() == src) { A = tk; ++found; } if (tk->getUnqualifiedPredicateName() == dst) { B = tk; ++found; } }
  if (found != 2) { c.violation("C22:relation-tokens", "expected one token on each side, found " + std::to_string(found)); return; }
  if (ctx == "subgoal" || ctx == "object") { if (B->master() != A || B->getRelation() != rel) c.violation("C22:relation-name", "the sub-goal's master or relation name is wrong: " + B->getRelation()); }
  if (ctx == "object" && (B->getObject()->lastDomain() != A->getObject()->lastDomain())) c.violation("C22:relation-object", "a sub-goal on the same object may be on another");
  for (int as = 0; as < hi; ++as) for (int ae = as + 1; ae <= hi; ++ae) for (int bs = 0; bs < hi; ++bs) for (int be = bs + 1; be <= hi; ++be) {
    c.evals(); c.transitions();
    int val[4] = {as, ae, bs, be}; ConstrainedVariableId v[4] = {A->start(), A->end(), B->start(), B->end()};
    bool want = holds(rel, as, ae, bs, be), poss = true;
    for (int i = 0; i < 4 && poss; ++i) { if (!v[i]->lastDomain().isMember(val[i])) { poss = false; break; } if (!v[i]->isSpecified()) v[i]->specify(val[i]); if (!e->ce()->propagate()) poss = false; }
    if (poss != want) { std::ostringstream o; o << "source [" << as << "," << ae << "] " << rel << " target [" << bs << "," << be << "] should be " << (want ? "possible" : "impossible"); c.violation("C22:relation-" + rel + "-" + ctx, o.str()); }
    for (int i = 3; i >= 0; --i) if (v[i]->isSpecified()) v[i]->reset();
    e->ce()->propagate();
  }
  delete e;
}
// ---- Part D: a declared domain is the one written -----------------------------
struct DomText { std::string type, text; std::set<std::string> members; };   // members among the probes of the type
static std::vector<std::string> probes(const std::string& t) {
  if (t == "int") return {"-2", "-1", "0", "1", "2", "3", "9"};
  if (t == "float") return {"-1.5", "-1", "0", "0.5", "1", "1.5", "2.5", "9"};
  if (t == "bool") return {"false", "true"};
  if (t == "string") return {"a", "b", "c"};
  if (t == "Mode") return {"On", "Off", "Idle"};
  return {"r", "u"};
}
static std::vector<DomText> domains() {
  std::vector<DomText> v;
  for (std::string t : {"int", "float"}) {
    std::vector<std::string> pr = probes(t); std::string inf = t == "int" ? "inf" : "inff";
    std::vector<std::string> ends = pr; ends.insert(ends.begin(), "-" + inf); ends.push_back(inf);
    auto num = [&](const std::string& x) { return x.find("inf") == std::string::npos ? atof(x.c_str()) : x[0] == '-' ? -1e9 : 1e9; };
    auto lit = [&](const std::string& x) { return t == "float" && x.find_first_of(".i") == std::string::npos ? x + ".0" : x; };
    for (size_t i = 0; i < ends.size(); ++i) for (size_t j = i; j < ends.size(); ++j) for (int comma = 0; comma < 2; ++comma) {
      if (i == j && (i == 0 || i + 1 == ends.size())) continue;
      DomText d = {t, "[ " + lit(ends[i]) + (comma ? " , " : " ") + lit(ends[j]) + " ]", {}};
      for (auto& x : pr) if (num(x) >= num(ends[i]) && num(x) <= num(ends[j])) d.members.insert(x);
      v.push_back(d);
    }
    for (auto& x : pr) v.push_back({t, lit(x), {x}});
  }
  for (std::string t : {"int", "float", "bool", "string", "Mode", "R"}) {
    std::vector<std::string> pr = probes(t);
    for (int m = 1; m < 1 << pr.size(); ++m) {
      if (__builtin_popcount(m) > 3) continue;
      std::vector<std::string> in; for (size_t i = 0; i < pr.size(); ++i) if (m >> i & 1) in.push_back(pr[i]);
      DomText d = {t, "", std::set<std::string>(in.begin(), in.end())}; std::sort(in.begin(), in.end());
      do { d.text = "{"; for (auto& x : in) d.text += (d.text.size() > 1 ? " , " : " ") + (t == "string" ? "\"" + x + "\"" : t == "float" && x.find('.') == std::string::npos ? x + ".0" : x); d.text += " }"; v.push_back(d); } while (std::next_permutation(in.begin(), in.end()));
      if (in.size() == 1 && t != "int" && t != "float") { d.text = t == "string" ? "\"" + in[0] + "\"" : in[0]; v.push_back(d); }
    }
  }
  return v;
}
static std::string inhValue(const DomText& d) { std::string x = *d.members.begin(); return d.type == "string" ? "\"" + x + "\"" : d.type == "float" && x.find('.') == std::string::npos ? x + ".0" : x; }
static const char* DCTX[] = {"init", "paren", "typedef", "assign", "in", "param", "paramassign", "paramtype", "member", "argument", "local", "specified", "inherited", "inhtype"};
static void declared(const std::string& cas, const DomText& d, mc::Ctx& c) {
  c.begin(cas); c.trace();
  std::string ctx = cas.substr(5, cas.find('|') - 5), T = d.type + " ", D = d.text + " ; ", p = "enum Mode { On , Off , Idle } ; class R { } R r = new R ( ) ; R u = new R ( ) ; R . close ( ) ; "; bool thrown;
  std::string goal = "K k = new K ( ) ; close ( ) ; goal ( K . A g ) ; g . activate ( ) ; ";
  if (ctx == "init") p += T + "v = " + D;
  else if (ctx == "paren") p += T + "v ( " + d.text + " ) ; ";
  else if (ctx == "typedef") p += "typedef " + T + d.text + " X ; X v ; ";
  else if (ctx == "assign") p += T + "v ; v = " + D;
  else if (ctx == "in") p += T + "v ; v in " + D;
  else if (ctx == "specified") p += T + "v ; v . specify ( " + d.text + " ) ; ";
  else if (ctx == "param") p += "class K { predicate A { " + T + "v = " + D + "} } " + goal;
  else if (ctx == "paramassign") p += "class K { predicate A { " + T + "v ; v = " + D + "} } " + goal;
  else if (ctx == "paramtype") p += "typedef " + T + d.text + " X ; class K { predicate A { X v ; } } " + goal;
  else if (ctx == "member") p += "class K { " + T + "v ; K ( ) { v = " + D + "} } K k = new K ( ) ; ";
  else if (ctx == "argument") p += "class K { " + T + "v ; K ( " + T + "a ) { v = a ; } } K k = new K ( " + d.text + " ) ; ";
  else if (ctx == "inherited") p += "class B { " + T + "v ; B ( ) { v = " + D + "} } class K extends B { K ( ) { super ( ) ; } } K k = new K ( ) ; ";
  else if (ctx == "inhtype") p += "typedef " + T + d.text + " X ; class B { X v ; B ( " + T + "a ) { v = a ; } } class K extends B { K ( " + T + "a ) { super ( a ) ; } } K k = new K ( " + inhValue(d) + " ) ; ";
  else p += "class K { predicate A { " + T + "w ; } } K :: A { " + T + "v = " + D + "w == v ; } " + goal;
  Eng* e = new Eng(); std::string res = load(e, p, thrown); c.evals();
  if ((ctx == "member" || ctx == "inherited") && d.type == "R" && !thrown && res.find("in Evaluation Context") != std::string::npos) { c.violation("C22:member-object", "a constructor can't name an object: " + res); return; }
  if (!res.empty()) { c.violation("C22:declaration-rejected-" + ctx, "the program is rejected: " + res); return; }
  e->ce()->propagate(); ConstrainedVariableId v;
  if (ctx == "member" || ctx == "argument" || ctx == "inherited" || ctx == "inhtype") v = e->db()->getObject("k")->getVariable("k.v");
  else if (ctx == "local" || ctx.compare(0, 5, "param") == 0) v = (*e->db()->getTokens().begin())->getVariable(ctx == "local" ? "w" : "v");
  else v = e->db()->getGlobalVariable("v");
  if (v.isNoId()) { c.violation("C22:declaration-missing", "the variable doesn't exist"); return; }
  std::string got, want;
  for (auto& x : probes(d.type)) {
    edouble val = d.type == "string" ? edouble(LabelStr(x)) : d.type == "Mode" ? edouble(LabelStr(x)) : d.type == "R" ? edouble(e->db()->getObject(x)->getKey()) : x == "true" ? edouble(1) : x == "false" ? edouble(0) : edouble(atof(x.c_str()));
    if (v->lastDomain().isMember(val)) got += " " + x;
    if (ctx == "inhtype" ? x == *d.members.begin() : d.members.count(x) > 0) want += " " + x;
  }
  bool gaps = ctx != "inhtype" && (d.type == "int" || d.type == "float") && d.members.size() > 1 && d.text[0] == '{' && v->lastDomain().isInterval(); std::string hull;
  if (gaps) { double lo = 1e9, hi = -1e9; for (auto& x : d.members) { lo = std::min(lo, atof(x.c_str())); hi = std::max(hi, atof(x.c_str())); } for (auto& x : probes(d.type)) if (atof(x.c_str()) >= lo && atof(x.c_str()) <= hi) hull += " " + x; }
  if (got != want && gaps && got == hull) c.violation("C22:hull", "a set of numbers given to a variable with an interval domain stands for all between: " + v->lastDomain().toString());
  else if (got != want) c.violation("C22:declaration-" + ctx + "-" + d.type, "of the values probed the variable's domain has {" + got + " }, written {" + want + " }: " + v->lastDomain().toString());
  delete e;
}

// ---- Part H: a value that isn't of the declared type is refused or leaves nothing ----
static const char* ILL[][2] = {{"int", "1.5"}, {"int", "\"s\""}, {"int", "On"}, {"int", "r"}, {"float", "\"s\""}, {"float", "On"}, {"float", "r"}, {"bool", "2"}, {"bool", "\"s\""}, {"bool", "On"}, {"bool", "r"}, {"string", "5"}, {"string", "true"}, {"string", "r"}, {"Mode", "5"}, {"Mode", "\"On\""}, {"Mode", "\"s\""}, {"Mode", "r"}, {"R", "5"}, {"R", "\"s\""}, {"R", "On"}, {"R", "z"}, {"X", "9"}, {"X", "[ 5 9 ]"}, {"X", "1.5"}};
static void illTyped(const std::string& cas, const std::string& T0, const std::string& text, mc::Ctx& c) {
  c.begin(cas); c.trace();
  std::string ctx = cas.substr(4, cas.find('|') - 4), T = T0 + " ", D = text + " ; ", p = "enum Mode { On , Off , Idle } ; typedef int [ 0 3 ] X ; class R { } class Z { } R r = new R ( ) ; Z z = new Z ( ) ; R . close ( ) ; Z . close ( ) ; "; bool thrown;
  std::string goal = "K k = new K ( ) ; close ( ) ; goal ( K . A g ) ; g . activate ( ) ; ";
  if (ctx == "init") p += T + "v = " + D;
  else if (ctx == "assign") p += T + "v ; v = " + D;
  else if (ctx == "in") p += T + "v ; v in " + D;
  else if (ctx == "specified") p += T + "v ; v . specify ( " + text + " ) ; ";
  else if (ctx == "param") p += "class K { predicate A { " + T + "v = " + D + "} } " + goal;
  else if (ctx == "paramassign") p += "class K { predicate A { " + T + "v ; v = " + D + "} } " + goal;
  else if (ctx == "member") p += "class K { " + T + "v ; K ( ) { v = " + D + "} } K k = new K ( ) ; ";
  else if (ctx == "argument") p += "class K { " + T + "v ; K ( " + T + "a ) { v = a ; } } K k = new K ( " + text + " ) ; ";
  else p += "class K { predicate A { " + T + "w ; } } K :: A { " + T + "v = " + D + "w == v ; } " + goal;
  std::string word = text; for (auto& x : word) if (x == ' ') x = '_';
  Eng* e = new Eng(); std::string res = load(e, p, thrown); c.evals();
  if (res.empty()) {
    bool ok = true; try { ok = e->ce()->propagate(); } catch (Error&) { ok = false; }
    if (ok) for (auto v : e->ce()->getVariables()) if (v->isActive() && v->lastDomain().isEmpty()) ok = false;
    if (ok) c.violation("C22:ill-typed-" + ctx + "-" + T0 + "-" + word, "a " + T0 + " is given " + text + " and nothing is reported");
  }
  delete e;
}

// ---- Part G: nested conditionals and loops in rules unfold for the stated cases ----
static const char* GUARDS[] = {"p == 1", "q", "p != 1", "p < 1"};
static bool guardTrue(int g, int p, int q) { return g == 0 ? p == 1 : g == 1 ? q : g == 2 ? p != 1 : p < 1; }
// statements as prefix strings: . leaf, i if, e if/else, l loop, b block of two
static void shapes(int size, std::vector<std::string>& out) {
  static std::map<int, std::vector<std::string>> memo; auto f = memo.find(size); if (f != memo.end()) { out = f->second; return; }
  if (size == 1) out.push_back("."); std::vector<std::string> a, b;
  if (size > 1) { shapes(size - 1, a); for (auto& x : a) { out.push_back("i" + x); out.push_back("l" + x); } }
  for (int k = 1; k + 1 < size; ++k) { a.clear(); b.clear(); shapes(k, a); shapes(size - 1 - k, b); for (auto& x : a) for (auto& y : b) { out.push_back("e" + x + y); out.push_back("b" + x + y); } }
  memo[size] = out;
}
struct Flow {   // renders a statement without needless braces, with guards and leaves numbered in order
  std::string s; size_t p; int leaves, guards, loops; const std::vector<int>& g;
  Flow(const std::string& s0, const std::vector<int>& g0) : s(s0), p(0), leaves(0), guards(0), loops(0), g(g0) {}
  std::string text(bool single = false) {
    char o = s[p++]; std::string t;
    if (o == '.') { int k = leaves++; return "any ( R . B" + std::to_string(k) + " ) ; "; }
    if (o == 'b') { t = text(); t += text(); return single ? "{ " + t + "} " : t; }
    if (o == 'l') { std::string v = "o" + std::to_string(loops++); return "foreach ( " + v + " in all ) { " + text() + "} "; }
    int k = g[guards++]; t = std::string("if ( ") + GUARDS[k] + " ) " + text(true); if (o == 'e') t += "else " + text(true);
    return t;
  }
};
struct Meaning {   // of the text: an else belongs to the nearest if
  Toks t; size_t p; int a, q; std::map<std::string, int> n;
  Meaning(const std::string& s, int a0, int q0) : t(nddl::tokens(s)), p(0), a(a0), q(q0) {}
  void run(int times) {
    if (t[p] == "any") { n[t[p + 4]] += times; p += 7; }
    else if (t[p] == "{") { ++p; while (t[p] != "}") run(times); ++p; }
    else if (t[p] == "foreach") { p += 7; while (t[p] != "}") run(times * 2); ++p; }
    else { p += 2; std::string c; while (t[p] != ")") c += (c.empty() ? "" : " ") + t[p++]; ++p; int k = 0; while (c != GUARDS[k]) ++k; bool h = guardTrue(k, a, q); run(h ? times : 0); if (p < t.size() && t[p] == "else") { ++p; run(h ? 0 : times); } }
  }
};
// case: flow-x|statement
static void flow(const std::string& cas, mc::Ctx& c) {
  c.begin(cas); c.trace(); std::string st = cas.substr(cas.find('|') + 1); bool thrown;
  std::string p = "class R { predicate A { int p ; bool q ; p = [ 0 2 ] ; } "; for (int i = 0; i < 5; ++i) p += "predicate B" + std::to_string(i) + " { } ";
  p += "} R :: A { R all ; " + st + "} R r = new R ( ) ; R u = new R ( ) ; close ( ) ; goal ( R . A g ) ; g . activate ( ) ;";
  Eng* e = new Eng(); std::string res = load(e, p, thrown);
  if (!res.empty()) { c.violation("C22:flow-rejected", "the program is rejected: " + res); return; }
  TokenId g; for (auto tk : e->db()->getTokens()) if (tk->getUnqualifiedPredicateName() == "A") g = tk;
  for (int order = 0; order < 2; ++order) for (int a = 0; a < 3; ++a) for (int q = 0; q < 2; ++q) {
    c.evals(); c.transitions();
    for (int k = 0; k < 2; ++k) { ConstrainedVariableId v = g->getVariable(k == order ? "p" : "q"); v->specify(k == order ? a : q); e->ce()->propagate(); }
    Meaning m(st, a, q); while (m.p < m.t.size()) m.run(1); std::map<std::string, int> got; std::string w, h;
    for (auto tk : e->db()->getTokens()) if (tk != g) ++got[tk->getUnqualifiedPredicateName()];
    for (auto& x : m.n) if (x.second) w += " " + x.first + "*" + std::to_string(x.second);
    for (auto& x : got) h += " " + x.first + "*" + std::to_string(x.second);
    if (w != h) c.violation("C22:flow", "with p=" + std::to_string(a) + " q=" + std::to_string(q) + " the rule should give {" + w + " } but gives {" + h + " }");
    g->getVariable("p")->reset(); g->getVariable("q")->reset(); e->ce()->propagate();
  }
  delete e;
}
int main(int argc, char** argv) {
  mc::Runner r("C22", argc, argv);
  quiet();
  r.rule = "every program got from nine by dropping, cutting, swapping, replacing or inserting one token; every expression of the grammar up to three operators in five contexts, against every assignment; every temporal relation in every form against every pair of intervals of a grid; every domain text in every place it may stand; every nesting of conditionals and loops up to the size; the outcome compared with an independent recogniser and evaluator; a state is a program";
  r.assumptions = {"the effect of an error while a time is being fixed at infinity is not judged further (the temporal network then refuses all work)", "a construct the grammar of trees does not know need only be reported", "text that no form of the documentation gives a meaning to is judged only for not ending or corrupting the host"};
  std::vector<DomText> doms = domains();
  auto one = [&](const std::string& s, mc::Ctx& c) { if (s.compare(0, 5, "expr-") == 0) expression(s, c); else if (s.compare(0, 5, "time-") == 0) temporal(s, c, (r.tier == "thorough") ? 5 : 4); else if (s.compare(0, 5, "decl-") == 0) { for (auto& d : doms) if (s.substr(s.find('|') + 1) == d.type + " " + d.text) { declared(s, d, c); break; } } else if (s.compare(0, 5, "flow-") == 0) flow(s, c); else if (s.compare(0, 4, "ill-") == 0) { std::string k = s.substr(s.find('|') + 1); size_t b = k.find(' '); illTyped(s, k.substr(0, b), k.substr(b + 1), c); } else malformed(s, c); };
  auto run = [&](mc::Ctx& c, const std::string& s) { c.state(s); c.transitions(); one(s, c); };
  if (r.replaying) r.replay(run);
  std::vector<std::string> cases;
  for (int i = 0; i < NPROG; ++i) {
    Toks t = nddl::tokens(PROGS[i]); std::set<std::string> seen;
    auto add = [&](const std::string& kind, const Toks& x) { std::string s = nddl::join(x); if (seen.insert(s).second) cases.push_back("malformed-" + kind + "-" + std::to_string(i) + "|" + s); };
    add("none", t);
    for (size_t k = 0; k < t.size(); ++k) {
      Toks x = t; x.erase(x.begin() + k); add("drop", x);
      x = t; x.resize(k); add("cut", x);
      if (k + 1 < t.size()) { x = t; std::swap(x[k], x[k + 1]); add("swap", x); }
      for (const char* a : ALPHA) { x = t; x[k] = a; add("replace", x); x = t; x.insert(x.begin() + k, a); add("insert", x); }
    }
  }
  for (auto x : TCTX) for (auto y : REL) cases.push_back(std::string("time-") + x + "-" + y);
  for (auto x : DCTX) for (auto& d : doms) {
    bool set = d.text[0] == '{', range = d.text[0] == '['; std::string k = x;
    if ((k == "typedef" || k == "paramtype" || k == "inhtype") && ((!set && !range) || d.members.empty())) continue;
    cases.push_back("decl-" + k + "|" + d.type + " " + d.text);
  }
  for (auto x : {"init", "assign", "in", "specified", "param", "paramassign", "member", "argument", "local"}) for (auto& i : ILL) { if ((!strcmp(x, "specified") || !strcmp(x, "argument")) && i[1][0] == '[') continue; if (!strcmp(x, "specified") && !strcmp(i[1], "\"On\"")) continue;   // the label is the value
    cases.push_back(std::string("ill-") + x + "|" + i[0] + " " + i[1]); }
  for (int n = 1; n <= (r.tier == "thorough" ? 6 : 5); ++n) {
    std::vector<std::string> sh; shapes(n, sh);
    for (auto& x : sh) {
      int g = int(std::count(x.begin(), x.end(), 'i') + std::count(x.begin(), x.end(), 'e')), tot = 1; for (int i = 0; i < g; ++i) tot *= 4;
      for (int m = 0; m < tot; ++m) { std::vector<int> gs; for (int i = 0, y = m; i < g; ++i, y /= 4) gs.push_back(y % 4); Flow f(x, gs); cases.push_back("flow-" + x + "|" + f.text()); }
    }
  }
  size_t nx = 0; { std::vector<std::string> ex = expressions((r.tier == "thorough")); nx = ex.size(); for (size_t i = 0; i < ex.size(); ++i) for (int k = 0; k < 5; ++k) if ((r.tier == "thorough") || std::count(ex[i].begin(), ex[i].end(), ' ') <= 4 || int(i % 5) == k) cases.push_back(std::string("expr-") + ECTX[k] + "|" + ex[i]); }
  if (getenv("C22_ONLY")) { std::vector<std::string> k; for (auto& s : cases) if (s.compare(0, strlen(getenv("C22_ONLY")), getenv("C22_ONLY")) == 0) k.push_back(s); cases.swap(k); }
  if (getenv("C22_COUNT")) std::cout << nx << " expressions" << std::endl;
  if (getenv("C22_COUNT")) { int v = 0; for (auto& s : cases) if (recogniser().valid(nddl::tokens(s.substr(s.find('|') + 1)))) ++v; std::cout << cases.size() << " cases, " << v << " valid" << std::endl; }
  r.parallel(cases.size(), [&](size_t i, mc::Ctx& c) { run(c, cases[i]); });
  for (size_t i = 0; i < 8 && !cases.empty(); ++i) r.sample(cases[i * (cases.size() - 1) / 7]);
  return r.finish();
}
