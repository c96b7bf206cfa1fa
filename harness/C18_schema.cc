// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork,RulesEngine,NDDL
// C18: every history of declarations of types, predicates, members and
// enumerations, with all questions asked at up to two moments in between, and
// every small class hierarchy of a model text loaded in pieces; every answer
// compared with the transitive closure of what has been declared.
#ifndef PLAN_NDDL
#define PLAN_NDDL
#endif
#include "plan_lib.hh"
#include "TokenType.hh"
#include "ObjectType.hh"
#include "CESchema.hh"
using namespace plan;
typedef std::vector<std::pair<std::string, std::string>> Mem;   // (type, name)
struct Decl {
  std::set<std::string> known; std::map<std::string, std::string> parent; std::map<std::string, Mem> members; std::set<std::string> preds; std::map<std::string, std::set<std::string>> enums;
  bool added(const std::string& t) const { return members.count(t); }
  bool up(const std::string& t, std::string& p) const { auto i = parent.find(t); if (i == parent.end()) return false; p = i->second; return true; }
  std::vector<std::string> chain(std::string t) const { std::vector<std::string> r(1, t); std::string p; while (up(t, p)) { r.push_back(p); t = p; } return r; }
  bool isa(const std::string& a, const std::string& b) const { for (auto& x : chain(a)) if (x == b) return true; return false; }
  bool complete(const std::string& t) const { for (auto& x : chain(t)) if (!added(x)) return false; return true; }
  // nearest declaration of a predicate, "" if none
  std::string owner(const std::string& p) const { size_t d = p.find('.'); if (d == std::string::npos || !known.count(p.substr(0, d))) return ""; for (auto& x : chain(p.substr(0, d))) if (preds.count(x + p.substr(d))) return x + p.substr(d); return ""; }
  // members seen from a type or predicate, nearest first
  Mem visible(const std::string& t) const {
    Mem r; size_t d = t.find('.'); std::set<std::string> seen;
    for (auto& x : chain(t.substr(0, d))) { auto i = members.find(d == std::string::npos ? x : x + t.substr(d)); if (i != members.end()) for (auto& m : i->second) if (seen.insert(m.second).second) r.push_back(m); }
    return r;
  }
};
static const char* TYPES[] = {"R", "S", "U"};
static const char* PREDS[] = {"R.A", "S.A", "U.A", "S.B"};
struct Pos { const char* where; const char* type; const char* name; };
static const Pos MEMBERS[] = {{"R", "int", "x"}, {"S", "R", "y"}, {"U", "S", "z"}, {"S.A", "int", "p"}, {"R.A", "R", "q"}, {"R.A", "int", "p"}, {"S.B", "U", "w"}};
static std::string set2s(const std::set<std::string>& s) { std::string r = "{"; for (auto& x : s) r += x + " "; return r + "}"; }
static std::string vec2s(const std::vector<std::string>& s) { std::string r = "{"; for (auto& x : s) r += x + " "; return r + "}"; }

// All questions that have an answer.
static void ask(SchemaId s, const Decl& d, mc::Ctx& c, const std::string& what, bool nddl) {
  auto bad = [&](const char* q, const std::string& m) { c.violation(std::string("C18:") + q, m + " after " + what); };
  auto guard = [&](const char* q, const std::string& arg, const std::function<void()>& f) { c.evals(); try { f(); } catch (Error& e) { bad(q, std::string(q) + "(" + arg + ") raised an error (" + e.getMsg() + ")"); } };
  std::vector<std::string> all = {"Object", "R", "S", "U"}, nm = {"A", "B", "Z"};
  std::set<std::string> kn; for (auto& t : all) if (d.known.count(t)) kn.insert(t);
  for (auto& t : all) {
    if (s->isObjectType(t) != d.known.count(t)) bad("isObjectType", "isObjectType(" + t + ") is wrong");
    if (s->isType(t) != d.known.count(t)) bad("isType", "isType(" + t + ") is wrong");
  }
  guard("getAllObjectTypes", "", [&] { std::set<std::string> g; for (auto& t : s->getAllObjectTypes()) if (kn.count(t) || (t.size() == 1 && t != "W")) g.insert(t); if (g != kn) bad("getAllObjectTypes", "all types are " + set2s(kn) + " but " + set2s(g) + " are listed"); });
  for (auto& t : kn) {
    std::string p; bool has = d.up(t, p);
    guard("hasParent", t, [&] { if (s->hasParent(t) != has) bad("hasParent", "hasParent(" + t + ") is wrong"); });
    if (has) guard("getParent", t, [&] { if (s->getParent(t) != p) bad("getParent", "the parent of " + t + " is " + p + ", not " + s->getParent(t)); });
    guard("getAllObjectTypes", t, [&] { std::vector<std::string> g = s->getAllObjectTypes(t); if (g != d.chain(t)) bad("ancestors", t + " and its ancestors are " + vec2s(d.chain(t)) + " but " + vec2s(g) + " are listed"); });
    for (auto& u : kn) guard("isA", t + "," + u, [&] { if (s->isA(t, u) != d.isa(t, u)) bad("isA", "isA(" + t + "," + u + ") is wrong"); });
    std::set<std::string> pr; for (auto& q : d.preds) if (d.isa(t, q.substr(0, 1))) pr.insert(q.substr(2));
    guard("hasPredicates", t, [&] { if (s->hasPredicates(t) != !pr.empty()) bad("hasPredicates", "hasPredicates(" + t + ") is wrong"); });
    guard("getPredicates", t, [&] { std::set<std::string> g; s->getPredicates(t, g); if (g != pr) bad("getPredicates", "predicates of " + t + " are " + set2s(pr) + " but " + set2s(g) + " are listed"); });
    if (d.complete(t) && t != "Object") {
      Mem v = d.visible(t);
      for (const char* n : {"x", "y", "z", "w", "nope"}) {
        std::string ty; for (auto& m : v) if (m.second == n && ty.empty()) ty = m.first;
        guard("hasMember", t + "," + n, [&] { if (s->hasMember(t, n) != !ty.empty()) bad("hasMember", "hasMember(" + t + "," + n + ") is wrong"); });
        if (!ty.empty()) {
          guard("getMemberType", t + "," + n, [&] { if (s->getMemberType(t, n) != ty) bad("getMemberType", "member " + t + "." + n + " has type " + ty + ", not " + s->getMemberType(t, n)); });
          if (kn.count(ty)) for (auto& mt : kn) if (d.complete(mt)) guard("canContain", t + "," + mt + "," + n, [&] { if (s->canContain(t, mt, n) != d.isa(mt, ty)) bad("canContain", "canContain(" + t + "," + mt + "," + n + ") is wrong"); });
        }
      }
      guard("getMembers", t, [&] { std::set<std::string> g, w; for (auto& m : s->getMembers(t)) g.insert(m.first + " " + m.second); for (auto& m : d.members.at(t)) w.insert(m.first + " " + m.second); if (g != w) bad("getMembers", "members declared in " + t + " are " + set2s(w) + " but " + set2s(g) + " are listed"); });
    }
  }
  std::set<std::string> declared; guard("getPredicates", "", [&] { std::set<std::string> g; s->getPredicates(g); std::set<std::string> h; for (auto& q : g) if (kn.count(q.substr(0, q.find('.')))) h.insert(q); if (h != d.preds) bad("allPredicates", "the predicates are " + set2s(d.preds) + " but " + set2s(h) + " are listed"); });
  std::vector<std::string> ps; for (const char* t : TYPES) for (auto& n : nm) ps.push_back(std::string(t) + "." + n);
  for (auto& p : ps) {
    std::string o = d.owner(p), t = p.substr(0, 1);
    guard("isPredicate", p, [&] { if (s->isPredicate(p) != !o.empty()) bad("isPredicate", "isPredicate(" + p + ") is wrong"); });
    if (o.empty()) continue;
    guard("getObjectTypeForPredicate", p, [&] { if (s->getObjectTypeForPredicate(p) != t) bad("getObjectTypeForPredicate", "the type of " + p + " is " + s->getObjectTypeForPredicate(p)); });
    for (auto& u : kn) guard("canBeAssigned", u + "," + p, [&] { if (s->canBeAssigned(u, p) != d.isa(u, t)) bad("canBeAssigned", "canBeAssigned(" + u + "," + p + ") is wrong"); });
    std::string par; bool above = d.up(t, par) && !d.owner(par + p.substr(1)).empty();
    guard("hasParent", p, [&] { if (s->hasParent(p) != above) bad("hasParent", "hasParent(" + p + ") is wrong"); });
    if (above) guard("getParent", p, [&] { if (s->getParent(p) != par + p.substr(1)) bad("getParent", "the parent of " + p + " is " + s->getParent(p)); });
    for (auto& q : ps) if (!d.owner(q).empty()) guard("isA", p + "," + q, [&] { bool w = p.substr(1) == q.substr(1) && d.isa(t, q.substr(0, 1)); if (s->isA(p, q) != w) bad("isA-predicate", "isA(" + p + "," + q + ") is wrong"); });
    Mem v = d.visible(p); const Mem& own = d.members.at(o);
    for (const char* n : {"p", "q", "w", "x", "start", "end", "duration", "object", "state"}) {
      std::string ty; for (auto& m : v) if (m.second == n && ty.empty()) ty = m.first;
      bool builtin = strlen(n) > 1;
      guard("hasMember", p + "," + n, [&] { if (s->hasMember(p, n) != (builtin || !ty.empty())) bad("hasMember", "hasMember(" + p + "," + n + ") is wrong"); });
      if (!ty.empty()) guard("getMemberType", p + "," + n, [&] { if (s->getMemberType(p, n) != ty) bad("getMemberType", "parameter " + p + "." + n + " has type " + ty + ", not " + s->getMemberType(p, n)); });
    }
    guard("getParameterCount", p, [&] { if (s->getParameterCount(p) != own.size()) bad("getParameterCount", p + " has " + std::to_string(own.size()) + " parameters, not " + std::to_string(s->getParameterCount(p))); });
    for (unsigned i = 0; i < own.size(); ++i) {
      guard("getParameterType", p, [&] { if (s->getParameterType(p, i) != own[i].first) bad("getParameterType", "parameter " + std::to_string(i) + " of " + p + " is " + own[i].first + ", not " + s->getParameterType(p, i)); });
      guard("getNameFromIndex", p, [&] { if (s->getNameFromIndex(p, i) != own[i].second) bad("getNameFromIndex", "parameter " + std::to_string(i) + " of " + p + " is " + own[i].second + ", not " + s->getNameFromIndex(p, i)); });
      guard("getIndexFromName", p, [&] { if (s->getIndexFromName(p, own[i].second) != (int)i) bad("getIndexFromName", own[i].second + " is parameter " + std::to_string(i) + " of " + p + ", not " + std::to_string(s->getIndexFromName(p, own[i].second))); });
    }
    if (nddl) guard("getTokenType", p, [&] {
      TokenTypeId tt = s->getTokenType(p); if (tt->getSignature() != o) bad("getTokenType", "tokens of " + p + " are made as " + tt->getSignature() + ", not " + o);
      ObjectTypeId ot = s->getObjectType(t); TokenTypeId t2 = ot->getTokenType(p); if (t2.isNoId() || t2->getSignature() != o) bad("objectTokenType", t + " does not know " + p + " as " + o);
      std::string op = o.substr(1), up; TokenTypeId pt = tt->getParentType(); std::string po = d.up(o.substr(0, 1), up) ? d.owner(up + op) : "";
      if ((pt.isNoId() ? std::string() : pt->getSignature()) != po) bad("parentTokenType", "the type above " + o + " is " + po + " but " + (pt.isNoId() ? std::string("none") : pt->getSignature()) + " is given");
      for (auto& m : own) { DataTypeId a = tt->getArgType(m.second); if (a.isNoId() || a->getName() != m.first) bad("argType", "parameter " + m.second + " of " + p + " is not a " + m.first); }
    });
  }
  std::set<std::string> en; for (auto& e : d.enums) en.insert(e.first);
  guard("getEnumerations", "", [&] { std::list<std::string> g; s->getEnumerations(g); std::set<std::string> h; for (auto& x : g) if (x == "E" || x == "F") h.insert(x); if (h != en) bad("getEnumerations", "enumerations are " + set2s(en) + " but " + set2s(h) + " are listed"); });
  for (const char* e : {"E", "F"}) {
    if (s->isEnum(e) != d.enums.count(e)) bad("isEnum", std::string("isEnum(") + e + ") is wrong");
    if (!d.enums.count(e)) continue;
    std::set<std::string> g; for (auto v : s->getEnumValues(e)) g.insert(LabelStr(v).toString());
    if (g != d.enums.at(e)) bad("getEnumValues", std::string("values of ") + e + " are " + set2s(d.enums.at(e)) + " but " + set2s(g) + " are listed");
    for (const char* v : {"a", "b", "k"}) if (s->isEnumValue(e, LabelStr(v)) != d.enums.at(e).count(v)) bad("isEnumValue", std::string("isEnumValue(") + e + "," + v + ") is wrong");
  }
  for (const char* v : {"a", "b", "k"}) {
    std::string of; for (auto& e : d.enums) if (e.second.count(v)) of = e.first;
    if (s->isEnumValue(LabelStr(v)) != !of.empty()) bad("isEnumValue", std::string("isEnumValue(") + v + ") is wrong");
    if (!of.empty()) guard("getEnumForValue", v, [&] { if (s->getEnumForValue(LabelStr(v)) != of || s->getEnumFromMember(LabelStr(v)) != of) bad("getEnumForValue", std::string(v) + " belongs to " + of + ", not " + s->getEnumForValue(LabelStr(v))); });
  }
}
// ---- declarations through the schema, one at a time ----
static std::string say(const std::string& o) {
  switch (o[0]) {
    case 'D': return std::string("declare ") + o.substr(1); case 'T': return "class " + o.substr(1, 1) + " extends " + (o[2] == 'O' ? "Object" : o.substr(2));
    case 'P': return std::string("predicate ") + PREDS[o[1] - '0']; case 'M': { const Pos& m = MEMBERS[o[1] - '0']; return std::string("member ") + m.type + " " + m.name + " of " + m.where; }
    case 'E': return "enum " + o.substr(1); case 'V': return "value " + o.substr(2) + " of " + o.substr(1, 1); case 'Z': return "reset"; default: return "ask everything";
  }
}
static void apply(SchemaId s, Decl& d, const std::string& o, mc::Ctx& c, const std::string& what) {
  switch (o[0]) {
    case 'D': s->declareObjectType(o.substr(1)); d.known.insert(o.substr(1)); break;
    case 'T': { std::string t = o.substr(1, 1), p = o[2] == 'O' ? "Object" : o.substr(2); s->addObjectType(t, p); d.known.insert(t); d.parent[t] = p; d.members[t]; break; }
    case 'P': { std::string p = PREDS[o[1] - '0']; s->addPredicate(p); d.preds.insert(p); d.members[p]; break; }
    case 'M': { const Pos& m = MEMBERS[o[1] - '0']; s->addMember(m.where, m.type, m.name); d.members[m.where].push_back(std::make_pair(m.type, m.name)); break; }
    case 'E': s->addEnum(o.substr(1)); d.enums[o.substr(1)]; break;
    case 'V': s->addValue(o.substr(1, 1), LabelStr(o.substr(2))); d.enums[o.substr(1, 1)].insert(o.substr(2)); break;
    case 'Z': s->reset(); s->addObjectType("Object"); d = Decl(); d.known.insert("Object"); d.members["Object"]; break;
    case 'Q': ask(s, d, c, what, false); break;
  }
}
static std::string text(const Decl& d) {
  std::string k; for (auto& x : d.known) k += x + ","; for (auto& x : d.parent) k += x.first + "<" + x.second + ",";
  for (auto& x : d.members) { k += x.first + "("; for (auto& m : x.second) k += m.first + m.second + " "; k += ")"; }
  for (auto& e : d.enums) k += e.first + set2s(e.second); return k;
}
static void api(const std::string& h, mc::Ctx& c, int depth, int maxAsk) {
  c.begin(h);
  std::vector<std::string> ops; { std::istringstream i(h.substr(2)); std::string t; while (i >> t) ops.push_back(t); }
  std::string what = "["; for (auto& o : ops) what += say(o) + "; "; what += "]";
  CESchema* ces = new CESchema(); 
  { Schema s("s", ces->getId()); Decl d; s.addObjectType("Object"); d.known.insert("Object"); d.members["Object"];
  std::string asked; int asks = 0, resets = 0, decls = 0;
  mc::Ctx& cc = c;
  try { for (auto& o : ops) { if (o == "Q") { ++asks; asked += "|" + text(d); } else ++decls; if (o == "Z") { ++resets; asked += "Z"; } apply(s.getId(), d, o, cc, what); } }
  catch (Error& e) { c.violation("C18:declaration", "a valid declaration raised an error (" + e.getMsg() + ") in " + what); return; }
  c.transitions();
  ask(s.getId(), d, c, what, false);
  if (c.state("A" + text(d) + asked) && decls < depth) {
    auto go = [&](const std::string& o) { c.emit(h + o + " "); };
    for (const char* t : TYPES) {
      if (!d.known.count(t)) go(std::string("D") + t);
      if (!d.added(t)) for (auto& p : d.known) if (p != t && !d.isa(p, t)) go(std::string("T") + t + (p == "Object" ? "O" : p));
    }
    for (int i = 0; i < 4; ++i) if (d.known.count(std::string(PREDS[i]).substr(0, 1)) && !d.preds.count(PREDS[i])) go("P" + std::to_string(i));
    for (int i = 0; i < 7; ++i) {
      const Pos& m = MEMBERS[i]; std::string w = m.where, ty = m.type;
      if (!d.members.count(w) || !d.complete(w.substr(0, 1)) || !(ty == "int" || (d.known.count(ty) && d.complete(ty)))) continue;
      bool dup = false; for (auto& v : d.visible(w)) if (v.second == m.name) dup = true;
      // a member that a subtype already declared would hide it: fine, but only distinct names are used within one hierarchy
      if (!dup) go("M" + std::to_string(i));
    }
    if (!d.enums.count("E")) go("EE"); else { if (!d.enums["E"].count("a")) go("VEa"); if (!d.enums["E"].count("b") && (!d.enums.count("F") || !d.enums["F"].count("b"))) go("VEb"); }
    if (d.enums.count("E") && !d.enums.count("F")) go("EF"); else if (d.enums.count("F") && !d.enums["F"].count("b") && !d.enums["E"].count("b")) go("VFb");
    if (asks < maxAsk && !ops.empty() && ops.back() != "Q" && ops.back() != "Z") go("Q");
    if (asks && !resets && ops.back() == "Q") go("Z");
  } }
  // the schema's data types stay with it
}

// ---- whole models, loaded in pieces ----
struct Model { int ps, pu, preds, split, asks; };
// parents: S in {Object,R}, U in {Object,R,S}; which classes declare predicate A; where the text is cut; where questions are asked
static void nddl(int n, mc::Ctx& c) {
  c.begin("N|" + std::to_string(n));
  int k = n; Model m; m.ps = k % 2; k /= 2; m.pu = k % 3; k /= 3; m.preds = k % 8; k /= 8; m.asks = k % 8; k /= 8; m.split = k % 2;
  std::string pS = m.ps ? "R" : "Object", pU = m.pu == 0 ? "Object" : m.pu == 1 ? "R" : "S";
  Decl d; d.known.insert("Object"); d.members["Object"];
  std::string text, what = "[class S extends " + pS + ", class U extends " + pU + ", A declared in";
  for (int i = 0; i < 3; ++i) if (m.preds >> i & 1) what += std::string(" ") + TYPES[i];
  what += ", asked"; for (int i = 0; i < 3; ++i) if (m.asks >> i & 1) what += " before " + std::string(TYPES[i]);
  what += m.split ? ", forward declarations]" : "]";
  Eng* e = new Eng();
  SchemaId s = e->schema();
  auto load = [&](const std::string& t) { std::string r = e->load(t); if (!r.empty()) c.violation("C18:load", "loading [" + t + "] gave: " + r + " in " + what); return r.empty(); };
  if (m.split) { if (!load("class R; class S; class U;")) return; for (const char* t : TYPES) d.known.insert(t); }
  const char* mem[] = {"int x;", "R y;", "S z;"}; const char* mt[] = {"int", "R", "S"}; const char* mn[] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) {
    std::string t = TYPES[i], p = i == 0 ? "Object" : i == 1 ? pS : pU;
    if (m.asks >> i & 1) ask(s, d, c, what + " before " + t, true && !m.split);
    std::string body = "class " + t + (p == "Object" ? "" : " extends " + p) + " { " + mem[i] + " " + t + "() { }";
    if (m.preds >> i & 1) body += d.owner(p + ".A").empty() ? " predicate A { int p; p = [0 3]; }" : " predicate A { }";
    if (!load(body + " }")) return;
    d.known.insert(t); d.parent[t] = p; d.members[t].push_back(std::make_pair(mt[i], mn[i]));
    if (m.preds >> i & 1) { bool first = d.owner(t + ".A").empty(); d.preds.insert(t + ".A"); d.members[t + ".A"]; if (first) d.members[t + ".A"].push_back(std::make_pair("int", "p")); }
  }
  ask(s, d, c, what, true);
  c.transitions(); c.state("N" + std::to_string(n));
  // constructors take objects of derived types
  std::string w = "class W { R a; int n; W(R b) { a = b; n = 1; } W(S b, U u) { n = 2; } W(U u, int i) { n = 3; } }\n";
  if (!load(w) || !load("R r = new R(); S s = new S(); U u = new U();")) return;
  auto accepts = [&](const std::vector<std::string>& args) -> std::set<int> {
    std::set<int> r; if (args.size() == 1 && d.isa(args[0], "R")) r.insert(1);
    if (args.size() == 2 && args[1] != "int" && d.isa(args[0], "S") && d.isa(args[1], "U")) r.insert(2);
    if (args.size() == 2 && args[1] == "int" && d.isa(args[0], "U")) r.insert(3);
    return r;
  };
  std::vector<std::vector<std::string>> calls; for (const char* a : TYPES) { calls.push_back({a}); for (const char* b : {"R", "S", "U", "int"}) calls.push_back({a, b}); }
  int q = 0;
  for (auto& a : calls) for (int again = 0; again < 2; ++again) {
    std::string args; for (auto& x : a) args += (args.empty() ? "" : ", ") + (x == "int" ? std::string("3") : std::string(1, (char)tolower(x[0])));
    std::string nm = "w" + std::to_string(q++); std::set<int> ok = accepts(a); std::string r;
    c.evals();
    if (ok.empty()) {
      std::vector<const Domain*> ds; std::vector<std::unique_ptr<Domain>> own;
      for (auto& x : a) { if (x == "int") own.emplace_back(new IntervalIntDomain(3, 3)); else own.emplace_back(e->db()->getObject(std::string(1, (char)tolower(x[0])))->getThis()->baseDomain().copy()); ds.push_back(own.back().get()); }
      try { if (!s->getObjectFactory("W", ds, false).isNoId()) c.violation("C18:constructor-refused", "new W(" + args + ") finds a constructor though none takes such arguments in " + what); }
      catch (Error& er) { c.violation("C18:constructor-refused", "new W(" + args + ") raised an error (" + er.getMsg() + ") in " + what); }
      continue;
    }
    r = e->load("W " + nm + " = new W(" + args + ");");
    if (!r.empty()) { c.violation("C18:constructor", "new W(" + args + ") is refused (" + r.substr(0, 150) + ") in " + what); return; }
    ObjectId o = e->db()->getObject(nm); V v = o->getVariable(nm + ".n"); int got = (int)cast_double(v->lastDomain().getSingletonValue());
    if (!ok.count(got)) c.violation("C18:constructor-choice", "new W(" + args + ") ran constructor " + std::to_string(got) + " in " + what);
  }
  // tokens of every predicate, inherited or declared, have its parameters, and range over the objects of its type
  for (const char* t : TYPES) {
    std::string p = std::string(t) + ".A"; if (d.owner(p).empty()) continue;
    TokenId k = e->client()->createToken(p.c_str(), (std::string("k") + t).c_str(), false, false);
    c.evals();
    std::vector<std::string> ps; for (auto v : k->parameters()) ps.push_back(v->getName());
    if (std::count(ps.begin(), ps.end(), "p") < 1) c.violation("C18:token-parameters", "a token of " + p + " has parameters " + vec2s(ps) + " in " + what);
    std::set<std::string> want, got; for (const char* u : TYPES) if (d.isa(u, t)) want.insert(std::string(1, (char)tolower(u[0])));
    std::list<edouble> vs; k->getObject()->baseDomain().getValues(vs); for (auto x : vs) got.insert(Entity::getTypedEntity<Object>(x)->getName());
    if (got != want) c.violation("C18:token-objects", "a token of " + p + " can be on " + set2s(want) + " but its object is one of " + set2s(got) + " in " + what);
    if (k->getPredicateName() != p) c.violation("C18:token-name", "a token of " + p + " says it is a " + k->getPredicateName() + " in " + what);
  }
  ask(s, d, c, what + " with tokens", true);
  delete e;
}
int main(int argc, char** argv) {
  mc::Runner r("C18", argc, argv);
  quiet();
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) { if (s[0] == 'A') api(s, c, 0, 0); else nddl(atoi(s.c_str() + 2), c); });
  int depth = r.quick ? 6 : 7, asks = r.quick ? 1 : 2;
  std::vector<std::string> roots = {"A|"};
  int d0 = r.bfs(roots, depth + asks + 1, [&](const std::string& h, mc::Ctx& c) { api(h, c, depth, asks); });
  r.parallel(2 * 3 * 8 * 8 * 2, [&](long i, mc::Ctx& c) { nddl(i, c); });
  r.rule = "all histories of declarations with questions in between, and all three-class models loaded in pieces, every answer compared with the closure of the declarations";
  r.extras.push_back({"depth", std::to_string(d0)}); r.extras.push_back({"models", "768"}); r.extras.push_back({"frontiers", "[" + r.levels + "]"});
  r.sample("A|TRO Q P0"); r.sample("N|100");
  r.assumptions = {"questions about members of a type are asked once it and its ancestors are defined", "a member name is declared once along a hierarchy, except that a predicate may be declared again with the same parameter"};
  return r.finish();
}
