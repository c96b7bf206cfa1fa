// An independent recogniser for the modelling language: the grammar of its
// definition as text, matched by enumerating all ways to match.
#ifndef NDDL_GRAMMAR_HH
#define NDDL_GRAMMAR_HH
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace nddl {
typedef std::vector<std::string> Toks;
// Alternatives | sequences, ( ) groups, * + ? repetition; 'x' is a token, lower
// case names are rules, ID INT FLOAT STR token classes.
static const char* GRAMMAR[][2] = {
  {"nddl", "stmt*"},
  {"stmt", "typedef | enum | vars | assign | cons | class | 'new' ctorcall ';' | rule | problem | relation | method | ';'"},
  {"enum", "'enum' ID '{' ID ( ',' ID )* '}'"},
  {"typedef", "'typedef' type basedom ID ';'"},
  {"basedom", "interval | set"},
  {"interval", "'[' number ','? number ']'"},
  {"set", "'{' setval ( ',' setval )* '}'"},
  {"setval", "literal | qual"},
  {"vars", "'filter'? type varinit ( ',' varinit )* ';'"},
  {"varinit", "ID ( '(' init ')' )? | ID '=' init"},
  {"any", "literal | basedom | qual"},
  {"ctorcall", "ID args"},
  {"args", "'(' ( any ( ',' any )* )? ')'"},
  {"qual", "( 'this' | ID ) ( '.' ID )*"},
  {"assign", "qual ( 'in' | '=' ) init ';'"},
  {"init", "any | 'new' ctorcall"},
  {"class", "'class' ID ( ( 'extends' ID )? '{' classstmt* '}' | ';' )"},
  {"classstmt", "vars | ctor | tokentype | ';'"},
  {"ctor", "ID '(' ( type ID ( ',' type ID )* )? ')' '{' ctorstmt* '}'"},
  {"ctorstmt", "assign | 'super' args ';' | ';'"},
  {"tokentype", "( 'predicate' | 'action' ) ID '{' tokenstmt* '}'"},
  {"tokenstmt", "vars | cons | assign"},
  {"rule", "ID '::' ID block"},
  {"block", "'{' rulestmt* '}' | rulestmt"},
  {"rulestmt", "relation | vars | cons | flow | ';'"},
  {"type", "'int' | 'float' | 'bool' | 'string' | ID"},
  {"relation", "tokref? temporal toklist ';'"},
  {"problem", "( 'rejectable' | 'goal' | 'fact' ) toklist ';'"},
  {"toklist", "tokref | '(' ( tokinst ( ',' tokinst )* )? ')'"},
  {"tokref", "ID | 'this'"},
  {"tokinst", "( 'condition' | 'effect' )? qual ID?"},
  {"cons", "ID args ( ':' STR )? ';' | 'enforce'? expr ( ':' STR )? ';'"},
  {"expr", "and ( '||' and )*"},
  {"and", "rel ( '&&' rel )*"},
  {"rel", "add ( ( '==' | '!=' | '<' | '>' | '>=' | '<=' ) add )*"},
  {"add", "mul ( ( '+' | '-' ) mul )*"},
  {"mul", "prim ( '*' prim )*"},
  {"prim", "any | ID '(' expr ( ',' expr )* ')' | '(' expr ')'"},
  {"flow", "'if' '(' expr ')' block ( 'else' block )? | 'foreach' '(' ID 'in' qual ')' block"},
  {"temporal", "'after' | 'any' | 'before' | 'contained_by' | 'contains' | 'contains_end' | 'contains_start' | 'ends' | 'ends_after' | 'ends_after_start' | 'ends_before' | 'ends_during' | 'equal' | 'equals' | 'meets' | 'met_by' | 'parallels' | 'paralleled_by' | 'starts' | 'starts_after' | 'starts_before' | 'starts_before_end' | 'starts_during'"},
  {"literal", "'true' | 'false' | number | STR"},
  {"number", "INT | FLOAT | '+'? ( 'inf' | 'inff' ) | '-inf' | '-inff'"},
  {"method", "qual '.' ( ID | 'close' ) args ';' | 'close' args ';'"}};

class Recogniser {
  struct Node { int op; std::string s; std::vector<Node> k; };   // op: t token, r rule, c class, | & * + ?
  std::map<std::string, Node> rules; std::set<std::string> keywords;
  Toks g; size_t p;
  Node alt() { Node n = {'|', "", {}}; n.k.push_back(seq()); while (p < g.size() && g[p] == "|") { ++p; n.k.push_back(seq()); } return n.k.size() == 1 ? n.k[0] : n; }
  Node seq() {
    Node n = {'&', "", {}};
    while (p < g.size() && g[p] != "|" && g[p][0] != ')') {
      std::string t = g[p++], q; Node x = {'r', "", {}};
      if (t == "(") { x = alt(); q = g[p++].substr(1); }
      else { if (t.size() > 1 && (t.back() == '*' || t.back() == '?' || t.back() == '+') && t[t.size() - 2] != '\'') { q = t.substr(t.size() - 1); t.pop_back(); } else if (t[0] == '\'' && t.size() > 2 && t.back() != '\'') { q = t.substr(t.size() - 1); t.pop_back(); }
        if (t[0] == '\'') { x = {'t', t.substr(1, t.size() - 2), {}}; if (isalpha((unsigned char)x.s[0])) keywords.insert(x.s); } else x = {isupper((unsigned char)t[0]) ? 'c' : 'r', t, {}}; }
      if (!q.empty()) { Node y = {q[0], "", {x}}; x = y; }
      n.k.push_back(x);
    }
    return n;
  }
  bool is(const std::string& cls, const std::string& t) const {
    if (cls == "ID") return (isalpha((unsigned char)t[0]) || t[0] == '_' || t[0] == '$') && !keywords.count(t);
    if (cls == "STR") return t[0] == '"';
    size_t i = t[0] == '-' || t[0] == '+'; if (i >= t.size() || !(isdigit((unsigned char)t[i]) || (t[i] == '.' && t.size() > i + 1))) return false;
    bool fl = t.find_first_of(".eEfFdD") != std::string::npos;
    return cls == (fl ? "FLOAT" : "INT");
  }
  const Toks* in; std::map<std::pair<std::string, size_t>, std::set<size_t>> memo;
  std::set<size_t> match(const Node& n, size_t i) {
    std::set<size_t> r;
    switch (n.op) {
      case 't': if (i < in->size() && (*in)[i] == n.s) r.insert(i + 1); break;
      case 'c': if (i < in->size() && is(n.s, (*in)[i])) r.insert(i + 1); break;
      case 'r': { auto k = std::make_pair(n.s, i); auto f = memo.find(k); if (f != memo.end()) return f->second; r = match(rules[n.s], i); memo[k] = r; break; }
      case '|': for (auto& x : n.k) for (auto e : match(x, i)) r.insert(e); break;
      case '&': { r.insert(i); for (auto& x : n.k) { std::set<size_t> s; for (auto b : r) for (auto e : match(x, b)) s.insert(e); r.swap(s); } break; }
      case '?': r = match(n.k[0], i); r.insert(i); break;
      default: { std::set<size_t> todo = n.op == '*' ? std::set<size_t>{i} : match(n.k[0], i); while (!todo.empty()) { size_t b = *todo.begin(); todo.erase(b); if (!r.insert(b).second) continue; for (auto e : match(n.k[0], b)) if (!r.count(e)) todo.insert(e); } }
    }
    return r;
  }
 public:
  Recogniser() { for (auto& x : GRAMMAR) { std::istringstream i(x[1]); std::string t; g.clear(); while (i >> t) g.push_back(t); p = 0; rules[x[0]] = alt(); } }
  // The tokens a statement can begin with
  bool first(const Node& n, const std::string& t, std::set<std::string>& busy, bool& empty) {
    empty = false; bool e, r = false;
    switch (n.op) {
      case 't': return n.s == t;
      case 'c': return is(n.s, t);
      case 'r': if (!busy.insert(n.s).second) return false; r = first(rules[n.s], t, busy, empty); busy.erase(n.s); return r;
      case '|': for (auto& x : n.k) { if (first(x, t, busy, e)) r = true; if (e) empty = true; } return r;
      case '&': for (auto& x : n.k) { if (first(x, t, busy, e)) r = true; if (!e) return r; } empty = true; return r;
      default: r = first(n.k[0], t, busy, e); if (n.op != '+' || e) empty = true; return r;
    }
  }
  bool begins(const std::string& t) { std::set<std::string> b; bool e; return first(rules["stmt"], t, b, e); }
  // The number of tokens up to where whole statements are followed by a token
  // no statement can begin with, or -1
  int trailing(const Toks& t) { in = &t; memo.clear(); for (auto p : match(rules["nddl"], 0)) if (p < t.size() && !begins(t[p])) return int(p); return -1; }
  bool valid(const Toks& t) { in = &t; memo.clear(); return match(rules["nddl"], 0).count(t.size()); }
};
inline Toks tokens(const std::string& s) { std::istringstream i(s); Toks v; std::string t; while (i >> t) v.push_back(t); return v; }
inline std::string join(const Toks& t) { std::string s; for (auto& x : t) s += (s.empty() ? "" : " ") + x; return s; }
}
#endif
