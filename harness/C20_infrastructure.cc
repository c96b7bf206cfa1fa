// C20: interned strings, the id table, the entity registry and the keyed
// priority queues: all operation histories up to a depth against reference
// models.  Objects live at a few fixed addresses so that addresses are re-used.
// modules: Utils,TinyXml,ConstraintEngine,PlanDatabase,TemporalNetwork
#include "mc.hh"
#include "Error.hh"
#include "LabelStr.hh"
#include "Id.hh"
#include "IdTable.hh"
#include "Entity.hh"
#include "Utils.hh"
#include "HashPriorityQueue.hh"
#include "DistanceGraph.hh"
using namespace EUROPA;

static int DEPTH_ID = 5, DEPTH_ENT = 6, DEPTH_Q = 7, DEPTH_LAB = 4;
static std::string hist(const std::vector<int>& h) { return mc::join(h); }

// ---------------------------------------------------------------- labels
static const char* TEXT[] = {"", "a", "ab", "abc", "b", "a:b", ":a::b:", "ba"};
static std::vector<std::string> refTokens(const std::string& s, const std::string& d) {
  std::vector<std::string> r; std::string cur;
  for (char c : s) { if (d.find(c) != std::string::npos) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
struct Labels {
  mc::Ctx& c; std::string pre; std::vector<int> h;
  std::vector<LabelStr> made; std::vector<std::string> txt; std::set<std::string> known;
  unsigned long size0;
  Labels(mc::Ctx& c, const std::string& p) : c(c), pre(p), size0(LabelStr::getSize()) {}
  void bad(const std::string& s, const std::string& m) { c.violation("label:" + s, m + " after creating " + hist(h)); }
  void make(int op) {
    h.push_back(op); std::string t = pre + TEXT[op / 2]; bool known0 = known.count(t);
    if (LabelStr::isString(t) != known0) bad("isString-before", "isString(\"" + t + "\") is wrong before creation");
    LabelStr l = op % 2 ? LabelStr(t.c_str()) : LabelStr(t);
    known.insert(t); made.push_back(l); txt.push_back(t);
    if (LabelStr::getSize() != size0 + known.size()) bad("size", "getSize does not count the distinct texts");
    check();
  }
  void check() {
    c.evals();
    for (size_t i = 0; i < made.size(); ++i) {
      const LabelStr& a = made[i];
      if (a.toString() != txt[i] || std::string(a.c_str()) != txt[i] || (std::string)a != txt[i]) bad("text", "the label made from \"" + txt[i] + "\" reads \"" + a.toString() + "\"");
      if (!LabelStr::isString(a.getKey()) || !LabelStr::isString(txt[i])) bad("isString", "a created label is not known");
      LabelStr k(a.getKey()); if (!(k == a) || k.toString() != txt[i]) bad("from-key", "a label re-made from its key differs");
      if (LabelStr::getKey(txt[i]) != a.getKey()) bad("key", "getKey(text) differs from the label's key");
      for (size_t j = 0; j < made.size(); ++j) {
        bool same = txt[i] == txt[j];
        if ((a == made[j]) != same || (a != made[j]) == same || (a.getKey() == made[j].getKey()) != same) bad("equality", "\"" + txt[i] + "\" and \"" + txt[j] + "\" compare wrongly");
        if ((a < made[j]) != (txt[i] < txt[j]) || (a > made[j]) != (txt[i] > txt[j])) bad("order", "\"" + txt[i] + "\" and \"" + txt[j] + "\" are ordered wrongly");
        if (a.contains(made[j]) != (txt[i].find(txt[j]) != std::string::npos)) bad("contains", "contains(\"" + txt[i] + "\",\"" + txt[j] + "\") is wrong");
      }
    }
  }
  void tokens() {
    for (size_t i = 0; i < made.size(); ++i) for (const char* d : {":", ".", ":b", "a"}) {
      std::vector<std::string> r = refTokens(txt[i], d), u;
      if (made[i].countElements(d) != r.size()) { bad("countElements", "countElements of \"" + txt[i] + "\" by \"" + d + "\" gives " + std::to_string(made[i].countElements(d))); continue; }
      tokenize(txt[i], u, d); if (u != r) bad("tokenize", "tokenize(\"" + txt[i] + "\") by \"" + d + "\" is wrong");
      for (size_t e = 0; e < r.size(); ++e) if (made[i].getElement(e, d).toString() != r[e]) bad("getElement", "getElement of \"" + txt[i] + "\" is wrong");
    }
  }
};
static void labelHistories(mc::Ctx& c, int first) {
  int n = 16; static int serial = 0;
  std::vector<int> h(DEPTH_LAB, 0); h[0] = first;
  for (;;) {
    std::string pre = "w" + std::to_string(getpid()) + "_" + std::to_string(++serial) + ".";
    c.begin("labels|" + hist(h));
    Labels l(c, pre); for (int op : h) { l.make(op); c.transitions(); c.state(std::string("L") + hist(l.h)); }
    l.tokens(); c.trace();
    int i = DEPTH_LAB - 1; while (i > 0 && ++h[i] == n) h[i--] = 0;
    if (i == 0) break;
  }
}
static void manyLabels(mc::Ctx& c, int n) {
  c.begin("many-labels|"); std::vector<edouble> keys; std::set<double> seen;
  for (int i = 0; i < n; ++i) { LabelStr l("many" + std::to_string(i)); if (!seen.insert(cast_double(l.getKey())).second) c.violation("label:many", "label " + std::to_string(i) + " shares its key with an earlier one"); keys.push_back(l.getKey()); }
  for (int i = 0; i < n; ++i) if (LabelStr(keys[i]).toString() != "many" + std::to_string(i)) { c.violation("label:many-text", "label " + std::to_string(i) + " reads back differently"); break; }
  for (int i = 1; i < 40; ++i) if (LabelStr::isString(edouble(i))) c.violation("label:number", "the number " + std::to_string(i) + " is taken for a string");
  c.transitions(2 * n); c.trace();
}

// ---------------------------------------------------------------- ids
// Two addresses; live[] says which; operator new hands out the requested one.
static const int NA = 2, NH = 3;
static char POOL[NA][256] __attribute__((aligned(64)));
static int NEXT = 0;
struct Base { virtual ~Base() {} };
struct Foo : public Base { int x; void* operator new(size_t) { return POOL[NEXT]; } void operator delete(void*) {} };
struct Bar : public Base {};
typedef Id<Base> BId; typedef Id<Foo> FId;
struct IdWorld {
  Foo* obj[NA]; bool reg[NA]; int inc[NA]; int counter; unsigned long size0;
  FId h[NH]; int hs[NH], hi[NH];   // slot and incarnation, -1 = noId
  BId b; int bs, bi;
  std::vector<int> ops; mc::Ctx& c;
  IdWorld(mc::Ctx& c) : counter(0), bs(-1), bi(0), c(c) { for (int i = 0; i < NA; ++i) { obj[i] = 0; reg[i] = false; inc[i] = 0; } for (int i = 0; i < NH; ++i) hs[i] = -1, hi[i] = 0; size0 = IdTable::size(); }
  ~IdWorld() { for (int i = 0; i < NA; ++i) if (reg[i]) IdTable::remove((unsigned long)obj[i]); }
  void bad(const std::string& s, const std::string& m) { c.violation("id:" + s, m + " after " + describe()); }
  std::string describe() {
    std::ostringstream o;
    for (int p : ops) { if (p < NA) o << "h" << p << "=Id(new at " << p << ") "; else if (p < NA + NH * NH) o << "h" << (p - NA) / NH << "=h" << (p - NA) % NH << " "; else if (p < NA + NH * NH + NH) o << "release h" << p - NA - NH * NH << " "; else if (p < NA + NH * NH + 2 * NH) o << "remove h" << p - NA - NH * NH - NH << " "; else if (p < NA + NH * NH + 3 * NH) o << "b=h" << p - NA - NH * NH - 2 * NH << " "; else o << "h" << (p - NA - NH * NH - 3 * NH) / NA << "=Id(address " << (p - NA - NH * NH - 3 * NH) % NA << ") "; }
    return o.str();
  }
  static int count() { return NA + NH * NH + 3 * NH + NH * NA; }
  bool live(int s, int i) { return s >= 0 && reg[s] && inc[s] == i; }
  bool apply(int p) {   // false: not applicable
    ops.push_back(p);
    if (p < NA) {
      if (reg[p]) {      // a second registration of the same object is refused
        try { FId again(obj[p]); bad("double-registration", "a second registration of one object was accepted"); } catch (Error&) {}
        return true;
      }
      NEXT = p; obj[p] = new Foo(); inc[p] = ++counter; reg[p] = true; h[p % NH] = FId(obj[p]); hs[p % NH] = p; hi[p % NH] = inc[p]; return true;
    }
    p -= NA;
    if (p < NH * NH) { int d = p / NH, s = p % NH; if (d == s) return false; h[d] = h[s]; hs[d] = hs[s]; hi[d] = hi[s]; return true; }
    p -= NH * NH;
    if (p < 2 * NH) {
      int k = p % NH; bool rel = p < NH;
      if (!live(hs[k], hi[k])) {
        if (hs[k] >= 0 && !rel) { try { FId t = h[k]; t.remove(); bad("remove-dead", "removing a dead handle was accepted"); } catch (Error&) {} return true; }
        return false;
      }
      int s = hs[k]; if (rel) h[k].release(); else h[k].remove();
      reg[s] = false; hs[k] = -1; return true;
    }
    p -= 2 * NH;
    if (p < NH) { if (hs[p] >= 0 && !live(hs[p], hi[p])) return false; b = h[p]; bs = hs[p]; bi = hi[p]; return true; }
    p -= NH;
    int d = p / NA, s = p % NA; unsigned long addr = (unsigned long)(Foo*)POOL[s];
    if (reg[s]) { h[d] = FId(addr); hs[d] = s; hi[d] = inc[s]; }
    else try { FId t(addr); bad("dead-address", "a handle was made for an address with no object"); } catch (Error&) {}
    return true;
  }
  template<class X> void one(const Id<X>& q, int s, int i, const char* n) {
    bool l = live(s, i);
    if (q.isValid() != l || q.isInvalid() == l) bad("valid", std::string(n) + (l ? " is reported invalid though its object is alive" : " is reported valid though its object is gone"));
    if (q.isNoId() != (s < 0)) bad("noId", std::string(n) + ".isNoId() is wrong");
    if (q.isId() != (s >= 0)) bad("isId", std::string(n) + ".isId() is wrong");
    if ((q == Id<X>::noId()) != (s < 0)) bad("noId", std::string(n) + " compares wrongly with noId");
  }
  void check() {
    c.evals();
    unsigned long n = 0; for (int i = 0; i < NA; ++i) { n += reg[i]; if (IdTable::allocated((unsigned long)(Foo*)POOL[i]) != reg[i]) bad("allocated", "the table is wrong about an address"); if ((IdTable::getKey((unsigned long)(Foo*)POOL[i]) != 0) != reg[i]) bad("key", "the table has a key for a dead address, or none for a live one"); }
    if (IdTable::size() != size0 + n) bad("size", "the table does not count the live objects");
    for (int i = 0; i < NH; ++i) { one(h[i], hs[i], hi[i], "a handle"); for (int j = 0; j < NH; ++j) { bool same = hs[i] == hs[j] && (hs[i] < 0 || hi[i] == hi[j]); if ((h[i] == h[j]) != same || (h[i] != h[j]) == same) bad("equality", same ? "two handles of one object differ" : "handles of different objects are equal"); } }
    one(b, bs, bi, "a base handle");
    if (bs >= 0 && live(bs, bi)) {
      FId back(b); if ((Foo*)back != obj[bs] || !back.isValid()) bad("cast", "casting down gives another object");
      try { Id<Bar> w(b); bad("bad-cast", "a cast to an unrelated class was accepted"); } catch (Error&) {}
      if (!FId::convertable(b) || Id<Bar>::convertable(b)) bad("convertable", "convertable() is wrong");
    }
  }
  // Behaviour depends on which handles are live/stale and what equals what.
  std::string key() {
    std::ostringstream o; std::map<int, int> ren; auto nm = [&](int s, int i) { if (s < 0) return std::string("n"); if (!ren.count(i)) { int k = ren.size(); ren[i] = k; } return std::to_string(s) + (live(s, i) ? "L" : "D") + std::to_string(ren[i]); };
    for (int i = 0; i < NA; ++i) o << reg[i]; for (int i = 0; i < NH; ++i) o << nm(hs[i], hi[i]) << ","; o << nm(bs, bi); return o.str();
  }
};
static void idHistories(mc::Ctx& c, int first) {
  std::set<std::string> seen; std::vector<std::vector<int>> front(1, std::vector<int>(1, first));
  for (int d = 1; d <= DEPTH_ID; ++d) {
    std::vector<std::vector<int>> next;
    for (auto& hh : front) {
      c.begin("ids|" + hist(hh));
      IdWorld w(c); bool ok = true; for (int p : hh) if (!w.apply(p)) { ok = false; break; }
      if (!ok) continue;
      w.check(); c.transitions(); c.trace();
      if (c.nviol > 20) return;
      if (!seen.insert(w.key()).second) continue;
      c.state("I" + w.key());
      for (int p = 0; p < IdWorld::count(); ++p) { next.push_back(hh); next.back().push_back(p); }
    }
    front.swap(next);
  }
}

// ---------------------------------------------------------------- entities
static const int NE = 2;
static char EPOOL[NE][512] __attribute__((aligned(64)));
struct Ent;
typedef Id<Ent> EId;
struct Ent : public Entity { EId m_id; Ent() : m_id(this) {} virtual ~Ent() { m_id.remove(); } static void* operator new(size_t) { return EPOOL[NEXT]; } static void operator delete(void*) {} };
struct EntWorld {
  Ent* obj[NE]; int refs[NE]; eint key[NE]; std::map<long, int> dead; std::vector<int> ops; mc::Ctx& c; std::set<EntityId> base; long last;
  EntWorld(mc::Ctx& c) : c(c), last(-1) { for (int i = 0; i < NE; ++i) obj[i] = 0, refs[i] = 0; Entity::getEntities(base); }
  ~EntWorld() { for (int i = 0; i < NE; ++i) if (obj[i]) { while (obj[i]->refCount() > 1) obj[i]->decRefCount(); delete obj[i]; } }
  void bad(const std::string& s, const std::string& m) { std::ostringstream o; static const char* N[] = {"new", "incRef", "decRef", "delete", "purge-delete"}; for (int p : ops) o << N[p / NE] << " " << p % NE << ", "; c.violation("entity:" + s, m + " after " + o.str()); }
  bool apply(int p) {
    ops.push_back(p); int i = p % NE;
    switch (p / NE) {
      case 0: if (obj[i]) return false; NEXT = i; obj[i] = new Ent(); refs[i] = 1; key[i] = obj[i]->getKey();
        if (cast_long(key[i]) <= last) bad("key", "a new entity's key is not larger than the earlier ones"); last = cast_long(key[i]); break;
      case 1: if (!obj[i] || refs[i] > 3) return false; obj[i]->incRefCount(); refs[i]++; break;
      case 2: { if (!obj[i]) return false; bool z = obj[i]->decRefCount(); if (refs[i] > 0) refs[i]--; if (z != (refs[i] == 0)) bad("decRefCount", "decRefCount reports wrongly whether none are left"); break; }
      case 3: if (!obj[i] || refs[i] > 1) return false; dead[cast_long(key[i])] = 1; delete obj[i]; obj[i] = 0; break;
      case 4: if (!obj[i]) return false; Entity::purgeStarted(); if (!Entity::isPurging()) bad("purge", "isPurging() is false inside a purge"); dead[cast_long(key[i])] = 1; delete obj[i]; obj[i] = 0; Entity::purgeEnded(); break;
    }
    return true;
  }
  void check() {
    c.evals();
    if (Entity::isPurging()) bad("purge", "isPurging() is true outside a purge");
    std::set<EntityId> now; Entity::getEntities(now); size_t n = base.size(); for (int i = 0; i < NE; ++i) n += obj[i] != 0;
    if (now.size() != n) bad("registry", "the registry holds " + std::to_string(now.size()) + " entities, " + std::to_string(n) + " are alive");
    for (int i = 0; i < NE; ++i) if (obj[i]) {
      if (!now.count(EntityId(obj[i]->m_id))) bad("registry", "a live entity is not in the registry");
      EntityId e = Entity::getEntity(key[i]); if ((Entity*)e != (Entity*)obj[i]) bad("getEntity", "getEntity(key) does not give the entity");
      if (e.isValid() && e->getKey() != key[i]) bad("getEntity", "getEntity(key) gives an entity with another key");
      if (Entity::getTypedEntity<Ent>(key[i]) != obj[i]->m_id) bad("getTypedEntity", "getTypedEntity(key) does not give the entity");
      if ((int)obj[i]->refCount() != refs[i]) bad("refCount", "refCount is " + std::to_string(obj[i]->refCount()) + ", should be " + std::to_string(refs[i]));
      if (obj[i]->canBeDeleted() != (refs[i] < 2)) bad("canBeDeleted", "canBeDeleted is wrong");
      if (obj[i]->getKey() != key[i] || obj[i]->getEntityKey() != cast_long(key[i])) bad("key", "an entity's key changed");
    }
    for (auto& d : dead) if (!Entity::getEntity(eint(d.first)).isNoId()) bad("dead-key", "the key of a discarded entity still finds something");
  }
};
static void entHistories(mc::Ctx& c, std::vector<int>& h) {
  c.begin("entities|" + hist(h));
  { EntWorld w(c); bool ok = true; for (int p : h) if (!w.apply(p)) { ok = false; break; } if (!ok) return; w.check(); c.trace(); std::string k = "E"; for (int i = 0; i < NE; ++i) k += w.obj[i] ? std::to_string(w.refs[i]) : std::string("-"); c.state(k + std::to_string(w.dead.size())); }
  c.transitions();
  if ((int)h.size() >= DEPTH_ENT) return;
  for (int p = 0; p < 5 * NE; ++p) { h.push_back(p); entHistories(c, h); h.pop_back(); }
}

// ---------------------------------------------------------------- queues
struct Item { int id; };
static const long KEYS[] = {0, 1, -1, 16, 33, 5, 4611686018427387904L};
static void hpq(mc::Ctx& c, int initial, std::vector<int>& h, int nk, int depth) {
  c.begin("hash-queue|" + std::to_string(initial) + "," + hist(h));
  std::vector<Item> items(h.size() + 1); std::multimap<long, Item*> ref;
  {
    HashPriorityQueue<Item> q(initial); std::map<Item*, long> keyOf;
    for (size_t i = 0; i < h.size(); ++i) {
      if (h[i] < nk) { q.insert(&items[i], KEYS[h[i]]); keyOf[&items[i]] = KEYS[h[i]]; ref.insert({KEYS[h[i]], &items[i]}); }
      else if (h[i] == nk) {
        Item* x = q.extractMin();
        if (ref.empty()) { if (x) c.violation("hash-queue:phantom", "an empty queue delivered an item after " + hist(h)); }
        else if (!x || !keyOf.count(x) || keyOf[x] != ref.begin()->first) { c.violation("hash-queue:min", "extractMin did not deliver the minimum after " + hist(h)); return; }
        else { for (auto it = ref.begin(); it != ref.end(); ++it) if (it->second == x) { ref.erase(it); break; } keyOf.erase(x); }
      } else { q.reset(); ref.clear(); keyOf.clear(); }
    }
    while (!ref.empty()) {   // drain
      Item* x = q.extractMin();
      if (!x || !keyOf.count(x) || keyOf[x] != ref.begin()->first) { c.violation("hash-queue:drain", "draining does not deliver every item in key order after " + hist(h)); return; }
      for (auto it = ref.begin(); it != ref.end(); ++it) if (it->second == x) { ref.erase(it); break; } keyOf.erase(x);
    }
    if (q.extractMin()) c.violation("hash-queue:extra", "a drained queue delivered an item after " + hist(h));
  }
  c.trace(); c.transitions(); c.evals();
  if ((int)h.size() >= depth) return;
  for (int p = 0; p < nk + 2; ++p) { h.push_back(p); hpq(c, initial, h, nk, depth); h.pop_back(); }
}
static void hpqBig(mc::Ctx& c) {   // growth of both arrays, all insertion orders of 7 keys and long runs
  std::vector<int> p = {0, 1, 2, 3, 4, 5, 6};
  do { for (int initial : {1, 2, 4}) { c.begin("hash-queue-order|" + hist(p)); HashPriorityQueue<Item> q(initial); std::vector<Item> it(7); for (int i : p) q.insert(&it[i], i * 8 - 20); for (int i = 0; i < 7; ++i) if (q.extractMin() != &it[i]) { c.violation("hash-queue:order", "wrong order after inserting " + hist(p)); break; } c.trace(); c.transitions(7); } } while (std::next_permutation(p.begin(), p.end()));
  for (int n : {11, 12, 22, 23, 40, 100}) for (int step : {1, 3, 7, 16, 37}) { c.begin("hash-queue-long|" + std::to_string(n)); HashPriorityQueue<Item> q; std::vector<Item> it(n); std::vector<std::pair<long, Item*>> v; for (int i = 0; i < n; ++i) { long k = (long)((i * step) % n) - n / 2; q.insert(&it[i], k); v.push_back({k, &it[i]}); } std::sort(v.begin(), v.end()); std::map<Item*, long> ko; for (auto& e : v) ko[e.second] = e.first; std::set<Item*> got; for (int i = 0; i < n; ++i) { Item* x = q.extractMin(); if (!x || ko[x] != v[i].first || !got.insert(x).second) { c.violation("hash-queue:long", "wrong order with " + std::to_string(n) + " items"); break; } } c.trace(); c.transitions(n); }
}
static const int QN = 3; static const long QK[] = {0, 2, 5, -3};
static void bucket(mc::Ctx& c, std::vector<int>& h) {
  c.begin("bucket-queue|" + hist(h));
  {
    static BucketQueue q(10); static std::vector<Dnode*> n; if (n.empty()) for (int i = 0; i < QN; ++i) n.push_back(new Dnode());
    q.reset(); std::map<int, long> ref; auto nm = [&](Dnode* d) { for (int i = 0; i < QN; ++i) if (n[i] == d) return i; return -1; };
    auto pop = [&](const char* when) {
      Dnode* d = q.popMinFromQueue(); long m = 0; bool any = !ref.empty(); if (any) { m = ref.begin()->second; for (auto& e : ref) m = std::min(m, e.second); }
      int k = d ? nm(d) : -1;
      if (!any) { if (d) { c.violation("bucket-queue:phantom", std::string("an empty queue delivered a node") + when + " after " + hist(h)); return false; } return true; }
      if (!d || !ref.count(k) || ref[k] != m) { c.violation("bucket-queue:min", std::string("popMinFromQueue did not deliver a node of least key") + when + " after " + hist(h)); return false; }
      ref.erase(k); return true; };
    for (int p : h) {
      if (p < QN * 4) { int i = p / 4; long k = QK[p % 4]; q.insertInQueue(n[i], k); if (!ref.count(i) || ref[i] > k) ref[i] = k; }
      else if (p == QN * 4) { if (!pop("")) return; }
      else { q.reset(); ref.clear(); }
    }
    std::string k = "B"; for (auto& e : ref) k += std::to_string(e.first) + ":" + std::to_string(e.second) + " "; c.state(k);
    while (!ref.empty()) if (!pop(" (draining)")) return;
    pop(" (drained)");
  }
  c.trace(); c.transitions(); c.evals();
  if ((int)h.size() >= DEPTH_Q - 1) return;
  for (int p = 0; p < QN * 4 + 2; ++p) { h.push_back(p); bucket(c, h); h.pop_back(); }
}

int main(int argc, char** argv) {
  mc::Runner r("C20", argc, argv);
  Error::doThrowExceptions(); Error::doNotDisplayErrors(); Error::doNotDisplayWarnings();
  if (!r.quick) { DEPTH_ID = 7; DEPTH_ENT = 8; DEPTH_Q = 8; DEPTH_LAB = 5; }
  std::vector<std::function<void(mc::Ctx&)>> items;
  for (int i = 0; i < 16; ++i) items.push_back([i](mc::Ctx& c) { labelHistories(c, i); });
  items.push_back([&](mc::Ctx& c) { manyLabels(c, r.quick ? 200000 : 1000000); });
  for (int i = 0; i < IdWorld::count(); ++i) items.push_back([i](mc::Ctx& c) { idHistories(c, i); });
  for (int p = 0; p < NE; ++p) for (int p2 = 0; p2 < 5 * NE; ++p2) items.push_back([p, p2](mc::Ctx& c) { std::vector<int> h = {p, p2}; entHistories(c, h); });
  for (int init : {1, 2, 10}) for (int p = 0; p < 6; ++p) items.push_back([init, p](mc::Ctx& c) { std::vector<int> h = {p}; hpq(c, init, h, 6, DEPTH_Q - 1); });
  items.push_back(hpqBig);
  for (int p = 0; p < QN * 4; ++p) items.push_back([p](mc::Ctx& c) { std::vector<int> h = {p}; bucket(c, h); });
  if (r.replaying) r.replay([&](mc::Ctx& c, const std::string& s) {
    std::string kind = s.substr(0, s.find('|')); std::vector<int> h = mc::split(s.substr(s.find('|') + 1));
    if (kind == "labels") { Labels l(c, "replay."); for (int op : h) l.make(op); l.tokens(); }
    else if (kind == "ids") { IdWorld w(c); for (int p : h) w.apply(p); w.check(); }
    else if (kind == "entities") { int d = DEPTH_ENT; DEPTH_ENT = 0; entHistories(c, h); DEPTH_ENT = d; }
    else if (kind == "bucket-queue") { DEPTH_Q = 0; bucket(c, h); }
    else if (kind == "hash-queue") { int i = h[0]; h.erase(h.begin()); hpq(c, i, h, 6, 0); }
    else if (kind == "many-labels") manyLabels(c, 200000); else hpqBig(c);
  });
  r.parallel(items.size(), [&](size_t i, mc::Ctx& c) { items[i](c); });
  r.rule = "every history of label creations; of creating, copying, releasing, removing, casting and re-addressing handles over two re-used addresses; of creating, referencing, discarding entities; and of insert/extract/reset on both queues, each compared with a reference after every step";
  r.assumptions = {"histories up to the stated depth over 8 texts, 2 addresses, 3 handles, 3 queue nodes", "entities are deleted only when at most one reference is left or inside a purge", "one thread"};
  r.sample("h0=Id(new at 0), h1=h0, release h0, h0=Id(new at 0): h1 stays invalid and differs from h0");
  return r.finish();
}
