// C19: entity keys, handles and interned strings. MODE=threads: the same from several threads, under the race detector.
#include "harness.hh"
#include "Entity.hh"
#include "Id.hh"
#include "IdTable.hh"
#include "LabelStr.hh"
#include <algorithm>
#include <atomic>
#include <thread>
#include <mutex>
using namespace EUROPA;
static std::string S(long x) { return std::to_string(x); }
struct Thing; typedef Id<Thing> ThingId; struct Other; typedef Id<Other> OtherId;
static std::atomic<long> g_destroyed(0);
struct Thing : public Entity { ThingId m_id; int v; char pad[24]; explicit Thing(int x) : m_id(this), v(x) {} ~Thing() { ++g_destroyed; m_id.remove(); } ThingId getId() const { return m_id; } };
struct Sub : public Thing { int w; explicit Sub(int x) : Thing(x), w(x + 1) {} };
struct Plain { int z; }; typedef Id<Plain> PlainId;
static std::string word(H::Rng& r) {
  static const char* al = "abAB01 :._-\t\xc3\xa9"; std::string s; long n = r.chance(10) ? 0 : r.range(1, r.chance(10) ? 300 : 6); for (long i = 0; i < n; ++i) s += al[r.below(r.chance(50) ? 3 : 14)]; return s;
}
static std::vector<std::string> split(const std::string& s, const std::string& d) { std::vector<std::string> v; std::string c; for (char x : s) { if (d.find(x) != std::string::npos) { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; } if (!c.empty()) v.push_back(c); return v; }
static void labels(H::Ctx& c) {
  H::Rng& r = c.rng; static std::map<std::string, double> all; static std::map<double, std::string> back; int n = (int)r.range(5, 60); std::vector<std::string> use;
  for (int i = 0; i < n; ++i) {
    std::string s = use.size() && r.chance(25) ? r.pick(use) : word(r); use.push_back(s); bool had = LabelStr::isString(s), known = all.count(s); unsigned long size = LabelStr::getSize();
    if (known && !had) { c.fail("label/forgotten", "'" + s + "' was interned and no longer is"); return; }
    edouble k = r.chance(50) ? LabelStr(s).getKey() : r.chance(50) && s.find('\0') == std::string::npos ? LabelStr(s.c_str()).getKey() : LabelStr::getKey(s); double kd = cast_double(k); c.count("interned");
    if (LabelStr::getSize() != size + (had ? 0 : 1)) { c.fail("label/size", "interning '" + s + "' (" + (had ? "known" : "new") + ") changes the number of strings from " + S((long)size) + " to " + S((long)LabelStr::getSize())); return; }
    if (known && all[s] != kd) { c.fail("label/key-changed", s); return; } if (back.count(kd) && back[kd] != s) { c.fail("label/shared-key", "'" + s + "' and '" + back[kd] + "'"); return; }
    all[s] = kd; back[kd] = s; LabelStr l(k); if (l.toString() != s || std::string(l.c_str()) != s.c_str() || !LabelStr::isString(k) || !LabelStr::isString(s) || !(l == LabelStr(s)) || (l != LabelStr(s)) || cast_double((edouble)l) != kd) { c.fail("label/round-trip", "'" + s + "' reads back as '" + l.toString() + "'"); return; }
    if (LabelStr::isString(edouble(kd + 1e-7)) || LabelStr::isString(edouble(-kd)) ) { c.fail("label/not-a-key", "a number near the key of '" + s + "' passes for a string"); return; }
  }
  for (int i = 0; i < 40; ++i) { const std::string &a = r.pick(use), &b = r.pick(use); LabelStr x(a), y(b); c.count("compared_strings");
    if ((x < y) != (a < b) || (x > y) != (a > b) || (x == y) != (a == b) || (x != y) != (a != b)) { c.fail("label/order", "'" + a + "' and '" + b + "'"); return; }
    if ((x == y) != (cast_double(x.getKey()) == cast_double(y.getKey()))) { c.fail("label/key-equality", "'" + a + "' and '" + b + "'"); return; }
    if (a.find('\0') == std::string::npos && x.contains(y) != (a.find(b) != std::string::npos)) { c.fail("label/contains", "'" + a + "' and '" + b + "'"); return; }
    std::string d = r.chance(50) ? ":" : r.chance(50) ? "." : "ab"; auto v = split(a, d); if (x.countElements(d.c_str()) != v.size()) { c.fail("label/elements", "'" + a + "' by '" + d + "'"); return; }
    for (size_t k = 0; k < v.size() && k < 3; ++k) if (x.getElement(k, d.c_str()).toString() != v[k]) { c.fail("label/element", "'" + a + "' by '" + d + "' element " + S((long)k)); return; } }
}
static void entities(H::Ctx& c) {
  H::Rng& r = c.rng; struct L { ThingId id; Thing* p; long key; int refs; int v; bool sub; }; std::vector<L> live; struct D { ThingId id; EntityId eid; long key; }; std::vector<D> dead; static long last = -1; unsigned long ids0 = IdTable::size(); long made = 0, gone0 = g_destroyed, gone = 0; std::set<EntityId> before; Entity::getEntities(before);
  std::map<Thing*, int> reused; std::vector<PlainId> plain; int n = (int)r.range(20, 120);
  auto bad = [&](const std::string& k, const std::string& d) { c.fail("entity/" + k, d); };
  for (int i = 0; i < n && !c.failed(); ++i) {
    int op = (int)r.below(12);
    if (op < 4 || live.empty()) { int v = (int)r.below(1000); bool sub = r.chance(30); Thing* p = sub ? new Sub(v) : new Thing(v); long k = (long)cast_int(p->getKey()); ++made; c.trace << "make " << k << "\n"; if (reused[p]++) c.count("address_reused");
      if (k <= last) return bad("key-reused", "key " + S(k) + " after " + S(last)); last = k; if ((long)p->getEntityKey() != k) return bad("key", "two keys"); live.push_back({p->getId(), p, k, 1, v, sub});
      for (auto& d : dead) { ++c.counts["dead_handles_checked"]; if (d.id.isValid() || !d.id.isInvalid()) return bad("dangling-valid", "the handle of a destroyed entity passes for valid after another was made" + std::string(d.id.operator->() == p ? " at its address" : "")); if (d.id == p->getId()) return bad("dangling-equal", "the handle of a destroyed entity equals another's"); } }
    else { size_t x = r.below(live.size()); L& l = live[x];
      if (op < 6) { if (!l.p->canBeDeleted()) { if (l.refs < 2) return bad("canBeDeleted", "not with " + S(l.refs)); continue; } if (l.refs > 1) return bad("canBeDeleted", "with " + S(l.refs) + " references"); c.trace << "delete " << l.key << "\n"; D d = {l.id, EntityId(l.id), l.key}; 
        if (r.chance(50)) delete l.p; else { if (!l.p->decRefCount()) return bad("last-reference", "dropping the last of one reference is not reported"); delete l.p; } ++gone; live.erase(live.begin() + x); dead.push_back(d); c.count("destroyed");
        if (g_destroyed - gone0 != gone) return bad("destroyed", S(g_destroyed - gone0) + " destructions, " + S(gone) + " expected"); if (d.id.isValid() || !d.id.isInvalid()) return bad("dangling-valid", "right after destruction"); if (d.eid.isValid()) return bad("dangling-valid", "base handle right after destruction");
        if (!Entity::getEntity(d.key).isNoId()) return bad("dead-found", "the key of a destroyed entity finds something"); }
      else if (op == 6) { l.p->incRefCount(); ++l.refs; } else if (op == 7 && l.refs > 1) { if (l.p->decRefCount()) return bad("last-reference", "dropping one of " + S(l.refs) + " references reports the last"); --l.refs; }
      else if (op == 8) { unsigned long sz = IdTable::size(); bool threw = false; try { ThingId again(l.p); (void)again; } catch (Error&) { threw = true; } if (!threw) return bad("second-handle", "a second first handle for one entity is accepted"); if (IdTable::size() != sz) return bad("second-handle", "refused, but something was recorded"); if (!l.id.isValid()) return bad("second-handle", "made the first invalid"); c.count("second_handles_refused"); }
      else if (op == 9) { EntityId e(l.id); ThingId t(e); if (!(t == l.id) || !e.isValid() || !t.isValid() || t.operator->() != l.p) return bad("cast", "up and down again"); bool sub = Id<Sub>::convertable(l.id); if (sub != l.sub) return bad("convertable", sub ? "yes" : "no"); if (!l.sub) { bool threw = false; try { Id<Sub> s(l.id); } catch (Error&) { threw = true; } if (!threw) return bad("cast", "to a type it is not"); c.count("bad_casts_refused"); } else { Id<Sub> s(l.id); if (s->w != l.v + 1) return bad("cast", "value"); } }
      else if (op == 10) { Plain* p = new Plain; PlainId id(p); plain.push_back(id); PlainId copy(id), third; third = copy; if (!(third == id) || !copy.isValid() || third.isNoId() || !third.isId()) return bad("copy", "copies differ"); }
      else if (!plain.empty()) { PlainId id = plain.back(); plain.pop_back(); PlainId copy(id); id.release(); if (copy.isValid() || !id.isNoId() || copy == id) return bad("release", "the other handle stays valid"); bool threw = false; try { PlainId c2(copy); c2.release(); } catch (Error&) { threw = true; } if (!threw) return bad("release", "twice accepted"); c.count("releases"); } }
    // everything that lives
    if (r.chance(30) || i + 1 == n) { for (auto& l : live) { EntityId e = Entity::getEntity(l.key); c.count("lookups"); if (e.isNoId() || (long)cast_int(e->getKey()) != l.key || dynamic_cast<Thing*>(e.operator->()) != l.p || !l.id.isValid() || l.id->v != l.v || (int)l.p->refCount() != l.refs) return bad("lookup", "key " + S(l.key) + " does not find its entity"); ThingId t = Entity::getTypedEntity<Thing>(l.key); if (!(t == l.id)) return bad("lookup", "typed"); }
      for (auto& d : dead) if (!Entity::getEntity(d.key).isNoId()) return bad("dead-found", "key " + S(d.key)); std::set<EntityId> es; Entity::getEntities(es); if (es.size() != before.size() + live.size()) return bad("all", S((long)es.size()) + " entities, " + S((long)(before.size() + live.size())) + " expected"); for (auto& l : live) if (!es.count(EntityId(l.id))) return bad("all", "one is missing");
      if (IdTable::size() != ids0 + live.size() + plain.size()) return bad("handles", S((long)IdTable::size()) + " handles, " + S((long)(ids0 + live.size() + plain.size())) + " expected"); }
  }
  if (c.failed()) return; for (auto& p : plain) p.release(); for (auto& l : live) { while (l.refs-- > 1) l.p->decRefCount(); delete l.p; }
  if (IdTable::size() != ids0) bad("handles", "left at the end"); c.seen((uint64_t)(made * 1000003 + gone) ^ r.next());
}
static void threads(H::Ctx& c) {
  H::Rng& r = c.rng; int T = (int)r.range(2, 6), n = (int)r.range(20, 150); uint64_t base = r.next(); struct Out { std::vector<std::pair<std::string, double>> lab; std::vector<long> keys; std::string bad; }; std::vector<Out> out((size_t)T); std::vector<std::thread> ts; std::atomic<int> go(0); unsigned long ids0 = IdTable::size(); long g0 = g_destroyed; std::atomic<long> madeAll(0);
  std::vector<std::string> shared; for (int i = 0; i < n; ++i) shared.push_back("s" + S((long)(base % 100000)) + word(r));
  for (int t = 0; t < T; ++t) ts.emplace_back([&, t]() {
    H::Rng q(base + (uint64_t)t * 7919); Out& o = out[t]; ++go; while (go < T) std::this_thread::yield(); std::vector<Thing*> mine;
    for (int i = 0; i < n && o.bad.empty(); ++i) {
      const std::string& s = shared[q.chance(60) ? (size_t)i : q.below(shared.size())]; LabelStr l(s); o.lab.push_back({s, cast_double(l.getKey())}); if (l.toString() != s) o.bad = "'" + s + "' reads as '" + l.toString() + "'"; if (!LabelStr::isString(l.getKey()) || !LabelStr::isString(s)) o.bad = "just interned, not a string";
      const std::string& s2 = shared[q.below(shared.size())]; if ((l < LabelStr(s2)) != (s < s2)) o.bad = "order";
      int op = (int)q.below(4); if (op < 2) { Thing* p = new Thing(t); ++madeAll; o.keys.push_back((long)cast_int(p->getKey())); mine.push_back(p); if (!p->getId().isValid()) o.bad = "new handle invalid"; EntityId e = Entity::getEntity(p->getKey()); if (e.isNoId() || dynamic_cast<Thing*>(e.operator->()) != p) o.bad = "key finds another entity"; }
      else if (op == 2 && !mine.empty()) { size_t x = q.below(mine.size()); Thing* p = mine[x]; eint k = p->getKey(); mine.erase(mine.begin() + x); ThingId id = p->getId(); delete p; if (!Entity::getEntity(k).isNoId()) o.bad = "dead key found"; (void)id; }
      else { PlainId id(new Plain); PlainId b(id); if (!b.isValid()) o.bad = "handle"; id.release(); }
      if (q.chance(10)) std::this_thread::yield();
    }
    for (auto p : mine) delete p;
  });
  for (auto& t : ts) t.join(); std::map<std::string, double> m; std::map<double, std::string> b; std::set<long> keys; long nk = 0;
  for (auto& o : out) { if (!o.bad.empty()) { c.fail("threads/" + H::norm(o.bad, 30), o.bad); return; } for (auto& x : o.lab) { if (m.count(x.first) && m[x.first] != x.second) { c.fail("threads/label-two-keys", x.first); return; } if (b.count(x.second) && b[x.second] != x.first) { c.fail("threads/label-shared-key", x.first + " and " + b[x.second]); return; } m[x.first] = x.second; b[x.second] = x.first; } for (long k : o.keys) { keys.insert(k); ++nk; } }
  if ((long)keys.size() != nk) { c.fail("threads/entity-key-twice", S(nk - (long)keys.size()) + " keys were given twice"); return; }
  if (IdTable::size() != ids0) { c.fail("threads/handles", S((long)(IdTable::size() - ids0)) + " handles left"); return; } if (g_destroyed - g0 != madeAll) { c.fail("threads/destroyed", "not each once"); return; }
  c.count("thread_runs"); c.count("threaded_interns", m.size()); c.count("threaded_keys", (uint64_t)nk); std::string order; for (auto& x : b) order += x.second + ","; c.seen(order);
}
static void run(H::Ctx& c) { const char* m = getenv("MODE"); if (m && std::string(m) == "threads") { threads(c); return; } if (c.rng.chance(40)) labels(c); else entities(c); }
static H::Suite suite{"ids", 0, run, nullptr, 20};
HARNESS_MAIN(suite)
