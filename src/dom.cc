// Domains against plain sets of numbers: every operation, its answer, and the change event it raises.
#include "harness.hh"
#include <cmath>
#include <memory>
#include "Domains.hh"
#include "DataTypes.hh"
#include "LabelStr.hh"
using namespace EUROPA;
using namespace H;
namespace {
const double INF = 4503599627370495.0;
typedef DomainListener DL;
struct Listener : public DomainListener {
  std::vector<DL::ChangeType> ev;
  void notifyChange(const ChangeType& t) { ev.push_back(t); }
  bool has(DL::ChangeType t) const { for (auto e : ev) if (e == t) return true; return false; }
  bool restriction() const { for (auto e : ev) if (DL::isRestriction(e) || e == DL::SET_TO_SINGLETON || e == DL::EMPTIED) return true; return false; }
  std::string str() const { std::string s; for (auto e : ev) s += DL::toString(e) + " "; return s; }
};
enum Kind { RINT, RREAL, RBOOL, EINT, EREAL, ESYM, ESTR };
const char* kn[] = {"int interval", "real interval", "bool", "int set", "real set", "symbol set", "string set"};
struct M {  // the set a domain stands for
  Kind k; bool iv, open = false; double lo = 0, hi = -1; std::set<double> v;
  bool integral() const { return k == RINT || k == RBOOL; }
  bool empty() const { return iv ? lo > hi : v.empty(); }
  bool has(double x) const { if (iv) return lo <= x && x <= hi && (!integral() || x == std::floor(x)); return v.count(x) > 0; }
  double min() const { return iv ? lo : *v.begin(); }
  double max() const { return iv ? hi : *v.rbegin(); }
  bool single() const { return iv ? lo == hi : v.size() == 1; }
  bool finite() const { return !iv || empty() || k == RBOOL || (k == RINT ? lo > -INF + 1 && hi < INF - 1 : single() && std::fabs(lo) < INF); }
  bool same(const M& o) const { if (empty() || o.empty()) return empty() && o.empty(); return iv ? lo == o.lo && hi == o.hi : v == o.v; }
  std::string str() const {
    std::ostringstream s; s << kn[k] << (open ? " open " : " ");
    auto p = [&](double x) { if (x >= INF) s << "+inf"; else if (x <= -INF) s << "-inf"; else s << x; };
    if (empty()) { s << "empty"; return s.str(); }
    if (iv) { s << "["; p(lo); s << ","; p(hi); s << "]"; } else { s << "{"; for (double x : v) { p(x); s << " "; } s << "}"; }
    return s.str();
  }
};
std::vector<double> SYM;  // keys of the symbols
struct D { std::unique_ptr<Domain> d; M m; std::unique_ptr<Listener> l; };
double value(Rng& r, Kind k) {
  switch (k) {
    case RBOOL: return (double)r.below(2);
    case RREAL: case EREAL: return (double)r.range(-12, 12) / 2;
    case ESYM: case ESTR: return SYM[r.below(SYM.size())];
    default: return (double)r.range(-6, 6);
  }
}
Domain* raw(const M& m) {
  std::list<edouble> l(m.v.begin(), m.v.end());
  switch (m.k) {
    case RINT: return new IntervalIntDomain(eint((long)m.lo), eint((long)m.hi));
    case RREAL: return new IntervalDomain(edouble(m.lo), edouble(m.hi));
    case RBOOL: { BoolDomain* b = m.lo == m.hi ? new BoolDomain(m.lo == 1) : new BoolDomain(); return b; }
    case EINT: { EnumeratedDomain* e = new EnumeratedDomain(IntDT::instance()); for (double x : m.v) e->insert(x); if (!m.open) e->close(); return e; }
    case EREAL: { EnumeratedDomain* e = new NumericDomain(FloatDT::instance()); for (double x : m.v) e->insert(x); if (!m.open) e->close(); return e; }
    case ESYM: { EnumeratedDomain* e = new SymbolDomain(); for (double x : m.v) e->insert(edouble(x)); if (!m.open) e->close(); return e; }
    default: { StringDomain* e = new StringDomain(); for (double x : m.v) e->insert(edouble(x)); if (!m.open) e->close(); return e; }
  }
}
M model(Rng& r, Kind k, bool open) {
  M m; m.k = k; m.iv = k <= RBOOL; m.open = open && !m.iv;
  if (m.iv) {
    double a = value(r, k), b = value(r, k); m.lo = std::min(a, b); m.hi = std::max(a, b);
    if (r.chance(15)) m.lo = m.hi = a;
    if (k != RBOOL) { if (r.chance(10)) m.lo = -INF; if (r.chance(10)) m.hi = INF; }
  } else { int n = 1 + r.below(r.chance(50) ? 3 : 8); while (n--) m.v.insert(value(r, k)); }
  return m;
}
void make(Rng& r, D& d, Kind k, bool open = false) { d.m = model(r, k, open); d.d.reset(raw(d.m)); d.l.reset(); }
std::string show(const Domain& d) { std::ostringstream s; s << d; return s.str(); }

struct Case {
  Ctx& c; Rng& r; D a, b; std::string ops;
  explicit Case(Ctx& x) : c(x), r(x.rng) {}
  void bad(const std::string& key, const std::string& what) { c.fail("dom/" + key + "/" + kn[a.m.k], what + "; A = " + a.m.str() + ", B = " + b.m.str() + ", A is " + show(*a.d) + ", B is " + show(*b.d)); }
#define CHK(cond, key, what) do { c.count("observations"); if (!(cond)) bad(key, what); } while (0)

  // everything one can see of a single domain
  void view(D& x, const std::string& after) {
    const M& m = x.m; Domain& d = *x.d;
    CHK(d.isOpen() == m.open && d.isClosed() == !m.open, "open-flag", "open/closed flag wrong after " + after);
    CHK(d.isEmpty() == m.empty(), "isEmpty", "isEmpty() is " + std::to_string(d.isEmpty()) + " after " + after);
    if (d.isEmpty() != m.empty()) return;
    if (m.empty()) { CHK(d.getSize() == 0, "getSize", "size of an empty domain after " + after); return; }
    CHK(cast_double(d.getLowerBound()) == m.min() && cast_double(d.getUpperBound()) == m.max(), "bounds", "bounds wrong after " + after);
    edouble lb, ub; d.getBounds(lb, ub); CHK(cast_double(lb) == m.min() && cast_double(ub) == m.max(), "getBounds", "getBounds wrong after " + after);
    CHK(d.isSingleton() == m.single(), "isSingleton", "isSingleton() is " + std::to_string(d.isSingleton()) + " after " + after);
    CHK(d.isFinite() == m.finite(), "isFinite", "isFinite() is " + std::to_string(d.isFinite()) + " after " + after);
    if (m.single()) CHK(cast_double(d.getSingletonValue()) == m.min(), "getSingletonValue", "singleton value wrong after " + after);
    if (m.finite()) {
      std::list<edouble> l; std::set<double> got, want;
      if (m.iv && m.integral()) { for (double x = m.lo; x <= m.hi; ++x) want.insert(x); } else if (m.iv) want.insert(m.lo); else want = m.v;
      d.getValues(l); for (auto e : l) got.insert(cast_double(e));
      CHK(got == want && l.size() == want.size(), "getValues", "values wrong after " + after);
      CHK(d.getSize() == want.size(), "getSize", "getSize() is " + std::to_string(d.getSize()) + " after " + after);
      if (m.k != ESYM && m.k != ESTR) {} 
    }
    for (int i = 0; i < 6; ++i) {
      double p = m.k >= ESYM ? SYM[r.below(SYM.size())] : (double)r.range(-16, 16) / 2;
      if (m.k == RBOOL) p = r.below(2);
      if (m.k == ESTR && m.open) continue;
      CHK(d.isMember(p) == m.has(p), "isMember", "isMember(" + std::to_string(p) + ") is " + std::to_string(d.isMember(p)) + " after " + after);
    }
    c.seen(m.str());
  }
  static bool finiteSet(const M& m) { return !m.iv || (m.finite() && !m.empty()); }
  static std::set<double> elems(const M& m) { if (!m.iv) return m.v; std::set<double> s; if (m.integral()) for (double x = m.lo; x <= m.hi; ++x) s.insert(x); else s.insert(m.lo); return s; }
  static bool inter(const M& x, const M& y) {
    if (!x.iv || (x.integral() && finiteSet(x))) { for (double v : elems(x)) if (y.has(v)) return true; return false; }
    if (!y.iv || (y.integral() && finiteSet(y))) return inter(y, x);
    double lo = std::max(x.lo, y.lo), hi = std::min(x.hi, y.hi);
    if (x.integral() || y.integral()) { lo = std::ceil(lo); hi = std::floor(hi); }
    return lo <= hi;
  }
  static bool subset(const M& x, const M& y) {
    if (finiteSet(x)) { for (double v : elems(x)) if (!y.has(v)) return false; return true; }
    if (!y.iv) return false;
    if (!x.integral() && y.integral()) return false;
    return y.lo <= x.lo && x.hi <= y.hi;
  }
  static M meet(const M& x, const M& y) {  // the part of x in y, as x's kind (hull for an interval)
    M m = x;
    if (!x.iv) { for (auto i = m.v.begin(); i != m.v.end();) if (!y.has(*i)) i = m.v.erase(i); else ++i; return m; }
    if (!y.iv) { std::set<double> s; for (double v : y.v) if (x.has(v)) s.insert(v); if (s.empty()) { m.lo = 1; m.hi = 0; } else { m.lo = *s.begin(); m.hi = *s.rbegin(); } return m; }
    m.lo = std::max(x.lo, y.lo); m.hi = std::min(x.hi, y.hi);
    if (x.integral() || y.integral()) { m.lo = std::ceil(m.lo); m.hi = std::floor(m.hi); }
    return m;
  }
  // a hull that only knows y's bounds: what an interval may keep
  static M loose(const M& x, const M& y) { M m = x; m.lo = std::max(x.lo, y.min()); m.hi = std::min(x.hi, y.max()); if (x.integral()) { m.lo = std::ceil(m.lo); m.hi = std::floor(m.hi); } return m; }

  void relations() {
    const M &x = a.m, &y = b.m; if (x.empty() || y.empty()) return;
    if (!x.open && !y.open) {
      bool i = inter(x, y), s = subset(x, y), e = s && subset(y, x);
      if (x.iv && y.iv && x.integral() != y.integral()) {  // integers against reals: compared by their bounds, may say "possibly"
        if (i) CHK(a.d->intersects(*b.d), "intersects", "A.intersects(B) is 0"); if (s) CHK(a.d->isSubsetOf(*b.d), "isSubsetOf", "A.isSubsetOf(B) is 0"); return;
      }
      CHK(a.d->intersects(*b.d) == i, "intersects", "A.intersects(B) is " + std::to_string(!i));
      CHK(a.d->isSubsetOf(*b.d) == s, "isSubsetOf", "A.isSubsetOf(B) is " + std::to_string(!s));
      CHK((*a.d == *b.d) == e, "equals", "A==B is " + std::to_string(!e));
      CHK((*a.d != *b.d) == !e, "not-equals", "A!=B is " + std::to_string(e));
    } else if (!x.iv && !y.iv) {  // an open set stands for any superset
      CHK(a.d->intersects(*b.d), "intersects-open", "open domain does not intersect");
      CHK(a.d->isSubsetOf(*b.d) == y.open, "isSubsetOf-open", "subset of an open domain");
    }
    CHK(Domain::canBeCompared(*a.d, *b.d), "canBeCompared", "same family but not comparable");
  }
  void events(D& x, const M& before, const std::string& op, bool always = false) {
    Listener& l = *x.l; bool changed = !before.same(x.m); c.count("events", l.ev.size());
    std::string d = op + " raised [" + l.str() + "] for " + before.str() + " -> " + x.m.str();
    if (!changed) { if (!always) CHK(!l.restriction(), "event-without-change", d); return; }
    if (x.m.empty()) CHK(l.has(DL::EMPTIED), "event-emptied-missing", d);
    else {
      CHK(!l.ev.empty() && !l.has(DL::EMPTIED), "event-missing", d);
      if (x.m.single()) CHK(l.has(DL::RESTRICT_TO_SINGLETON) || l.has(DL::SET_TO_SINGLETON), "event-singleton-missing", d);
      else if (x.m.iv) {
        bool lo = x.m.lo > before.lo, hi = x.m.hi < before.hi;
        CHK((lo && hi) ? l.has(DL::BOUNDS_RESTRICTED) || (l.has(DL::LOWER_BOUND_INCREASED) && l.has(DL::UPPER_BOUND_DECREASED)) : l.has(lo ? DL::LOWER_BOUND_INCREASED : DL::UPPER_BOUND_DECREASED) || l.has(DL::BOUNDS_RESTRICTED), "event-bounds-missing", d);
      } else CHK(l.has(DL::VALUE_REMOVED) || l.has(DL::SET_TO_SINGLETON), "event-value-removed-missing", d);
    }
  }
  void adopt(D& x) { if (x.m.iv && !x.d->isEmpty()) { x.m.lo = cast_double(x.d->getLowerBound()); x.m.hi = cast_double(x.d->getUpperBound()); } }
  // the new A is between strict and lenient
  bool between(D& x, const M& strict, const M& lenient, const std::string& op) {
    bool gotEmpty = x.d->isEmpty();
    if (gotEmpty) { CHK(strict.empty(), "lost-values", op + " emptied a domain that keeps " + strict.str()); x.m = strict; if (!strict.empty()) return false; x.m.lo = 1; x.m.hi = 0; x.m.v.clear(); return true; }
    double lo = cast_double(x.d->getLowerBound()), hi = cast_double(x.d->getUpperBound());
    bool ok = lo >= lenient.lo && hi <= lenient.hi && (strict.empty() || (lo <= strict.lo && hi >= strict.hi));
    CHK(ok, "wrong-result", op + " gave " + show(*x.d) + " expected between " + strict.str() + " and " + lenient.str());
    x.m = lenient; x.m.lo = lo; x.m.hi = hi; return ok;
  }
  void listen(D& x) { if (!x.l) { x.l.reset(new Listener()); x.d->setListener(x.l->getId()); } x.l->ev.clear(); }

  void step() {
    Rng& q = r; M A = a.m, B = b.m; bool sym = A.k >= ESYM;
    if (A.empty()) {  // relax back
      M base = model(q, A.k, false); std::unique_ptr<Domain> bd(raw(base)); listen(a);
      c.trace << "reset to " << base.str() << "\n";
      a.d->reset(*bd); a.m = base; a.m.open = false; view(a, "reset to " + base.str());
      CHK(a.l->has(DL::RELAXED) && a.l->has(DL::RESET), "event-reset-missing", "reset raised [" + a.l->str() + "]"); c.count("resets"); return;
    }
    listen(a); listen(b);
    int op = q.below(13); bool ch;
    switch (op) {
      case 0: case 1: {
        if (A.open || B.open || B.empty()) return;
        c.trace << "A.intersect(B)\n"; ch = a.d->intersect(*b.d);
        M s = meet(A, B), l = s;
        if (A.iv && (!B.iv || A.integral() != B.integral())) l = loose(A, B);
        if (A.iv) { if (!between(a, s, l, "intersect")) return; } else a.m = s;
        CHK(ch == !A.same(a.m), "intersect-return", "intersect returned " + std::to_string(ch) + " for " + A.str() + " -> " + a.m.str());
        events(a, A, "intersect"); c.count("intersections"); break; }
      case 2: {
        if (sym || A.open || A.k == RBOOL) return;
        double x = value(q, q.chance(50) ? RREAL : A.k), y = value(q, A.k); if (x > y && q.chance(85)) std::swap(x, y); if (q.chance(8)) x = -INF; if (q.chance(8)) y = INF;
        if (x > y && (x >= INF || y <= -INF)) return;
        c.trace << "A.intersect(" << x << "," << y << ")\n"; ch = a.d->intersect(edouble(x), edouble(y));
        M I; I.k = RREAL; I.iv = true; I.lo = x; I.hi = y; 
        a.m = meet(A, I); if (x > y) { a.m.lo = 1; a.m.hi = 0; a.m.v.clear(); }
        CHK(ch == !A.same(a.m), "intersect-bounds-return", "intersect(" + std::to_string(x) + "," + std::to_string(y) + ") returned " + std::to_string(ch) + " for " + A.str());
        events(a, A, "intersect bounds"); break; }
      case 3: {
        double x = A.iv && q.chance(70) ? (q.chance(50) ? A.lo : A.hi) : value(q, A.k); if (std::fabs(x) >= INF || A.k == RREAL) return;
        if (A.iv && A.has(x) && x != A.lo && x != A.hi) return;  // would split: not representable
        c.trace << "A.remove(" << x << ")\n"; a.d->remove(x);
        if (!A.iv) a.m.v.erase(x); else if (A.has(x)) { if (x == A.lo) a.m.lo++; else a.m.hi--; }
        if (A.open && a.m.empty()) { a.m.open = false; a.d->close(); return; }
        events(a, A, "remove"); c.count("removals"); break; }
      case 4: {
        double x = value(q, A.k); if (A.open) return;
        if (A.k == ESTR && !A.has(x)) return;
        c.trace << "A.set(" << x << ")\n"; a.d->set(x);
        if (A.has(x)) { a.m.lo = a.m.hi = x; a.m.v = {x}; CHK(a.l->has(DL::SET_TO_SINGLETON), "event-set-missing", "set raised [" + a.l->str() + "]"); }
        else { a.m.lo = 1; a.m.hi = 0; a.m.v.clear(); }
        events(a, A, "set", true); c.count("sets"); break; }
      case 5: case 6: {
        if (A.open || B.open || B.empty()) return;
        c.trace << "A.equate(B)\n"; ch = a.d->equate(*b.d);
        M s = meet(A, B), t = meet(B, A);
        if (s.empty() || t.empty()) {
          CHK(a.d->isEmpty() || b.d->isEmpty(), "equate-disjoint", "equating disjoint domains emptied neither");
          CHK(ch, "equate-return", "equating disjoint domains returned false");
          // only one side has to be emptied; take over what is there
          if (a.d->isEmpty()) { a.m.lo = 1; a.m.hi = 0; a.m.v.clear(); } else { adopt(a); if (!a.m.iv) { std::list<edouble> l; a.d->getValues(l); a.m.v.clear(); for (auto e : l) a.m.v.insert(cast_double(e)); } }
          if (b.d->isEmpty()) { b.m.lo = 1; b.m.hi = 0; b.m.v.clear(); } else { adopt(b); if (!b.m.iv) { std::list<edouble> l; b.d->getValues(l); b.m.v.clear(); for (auto e : l) b.m.v.insert(cast_double(e)); } }
          CHK(!a.m.empty() ? subsetOf(a.m, A) : true, "equate-grew", "A grew"); 
          if (a.m.empty()) CHK(a.l->has(DL::EMPTIED), "equate-event", "A emptied without event"); else CHK(b.l->has(DL::EMPTIED), "equate-event", "B emptied without event");
        } else {
          bool mixed = A.iv && B.iv && A.integral() != B.integral();
          if (mixed) { if (!between(a, s, loose(A, B), "equate") || !between(b, t, loose(B, A), "equate")) return; } else { a.m = s; b.m = t; }
          CHK(ch == (!A.same(a.m) || !B.same(b.m)), "equate-return", "equate returned " + std::to_string(ch) + " for " + A.str() + " = " + B.str());
          events(a, A, "equate"); events(b, B, "equate (other side)");
        }
        c.count("equations"); view(b, "equate of " + A.str() + " with " + B.str()); break; }
      case 7: {
        if (A.open || B.open || B.empty() || (A.iv && !B.iv) || A.k == RREAL || B.k == RREAL) { if (A.iv || B.empty() || B.open || A.open) return; }
        if (A.iv && A.lo < B.lo && B.hi < A.hi) return;
        if (A.iv && (std::fabs(A.lo) >= INF || std::fabs(A.hi) >= INF || std::fabs(B.lo) >= INF || std::fabs(B.hi) >= INF)) return;
        c.trace << "A.difference(B)\n"; ch = a.d->difference(*b.d);
        if (!A.iv) { for (auto i = a.m.v.begin(); i != a.m.v.end();) if (B.has(*i)) i = a.m.v.erase(i); else ++i; }
        else if (B.hi < A.lo || A.hi < B.lo) {} else if (B.lo <= A.lo && A.hi <= B.hi) { a.m.lo = 1; a.m.hi = 0; } else if (B.lo <= A.lo) a.m.lo = B.hi + 1; else a.m.hi = B.lo - 1;
        CHK(ch == !A.same(a.m), "difference-return", "difference returned " + std::to_string(ch));
        events(a, A, "difference"); c.count("differences"); break; }
      case 8: {
        std::unique_ptr<Domain> cp(a.d->copy()); c.trace << "copy\n";
        CHK(cp->getListener().isNoId(), "copy-listener", "a copy has a listener");
        D x; x.d = std::move(cp); x.m = A; view(x, "copy"); 
        if (!A.open) CHK(*x.d == *a.d, "copy-equal", "a copy differs"); c.count("copies"); return; }
      case 9: {
        c.trace << "A.empty()\n"; if (A.open) return; a.d->empty(); a.m.lo = 1; a.m.hi = 0; a.m.v.clear(); events(a, A, "empty"); break; }
      case 10: {  // relaxation to a superset
        if (A.open) return; M s = A;
        if (s.iv) { if (s.k == RBOOL) { s.lo = 0; s.hi = 1; } else { if (s.lo > -INF) s.lo -= q.below(3); if (s.hi < INF) s.hi += q.below(3); } } else { int n = q.below(3); while (n--) s.v.insert(value(q, s.k)); }
        std::unique_ptr<Domain> sd(raw(s)); bool reset = q.chance(50); c.trace << (reset ? "reset" : "relax") << " to " << s.str() << "\n";
        if (reset) a.d->reset(*sd); else a.d->relax(*sd);
        a.m = s; if (!s.same(A)) { CHK(a.l->has(DL::RELAXED), "event-relaxed-missing", "relax raised [" + a.l->str() + "]"); if (reset) CHK(a.l->has(DL::RESET), "event-reset-missing", "reset raised [" + a.l->str() + "]"); }
        CHK(!a.l->restriction(), "event-restriction-on-relax", "relax raised [" + a.l->str() + "]"); c.count("relaxations"); break; }
      case 11: {
        if (!A.open) {  // direct assignment between domains of a kind, without listeners
          D x, y; make(q, x, A.k); make(q, y, A.k); c.trace << x.m.str() << " := " << y.m.str() << "\n";
          *x.d = *y.d; x.m = y.m; D t; std::swap(t, a); std::swap(a, x); view(a, "assignment from " + y.m.str()); std::swap(a, x); std::swap(t, a); c.count("assignments"); return;
        }
        double x = value(q, A.k); c.trace << "A.insert(" << x << ")\n"; a.d->insert(edouble(x)); a.m.v.insert(x); c.count("insertions"); break; }
      default: {
        if (!A.open) return; c.trace << "A.close()\n"; a.d->close(); a.m.open = false; CHK(a.l->has(DL::CLOSED), "event-closed-missing", "close raised [" + a.l->str() + "]"); break; }
    }
    view(a, "operation " + std::to_string(op) + " on " + A.str() + " with " + B.str());
  }
  static bool subsetOf(const M& x, const M& y) { return subset(x, y); }
};
void run(Ctx& c) {
  Rng& r = c.rng; Case k(c);
  bool sym = r.chance(20), bools = r.chance(10);
  std::vector<Kind> ks = sym ? (r.chance(50) ? std::vector<Kind>{ESYM} : std::vector<Kind>{ESTR}) : bools ? std::vector<Kind>{RBOOL} : std::vector<Kind>{RINT, RREAL, EINT, EREAL};
  bool open = r.chance(10);
  make(r, k.a, r.pick(ks), open); make(r, k.b, r.pick(ks), open && r.chance(50));
  for (int i = 0; i < 12 && !c.failed(); ++i) {
    c.trace << "A = " << k.a.m.str() << ", B = " << k.b.m.str() << "\n";
    k.view(k.a, "construction"); k.relations(); c.count("operations"); if (c.failed()) break;
    k.step();
    if (r.chance(30)) make(r, k.b, r.pick(ks));
  }
  if (k.a.l) {} 
  if (c.idx % 3000 == 0) c.sample(c.trace.str());
  k.a.d.reset(); k.b.d.reset(); k.a.l.reset(); k.b.l.reset();
}
}
int main(int argc, char** argv) {
  quiet_errors();
  const char* w[] = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "", "a b"};
  for (auto s : w) SYM.push_back(cast_double(LabelStr(s).getKey()));
  Suite s{"dom", 0, run}; return run_main(s, argc, argv);
}
