// Constraint networks: what the variables and constraints mean, independent of EUROPA's code.
#pragma once
#include "harness.hh"
#include <cmath>
#include "ModuleConstraintEngine.hh"
#include "ConstraintEngine.hh"
#include "CESchema.hh"
#include "Constraint.hh"
#include "ConstraintType.hh"
#include "ConstrainedVariable.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "Engine.hh"
#include "LabelStr.hh"

namespace N {
using namespace EUROPA;

struct Eng : public EngineBase {
  Eng(bool tolerate = false) {
    if (tolerate) getConfig()->setProperty("ConstraintEngine.allowViolations", "true");
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    doStart();
    ce = ((ConstraintEngine*)getComponent("ConstraintEngine"))->getId();
  }
  ~Eng() { doShutdown(); }
  ConstraintEngineId ce;
};

enum Kind { INT, REAL, BOOL, ISET, RSET, SYM, STR };
static const char* kindName[] = {"int", "real", "bool", "intset", "realset", "symbol", "string"};

inline edouble ed(double d) {
  if (d == HUGE_VAL) return PLUS_INFINITY;
  if (d == -HUGE_VAL) return MINUS_INFINITY;
  return edouble(d);
}
inline double symv(Kind k, int i) {
  static double s[2][8]; static bool init = false;
  if (!init) {
    init = true;
    static const char* n[] = {"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"};
    for (int q = 0; q < 2; ++q) for (int j = 0; j < 8; ++j) s[q][j] = cast_basis(edouble(LabelStr(std::string(q ? "str_" : "") + n[j])));
  }
  return s[k == STR][i];
}

struct Var {
  Kind kind = INT;
  double lb = 0, ub = 0;            // interval kinds
  std::vector<double> vals;         // set kinds
  bool interval() const { return kind == INT || kind == REAL || kind == BOOL; }
  bool numeric() const { return kind == INT || kind == REAL || kind == ISET || kind == RSET || kind == BOOL; }
  bool has(double x) const {
    if (interval()) return x >= lb && x <= ub && (kind == REAL || x == std::floor(x));
    for (double v : vals) if (v == x) return true;
    return false;
  }
  std::string str() const {
    std::ostringstream o; o << kindName[kind];
    if (interval()) o << "[" << lb << "," << ub << "]";
    else { o << "{"; for (size_t i = 0; i < vals.size(); ++i) o << (i ? "," : "") << vals[i]; o << "}"; }
    return o.str();
  }
  Domain* domain() const {
    switch (kind) {
      case INT: { Domain* d = new IntervalIntDomain(); d->intersect(ed(lb), ed(ub)); return d; }
      case REAL: { Domain* d = new IntervalDomain(ed(lb), ed(ub)); return d; }
      case BOOL: { BoolDomain* d = new BoolDomain(); if (lb == ub) d->set(ed(lb)); return d; }
      case ISET: { EnumeratedDomain* d = new EnumeratedDomain(IntDT::instance()); for (double v : vals) d->insert(ed(v)); d->close(); return d; }
      case RSET: { EnumeratedDomain* d = new EnumeratedDomain(FloatDT::instance()); for (double v : vals) d->insert(ed(v)); d->close(); return d; }
      case SYM: { SymbolDomain* d = new SymbolDomain(); for (double v : vals) d->insert(ed(v)); d->close(); return d; }
      case STR: { StringDomain* d = new StringDomain(); for (double v : vals) d->insert(ed(v)); d->close(); return d; }
    }
    return 0;
  }
  const char* type() const {
    switch (kind) { case INT: case ISET: return "int"; case REAL: case RSET: return "float"; case BOOL: return "bool"; case SYM: return "symbol"; default: return "string"; }
  }
  // sample of the denoted set
  std::vector<double> points(double step = 0.5) const {
    std::vector<double> p;
    if (!interval()) return vals;
    double lo = std::max(lb, -9.0), hi = std::min(ub, 9.0);
    if (kind != REAL) step = 1;
    if (lo > hi) { p.push_back(std::isinf(lb) ? ub : lb); return p; }
    for (double x = std::ceil(lo / step) * step; x <= hi; x += step) p.push_back(x);
    if (kind == REAL) {
      if (p.empty() || p.front() != lo) p.insert(p.begin(), lo);
      if (p.back() != hi) p.push_back(hi);
    }
    return p;
  }
};

// three-valued: 0 definitely violated, 1 satisfied exactly, 2 not decided (within rounding, or undefined operation)
struct Cmp {
  bool fuzzy = false;
  int sgn(double a, double b) {
    if (a == b) return 0;
    if (!(std::fabs(a - b) >= 1e-3)) { fuzzy = true; return 0; }
    return a < b ? -1 : 1;
  }
  bool eq(double a, double b) { return sgn(a, b) == 0; }
  bool le(double a, double b) { return sgn(a, b) <= 0; }
  bool lt(double a, double b) { return sgn(a, b) < 0; }
  int out(bool r) { return fuzzy ? 2 : (r ? 1 : 0); }
};
typedef std::vector<double> VV;
typedef std::function<int(const VV&)> Pred;
enum Cat { NUM, IVAL, BOOLC, SAME, ANY, REALC, INTC, CONSTSET };
// scope: one category per argument; last one repeated up to max
struct CT {
  const char* name;
  std::vector<Cat> cats; int min, max;
  Pred pred;
  bool approx = false;      // transcendental: only ground or one-sided checks
  bool edit_insensitive = true;  // derived domains are order independent
};

inline std::vector<CT>& types() {
  static std::vector<CT> t;
  if (!t.empty()) return t;
  auto add = [&](const char* n, std::vector<Cat> c, int mn, int mx, Pred p) { CT x; x.name = n; x.cats = c; x.min = mn; x.max = mx; x.pred = p; t.push_back(x); };
  Pred sum = [](const VV& v) { Cmp c; double s = 0; for (size_t i = 1; i < v.size(); ++i) s += v[i]; return c.out(c.eq(v[0], s)); };
  Pred prod = [](const VV& v) { Cmp c; double s = 1; for (size_t i = 1; i < v.size(); ++i) s *= v[i]; return c.out(c.eq(v[0], s)); };
  Pred mx = [](const VV& v) { Cmp c; double s = v[1]; for (size_t i = 2; i < v.size(); ++i) s = std::max(s, v[i]); return c.out(c.eq(v[0], s)); };
  Pred mn = [](const VV& v) { Cmp c; double s = v[1]; for (size_t i = 2; i < v.size(); ++i) s = std::min(s, v[i]); return c.out(c.eq(v[0], s)); };
  Pred rmx = [](const VV& v) { Cmp c; double s = v[0]; for (size_t i = 1; i + 1 < v.size(); ++i) s = std::max(s, v[i]); return c.out(c.eq(v.back(), s)); };
  Pred rmn = [](const VV& v) { Cmp c; double s = v[0]; for (size_t i = 1; i + 1 < v.size(); ++i) s = std::min(s, v[i]); return c.out(c.eq(v.back(), s)); };
  Pred alleq = [](const VV& v) { Cmp c; bool r = true; for (size_t i = 1; i < v.size(); ++i) r = c.eq(v[0], v[i]) && r; return c.out(r); };
  auto distinct = [](const VV& v, size_t from, Cmp& c) { bool r = true; for (size_t i = from; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) if (c.eq(v[i], v[j])) r = false; return r; };
  Pred alldiff = [distinct](const VV& v) { Cmp c; bool r = distinct(v, 0, c); return c.out(r); };
  Pred mul3 = [](const VV& v) { Cmp c; return c.out(c.eq(v[0] * v[1], v[2])); };
  Pred div3 = [](const VV& v) { Cmp c; if (v[1] == 0) return v[0] == 0 ? 2 : 0; return c.out(c.eq(v[0] / v[1], v[2])); };
  add("addEq", {NUM, NUM, NUM}, 3, 3, [](const VV& v) { Cmp c; return c.out(c.eq(v[0] + v[1], v[2])); });
  add("multEq", {IVAL, IVAL, IVAL}, 3, 3, mul3);
  add("mulEq", {IVAL, IVAL, IVAL}, 3, 3, mul3);
  add("divEq", {IVAL, IVAL, IVAL}, 3, 3, div3);
  add("eq", {SAME}, 2, 4, alleq);
  add("neq", {SAME}, 2, 2, alldiff);
  add("leq", {NUM}, 2, 2, [](const VV& v) { Cmp c; return c.out(c.le(v[0], v[1])); });
  add("lt", {NUM}, 2, 2, [](const VV& v) { Cmp c; return c.out(c.lt(v[0], v[1])); });
  add("neg", {IVAL}, 2, 2, [](const VV& v) { Cmp c; return c.out(c.eq(v[0], -v[1])); });
  add("absVal", {IVAL}, 2, 2, [](const VV& v) { Cmp c; return c.out(c.eq(v[0], std::fabs(v[1]))); });
  add("eqSum", {NUM}, 3, 9, sum);
  add("eqProduct", {IVAL}, 3, 5, prod);
  add("eqMaximum", {NUM}, 3, 5, mx);
  add("eqMinimum", {NUM}, 3, 5, mn);
  add("max", {NUM}, 3, 4, rmx);
  add("allMax", {NUM}, 3, 4, rmx);
  add("min", {NUM}, 3, 4, rmn);
  add("allMin", {NUM}, 3, 4, rmn);
  add("allDiff", {SAME}, 2, 6, alldiff);
  add("condAllDiff", {BOOLC, SAME}, 3, 7, [distinct](const VV& v) { Cmp c; bool d = distinct(v, 1, c); return c.out(d == (v[0] != 0)); });
  add("condEq", {BOOLC, SAME}, 3, 6, [](const VV& v) { Cmp c; bool r = true; for (size_t i = 2; i < v.size(); ++i) r = c.eq(v[1], v[i]) && r; return c.out(r == (v[0] != 0)); });
  auto zeros = [](const VV& v, size_t from) { int n = 0; for (size_t i = from; i < v.size(); ++i) n += v[i] == 0; return n; };
  add("countZeroes", {INTC, NUM}, 2, 6, [zeros](const VV& v) { Cmp c; return c.out(c.eq(v[0], zeros(v, 1))); });
  add("countNonZeroes", {INTC, NUM}, 2, 6, [zeros](const VV& v) { Cmp c; return c.out(c.eq(v[0], (double)(v.size() - 1) - zeros(v, 1))); });
  add("or", {NUM}, 1, 6, [zeros](const VV& v) { return zeros(v, 0) < (int)v.size() ? 1 : 0; });
  add("withinBounds", {IVAL}, 3, 3, [](const VV& v) { Cmp c; bool a = c.le(v[1], v[0]), b = c.le(v[0], v[2]); return c.out(a && b); });
  add("testEq", {BOOLC, SAME}, 3, 3, [](const VV& v) { Cmp c; return c.out(c.eq(v[1], v[2]) == (v[0] != 0)); });
  add("testNeq", {BOOLC, SAME}, 3, 3, [](const VV& v) { Cmp c; return c.out(c.eq(v[1], v[2]) == (v[0] == 0)); });
  add("testLeq", {BOOLC, NUM}, 3, 3, [](const VV& v) { Cmp c; return c.out(c.le(v[1], v[2]) == (v[0] != 0)); });
  add("testLessThan", {BOOLC, NUM}, 3, 3, [](const VV& v) { Cmp c; return c.out(c.lt(v[1], v[2]) == (v[0] != 0)); });
  add("testAnd", {BOOLC}, 3, 3, [](const VV& v) { return ((v[1] != 0 && v[2] != 0) == (v[0] != 0)) ? 1 : 0; });
  add("testOr", {BOOLC}, 3, 3, [](const VV& v) { return ((v[1] != 0 || v[2] != 0) == (v[0] != 0)) ? 1 : 0; });
  add("testSingleton", {BOOLC, ANY}, 2, 2, [](const VV& v) { return v[0] != 0 ? 1 : 0; });
  add("maxf", {NUM}, 3, 3, mx);
  add("minf", {NUM}, 3, 3, mn);
  add("abs", {NUM}, 2, 2, [](const VV& v) { Cmp c; return c.out(c.eq(v[0], std::fabs(v[1]))); });
  add("floor", {NUM}, 2, 2, [](const VV& v) { Cmp c; return c.out(c.eq(v[0], std::floor(v[1]))); });
  add("ceil", {NUM}, 2, 2, [](const VV& v) { Cmp c; return c.out(c.eq(v[0], std::ceil(v[1]))); });
  add("pow", {NUM}, 3, 3, [](const VV& v) { Cmp c; double r = std::pow(v[1], v[2]); if (!(std::fabs(r) < 1e6)) return 2; return c.out(c.eq(v[0], r)); });
  add("sqrt", {NUM}, 2, 2, [](const VV& v) { Cmp c; if (v[1] < 0) return 2; return c.out(c.eq(v[0], std::sqrt(v[1]))); });
  add("mod", {INTC}, 3, 3, [](const VV& v) { Cmp c; if (v[2] == 0) return 2; return c.out(c.eq(v[0], std::fmod(v[1], v[2]))); });
  add("diffSquare", {NUM}, 3, 3, [](const VV& v) { Cmp c; return c.out(c.eq(v[2], (v[0] - v[1]) * (v[0] - v[1]))); });
  add("distanceSquares", {NUM}, 3, 3, [](const VV& v) { Cmp c; if (v[0] + v[1] < 0) return 2; return c.out(c.eq(v[2], std::sqrt(v[0] + v[1]))); });
  add("calcDistance", {REALC, NUM}, 5, 5, [](const VV& v) { Cmp c; return c.out(c.eq(v[0], std::sqrt((v[1] - v[3]) * (v[1] - v[3]) + (v[2] - v[4]) * (v[2] - v[4])))); });
  add("sin", {REALC}, 2, 2, [](const VV& v) { if (v[1] < -90 || v[1] > 90) return 2; double s = std::sin(v[1] * M_PI / 180); return std::fabs(v[0] - s) < 1e-4 ? 2 : 0; });
  add("eqUnion", {SAME}, 2, 5, alleq);
  return t;
}
inline const CT& type(const std::string& n) {
  for (auto& t : types()) if (n == t.name) return t;
  fprintf(stderr, "no type %s\n", n.c_str()); exit(2);
}
inline bool fits(Cat c, const Var& v) {
  switch (c) {
    case NUM: return v.kind == INT || v.kind == REAL || v.kind == ISET || v.kind == RSET;
    case IVAL: return v.kind == INT || v.kind == REAL;
    case BOOLC: return v.kind == BOOL;
    case REALC: return v.kind == REAL;
    case INTC: return v.kind == INT || v.kind == ISET;
    default: return true;
  }
}
struct Con {
  const CT* t = 0;
  std::vector<int> scope;
  std::string str() const {
    std::ostringstream o; o << t->name << "(";
    for (size_t i = 0; i < scope.size(); ++i) o << (i ? "," : "") << "v" << scope[i];
    return o.str() + ")";
  }
  int eval(const VV& a) const { VV x; for (int s : scope) x.push_back(a[s]); return t->pred(x); }
};

inline int typeGroup(const Var& v) { return v.kind == SYM ? 1 : v.kind == STR ? 2 : v.kind == BOOL ? 3 : 0; }

struct Net { std::vector<Var> vars; std::vector<Con> cons; };

inline Var randomVar(H::Rng& r, bool big = false) {
  Var v;
  int k = (int)r.below(20);
  v.kind = k < 7 ? INT : k < 11 ? REAL : k < 15 ? BOOL : k < 17 ? ISET : k < 18 ? RSET : k < 19 ? SYM : STR;
  if (v.kind == INT || v.kind == REAL) {
    double a = r.range(-6, 6), b = r.range(-6, 6);
    if (v.kind == REAL && r.chance(40)) { a += 0.5 * r.range(0, 1); b += 0.25 * r.range(0, 3); }
    v.lb = std::min(a, b); v.ub = std::max(a, b);
    if (r.chance(8)) v.lb = -HUGE_VAL;
    if (r.chance(8)) v.ub = HUGE_VAL;
    if (r.chance(8)) v.ub = v.lb == -HUGE_VAL ? 2 : v.lb;
    (void)big;
  } else if (v.kind == BOOL) { v.lb = 0; v.ub = 1; if (r.chance(10)) v.lb = v.ub = (double)r.range(0, 1); }
  else {
    std::set<double> s; int n = (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) s.insert(v.kind == ISET ? (double)r.range(-5, 5) : v.kind == RSET ? 0.5 * r.range(-10, 10) : symv(v.kind, (int)r.below(6)));
    v.vals.assign(s.begin(), s.end());
  }
  return v;
}

// a well-typed constraint over the variables, or false
inline bool randomCon(H::Rng& r, const Net& n, Con& c, const std::vector<std::string>* only = 0) {
  for (int tries = 0; tries < 40; ++tries) {
    const CT* t = only ? &type(r.pick(*only)) : &r.pick(types());
    int nargs = (int)r.range(t->min, t->max);
    std::vector<int> sc; int group = -1; bool ok = true;
    for (int i = 0; i < nargs && ok; ++i) {
      Cat cat = t->cats[std::min((size_t)i, t->cats.size() - 1)];
      std::vector<int> cand;
      for (size_t j = 0; j < n.vars.size(); ++j) {
        if (!fits(cat, n.vars[j])) continue;
        if (cat == SAME && group >= 0 && typeGroup(n.vars[j]) != group) continue;
        bool used = false; for (int s : sc) used = used || s == (int)j;
        if (used && !r.chance(4)) continue;
        cand.push_back((int)j);
      }
      if (cand.empty()) { ok = false; break; }
      int j = r.pick(cand);
      if (cat == SAME) group = typeGroup(n.vars[j]);
      sc.push_back(j);
    }
    if (!ok) continue;
    c.t = t; c.scope = sc; return true;
  }
  return false;
}

inline ConstrainedVariableId makeVar(Eng& e, const Var& v, const std::string& name) {
  Domain* d = v.domain();
  ConstrainedVariableId id = e.ce->createVariable(v.type(), *d, false, true, name);
  delete d;
  return id;
}
// false: not well typed by EUROPA's own type check
inline bool typed(Eng& e, const Con& c, const std::vector<ConstrainedVariableId>& vs) {
  std::vector<DataTypeId> ts;
  for (int s : c.scope) ts.push_back(vs[s]->baseDomain().getDataType());
  try { e.ce->getCESchema()->getConstraintType(c.t->name)->checkArgTypes(ts); } catch (...) { return false; }
  return true;
}
inline ConstraintId makeCon(Eng& e, const Con& c, const std::vector<ConstrainedVariableId>& vs) {
  std::vector<ConstrainedVariableId> sc; for (int s : c.scope) sc.push_back(vs[s]);
  return e.ce->createConstraint(c.t->name, sc);
}

// All sampled assignments satisfying every active constraint. f returns false to stop.
struct Solver {
  const std::vector<Var>& vars; std::vector<const Con*> cons; std::vector<std::vector<double> > pts; long budget;
  std::vector<std::vector<const Con*> > at;
  Solver(const std::vector<Var>& v, const std::vector<const Con*>& c, double step, long b) : vars(v), cons(c), budget(b) {
    for (auto& x : vars) pts.push_back(x.points(step));
    at.resize(vars.size());
    for (auto* k : cons) { int m = 0; for (int s : k->scope) m = std::max(m, s); at[m].push_back(k); }
  }
  VV a;
  bool go(size_t i, const std::function<bool(const VV&)>& f) {
    if (i == vars.size()) return f(a);
    for (double p : pts[i]) {
      if (--budget < 0) return false;
      a[i] = p;
      bool ok = true;
      for (auto* k : at[i]) if (k->eval(a) != 1) { ok = false; break; }
      if (ok && !go(i + 1, f)) return false;
    }
    return true;
  }
  // true if the whole sample was searched
  bool run(const std::function<bool(const VV&)>& f) { a.assign(vars.size(), 0); return go(0, f); }
};
}  // namespace N
