// C03: propagation keeps every solution; complete assignments are judged exactly.
#include "net.hh"
using namespace N;

static void check_case(H::Ctx& c, Net& n, bool anyOrder) {
  // bounds propagation over unbounded integers may count up to infinity
  for (auto& v : n.vars) if (std::isinf(v.lb) || std::isinf(v.ub)) { H::g_slowOk = true; H::arm(4); }
  Eng* engp = new Eng(); Eng& eng = *engp;  // left behind when EUROPA reports an internal error
  ConstraintEngineId ce = eng.ce;
  std::vector<ConstrainedVariableId> vs;
  for (size_t i = 0; i < n.vars.size(); ++i) {
    vs.push_back(makeVar(eng, n.vars[i], "v" + std::to_string(i)));
    c.trace << "v" << i << " : " << n.vars[i].str() << "\n";
  }
  std::vector<Con> kept;
  std::vector<ConstraintId> cs;
  for (auto& k : n.cons) if (typed(eng, k, vs)) kept.push_back(k); else c.count("ill_typed_skipped");
  n.cons = kept;
  std::string names;
  for (auto& k : n.cons) { c.trace << k.str() << "\n"; c.count(std::string("constraint_") + k.t->name); names += std::string(names.empty() ? "" : "+") + k.t->name; }
  auto teardown = [&]() { for (auto& k : cs) delete (Constraint*)k; for (auto& v : vs) delete (ConstrainedVariable*)v; delete engp; };
  if (n.cons.empty()) { teardown(); return; }
  std::string key = n.cons.size() == 1 ? names : "mixed";
  // all solutions on the sample
  std::vector<const Con*> ptr; for (auto& k : n.cons) ptr.push_back(&k);
  Solver s(n.vars, ptr, n.vars.size() > 4 ? 1 : 0.5, 150000);
  std::vector<std::set<double> > sup(n.vars.size());
  std::vector<VV> sols; long nsol = 0;
  s.run([&](const VV& a) {
    ++nsol;
    for (size_t i = 0; i < a.size(); ++i) sup[i].insert(a[i]);
    if (sols.size() < 64) sols.push_back(a); else if (c.rng.chance(3)) sols[c.rng.below(64)] = a;
    return true;
  });
  c.count("solutions_enumerated", nsol);
  // propagate, perhaps between the constraints
  try {
    for (auto& k : n.cons) {
      cs.push_back(makeCon(eng, k, vs));
      if (anyOrder && c.rng.chance(30)) ce->propagate();
    }
    ce->propagate();
  } catch (Error& e) { c.fail("error/" + key + "/" + H::norm(e.getMsg(), 60), "propagation reported an internal error: " + e.getMsg() + " [" + e.getCondition() + "]"); return; }
  bool inc = ce->provenInconsistent();
  c.count(inc ? "inconsistent_networks" : "consistent_networks");
  if (inc && nsol) {
    std::ostringstream o; o << "inconsistent, but this assignment satisfies every constraint:";
    for (double d : sols[0]) o << " " << d;
    c.fail("solution-lost/" + key, o.str());
  }
  std::ostringstream sig;
  if (!inc) {
    for (size_t i = 0; i < vs.size(); ++i) {
      const Domain& d = vs[i]->lastDomain();
      sig << d.toString();
      if (d.isEmpty()) c.fail("empty-but-consistent/" + key, "v" + std::to_string(i) + " is empty, the network is not proven inconsistent");
      for (double x : sup[i]) {
        c.count("supported_values_checked");
        if (!d.isMember(ed(x))) {
          std::ostringstream o; o << "v" << i << " lost the value " << x << ", part of a solution; now " << d.toString();
          c.fail("value-lost/" + key, o.str());
          break;
        }
      }
    }
    c.seen(H::hash(names + sig.str()));
  }
  // complete assignments
  if (!inc && !c.failed()) {
    VV a(vs.size());
    bool fromSol = !sols.empty() && c.rng.chance(60);
    if (fromSol) a = sols[c.rng.below(sols.size())];
    for (size_t i = 0; i < a.size(); ++i)
      if (!fromSol || c.rng.chance(12)) { auto p = n.vars[i].points(0.5); a[i] = c.rng.pick(p); }
    int want = 1;
    for (auto& k : n.cons) { int e = k.eval(a); if (e == 0) { want = 0; break; } if (e == 2) want = 2; }
    std::vector<int> order; for (size_t i = 0; i < a.size(); ++i) order.push_back((int)i);
    c.rng.shuffle(order);
    bool stepwise = c.rng.chance(50);
    std::ostringstream as; for (double d : a) as << " " << d;
    c.trace << "assign" << as.str() << (stepwise ? " stepwise" : " at once") << "\n";
    try {
      for (int i : order) {
        if (vs[i]->isSpecified()) {
          if (vs[i]->getSpecifiedValue() != ed(a[i])) { want = 2; }
          continue;
        }
        vs[i]->specify(ed(a[i]));
        if (stepwise) { ce->propagate(); if (ce->provenInconsistent()) break; }
      }
      if (!ce->provenInconsistent()) ce->propagate();
    } catch (Error& e) { c.fail("error/" + key + "/" + H::norm(e.getMsg(), 60), "specifying reported an internal error: " + e.getMsg() + " [" + e.getCondition() + "]"); return; }
    inc = ce->provenInconsistent();
    if (want != 2) {
      c.count(want ? "satisfying_assignments" : "violating_assignments");
      if (want && inc) c.fail("assignment-rejected/" + key, "a satisfying assignment is reported inconsistent:" + as.str());
      if (!want && !inc) {
        std::string bad; for (auto& k : n.cons) if (k.eval(a) == 0) bad += " " + k.str();
        std::string bk; for (auto& k : n.cons) if (k.eval(a) == 0) { bk = k.t->name; break; }
        c.fail("assignment-accepted/" + bk, "a violating assignment is reported consistent:" + as.str() + " violates" + bad);
      }
      if (want && !inc)
        for (size_t i = 0; i < vs.size(); ++i)
          if (!vs[i]->lastDomain().isSingleton() || std::fabs(cast_basis(vs[i]->lastDomain().getSingletonValue()) - a[i]) > 1e-6)
            c.fail("assignment-moved/" + key, "v" + std::to_string(i) + " is " + vs[i]->lastDomain().toString() + " after assigning" + as.str());
    }
  }
  teardown();
}

static void run_case(H::Ctx& c) {
  auto& r = c.rng;
  Net n;
  auto& ts = types();
  if (c.idx % 2 == 0) {
    // one constraint type, variables made to fit
    const CT& t = ts[(size_t)(c.idx / 2) % ts.size()];
    int nargs = (int)r.range(t.min, t.max);
    Con k; k.t = &t; Var first; bool have = false;
    for (int i = 0; i < nargs; ++i) {
      Cat cat = t.cats[std::min((size_t)i, t.cats.size() - 1)];
      if (i && r.chance(4)) { int j = (int)r.below(n.vars.size()); if (fits(cat, n.vars[j]) && (cat != SAME || typeGroup(n.vars[j]) == typeGroup(first))) { k.scope.push_back(j); continue; } }
      Var v;
      do { v = randomVar(r); } while (!fits(cat, v) || (cat == SAME && have && typeGroup(v) != typeGroup(first)));
      if (cat == SAME && !have) { have = true; first = v; }
      n.vars.push_back(v); k.scope.push_back((int)n.vars.size() - 1);
    }
    // few values each, so that what is true of some pairs only is met too
    if (r.chance(30)) for (auto& v : n.vars) {
      if (v.kind == BOOL) { if (r.chance(50)) v.lb = v.ub = (double)r.range(0, 1); }
      else if (v.interval()) { if (std::isinf(v.lb)) v.lb = std::isinf(v.ub) ? (double)r.range(-6, 6) : v.ub; v.ub = v.lb + (r.chance(50) ? 0 : 1); }
      else while (v.vals.size() > 2) v.vals.erase(v.vals.begin() + (long)r.below(v.vals.size()));
    }
    if (n.vars.size() > 5) for (auto& v : n.vars) if (v.interval() && v.ub - v.lb > 2) { if (std::isinf(v.lb)) v.lb = v.ub == HUGE_VAL ? 0 : v.ub - 1; v.ub = v.lb + 1; }
    n.cons.push_back(k);
    check_case(c, n, false);
  } else {
    int nv = (int)r.range(2, 6), nc = (int)r.range(1, 5);
    for (int i = 0; i < nv; ++i) n.vars.push_back(randomVar(r));
    for (int i = 0; i < nc; ++i) { Con k; if (randomCon(r, n, k)) n.cons.push_back(k); }
    // repeated products converge to within the resolution of 0 only: nothing with a jump or a steep slope there beside them
    static const std::set<std::string> mult = {"multEq", "mulEq", "divEq", "eqProduct"}, steep = {"ceil", "floor", "mod", "sqrt", "pow", "countZeroes", "countNonZeroes", "or", "calcDistance", "distanceSquares"};
    bool hasMult = false; for (auto& k : n.cons) hasMult = hasMult || mult.count(k.t->name);
    if (hasMult) { std::vector<Con> keep; for (auto& k : n.cons) if (!steep.count(k.t->name)) keep.push_back(k); n.cons = keep; }
    check_case(c, n, true);
  }
}
static H::Suite suite = {"net", 0, run_case};
HARNESS_MAIN(suite)
