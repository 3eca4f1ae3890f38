// C04: what propagation derives depends on the content of the network alone.  C05 (MODE=tolerant): tolerated violations.
#include "net.hh"
using namespace N;

static bool tolerant = false;

struct MVar { Var base, first; bool spec = false; double val = 0; ConstrainedVariableId id; int name = 0; };
struct MCon { const CT* t; std::vector<int> scope; bool active = true; ConstraintId id; std::vector<ConstraintId> parts; };  // scope: names of variables
struct Content {
  std::map<int, MVar> vars;
  std::vector<MCon> cons;
};
struct Shape { bool interval; double lb, ub; std::vector<double> vals; };
struct Result { bool inc = false; std::map<int, Shape> d; };

static double nz(edouble e) { double d = cast_basis(e); return d == 0 ? 0 : d; }
static Shape shape(const Domain& d) {
  Shape s; s.interval = d.isInterval();
  if (s.interval) { s.lb = nz(d.getLowerBound()); s.ub = nz(d.getUpperBound()); }
  else { std::list<edouble> v; d.getValues(v); s.lb = s.ub = 0; for (auto& x : v) s.vals.push_back(nz(x)); std::sort(s.vals.begin(), s.vals.end()); }
  return s;
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) < 1e-3; }
static bool same(const Shape& a, const Shape& b) {
  if (a.interval != b.interval) return false;
  if (a.interval) return near(a.lb, b.lb) && near(a.ub, b.ub);
  return a.vals == b.vals;
}
static bool same(const Result& a, const Result& b) {
  if (a.inc != b.inc) return false;
  if (a.inc) return true;
  for (auto& k : a.d) { auto f = b.d.find(k.first); if (f == b.d.end() || !same(k.second, f->second)) return false; }
  return true;
}
// a within b
static bool within(const Shape& a, const Shape& b) {
  if (a.interval != b.interval) return false;
  if (a.interval) return a.lb >= b.lb - 1e-3 && a.ub <= b.ub + 1e-3;
  return std::includes(b.vals.begin(), b.vals.end(), a.vals.begin(), a.vals.end());
}
static std::string str(const Result& r) {
  if (r.inc) return "inconsistent";
  std::ostringstream o;
  for (auto& k : r.d) {
    o << "v" << k.first << "=";
    if (k.second.interval) o << "[" << k.second.lb << "," << k.second.ub << "] ";
    else { o << "{"; for (double x : k.second.vals) o << x << " "; o << "} "; }
  }
  return o.str();
}
static Result read(Eng& e, const Content& c) {
  Result r; r.inc = e.ce->provenInconsistent();
  if (!r.inc) for (auto& k : c.vars) r.d[k.first] = shape(k.second.id->lastDomain());
  return r;
}
static Var narrowed(const Var& v, const Var& by) {
  Var o = v;
  if (v.interval()) { o.lb = std::max(v.lb, by.lb); o.ub = std::min(v.ub, by.ub); }
  else { o.vals.clear(); for (double x : v.vals) if (by.has(x)) o.vals.push_back(x); }
  return o;
}
// the same content, built by additions only, in some order
static bool scratch(H::Rng& r, const Content& c, bool withInactive, Result& out) {
  for (auto& k : c.vars) if (k.second.spec && !k.second.base.has(k.second.val)) { out.inc = true; return true; }
  Eng* e = new Eng();
  std::map<int, ConstrainedVariableId> ids; std::vector<ConstraintId> cs;
  struct Op { int kind, what; };
  std::vector<Op> ops; std::map<int, Var> wide;
  std::vector<int> vs; for (auto& k : c.vars) vs.push_back(k.first);
  r.shuffle(vs);
  bool later = r.chance(50);  // base domains narrowed along the way, or given at once
  for (int v : vs) {
    const MVar& k = c.vars.at(v);
    ids[v] = makeVar(*e, later ? k.first : k.base, "v" + std::to_string(v));
    if (later && k.first.str() != k.base.str()) ops.push_back({2, v}); else if (k.spec) ops.push_back({0, v});
  }
  for (size_t i = 0; i < c.cons.size(); ++i) if (c.cons[i].active || withInactive) ops.push_back({1, (int)i});
  r.shuffle(ops);
  int between = r.chance(50) ? 0 : (int)r.range(20, 90);
  bool ok = true;
  try {
    for (auto& o : ops) {
      if (e->ce->provenInconsistent()) break;
      const MVar* k = o.kind == 1 ? 0 : &c.vars.at(o.what);
      if (o.kind == 2) { Domain* d = k->base.domain(); ids[o.what]->restrictBaseDomain(*d); delete d; if (e->ce->provenInconsistent()) break; }
      if (o.kind != 1) { if (k->spec) ids[o.what]->specify(ed(k->val)); }
      else { std::vector<ConstrainedVariableId> sc; for (int s : c.cons[o.what].scope) sc.push_back(ids[s]); cs.push_back(e->ce->createConstraint(c.cons[o.what].t->name, sc)); }
      if (between && !e->ce->provenInconsistent() && r.chance(between)) e->ce->propagate();
    }
    if (!e->ce->provenInconsistent()) e->ce->propagate();
    out = Result(); out.inc = e->ce->provenInconsistent();
    if (!out.inc) for (auto& k : c.vars) out.d[k.first] = shape(ids[k.first]->lastDomain());
  } catch (Error&) { return false; }
  for (auto& k : cs) delete (Constraint*)k;
  for (auto& k : ids) delete (ConstrainedVariable*)k.second;
  delete e;
  return ok;
}

static Var finiteVar(H::Rng& r) {
  Var v = randomVar(r);
  if (v.interval()) { if (std::isinf(v.lb)) v.lb = std::min(-7.0, v.ub); if (std::isinf(v.ub)) v.ub = std::max(7.0, v.lb); }
  return v;
}

struct Run {
  H::Ctx& c; H::Rng& r; Eng* eng; Content m; int names = 0; bool stale = false, loose = false; std::vector<MCon> residue;
  std::string lastop; std::set<std::string> kinds;
  Run(H::Ctx& cc) : c(cc), r(cc.rng), eng(new Eng(tolerant)) {}
  Net net(std::vector<int>& idx) { Net n; for (auto& k : m.vars) { idx.push_back(k.first); n.vars.push_back(k.second.base); } return n; }
  void addVar(const Var* given = 0) {
    MVar v; v.base = v.first = given ? *given : finiteVar(r); v.name = names++;
    v.id = makeVar(*eng, v.base, "v" + std::to_string(v.name));
    c.trace << "add v" << v.name << " : " << v.base.str() << "\n";
    m.vars[v.name] = v;
  }
  bool addCon() {
    std::vector<int> idx; Net n = net(idx); Con k;
    if (!randomCon(r, n, k)) return false;
    std::set<int> d(k.scope.begin(), k.scope.end());
    if (d.size() != k.scope.size()) return false;   // known finding C04-1
    std::vector<ConstrainedVariableId> ids; for (int i : idx) ids.push_back(m.vars[i].id);
    if (!typed(*eng, k, ids)) return false;
    std::vector<int> sc; for (int s : k.scope) sc.push_back(idx[s]);
    return addCon(k.t, sc);
  }
  bool addCon(const CT* t, const std::vector<int>& sc) {
    MCon mc; mc.t = t; mc.scope = sc;
    std::vector<ConstrainedVariableId> s; for (int x : sc) s.push_back(m.vars[x].id);
    c.trace << "add " << show(mc) << "\n";
    // strict inequalities between reals that contradict each other move in steps of the resolution
    bool real = false; for (auto& k : m.vars) real = real || k.second.base.kind == REAL;
    if (real && !H::g_slowOk) { H::g_slowOk = true; H::arm(4); }
    ConstraintSet before = eng->ce->getConstraints();
    mc.id = eng->ce->createConstraint(mc.t->name, s);
    for (auto& k : eng->ce->getConstraints()) if (!before.count(k)) mc.parts.push_back(k);  // some are made of others
    kinds.insert(mc.t->name);
    m.cons.push_back(mc);
    return true;
  }
  std::string show(const MCon& k) { std::ostringstream o; o << k.t->name << "("; for (size_t i = 0; i < k.scope.size(); ++i) o << (i ? "," : "") << "v" << k.scope[i]; o << ")"; return o.str(); }
  void removeCon(size_t i) {
    c.trace << "remove " << show(m.cons[i]) << (m.cons[i].active ? "" : " (inactive)") << "\n";
    if (!m.cons[i].active) residue.push_back(m.cons[i]);
    loosen();
    delete (Constraint*)m.cons[i].id; m.cons.erase(m.cons.begin() + (long)i);
  }
  int pickVar() { auto it = m.vars.begin(); std::advance(it, (long)r.below(m.vars.size())); return it->first; }
  void specify(int v, double x) {
    MVar& k = m.vars[v];
    c.trace << "specify v" << v << " " << x << "\n";
    k.id->specify(ed(x)); k.spec = true; k.val = x;
  }
  void loosen() { bool in = stale || !residue.empty(); for (auto& k : m.cons) in = in || !k.active; if (in) loose = true; }
  void reset(int v) { loosen(); c.trace << "reset v" << v << "\n"; m.vars[v].id->reset(); m.vars[v].spec = false; }
  bool restrict(int v) {
    MVar& k = m.vars[v];
    if (!k.id->isActive()) return false;
    Var by = k.base;
    auto p = k.base.points(1);
    if (k.base.interval()) { double a = r.pick(p), b = r.pick(p); by.lb = std::min(a, b); by.ub = std::max(a, b); if (by.kind == BOOL && by.lb != by.ub && r.chance(50)) by.lb = by.ub; }
    else { by.vals.clear(); for (double x : k.base.vals) if (r.chance(60)) by.vals.push_back(x); if (by.vals.empty()) by.vals.push_back(r.pick(p)); }
    if (k.spec && !by.has(k.val)) return false;   // known finding C04-2
    c.trace << "restrict v" << v << " to " << by.str() << "\n";
    Domain* d = by.domain();
    k.base = narrowed(k.base, by);
    k.id->restrictBaseDomain(*d);
    delete d;
    return true;
  }
  // relax everything, so that nothing derived by inactive constraints stays
  void relaxAll() {
    c.trace << "relax all\n";
    for (auto& k : m.vars) k.second.id->relax();
    stale = loose = false; residue.clear();
  }
  void teardown() {
    for (auto& k : m.cons) delete (Constraint*)k.id;
    for (auto& k : m.vars) delete (ConstrainedVariable*)k.second.id;
    delete eng;
  }
  std::string key() { std::string s; if (kinds.size() > 2) return "mixed"; for (auto& k : kinds) s += (s.empty() ? "" : "+") + k; return s.empty() ? "none" : s; }

  // compare with content built from nothing
  void compare() {
    eng->ce->propagate();
    Result got = read(*eng, m);
    bool inactive = stale || !residue.empty(); for (auto& k : m.cons) inactive = inactive || !k.active;
    Result want;
    if (!scratch(r, m, false, want)) { c.count("scratch_error"); return; }
    c.count("states_compared"); c.count(got.inc ? "inconsistent_states" : "consistent_states");
    if (!got.inc) c.seen(H::hash(str(got) + key()));
    if (!inactive) {
      if (same(got, want)) return;
      // is the content itself sensitive to the order of additions?
      for (int i = 0; i < 80; ++i) { Result w; if (!scratch(r, m, false, w)) return; if (same(w, got) || !same(w, want)) { c.count("order_sensitive_content"); return; } }
      const char* kind = got.inc && !want.inc ? "spurious-inconsistency" : !got.inc && want.inc ? "missed-inconsistency" : "domains-differ";
      c.fail(std::string(kind) + "/" + key(), "after " + lastop + ": " + str(got) + "\nthe same content built from nothing: " + str(want));
    } else {
      // deactivation does not relax: anything between the closures without and with the inactive constraints
      c.count("envelope_states");
      if (want.inc) {
        if (!got.inc) {
          for (int i = 0; i < 80; ++i) { Result w; if (!scratch(r, m, false, w)) return; if (!w.inc) return; }
          c.fail("missed-inconsistency/" + key(), "after " + lastop + ": " + str(got) + "\nthe active constraints alone, from nothing: inconsistent");
        }
        return;
      }
      if (loose) return;  // what was derived while an inactive constraint was active depended on values since withdrawn
      Content all = m; for (auto& k : residue) { bool ok = true; for (int s : k.scope) ok = ok && m.vars.count(s); if (ok) all.cons.push_back(k); else return; }
      Result lo; if (!scratch(r, all, true, lo)) return;
      if (got.inc) {
        if (!lo.inc) {
          for (int i = 0; i < 80; ++i) { Result w; if (!scratch(r, all, true, w)) return; if (w.inc) return; }
          c.fail("spurious-inconsistency/" + key(), "after " + lastop + " inconsistent; all constraints, inactive ones too, from nothing: " + str(lo));
        }
        return;
      }
      for (auto& k : got.d) {
        if (!within(k.second, want.d[k.first])) {
          for (int i = 0; i < 80; ++i) { Result w; if (!scratch(r, m, false, w)) return; if (w.inc || within(k.second, w.d[k.first])) return; }
          c.fail("too-wide/" + key(), "after " + lastop + " v" + std::to_string(k.first) + " of " + str(got) + "\nis wider than the active constraints imply: " + str(want)); return;
        }
        if (!lo.inc && !within(lo.d[k.first], k.second)) {
          for (int i = 0; i < 80; ++i) { Result w; if (!scratch(r, all, true, w)) return; if (w.inc || within(w.d[k.first], k.second)) return; }
          c.fail("too-narrow/" + key(), "after " + lastop + " v" + std::to_string(k.first) + " of " + str(got) + "\nis narrower than all constraints, inactive ones too, imply: " + str(lo)); return;
        }
      }
    }
  }
  void strict() {
    int nv = (int)r.range(2, 6);
    bool toggles = r.chance(40), autop = r.chance(50);
    eng->ce->setAutoPropagation(autop);
    c.trace << (autop ? "auto" : "manual") << " propagation\n";
    for (int i = 0; i < nv; ++i) addVar();
    int steps = (int)r.range(3, c.thorough ? 40 : 16);
    int propPct = r.chance(30) ? 100 : (int)r.range(20, 80);
    for (int s = 0; s < steps && !c.failed(); ++s) {
      bool inc = eng->ce->provenInconsistent();
      std::ostringstream op;
      size_t before = c.trace.str().size();
      int k = (int)r.below(100);
      if (k < 34) { if (m.cons.size() < 7) addCon(); }
      else if (k < 50) { if (!m.cons.empty()) removeCon(r.below(m.cons.size())); }
      else if (k < 62) {
        if (!inc) { int v = pickVar(); if (m.vars[v].id->isActive()) { auto p = m.vars[v].base.points(1); double x = r.pick(p);
          if (m.vars[v].spec && r.chance(60)) reset(v); else if (!m.vars[v].spec || m.vars[v].base.has(x)) {
            // most of the time a value still possible, as a solver would choose
            if (r.chance(70)) for (int q = 0; q < 5 && !m.vars[v].id->lastDomain().isMember(ed(x)); ++q) x = r.pick(p);
            if (m.vars[v].spec && x != m.vars[v].val) reset(v);
            if (!eng->ce->provenInconsistent()) specify(v, x); } } }
        else { std::vector<int> sp; for (auto& q : m.vars) if (q.second.spec) sp.push_back(q.first); if (!sp.empty()) reset(r.pick(sp)); }
      }
      else if (k < 72) { std::vector<int> sp; for (auto& q : m.vars) if (q.second.spec) sp.push_back(q.first); if (!sp.empty()) reset(r.pick(sp)); }
      else if (k < 79) { if (!inc) restrict(pickVar()); }
      else if (k < 83) { if (m.vars.size() < 7) addVar(); }
      else if (k < 86) {
        if (m.vars.size() > 2) { int v = pickVar();
          for (size_t i = m.cons.size(); i-- > 0;) { bool in = false; for (int q : m.cons[i].scope) in = in || q == v; if (in) removeCon(i); }
          c.trace << "remove v" << v << "\n"; delete (ConstrainedVariable*)m.vars[v].id; m.vars.erase(v); }
      }
      else if (toggles && !m.cons.empty()) {
        MCon& q = m.cons[r.below(m.cons.size())];
        if (q.active) { c.trace << "deactivate " << show(q) << "\n"; q.id->deactivate(); q.active = false; stale = true; c.count("deactivations"); }
        else { c.trace << "reactivate " << show(q) << "\n"; q.id->undoDeactivation(); q.active = true; c.count("reactivations"); }
        if (r.chance(25)) relaxAll();
      }
      else if (r.chance(20)) relaxAll();
      else if (r.chance(50)) {
        // do something and undo it: the result must come back
        if (inc) continue;
        eng->ce->propagate();
        if (eng->ce->provenInconsistent() || stale) continue;
        Result before = read(*eng, m);
        bool did = false;
        if (r.chance(50)) { if (addCon()) { did = true; if (r.chance(70) && !eng->ce->provenInconsistent()) eng->ce->propagate(); removeCon(m.cons.size() - 1); } }
        else { int v = pickVar(); if (!m.vars[v].spec && m.vars[v].id->isActive()) { auto p = m.vars[v].base.points(1); specify(v, r.pick(p)); if (r.chance(70) && !eng->ce->provenInconsistent()) eng->ce->propagate(); reset(v); did = true; } }
        bool inactive = !residue.empty(); for (auto& q : m.cons) inactive = inactive || !q.active;
        if (did && !inactive) {
          eng->ce->propagate();
          Result after = read(*eng, m);
          c.count("undone_changes");
          if (!same(before, after)) {
            bool sens = false;
            Result w0; scratch(r, m, false, w0);
            for (int i = 0; i < 80 && !sens; ++i) { Result w; if (!scratch(r, m, false, w) || !same(w, w0)) sens = true; }
            if (sens) c.count("order_sensitive_content");
            else c.fail("undo-differs/" + key(), "before: " + str(before) + "\nafter doing and undoing: " + str(after));
          }
        }
      }
      std::string t = c.trace.str(); lastop = t.substr(before); while (!lastop.empty() && lastop.back() == '\n') lastop.pop_back();
      if (r.chance(propPct)) compare();
    }
    if (!c.failed()) { compare(); }
    if (!c.failed() && (stale || !residue.empty())) { relaxAll(); for (auto& q : m.cons) if (!q.active) { q.id->undoDeactivation(); q.active = true; } lastop = "reactivating all"; compare(); }
  }
};

static void tol_case(H::Ctx& c, Run* x);
// the known findings, one case each
static void known_case(H::Ctx& c, Run* x) {
  auto v = [](Kind k, double a, double b) { Var o; o.kind = k; o.lb = a; o.ub = b; return o; };
  auto set = [](std::vector<double> s) { Var o; o.kind = ISET; o.vals = s; return o; };
  if (c.idx == 0) {
    // C04-1: a variable twice in one constraint
    Result r[2];
    for (int o = 0; o < 2; ++o) {
      Eng* e = new Eng(); e->ce->setAutoPropagation(false);
      Var a = set({-4, 2, 4, 5}), b = set({-4, -3, -1, 5}), d = v(INT, -2, 5);
      ConstrainedVariableId x0 = makeVar(*e, a, "v0"), x1 = makeVar(*e, b, "v1"), x2 = makeVar(*e, d, "v2");
      std::vector<ConstraintId> k;
      auto add = [&](const char* n, ConstrainedVariableId p, ConstrainedVariableId q) { std::vector<ConstrainedVariableId> s; s.push_back(p); s.push_back(q); k.push_back(e->ce->createConstraint(n, s)); };
      if (o) add("lt", x0, x1);
      add("leq", x0, x2); add("lt", x0, x0);
      if (!o) add("lt", x0, x1);
      e->ce->propagate();
      r[o].inc = e->ce->provenInconsistent();
      if (!r[o].inc) { r[o].d[0] = shape(x0->lastDomain()); r[o].d[1] = shape(x1->lastDomain()); r[o].d[2] = shape(x2->lastDomain()); }
      c.trace << str(r[o]) << "\n";
    }
    if (!same(r[0], r[1])) c.fail("repeated-variable", "lt(v0,v0), leq(v0,v2), lt(v0,v1): " + str(r[0]) + "; in another order: " + str(r[1]));
  } else {
    // C04-2: a base domain restricted away from the specified value
    Var b = v(BOOL, 0, 1); x->addVar(&b); x->eng->ce->setAutoPropagation(false);
    x->specify(0, 0);
    Domain* d = v(BOOL, 1, 1).domain(); x->m.vars[0].id->restrictBaseDomain(*d); delete d;
    bool before = x->eng->ce->provenInconsistent();
    x->eng->ce->propagate();
    if (before && !x->eng->ce->provenInconsistent()) c.fail("specified-outside-base", "v0 specified 0 and restricted to [1,1] is consistent after propagation");
  }
}
static void run_case(H::Ctx& c) {
  Run* x = new Run(c);
  try { if (tolerant) tol_case(c, x); else if (c.directed) known_case(c, x); else x->strict(); }
  catch (Error& e) { c.fail("error/" + H::norm(e.getMsg(), 60), e.getMsg() + " [" + e.getCondition() + "]"); }
  if (!c.failed()) x->teardown();
  delete x;
}
// with violations tolerated
static void tol_compare(H::Ctx& c, Run* x) {
  Eng* eng = x->eng; Content& m = x->m; auto& r = c.rng;
  eng->ce->propagate();
  c.count("states_compared");
  ConstraintEngine& vm = *eng->ce;
  double total = vm.getViolation();
  std::vector<size_t> bad; double sum = 0; size_t nbad = 0;
  for (auto& k : eng->ce->getConstraints()) { sum += k->getViolation(); nbad += eng->ce->isViolated(k); }
  auto violated = [&](const MCon& k) { for (auto& p : k.parts) if (eng->ce->isViolated(p)) return true; return false; };
  for (size_t i = 0; i < m.cons.size(); ++i) if (violated(m.cons[i])) bad.push_back(i);
  std::string dom; for (auto& k : m.vars) dom += " v" + std::to_string(k.first) + "=" + k.second.id->lastDomain().toString();
  std::string badn; for (size_t i : bad) badn += " " + x->show(m.cons[i]);
  if (eng->ce->provenInconsistent()) { c.fail("inconsistent/" + x->key(), "after " + x->lastop + ": inconsistent although violations are tolerated;" + dom); return; }
  for (auto& k : m.vars) if (k.second.id->lastDomain().isEmpty()) { c.fail("empty/" + x->key(), "after " + x->lastop + ": v" + std::to_string(k.first) + " is empty;" + dom); return; }
  if (total != sum || total != (double)nbad || vm.getAllViolations().size() != (int)nbad || (nbad && bad.empty())) {
    std::ostringstream o; o << "total " << total << ", sum over constraints " << sum << ", violated constraints " << nbad << " in " << bad.size(); c.fail("sum/" + x->key(), o.str()); return;
  }
  for (auto& k : m.vars) if (k.second.spec && !(k.second.id->lastDomain().isSingleton() && near(nz(k.second.id->lastDomain().getSingletonValue()), k.second.val))) {
    c.fail("specified-lost/" + x->key(), "after " + x->lastop + ": v" + std::to_string(k.first) + " was specified;" + dom); return; }
  c.count(bad.empty() ? "unviolated_states" : "violated_states"); c.seen(H::hash(dom + badn));
  // constraints over fixed values are violated exactly when these contradict them
  for (size_t i = 0; i < m.cons.size(); ++i) {
    bool all = true; VV a; for (int s : m.cons[i].scope) { MVar& v = m.vars[s]; if (v.spec) a.push_back(v.val); else all = false; }
    if (!all) continue;
    int e = m.cons[i].t->pred(a); if (e == 2) continue;
    bool v = violated(m.cons[i]);
    c.count(e ? "fixed_satisfied" : "fixed_contradicted");
    if (v == (e == 1)) { c.fail(std::string(v ? "falsely-violated/" : "violation-missed/") + m.cons[i].t->name, "after " + x->lastop + ": " + x->show(m.cons[i]) + (v ? " is reported violated" : " is not reported violated") + ";" + dom + "\nreported:" + badn); return; }
  }
  Result want; if (!scratch(r, m, false, want)) { c.count("scratch_error"); return; }
  Result got; for (auto& k : m.vars) got.d[k.first] = shape(k.second.id->lastDomain());
  if (want.inc) {
    c.count("contradictory_states");
    if (bad.empty()) {
      for (int i = 0; i < 80; ++i) { Result w; if (!scratch(r, m, false, w)) return; if (!w.inc) return; }
      c.fail("violation-missed/" + x->key(), "after " + x->lastop + ": nothing is reported violated, but the content is contradictory;" + dom); return;
    }
  } else {
    c.count("clean_states");
    bool wrong = !bad.empty() || !same(got, want);
    if (wrong) {
      for (int i = 0; i < 80; ++i) { Result w; if (!scratch(r, m, false, w)) return; if ((bad.empty() && same(w, got)) || !same(w, want)) { c.count("order_sensitive_content"); return; } }
      c.fail((bad.empty() ? "domains-differ/" : "violation-stays/") + x->key(), "after " + x->lastop + ": " + str(got) + (bad.empty() ? "" : " reported:" + badn) + "\nthe same content built from nothing: " + str(want)); return;
    }
  }
  // what is reported violated cannot be met together with what is not
  if (getenv("TOLJ")) for (size_t b : bad) {
    std::vector<int> idx; std::map<int, int> at; Net n = x->net(idx); for (size_t i = 0; i < idx.size(); ++i) { at[idx[i]] = (int)i; MVar& v = m.vars[idx[i]]; if (v.spec) { if (n.vars[i].interval()) n.vars[i].lb = n.vars[i].ub = v.val; else n.vars[i].vals = {v.val}; } }
    std::vector<Con> cons; for (size_t i = 0; i < m.cons.size(); ++i) if (i == b || !violated(m.cons[i])) { Con k; k.t = m.cons[i].t; for (int s : m.cons[i].scope) k.scope.push_back(at[s]); cons.push_back(k); }
    std::vector<const Con*> p; for (auto& k : cons) p.push_back(&k);
    Solver s(n.vars, p, 1, 20000); bool found = false;
    s.run([&](const VV&) { found = true; return false; });
    c.count(found ? "joint_sat" : "joint_unsat");
    if (found) { c.fail("not-contradicted/" + x->key(), "after " + x->lastop + ": " + x->show(m.cons[b]) + " can be met together with all that is not violated;" + dom + "\nreported:" + badn); return; }
  }
}
static void tol_case(H::Ctx& c, Run* x) {
  auto& r = c.rng; Content& m = x->m; Eng* eng = x->eng;
  int nv = (int)r.range(2, 5);
  eng->ce->setAutoPropagation(r.chance(50));
  for (int i = 0; i < nv; ++i) x->addVar();
  int steps = (int)r.range(3, c.thorough ? 40 : 16), propPct = r.chance(40) ? 100 : (int)r.range(20, 80), specPct = r.chance(50) ? 40 : 22;
  for (int s = 0; s < steps && !c.failed(); ++s) {
    size_t before = c.trace.str().size();
    int k = (int)r.below(100);
    if (k < 30) { if (m.cons.size() < 6) x->addCon(); }
    else if (k < 44) { if (!m.cons.empty()) x->removeCon(r.below(m.cons.size())); }
    else if (k < 44 + specPct) { int v = x->pickVar(); auto p = m.vars[v].base.points(1); double q = r.pick(p); if (m.vars[v].base.has(q)) { if (m.vars[v].spec && q != m.vars[v].val && r.chance(50)) x->reset(v); x->specify(v, q); } }
    else if (k < 92) { std::vector<int> sp; for (auto& q : m.vars) if (q.second.spec) sp.push_back(q.first); if (!sp.empty()) x->reset(r.pick(sp)); }
    else if (k < 95) { if (m.vars.size() < 6) x->addVar(); }
    else if (m.vars.size() > 2) { int v = x->pickVar();
      for (size_t i = m.cons.size(); i-- > 0;) { bool in = false; for (int q : m.cons[i].scope) in = in || q == v; if (in) x->removeCon(i); }
      c.trace << "remove v" << v << "\n"; delete (ConstrainedVariable*)m.vars[v].id; m.vars.erase(v); }
    std::string t = c.trace.str(); x->lastop = t.substr(before); while (!x->lastop.empty() && x->lastop.back() == '\n') x->lastop.pop_back();
    if (r.chance(propPct)) tol_compare(c, x);
  }
  if (!c.failed()) tol_compare(c, x);
}
static void setup() {}
static H::Suite suite = {"hist", 2, run_case, setup};
int main(int argc, char** argv) {
  const char* m = getenv("MODE"); tolerant = m && !strcmp(m, "tolerant");
  if (tolerant) suite.directed = 0;
  H::quiet_errors(); return H::run_main(suite, argc, argv);
}
