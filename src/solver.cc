// C12: a plan the solver declares complete is valid; when it declares the search space exhausted there is none.
#include "solve.hh"
using namespace SV;

// ------------------------------------------------------------------ constraint problems
struct CV { std::string name; std::vector<long> vals; bool set = false; };
struct CC { std::string txt; std::vector<int> v; std::function<bool(const std::vector<long>&)> f; };
static void csp(H::Ctx& c) {
  dbg(); H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep;
  int n = (int)r.range(2, 5), ne = 0; std::vector<CV> vs; std::vector<CC> cs; std::string t = "enum C { R, G, B, Y }\nclass K {}\nK k0 = new K(); K k1 = new K(); K k2 = new K(); close();\n";
  const char* col[] = {"R", "G", "B", "Y"};
  std::vector<int> ints, enums, objs; bool colour = r.chance(45); long nv = r.range(2, 3); bool en = r.chance(30); if (colour) n = (int)r.range(3, 6);
  for (int i = 0; i < n && colour; ++i) { CV v; v.name = "v" + S(i); t += en ? "C " + v.name + " = {C.R, C.G" + (nv > 2 ? ", C.B};\n" : "};\n") : "int " + v.name + " = [0 " + S(nv - 1) + "];\n"; for (int k = 0; k < nv; ++k) v.vals.push_back(k); (en ? enums : ints).push_back(i); vs.push_back(v); }
  for (int i = 0; i < n && colour; ++i) for (int j = 0; j < i; ++j) if (r.chance(65)) { CC k; k.v = {i, j}; k.txt = "neq(v" + S(i) + ", v" + S(j) + ");\n"; k.f = [](const std::vector<long>& x) { return x[0] != x[1]; }; cs.push_back(k); }
  for (int i = 0; i < n && !colour; ++i) { CV v; v.name = "v" + S(i); int k = (int)r.below(10);
    if (k < 6) { long a = r.range(-2, 3), b = a + r.range(0, 4); t += "int " + v.name + " = [" + S(a) + " " + S(b) + "];\n"; for (; a <= b; ++a) v.vals.push_back(a); ints.push_back(i); }
    else if (k < 7) { v.set = true; std::set<long> s; int m = (int)r.range(1, 4); while ((int)s.size() < m) s.insert(r.range(-3, 6)); t += "int " + v.name + " = {"; for (auto x : s) t += (x == *s.begin() ? "" : ", ") + S(x); t += "};\n"; v.vals.assign(s.begin(), s.end()); ints.push_back(i); }
    else if (k < 9) { std::vector<int> m; for (int j = 0; j < 4; ++j) if (r.chance(60)) m.push_back(j); if (m.empty()) m.push_back(0); t += "C " + v.name + " = {"; for (auto x : m) { t += std::string(x == m[0] ? "" : ", ") + "C." + col[x]; v.vals.push_back(x); } t += "};\n"; enums.push_back(i); }
    else { t += "K " + v.name + ";\n"; v.vals = {0, 1, 2}; objs.push_back(i); }
    vs.push_back(v); }
  (void)ne;
  int m = colour ? (int)r.below(2) : (int)r.range(1, 6);
  for (int i = 0; i < m; ++i) {
    std::vector<int>& pool = r.chance(70) || (enums.empty() && objs.empty()) ? ints : (objs.empty() || (r.chance(70) && enums.size())) ? enums : objs;
    if (pool.empty()) continue;
    auto p = [&]() { return r.pick(pool); }; CC k; std::string nm; int a = p(), b = p(), d = p();
    if (&pool != &ints) { int w = (int)r.below(3); if (w == 0) { k.v = {a, b}; nm = "eq"; k.f = [](const std::vector<long>& x) { return x[0] == x[1]; }; } else if (w == 1) { k.v = {a, b}; nm = "neq"; k.f = [](const std::vector<long>& x) { return x[0] != x[1]; }; } else { k.v = {a, b, d}; nm = "allDiff"; k.f = [](const std::vector<long>& x) { return x[0] != x[1] && x[1] != x[2] && x[0] != x[2]; }; } }
    else switch (r.below(8)) {
      case 0: k.v = {a, b}; nm = "eq"; k.f = [](const std::vector<long>& x) { return x[0] == x[1]; }; break;
      case 1: k.v = {a, b}; nm = "neq"; k.f = [](const std::vector<long>& x) { return x[0] != x[1]; }; break;
      case 2: k.v = {a, b}; nm = "leq"; k.f = [](const std::vector<long>& x) { return x[0] <= x[1]; }; break;
      case 3: k.v = {a, b}; nm = "lt"; k.f = [](const std::vector<long>& x) { return x[0] < x[1]; }; break;
      case 4: k.v = {a, b, d}; nm = "addEq"; k.f = [](const std::vector<long>& x) { return x[0] + x[1] == x[2]; }; break;
      case 5: k.v = {a, b, d}; nm = "mulEq"; k.f = [](const std::vector<long>& x) { return x[0] * x[1] == x[2]; }; break;
      case 6: k.v = {a, b, d}; nm = "allDiff"; k.f = [](const std::vector<long>& x) { return x[0] != x[1] && x[1] != x[2] && x[0] != x[2]; }; break;
      default: k.v = {a, b}; nm = "absVal"; k.f = [](const std::vector<long>& x) { return x[0] == labs(x[1]); }; break;
    }
    if (nm == "mulEq") { bool set = false; for (auto v : k.v) set = set || vs[v].set; if (set) continue; }   // takes intervals only
    std::set<int> u(k.v.begin(), k.v.end()); if (u.size() != k.v.size()) continue;   // a variable twice in one constraint is C03's business
    k.txt = nm + "("; for (size_t j = 0; j < k.v.size(); ++j) k.txt += (j ? ", " : "") + vs[k.v[j]].name; k.txt += ");\n"; cs.push_back(k);
  }
  for (auto& k : cs) t += k.txt;
  std::string hd = r.pick(std::vector<std::string>{"Min", "Max", "StandardVariableHandler", "Min"}), cfg = "<Solver name=\"S\"><UnboundVariableManager>";
  for (int i = 0; i < n; ++i) if (r.chance(30)) cfg += "<FlawHandler component=\"" + r.pick(std::vector<std::string>{"Min", "Max"}) + "\" var-match=\"v" + S(i) + "\" priority=\"" + S(r.range(0, 5)) + "\"/>";
  cfg += "<FlawHandler component=\"" + hd + "\"/></UnboundVariableManager></Solver>";
  c.trace << t << cfg << "\n"; std::string err = e.nddl(t);
  // all assignments
  long sols = 0; std::vector<long> x((size_t)n); std::set<std::vector<long>> all;
  std::function<void(int)> go = [&](int i) { if (i == n) { for (auto& k : cs) { std::vector<long> y; for (auto v : k.v) y.push_back(x[v]); if (!k.f(y)) return; } ++sols; all.insert(x); return; } for (auto v : vs[i].vals) { x[i] = v; go(i + 1); } };
  go(0);
  if (!err.empty()) { c.fail("rejected", err); return; }
  if (!e.ce->propagate()) { c.count("csp_refuted_at_once"); if (sols) c.fail("csp-missed", "found inconsistent although " + S(sols) + " assignments satisfy everything"); return; }
  SolverId s = make(e, cfg, 0, 100); bool found = s->solve(3000, 3000); c.trace << (found ? "solved" : s->isExhausted() ? "exhausted" : "timed out") << " in " << s->getStepCount() << " steps, " << sols << " solutions\n";
  c.count(found ? "csp_solved" : s->isExhausted() ? "csp_exhausted" : "csp_timed_out"); c.count("csp_steps", s->getStepCount());
  auto value = [&](const CV& v, long& out) { const Domain& d = e.pdb->getGlobalVariable(v.name)->lastDomain(); if (!d.isSingleton()) return false; std::string q = dom(d); q.erase(std::remove_if(q.begin(), q.end(), [](char z) { return strchr("{}[] ?", z); }), q.end());
    if (d.isNumeric()) out = (long)cast_double(d.getSingletonValue()); else if (d.isEntity()) out = q[1] - '0'; else { out = -1; for (int j = 0; j < 4; ++j) if (d.getSingletonValue() == edouble(LabelStr(col[j]).getKey()) || d.toString(d.getSingletonValue()).find(col[j]) != std::string::npos) out = j; } return true; };
  if (found && s->isExhausted()) c.fail("csp-both", "solved and exhausted"); if (found) {
    if (!e.ce->constraintConsistent()) c.fail("csp-inconsistent", "success with an inconsistent network"); if (!s->noMoreFlaws()) c.fail("csp-flaws-left", "success with flaws left");
    for (int i = 0; i < n; ++i) if (!value(vs[i], x[i])) { c.fail("csp-unbound", vs[i].name + " is " + dom(e.pdb->getGlobalVariable(vs[i].name)->lastDomain())); return; }
    std::string a; for (int i = 0; i < n; ++i) a += vs[i].name + "=" + S(x[i]) + " "; if (!all.count(x)) c.fail("csp-wrong", "the assignment breaks the constraints: " + a); c.seen(t + a);
  } else if (s->isExhausted()) { if (sols) { std::string a; for (int i = 0; i < n; ++i) a += vs[i].name + "=" + S((*all.begin())[i]) + " "; c.fail("csp-missed", "declared exhausted although " + S(sols) + " assignments satisfy everything, e.g. " + a); } c.seen(t); }
  else if (s->getStepCount() < 3000) c.fail("csp-gave-up", "neither solved nor exhausted after " + S(s->getStepCount()) + " steps");
  if (c.failed()) return;
  // the solver can be asked again for another solution: leave the last choice
  if (found && r.chance(60)) {
    std::set<std::vector<long>> seen = {x}; long k = 0; bool comp = true;
    for (; k < 200; ++k) {
      if (s->getDepth() == 0) break;
      if (!s->backjump(1)) { if (s->isExhausted()) break; comp = false; break; }
      if (!s->solve(3000, 3000)) { if (!s->isExhausted()) comp = false; break; }
      for (int i = 0; i < n; ++i) if (!value(vs[i], x[i])) { c.fail("csp-unbound", "later solution"); return; }
      std::string a; for (int i = 0; i < n; ++i) a += vs[i].name + "=" + S(x[i]) + " ";
      if (!all.count(x)) { c.fail("csp-wrong", "a later assignment breaks the constraints: " + a); return; }
      if (!seen.insert(x).second) { c.fail("csp-repeated", "the same assignment is found twice: " + a); return; }
      c.count("csp_further_solutions");
    }
    if (comp && k < 200 && s->isExhausted() && seen.size() != all.size()) c.fail("csp-missed", "search over all solutions ended after " + S((long)seen.size()) + " of " + S((long)all.size()));
  }
  if (!c.failed()) { delete (Solver*)s; delete ep; }
}

// ------------------------------------------------------------------ planning problems
static void plan(H::Ctx& c) {
  dbg(); H::Rng& r = c.rng; Prob P = gen(r, c.thorough ? 2 : 1, getenv("RES") ? atoi(getenv("RES")) : 20); std::string t = P.text(), cfg = config(r, true, P.cap > 0); c.trace << t << cfg << "\n";
  Brute b(P, 60000); int want = b.decide(); c.count(want == 1 ? "solvable" : want == 0 ? "unsolvable" : "too_hard");
  c.trace << (want == 1 ? "there is a plan: " + b.plan : want == 0 ? std::string("there is no plan") : std::string("undecided")) << "\n";
  Eng* ep = new Eng(P.cap > 0); Eng& e = *ep; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  if (!e.ce->propagate()) { c.count("refuted_at_once"); if (want == 1) c.fail("missed-plan", "found inconsistent although there is a plan: " + b.plan); return; }
  SolverId s = make(e, cfg, 0, P.H); bool found = s->solve(600, 200);
  c.trace << (found ? "solved" : s->isExhausted() ? "exhausted" : "timed out") << " in " << s->getStepCount() << " steps\n"; c.count(found ? "plan_solved" : s->isExhausted() ? "plan_exhausted" : "plan_timed_out"); c.count("plan_steps", s->getStepCount());
  if (found) {
    std::string p; long ch = 0;
    if (s->isExhausted()) { c.fail("both", "solved and exhausted"); return; }
    if (!e.ce->constraintConsistent()) { c.fail("inconsistent", "success with an inconsistent network"); return; }
    if (!s->noMoreFlaws()) { c.fail("flaws-left", "success with flaws left"); return; }
    if (!e.pdb->getTokensToOrder().empty()) { c.fail("threats-left", "success with tokens to order"); return; }
    std::string w = judge(P, e, p, ch); c.trace << "plan: " << p << "\n"; c.count("facts_checked", ch);
    if (!w.empty()) { c.fail("invalid-plan", w); return; }
    if (want == 0) { c.fail("impossible-plan", "no plan exists, yet the solver's passes: " + p); return; }
    c.seen(p);
  } else if (s->isExhausted()) { if (want == 1 && P.cap > 0) c.count("resource_plans_missed");   // resource threats offer orderings only: not complete by design
    else if (want == 1) { c.fail("missed-plan", "declared exhausted although there is a plan: " + b.plan); return; } c.seen(t); }
  else if (s->getStepCount() < 600 && s->getDepth() < 200) { c.fail("gave-up", "neither solved nor exhausted after " + S(s->getStepCount()) + " steps"); return; }
  delete (Solver*)s; delete ep;
}
static void run(H::Ctx& c) { const char* m = getenv("MODE"); if (m ? !strcmp(m, "csp") : c.idx % 2) csp(c); else plan(c); }
static H::Suite suite{"solver", 0, run, nullptr, 60};
HARNESS_MAIN(suite)
