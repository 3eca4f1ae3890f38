// C16: text in the modelling language means what the language says.
// MODE=illformed: text that is not well formed is rejected with an error.
#include "plan.hh"
using namespace PL;
static std::string S(long v) { return std::to_string(v); }
static const char* mode = getenv("MODE");

// ---------------------------------------------------------------- expressions
enum Ty { INT, FLT, BOO };
struct Ex { std::string op; Ty t; double v = 0; std::string name; std::vector<Ex> k; };
static int prec(const Ex& e) { if (e.k.empty() || e.op == "f") return 9; if (e.op == "||") return 1; if (e.op == "&&") return 2; if (e.op == "+" || e.op == "-") return 4; if (e.op == "*") return 5; return 3; }
static std::string half(double v) { char b[40]; if (v == (long)v) snprintf(b, sizeof b, "%ld.0", (long)v); else snprintf(b, sizeof b, "%g", v); return b; }
static std::string text(const Ex& e, H::Rng& r) {
  if (e.op == "c") { if (e.t == BOO) return e.v ? "true" : "false"; if (e.t == FLT) return half(e.v); return S((long)e.v); }
  if (e.op == "v") return e.name;
  if (e.op == "f") { std::string s = e.name + "("; for (size_t i = 0; i < e.k.size(); ++i) s += (i ? ", " : "") + text(e.k[i], r); return s + ")"; }
  auto sub = [&](const Ex& k, bool right) { std::string s = text(k, r); bool need = right ? prec(k) <= prec(e) : prec(k) < prec(e); return need || r.chance(10) ? "(" + s + ")" : s; };
  std::string l = sub(e.k[0], false), q = sub(e.k[1], true); return l + " " + e.op + " " + q;
}
typedef std::map<std::string, double> Env;
static double ev(const Ex& e, const Env& n) {
  if (e.op == "c") return e.v; if (e.op == "v") return n.at(e.name);
  double a = ev(e.k[0], n), b = e.k.size() > 1 ? ev(e.k[1], n) : 0;
  if (e.op == "f") { if (e.name == "max") return std::max(a, b); if (e.name == "min") return std::min(a, b); return std::fabs(a); }
  if (e.op == "+") return a + b; if (e.op == "-") return a - b; if (e.op == "*") return a * b; if (e.op == "==") return a == b; if (e.op == "!=") return a != b;
  if (e.op == "<") return a < b; if (e.op == "<=") return a <= b; if (e.op == ">") return a > b; if (e.op == ">=") return a >= b; if (e.op == "&&") return a && b; return a || b;
}
struct Var { std::string name; Ty t; };
static Ex num(H::Rng& r, const std::vector<Var>& vs, Ty t, int d) {
  Ex e; e.t = t;
  if (d == 0 || r.chance(35)) { std::vector<Var> c; for (auto& v : vs) if (v.t == t) c.push_back(v); if (c.size() && r.chance(75)) { e.op = "v"; e.name = r.pick(c).name; } else { e.op = "c"; e.v = t == INT ? (double)r.range(-4, 4) : r.range(-8, 8) / 2.0; } return e; }
  e.op = r.pick(std::vector<std::string>{"+", "-", "*", "+", "-"}); e.k = {num(r, vs, t, d - 1), num(r, vs, t, d - 1)}; return e;
}
static Ex boo(H::Rng& r, const std::vector<Var>& vs, int d) {
  Ex e; e.t = BOO;
  if (d == 0 || r.chance(10)) { std::vector<Var> c; for (auto& v : vs) if (v.t == BOO) c.push_back(v); if (c.size() && r.chance(85)) { e.op = "v"; e.name = r.pick(c).name; return e; } if (r.chance(30)) { e.op = "c"; e.v = r.below(2); return e; } }
  if (d > 0 && r.chance(45)) { e.op = r.chance(50) ? "&&" : "||"; e.k = {boo(r, vs, d - 1), boo(r, vs, d - 1)}; return e; }
  Ty t = r.chance(60) ? INT : FLT; e.op = r.pick(std::vector<std::string>{"==", "!=", "<", "<=", ">", ">="}); int q = (int)r.below(3);
  e.k = {num(r, vs, t, q), num(r, vs, t, (int)r.below(3))}; return e;
}

static void once(Ex& e, std::set<std::string>& seen, H::Rng& r) { if (e.op == "v" && e.t == FLT && !seen.insert(e.name).second) { e.op = "c"; e.v = r.range(-8, 8) / 2.0; } for (auto& k : e.k) once(k, seen, r); }
static void sp(ConstrainedVariableId v, double x) { v->specify(edouble(x)); }

static void exprCase(H::Ctx& c) {
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep;
  std::vector<Var> vs; int n = (int)r.range(2, 5); for (int i = 0; i < n; ++i) vs.push_back({"v" + S(i), r.chance(50) ? INT : r.chance(50) ? FLT : BOO});
  static const char* tn[] = {"I", "F", "bool"};   // bounded: contradictory inequalities over unbounded variables take their time
  bool global = r.chance(40); std::string decl; for (auto& v : vs) decl += std::string(tn[v.t]) + " " + v.name + ";\n";
  int where = (int)r.below(2); Ex x = boo(r, vs, (int)r.below(4));
  if (!global && !where) for (;;) { bool flat = x.op != "&&" && x.op != "||"; for (auto& k : x.k) flat = flat && k.k.empty(); if (flat) break; x = boo(r, vs, 0); }   // a predicate's body has no room for the intermediate values
  std::set<std::string> floats; once(x, floats, r);
  std::string body = (r.chance(40) ? "enforce " : "") + text(x, r) + (r.chance(10) ? " : \"why\"" : "") + ";\n";
  Env env; for (auto& v : vs) env[v.name] = v.t == BOO ? (double)r.below(2) : v.t == INT ? (double)r.range(-4, 4) : r.range(-8, 8) / 2.0;
  std::string t; if (global) t = decl + body; else t = std::string("class K { predicate p { ") + decl + (where ? "" : body) + "} }\n" + (where ? "K::p { " + body + "}\n" : "") + "K k = new K();\nclose();\nfact(K.p t);\n";
  if (r.chance(90)) t = "typedef int [-60 60] I;\ntypedef float [-60.0 60.0] F;\n" + t; else { t = "typedef int [-9 9] I;\ntypedef float [-9.0 9.0] F;\n" + t; }   // a result may lie outside the type of the operands
  c.trace << t << "\n"; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  auto var = [&](const std::string& nm) { return global ? e.pdb->getGlobalVariable(nm) : e.pdb->getGlobalToken("t")->getVariable(nm); };
  if (!global) { e.pdb->getGlobalToken("t")->activate(); e.ce->propagate(); }
  bool want = ev(x, env) != 0;
  std::vector<Var> order = vs; for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  bool ok = e.ce->propagate();
  for (auto& v : order) { auto w = var(v.name); if (w.isNoId()) { c.fail("no-variable", v.name); return; } if (ok && !w->lastDomain().isMember(edouble(env[v.name]))) { ok = false; break; } if (w->lastDomain().isMember(edouble(env[v.name]))) sp(w, env[v.name]); c.trace << v.name + "=" + half(env[v.name]) << "\n"; if (r.chance(60)) { ok = e.ce->propagate(); if (!ok) break; } }
  if (ok) ok = e.ce->propagate();
  c.count(want ? "true_expressions" : "false_expressions"); c.seen(body);
  if (ok != want) { c.fail(want ? "refuted-truth" : "accepted-falsehood", text(x, r) + " is " + (want ? "true" : "false")); return; }
  delete ep;
}

// ---------------------------------------------------------------- relations
struct Rel { const char* name; std::function<bool(long, long, long, long)> f; };   // origin start, end, target start, end
static std::vector<Rel> RELS = {
  {"any", [](long, long, long, long) { return true; }}, {"meets", [](long, long b, long s, long) { return b == s; }}, {"met_by", [](long a, long, long, long d) { return d == a; }},
  {"before", [](long, long b, long s, long) { return b <= s; }}, {"after", [](long a, long, long, long d) { return d <= a; }},
  {"contains", [](long a, long b, long s, long d) { return a <= s && d <= b; }}, {"contained_by", [](long a, long b, long s, long d) { return s <= a && b <= d; }},
  {"starts", [](long a, long, long s, long) { return a == s; }}, {"ends", [](long, long b, long, long d) { return b == d; }},
  {"equals", [](long a, long b, long s, long d) { return a == s && b == d; }}, {"equal", [](long a, long b, long s, long d) { return a == s && b == d; }},
  {"parallels", [](long a, long b, long s, long d) { return a <= s && b <= d; }}, {"paralleled_by", [](long a, long b, long s, long d) { return s <= a && d <= b; }},
  {"ends_after", [](long, long b, long, long d) { return d < b; }}, {"ends_before", [](long, long b, long, long d) { return b < d; }},
  {"ends_after_start", [](long, long b, long s, long) { return s < b; }}, {"starts_before_end", [](long a, long, long, long d) { return a < d; }},
  {"starts_during", [](long a, long, long s, long d) { return s <= a && a < d; }}, {"ends_during", [](long, long b, long s, long d) { return s < b && b <= d; }},
  {"contains_start", [](long a, long b, long s, long) { return a <= s && s < b; }}, {"contains_end", [](long a, long b, long, long d) { return a < d && d <= b; }},
  {"starts_after", [](long a, long, long s, long) { return s < a; }}, {"starts_before", [](long a, long, long s, long) { return a < s; }}};
static void relCase(H::Ctx& c) {
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep; const Rel& q = r.pick(RELS); int form = (int)r.below(4); std::string rel = q.name, t = "class K { predicate p {} predicate q {} }\n";
  std::string a = "m", b = "s"; bool two = r.chance(30);
  if (form == 0) t += "K::p { " + rel + "(object.q d); }\n"; else if (form == 1) t += "K::p { any(K.q d); this " + rel + " d; }\n"; else if (form == 2) t += "K::p { any(K.q d); " + rel + " d; }\n";
  if (form < 3 && two) t += "K::p { if (start < 1000) { " + rel + "(K.q e); } }\n";
  t += "K k = new K();\nclose();\nfact(K.p m);\n"; if (form == 3) t += "fact(K.q s);\nm " + rel + " s;\n";
  c.trace << t << "\n"; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  TokenId m = e.pdb->getGlobalToken("m"); m->activate(); if (form == 3) e.pdb->getGlobalToken("s")->activate();
  if (!e.ce->propagate()) { c.fail("inconsistent", "before any time is fixed"); return; }
  TokenId s = form == 3 ? e.pdb->getGlobalToken("s") : m->slaves().empty() ? TokenId() : *m->slaves().begin(); if (s.isNoId()) { c.fail("no-subgoal", rel); return; }
  if (form < 3 && m->slaves().size() != 1) { c.fail("subgoals", S((long)m->slaves().size())); return; }
  if (form < 3 && s->getRelation() != (form == 0 ? rel : "any")) { c.fail("relation-name", s->getRelation()); return; }
  // windows: bounds after propagation enclose what is possible and each bound is reached (bounds are exact for such relations)
  long A = r.range(0, 6), B = r.range(A + 1, 8), C = r.range(0, 6), D = r.range(C + 1, 8); long x[4] = {A, B, C, D};
  if (r.chance(60)) { // near a boundary of the relation
    long y[4] = {A, B, C, D}; for (int i = 0; i < 20; ++i) { for (int k = 0; k < 4; ++k) y[k] = r.range(0, 7); if (y[0] < y[1] && y[2] < y[3] && q.f(y[0], y[1], y[2], y[3])) { for (int k = 0; k < 4; ++k) x[k] = y[k]; break; } }
    if (r.chance(40)) { int k = (int)r.below(4); x[k] += r.chance(50) ? 1 : -1; if (x[0] >= x[1] || x[2] >= x[3]) { delete ep; return; } } }
  bool want = q.f(x[0], x[1], x[2], x[3]); std::vector<int> o = {0, 1, 2, 3}; for (size_t i = 4; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
  ConstrainedVariableId v[4] = {m->start(), m->end(), s->start(), s->end()}; bool ok = true;
  for (int k : o) { if (!v[k]->lastDomain().isMember(edouble((double)x[k]))) { ok = false; break; } sp(v[k], (double)x[k]); c.trace << "specify " + S(k) + " " + S(x[k]) << "\n"; if (r.chance(60) && !(ok = e.ce->propagate())) break; }
  if (ok) ok = e.ce->propagate();
  c.count(want ? "relation_holds" : "relation_fails"); c.seen(rel + S(form) + S(x[0]) + "," + S(x[1]) + "," + S(x[2]) + "," + S(x[3]));
  if (ok != want) { c.fail("relation/" + rel, rel + " of [" + S(x[0]) + "," + S(x[1]) + "] and [" + S(x[2]) + "," + S(x[3]) + "] is " + (want ? "true" : "false")); return; }
  delete ep;
}

// ---------------------------------------------------------------- declarations
struct TyInfo { std::string name, base; bool isInt, isFlt, isEnum, isBool, isStr; double lo, hi; std::vector<std::string> vals; std::vector<double> nums; };
static std::string show(const TyInfo& t) { std::string s; if (t.isBool) return "[0,1]"; if (t.isStr) return "{}?"; if (t.isEnum) { auto v = t.vals; std::sort(v.begin(), v.end()); s = "{"; for (auto& x : v) s += x + " "; return s + "}"; }
  if (t.nums.size()) { std::vector<std::string> v; for (double d : t.nums) v.push_back(PL::num(edouble(d))); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); s = "{"; for (auto& x : v) s += x + " "; return s + "}"; }
  auto nm = [](double d) { return d >= 1e15 ? std::string("+inf") : d <= -1e15 ? std::string("-inf") : PL::num(edouble(d)); }; return "[" + nm(t.lo) + "," + nm(t.hi) + "]"; }
static std::string lit(H::Rng& r, bool flt, double v) {
  if (v >= 1e15) return r.chance(30) ? std::string("+") + (flt ? "inff" : "inf") : flt ? "inff" : "inf"; if (v <= -1e15) return flt ? "-inff" : "-inf";
  if (!flt) return (v >= 0 && r.chance(20) ? "+" : "") + S((long)v) + (r.chance(10) ? "L" : "");
  char b[60]; double a = std::fabs(v); std::string sg = v < 0 ? "-" : r.chance(20) ? "+" : "";
  switch ((int)r.below(5)) { case 0: snprintf(b, sizeof b, "%.3f", a); break; case 1: snprintf(b, sizeof b, "%.4ff", a); break; case 2: if (sg.empty()) { snprintf(b, sizeof b, "%.6e", a); break; } case 3: if (a == (long)a) { snprintf(b, sizeof b, "%ld.", (long)a); break; } default: snprintf(b, sizeof b, "%.3fd", a); }
  return sg + b; }
static const double INF = 1e16;
struct Val { std::string text; TyInfo t; };   // what a variable initialised so is
static bool sample(H::Rng& r, const TyInfo& t, Val& out) {   // an initialiser within the type
  out.t = t; auto& o = out.t; auto cl = [](double v, double lo, double hi) { return std::min(hi, std::max(lo, v)); };
  if (t.isBool) { int b = (int)r.below(2); out.text = b ? "true" : "false"; o.isBool = false; o.lo = o.hi = b; return true; }
  if (t.isStr) { std::string s = r.pick(std::vector<std::string>{"", "a", "a b", "x.y", "{1}", "//no", "1"}); out.text = "\"" + s + "\""; o.isStr = false; o.isEnum = true; o.vals = {s}; return true; }
  if (t.isEnum) { std::vector<std::string> v = t.vals; for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); v.resize(r.range(1, (long)v.size())); if (v.size() == 1 && r.chance(70)) out.text = v[0]; else { out.text = "{"; for (size_t i = 0; i < v.size(); ++i) out.text += (i ? ", " : "") + v[i]; out.text += "}"; } o.vals = v; return true; }
  if (t.nums.size()) { double v = r.pick(t.nums); out.text = lit(r, t.isFlt, v); o.nums = {v}; return true; }
  double lo = std::max(t.lo, -50.0), hi = std::min(t.hi, 50.0); if (lo > hi) return false;
  auto pick = [&]() { return t.isFlt ? cl(r.range((long)(lo * 2), (long)(hi * 2)) / 2.0, lo, hi) : (double)r.range((long)lo, (long)hi); };
  double a = pick(), b = pick(); if (a > b) std::swap(a, b);
  if (r.chance(50)) { out.text = lit(r, t.isFlt, a); o.lo = o.hi = a; } else { if (t.hi >= 1e15 && r.chance(20)) b = INF; if (t.lo <= -1e15 && r.chance(20)) a = -INF; out.text = "[" + lit(r, t.isFlt, a) + (r.chance(50) ? ", " : " ") + lit(r, t.isFlt, b) + "]"; o.lo = a; o.hi = b; }
  return true;
}
static std::vector<TyInfo> types(H::Rng& r, std::string& txt) {
  std::vector<TyInfo> ts = {{"int", "int", true, false, false, false, false, -INF, INF, {}, {}}, {"float", "float", false, true, false, false, false, -INF, INF, {}, {}}, {"bool", "bool", false, false, false, true, false, 0, 1, {}, {}}, {"string", "string", false, false, false, false, true, 0, 0, {}, {}}};
  int n = (int)r.range(0, 3);
  for (int i = 0; i < n; ++i) { TyInfo t = ts[0]; t.name = "E" + S(i); t.base = t.name; t.isInt = false; t.isEnum = true; int k = (int)r.range(1, 4); std::string s; for (int j = 0; j < k; ++j) { t.vals.push_back("e" + S(i) + "_" + S(j)); s += (j ? ", " : "") + t.vals.back(); } txt += "enum " + t.name + " { " + s + " }\n"; ts.push_back(t); }
  n = (int)r.range(0, 3);
  for (int i = 0; i < n; ++i) { TyInfo b = r.pick(ts); if (b.isBool || b.isStr || b.nums.size()) continue; TyInfo t = b; t.name = "N" + S(i); std::string d;
    if (b.isEnum) { Val v; sample(r, b, v); if (v.text[0] != '{') v.text = "{" + v.text + "}"; d = v.text; t.vals = v.t.vals; }
    else if (r.chance(25) && b.base == b.name) { int k = (int)r.range(1, 4); t.nums.clear(); d = "{"; for (int j = 0; j < k; ++j) { double x = b.isFlt ? r.range(-20, 20) / 2.0 : (double)r.range(-20, 20); t.nums.push_back(x); d += (j ? ", " : "") + lit(r, b.isFlt, x); } d += "}"; }
    else { Val v; if (!sample(r, b, v) || v.t.nums.size()) continue; if (v.text[0] != '[') v.text = "[" + v.text + " " + v.text + "]"; d = v.text; t.lo = v.t.lo; t.hi = v.t.hi; }
    txt += "typedef " + b.name + " " + d + " " + t.name + ";\n"; ts.push_back(t); }
  return ts;
}
static std::string cmt(H::Rng& r) { return r.chance(85) ? "" : r.pick(std::vector<std::string>{"// x = 3; {\n", "/* int q = 1; */ ", "\n\t\r\n", "/* a\n * b\n **/", ";"}); }
static std::string sdom(ConstrainedVariableId v) { const Domain& d = v->lastDomain(); if (d.isString()) { if (d.isOpen() && d.getSize() == 0) return "{}?"; std::string s = dom(d); return s; } if (d.isOpen()) return dom(d); 
  if (!d.isInterval() && d.isNumeric()) return dom(d); return dom(d); }
static std::string norm(std::string s) { // {v } and [v,v] are the same set
  if (s.size() > 2 && s[0] == '[') { size_t k = s.find(','); if (s.substr(1, k - 1) == s.substr(k + 1, s.size() - k - 2)) return "{" + s.substr(1, k - 1) + " }"; } return s; }
static bool same(H::Ctx& c, const std::string& what, ConstrainedVariableId v, const TyInfo& t) {
  c.count("variables"); if (v.isNoId()) { c.fail("no-variable", what); return false; }
  std::string a = norm(dom(v->lastDomain())), b = norm(show(t)); c.seen(b);
  if (a != b) { c.fail("domain", what + " is " + a + " and not " + b); return false; } return true; }

static void declCase(H::Ctx& c) {
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep; std::string t; auto ts = types(r, t);
  struct G { std::string name; TyInfo t; }; std::vector<G> gs; int n = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) { t += cmt(r); const TyInfo& ty = r.pick(ts); G g{"g" + S(i), ty}; t += ty.name + " " + g.name; Val v; if (r.chance(65) && sample(r, ty, v)) { t += (r.chance(70) ? " = " + v.text : "(" + v.text + ")"); g.t = v.t; }
    if (r.chance(20)) { G h{"h" + S(i), ty}; t += ", " + h.name; if (r.chance(50) && sample(r, ty, v)) { t += " = " + v.text; h.t = v.t; } gs.push_back(h); } t += ";\n"; gs.push_back(g); }
  n = (int)r.range(0, 4);
  for (int i = 0; i < n; ++i) { auto& g = gs[r.below(gs.size())]; if (g.t.isStr || g.t.name == "string") continue; Val v; if (!sample(r, g.t, v)) continue; t += cmt(r) + g.name + (r.chance(50) ? " = " : " in ") + v.text + ";\n"; g.t = v.t; }
  c.trace << t << "\n"; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  if (!e.ce->propagate()) { c.fail("inconsistent", ""); return; }
  for (auto& g : gs) if (!same(c, g.name, e.pdb->isGlobalVariable(g.name) ? e.pdb->getGlobalVariable(g.name) : ConstrainedVariableId(), g.t)) return;
  if (e.pdb->getGlobalVariables().size() != gs.size()) { c.fail("variables", S((long)e.pdb->getGlobalVariables().size())); return; }
  delete ep;
}

// ---------------------------------------------------------------- classes, constructors, objects
struct Mem { std::string name; int ty; int cls; };   // ty into types, or cls
struct Cls { std::string name; int parent; std::vector<Mem> mems; std::vector<std::pair<std::string, int>> args; std::vector<int> fromArg; std::vector<Val> consts; std::vector<int> how; std::vector<std::string> superArgs; std::vector<int> superFrom; std::vector<Val> superVal; bool ctor; };
static void classCase(H::Ctx& c) {
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep; std::string t; auto ts = types(r, t); std::vector<int> ok; for (size_t i = 0; i < ts.size(); ++i) ok.push_back((int)i);
  std::vector<Cls> cs; int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Cls k; k.name = "C" + S(i); k.parent = i && r.chance(60) ? (int)r.below(i) : -1; std::string s = "class " + k.name + (k.parent >= 0 ? " extends " + cs[k.parent].name : "") + " {\n";
    int m = (int)r.range(0, 3); for (int j = 0; j < m; ++j) { Mem x{"m" + S(i) + "_" + S(j), r.pick(ok), -1}; k.mems.push_back(x); s += "  " + ts[x.ty].name + " " + x.name + ";\n"; }
    // every member is set in the constructor, from an argument or a value
    std::string body; int na = 0; std::string args;
    auto newArg = [&](int ty) { k.args.push_back({"a" + S(na++), ty}); args += (na > 1 ? ", " : "") + ts[ty].name + " " + k.args.back().first; return (int)k.args.size() - 1; };
    if (k.parent >= 0) { auto& p = cs[k.parent]; std::string l; for (size_t j = 0; j < p.args.size(); ++j) { Val v; bool val = false; if (r.chance(50) && sample(r, ts[p.args[j].second], v) && v.text.find_first_of("[{") == std::string::npos) val = true; if (val) { k.superFrom.push_back(-1); k.superVal.push_back(v); l += (j ? ", " : "") + v.text; } else { int a = newArg(p.args[j].second); k.superFrom.push_back(a); k.superVal.push_back(Val()); l += (j ? ", " : "") + k.args[a].first; } } body += "    super(" + l + ");\n"; }
    for (auto& x : k.mems) { Val v; int h = (int)r.below(3); if (ts[x.ty].name[0] == 'N') { h = 1; /* arguments are matched by the name of their type */ for (int q = 0; q < 1000 && !sample(r, ts[x.ty], v); ++q) {} } if (h == 1 && (ts[x.ty].name[0] == 'N' || sample(r, ts[x.ty], v))) { body += "    " + x.name + " = " + v.text + ";\n"; k.fromArg.push_back(-1); k.consts.push_back(v); } else { int a = newArg(x.ty); body += "    " + x.name + " = " + k.args[a].first + ";\n"; k.fromArg.push_back(a); k.consts.push_back(Val()); } }
    s += "  " + k.name + "(" + args + ") {\n" + body + "  }\n}\n"; t += s; cs.push_back(k);
  }
  struct Ob { std::string name; int cls; std::vector<Val> args; }; std::vector<Ob> os; n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) { Ob o; o.name = "o" + S(i); o.cls = (int)r.below(cs.size()); std::string l; bool good = true; for (auto& a : cs[o.cls].args) { Val v; do { good = good && sample(r, ts[a.second], v); } while (good && v.text.find_first_of("[{") != std::string::npos && !ts[a.second].isStr && r.chance(90)); o.args.push_back(v); l += (l.empty() ? "" : ", ") + v.text; }
    if (!good) { delete ep; return; } t += cs[o.cls].name + " " + o.name + " = new " + cs[o.cls].name + "(" + l + ");\n"; os.push_back(o); }
  int refs = (int)r.below(3); std::vector<std::pair<std::string, int>> rv; for (int i = 0; i < refs; ++i) { int k = (int)r.below(cs.size()); rv.push_back({"ref" + S(i), k}); t += cs[k].name + " ref" + S(i) + ";\n"; }
  t += "close();\n"; c.trace << t << "\n"; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  if (!e.ce->propagate()) { c.fail("inconsistent", ""); return; }
  std::function<bool(const std::string&, ObjectId, int, const std::vector<Val>&)> check = [&](const std::string& nm, ObjectId o, int k, const std::vector<Val>& av) {
    auto& cl = cs[k]; if (cl.parent >= 0) { std::vector<Val> sa; for (size_t j = 0; j < cl.superFrom.size(); ++j) sa.push_back(cl.superFrom[j] >= 0 ? av[cl.superFrom[j]] : cl.superVal[j]); if (!check(nm, o, cl.parent, sa)) return false; }
    for (size_t j = 0; j < cl.mems.size(); ++j) { const Val& v = cl.fromArg[j] >= 0 ? av[cl.fromArg[j]] : cl.consts[j]; if (!same(c, nm + "." + cl.mems[j].name, o->getVariable(nm + "." + cl.mems[j].name), v.t)) return false; } return true; };
  auto isA = [&](int k, int anc) { for (; k >= 0; k = cs[k].parent) if (k == anc) return true; return false; };
  for (auto& o : os) { ObjectId id = e.pdb->getObject(o.name); c.count("objects"); if (id.isNoId()) { c.fail("no-object", o.name); return; } if (id->getType() != cs[o.cls].name) { c.fail("object-type", o.name + " is a " + id->getType()); return; } if (!check(o.name, id, o.cls, o.args)) return;
    size_t cnt = 0; for (int k = o.cls; k >= 0; k = cs[k].parent) cnt += cs[k].mems.size(); if (id->getVariables().size() != cnt) { c.fail("members", o.name + " has " + S((long)id->getVariables().size())); return; } }
  if (e.pdb->getObjects().size() != os.size()) { c.fail("objects", S((long)e.pdb->getObjects().size())); return; }
  for (auto& p : rv) { std::vector<std::string> l; for (auto& o : os) if (isA(o.cls, p.second)) l.push_back(o.name); std::sort(l.begin(), l.end()); std::string w = "{"; for (auto& x : l) w += x + " "; w += "}"; auto v = e.pdb->getGlobalVariable(p.first); std::string g = dom(v->lastDomain()); c.count("object_variables"); if (g != w && !(l.empty())) { c.fail("object-variable", p.first + " is " + g + " and not " + w); return; } }
  delete ep;
}

// ---------------------------------------------------------------- rules: predicates, inheritance, guards, loops
struct St { int kind; std::string rel, pred, nm; std::string cond; std::string vr, vl; bool neg; std::vector<St> a, b; bool cls; Ex x; };
static void gen(H::Rng& r, std::vector<St>& out, int d, int& id, const std::vector<Var>& vs) {
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) { St s; int k = (int)r.below(d > 0 ? 5 : 2); s.kind = k < 2 ? 0 : k < 4 ? 1 : 2;
    if (s.kind == 0) { s.rel = r.pick(RELS).name; if (s.rel == "equal") s.rel = "equals"; s.rel = r.chance(60) ? "any" : s.rel; s.pred = r.pick(std::vector<std::string>{"a", "b"}); s.nm = r.chance(70) ? "s" + S(id++) : ""; s.cls = r.chance(50); }
    else if (s.kind == 1) { s.neg = r.chance(40); int w = (int)r.below(4); s.vr = w == 0 ? "n" : w == 1 ? "e" : w == 2 ? "f" : ""; if (w == 0) s.vl = S(r.range(0, 3)); else if (w == 1) s.vl = r.pick(std::vector<std::string>{"A", "B", "D"}); else if (w == 2) s.vl = r.chance(50) ? "true" : "false"; else { s.x = boo(r, vs, (int)r.below(3)); } gen(r, s.a, d - 1, id, vs); if (r.chance(50)) gen(r, s.b, d - 1, id, vs); }
    else { s.vr = r.pick(std::vector<std::string>{"q"}); s.nm = "i" + S(id++); gen(r, s.a, d - 1, id, vs); }
    out.push_back(s); }
}
static std::string txt(const std::vector<St>& b, H::Rng& r, const std::string& in) {
  std::string t; for (auto& s : b) { t += in; if (s.kind == 0) t += s.rel + "(" + (s.cls ? "K." : "object.") + s.pred + (s.nm.empty() ? "" : " " + s.nm) + ");\n";
    else if (s.kind == 1) { std::string g = s.vr.empty() ? text(s.x, r) : s.vr + (s.neg ? " != " : " == ") + s.vl; t += "if (" + g + ") {\n" + txt(s.a, r, in + "  ") + in + "}"; if (s.b.size()) t += " else {\n" + txt(s.b, r, in + "  ") + in + "}"; t += "\n"; }
    else t += "foreach (" + s.nm + " in " + s.vr + ") {\n" + txt(s.a, r, in + "  ") + in + "}\n"; } return t; }
static void want(const std::vector<St>& b, const std::map<std::string, std::string>& val, const Env& env, int loop, std::vector<std::string>& out) {
  for (auto& s : b) { if (s.kind == 0) out.push_back(s.rel + ":K." + s.pred + (s.cls ? "" : ":mine"));
    else if (s.kind == 1) { bool t = s.vr.empty() ? ev(s.x, env) != 0 : (val.at(s.vr) == s.vl) != s.neg; want(t ? s.a : s.b, val, env, loop, out); }
    else for (int i = 0; i < loop; ++i) want(s.a, val, env, loop, out); } }
static void ruleCase(H::Ctx& c) {
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep; std::vector<Var> vs = {{"n", INT}, {"f", BOO}, {"x", FLT}};
  int objs = (int)r.range(1, 3), id = 0; std::vector<std::vector<St>> rules((size_t)r.range(1, 2)); for (auto& b : rules) gen(r, b, 2, id, vs);
  bool inherit = r.chance(30); std::vector<St> up; if (inherit) gen(r, up, 1, id, vs);
  std::string par = "int n; C e; bool f; float x; K q;"; std::string t = "enum C { A, B, D }\nclass J;\nclass K { predicate a {} predicate b {} predicate p { " + par + " } }\n";
  if (inherit) t += "class L extends K { predicate p { float z; } }\n";
  for (auto& b : rules) t += std::string(inherit ? "L" : "K") + "::p {\n" + txt(b, r, "  ") + "}\n"; if (inherit) t += "K::p {\n" + txt(up, r, "  ") + "}\n";
  for (int i = 0; i < objs; ++i) t += "K k" + S(i) + " = new K();\n"; if (inherit) t += "L l = new L();\n"; t += "close();\n"; t += std::string("goal(") + (inherit ? "L" : "K") + ".p t);\n";
  std::map<std::string, std::string> val; Env env; int nv = (int)r.range(0, 3), fv = (int)r.below(2); double xv = r.range(-8, 8) / 2.0; val["n"] = S(nv); val["e"] = r.pick(std::vector<std::string>{"A", "B", "D"}); val["f"] = fv ? "true" : "false"; env["n"] = nv; env["f"] = fv; env["x"] = xv;
  std::string mine = inherit ? "l" : "k" + S((long)r.below(objs)); std::vector<std::string> asg = {"t.n.specify(" + val["n"] + ");\n", "t.e.specify(" + val["e"] + ");\n", "t.f.specify(" + val["f"] + ");\n", "t.x.specify(" + half(xv) + ");\n", "t.activate();\n"}; asg.push_back("t.object.specify(" + mine + ");\n");
  for (size_t i = asg.size(); i > 1; --i) std::swap(asg[i - 1], asg[r.below(i)]); for (auto& s : asg) t += s;
  int loop = objs + (inherit ? 1 : 0);
  c.trace << t << "\n"; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  bool cons = e.ce->propagate(); if (!cons) { c.count("set_aside_inconsistent"); delete ep; return; }
  TokenId tok = e.pdb->getGlobalToken("t"); std::vector<std::string> w, g; for (auto& b : rules) want(b, val, env, loop, w); if (inherit) want(up, val, env, loop, w);
  for (auto s : tok->slaves()) { std::string pn = s->getPredicateName(), on = dom(s->getObject()->lastDomain()); std::string h = s->getRelation() + ":" + pn; if (on == "{" + mine + " }" && loop > 1) h += ":mine"; g.push_back(h); if (s->master() != tok) { c.fail("master", pn); return; } }
  if (inherit) for (auto* l : {&g, &w}) for (auto& x : *l) { size_t p = x.find(":L."); if (p != std::string::npos) x[p + 1] = 'K'; }   // object.x in an inherited rule: a predicate of K or L
  if (loop == 1) for (auto& x : w) if (x.size() > 5 && x.substr(x.size() - 5) == ":mine") x.resize(x.size() - 5);
  std::sort(w.begin(), w.end()); std::sort(g.begin(), g.end()); c.count("subgoals", (long)g.size()); c.count("rules");
  std::string ws, gs; for (auto& x : w) ws += x + " "; for (auto& x : g) gs += x + " "; c.seen(ws);
  if (ws != gs) { c.fail("subgoals", "are " + gs + "\nand not " + ws); return; }
  delete ep;
}

// ---------------------------------------------------------------- problem statements
static void probCase(H::Ctx& c) {
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep; int objs = (int)r.range(1, 3);
  std::string t = "typedef int [0 9] N;\nclass K { predicate p { N n; bool f; } predicate q { } action w { N n; eq(duration, 3); } }\nclass L extends K { predicate r { N m = [2 4]; leq(m, duration); } }\n";
  std::vector<std::string> on; for (int i = 0; i < objs; ++i) { bool l = r.chance(40); on.push_back("o" + S(i)); t += std::string(l ? "L" : "K") + " o" + S(i) + " = new " + (l ? "L" : "K") + "();\n"; on.back() += l ? "L" : "K"; } t += "close();\n";
  struct T { std::string nm, pred, kind, obj, st; std::string into; }; std::vector<T> tk; int n = (int)r.range(1, 6);
  for (int i = 0; i < n; ++i) { T x; x.nm = "t" + S(i); x.kind = r.pick(std::vector<std::string>{"goal", "rejectable", "fact"}); x.st = "INACTIVE"; std::string o = r.pick(on); bool l = o.back() == 'L'; o.pop_back(); std::string p = r.pick(std::vector<std::string>{"p", "q", "w"}); if (l && r.chance(40)) p = "r";
    if (r.chance(50)) { x.obj = o; x.pred = std::string(p == "r" ? "L." : l ? "L." : "K.") + p; t += x.kind + "(" + o + "." + p + " " + x.nm + ");\n"; } else { x.obj = ""; x.pred = std::string(p == "r" || r.chance(0) ? "L." : "K.") + p; t += x.kind + "(" + x.pred + " " + x.nm + ");\n"; } tk.push_back(x); }
  std::map<std::string, std::string> spec; int m = (int)r.range(0, 8);
  for (int i = 0; i < m; ++i) { T& x = tk[r.below(tk.size())]; switch ((int)r.below(4)) {
      case 0: if (x.st == "INACTIVE") { t += x.nm + ".activate();\n"; x.st = "ACTIVE"; } break;
      case 1: if (x.st == "INACTIVE" && x.kind == "rejectable") { t += x.nm + ".reject();\n"; x.st = "REJECTED"; } break;
      case 2: if (x.st != "INACTIVE") { t += x.nm + ".cancel();\n"; x.st = "INACTIVE"; } break;
      default: if (x.pred.back() == 'p' && !spec.count(x.nm + ".n")) { std::string v = S(r.range(0, 9)); t += x.nm + ".n.specify(" + v + ");\n"; spec[x.nm + ".n"] = "{" + v + " }"; } else if (spec.count(x.nm + ".n")) { t += x.nm + ".n.reset();\n"; spec.erase(x.nm + ".n"); } } }
  c.trace << t << "\n"; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  if (!e.ce->propagate()) { c.fail("inconsistent", ""); return; }
  for (auto& x : tk) { c.count("tokens"); if (!e.pdb->isGlobalToken(x.nm)) { c.fail("no-token", x.nm); return; } TokenId k = e.pdb->getGlobalToken(x.nm);
    std::string st = k->isActive() ? "ACTIVE" : k->isInactive() ? "INACTIVE" : k->isRejected() ? "REJECTED" : "other"; if (st != x.st) { c.fail("state", x.nm + " is " + st + " and not " + x.st); return; }
    if (k->isFact() != (x.kind == "fact")) { c.fail("fact", x.nm); return; }
    bool rej = false; { std::list<edouble> l; k->getState()->baseDomain().getValues(l); for (auto v : l) if (LabelStr(v) == Token::REJECTED) rej = true; } if (rej != (x.kind == "rejectable") && x.kind != "fact") { c.fail("rejectable", x.nm); return; }
    if (k->getPredicateName() != x.pred) { c.fail("predicate", x.nm + " is of " + k->getPredicateName() + " and not " + x.pred); return; }
    std::vector<std::string> l; for (auto& o : on) { std::string nm = o.substr(0, o.size() - 1); if (x.obj.empty() ? (x.pred[0] == 'K' || o.back() == 'L') : nm == x.obj) l.push_back(nm); } std::sort(l.begin(), l.end()); std::string w = "{"; for (auto& o : l) w += o + " "; w += "}"; std::string g = dom(k->getObject()->lastDomain()); if (g != w && !l.empty()) { c.fail("token-object", x.nm + " on " + g + " and not " + w); return; }
    std::string nn = x.nm + ".n"; if (x.pred.back() == 'p') { std::string want = spec.count(nn) ? spec[nn] : "[0,9]", got = norm(dom(k->getVariable("n")->lastDomain())); if (want != got) { c.fail("parameter", nn + " is " + got + " and not " + want); return; } }
    std::string dd = norm(dom(k->duration()->lastDomain())), dw = x.pred.back() == 'w' ? "{3 }" : x.pred.back() == 'r' ? "[2,+inf]" : "[1,+inf]"; if (x.st != "REJECTED" && dd != dw) { c.fail("duration", x.nm + " lasts " + dd + " and not " + dw); return; } }
  c.seen(t); if (e.pdb->getTokens().size() != tk.size()) { c.fail("tokens", S((long)e.pdb->getTokens().size())); return; }
  delete ep;
}

// ---------------------------------------------------------------- text that is not well formed
struct Bad { const char* key; const char* text; const char* names; };
static std::vector<Bad> BADS = {
  {"undefined-type", "Foo x;", "Foo"}, {"undefined-variable", "int a; int b = zz;", "zz"}, {"undefined-variable-constraint", "int a; leq(a, zz);", "zz"}, {"undefined-constraint", "int a; int b; noSuch(a, b);", "noSuch"},
  {"undefined-function", "int a; a == foo(3);", "foo"}, {"undefined-class", "K k = new Q();", "Q"}, {"undefined-parent", "class A extends Zork { }", "Zork"}, {"undefined-predicate", "goal(K.zork t);", ""}, {"undefined-rule-class", "Zork::p { }", "Zork"}, {"undefined-rule-predicate", "K::zork { }", "zork"},
  {"undefined-token", "zork.activate();", "zork"}, {"undefined-method", "goal(K.p t); t.explode();", "explode"}, {"missing-semicolon", "int a int b;", ""}, {"unbalanced-brace", "class A { int x;", ""}, {"unbalanced-parenthesis", "int a; leq(a, 3;", ""}, {"stray", "int a; )", ""},
  {"unclosed-string", "string s = \"abc;\n", ""}, {"unclosed-comment", "int a; /* abc ", ""}, {"bad-character", "int a = #3;", ""}, {"bad-number", "int a = 3x;", ""}, {"rule-undefined-member", "K::p { leq(zz, 3); }", "zz"}, {"rule-undefined-subgoal", "K::p { meets(K.zork x); }", ""}, {"rule-undefined-relation", "K::p { overlaps(K.q x); }", ""},
  {"member-of-non-object", "int a; leq(a.b, 3);", "a"}, {"no-member", "leq(k.zz, 3);", "zz"}, {"guard-undefined", "K::p { if (zz == 3) { any(K.q x); } }", "zz"}, {"loop-undefined", "K::p { foreach (i in zz) { any(K.q x); } }", "zz"}, {"constructor-undefined-argument", "class A { int x; A(int y) { x = zz; } }\nA a = new A(3);", "zz"}, {"constructor-too-few", "class A { int x; A(int y) { x = y; } }\nA a = new A();", ""}, {"constructor-too-many", "class A { int x; A(int y) { x = y; } }\nA a = new A(1, 2);", ""}, {"constructor-wrong-type", "class A { int x; A(int y) { x = y; } }\nA a = new A(\"s\");", ""},
  {"keyword-as-name", "int class;", ""}, {"missing-include", "#include \"nowhere.nddl\"\n", "nowhere"}, {"constraint-arity", "int a; leq(a);", "leq"}, {"constraint-arity", "int a; int b; leq(a, b, a);", "leq"}, {"constraint-types", "string s; leq(s, 3);", ""}, {"typedef-undefined", "typedef Zork [0 3] M;", "Zork"}, {"typedef-wrong-type", "typedef int {\"a\"} M;", ""}, {"mixed-set", "int a = {1, \"b\"};", ""}, {"duplicate-variable", "int a; int a;", "a"}, {"duplicate-parameter", "class A { predicate p { int x; int x; } }\nA a = new A();\nclose();\ngoal(A.p t);", "x"},
  {"specify-outside", "typedef int [0 3] M; M a; a.specify(7);", ""}, {"assign-outside", "typedef int [0 3] M; M a; a = 7;", ""}, {"empty-interval", "int a = [3 1];", ""}, {"initial-value-type", "int a = \"s\";", ""}, {"initial-value-outside", "typedef int [0 3] M; M a = 7;", ""}, {"enum-value-undefined", "enum E { A1, B1 } E x = C1;", "C1"}, {"enum-value-of-other", "enum E { A1, B1 } enum F { C1 } E x = C1;", ""}, {"int-from-float", "int a = 2.5;", ""}, {"bool-from-number", "bool a = 7;", ""}, {"reject-goal", "goal(K.p t); t.reject();", ""}, {"merge-self", "goal(K.p t); t.merge(t);", ""}, {"wrong-token-class", "class A { predicate z {} } A a = new A(); goal(k.z t);", ""},
  {"object-of-other-class", "class A { } A a = new A(); K z = a;", ""}, {"literal-overflow", "int a = 99999999999999999999999;", ""},
};
static void badCase(H::Ctx& c) {
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep; std::string pre = "class K { int i; predicate p { int n; } predicate q { } K() { i = 3; } }\nK k = new K();\n"; 
  std::string err = e.nddl(pre); if (!err.empty()) { c.fail("rejected", err); return; }
  size_t idx = (size_t)c.idx; const Bad& b = BADS[idx % BADS.size()]; std::string t = b.text;
  c.trace << t << "\n"; bool threw = false; size_t v0 = e.ce->getVariables().size(), t0 = e.pdb->getTokens().size(); (void)v0; (void)t0;
  try { err = e.nddl(t); } catch (Error& x) { err = x.getMsg(); threw = true; }
  c.count("ill_formed"); if (threw) c.count("thrown"); c.seen(t);
  if (err.empty()) { c.fail(std::string("accepted/") + b.key, t); return; }
  if (*b.names && err.find(b.names) == std::string::npos) { c.fail(std::string("not-named/") + b.key, err); return; }
  // the engine still works
  std::string after = e.nddl("int later = [2 5];\nlater.specify(3);\n"); if (!after.empty()) { c.fail(std::string("afterwards/") + b.key, after); return; }
  delete ep;
}

static void run(H::Ctx& c) {
  if (getenv("DBG")) { DebugMessage::setStream(std::cerr); DebugMessage::enableMatchingMsgs("", getenv("DBG")); }
  if (mode && std::string(mode) == "illformed") { badCase(c); return; }
  switch ((int)c.rng.below(12)) { case 0: case 1: case 2: exprCase(c); break; case 3: case 4: relCase(c); break; case 5: case 6: declCase(c); break; case 7: case 8: classCase(c); break; case 9: case 10: ruleCase(c); break; default: probCase(c); }
}
#ifndef MODEL_AS_HEADER
static H::Suite suite{"model", mode && std::string(mode) == "illformed" ? (long)BADS.size() : 0, run, nullptr, 30};
HARNESS_MAIN(suite)
#endif
