// C11: resource profiles. After each consistent propagation of an edit history, the levels a resource reports are compared
// with every schedule the plan allows (enumerated), with the same plan built from nothing, and its violations with the limits.
#include "plan.hh"
#include "Debug.hh"
#include "Resource.hh"
#include "Profile.hh"
#include "Instant.hh"
#include "Transaction.hh"
#include "PSResource.hh"
#include <set>
#include <memory>
#include <cmath>
using namespace EUROPA; using PL::Eng;
static std::string S(double x) { char b[40]; snprintf(b, 40, "%g", x); return b; }
struct Tok { std::string name; int kind; /* 0 consume 1 produce 2 uses */ int nres, res; long s0, s1, d0, d1; double q0, q1; int sp = -1, ep = -1; double qp = -1; int rp = -1; bool active = true; };
struct Con { std::string type; int a, b; bool ae, be; long lo, hi; };   // time a -> time b
struct Model { std::string decl; bool reus, tol; double ic, lo, hi, pr, pm, cr, cm; std::string prof, det; long H; std::map<int, Tok> toks; std::map<int, Con> cons; bool exact() const { return prof == "TimetableProfile" || prof == "GroundedProfile"; } bool open() const { return det == "OpenWorldFVDetector"; } };
static std::string num(double x) { return x > 1e8 ? "+inff" : x < -1e8 ? "-inff" : std::to_string(x); }
static std::string text(const Model& m) {
  std::ostringstream o; o << "#include \"Resources.nddl\"\n";
  if (m.reus) o << "class R extends Reusable { string profileType; string detectorType; R(float a, float b, float c, float d) { super(a, b, c, d); ";
  else o << "class R extends Reservoir { string profileType; string detectorType; R(float a, float b, float c, float d, float e, float f, float g) { super(a, b, c, d, e, f, g); ";
  o << "profileType = \"" << m.prof << "\"; detectorType = \"" << m.det << "\"; } }\n";
  for (int i = 0; i < 2; ++i) { o << "R r" << i << " = new R(" << num(m.ic) << ", " << num(m.lo) << ", "; if (m.reus) o << num(m.cm) << ", " << num(m.cr); else o << num(m.hi) << ", " << num(m.pr) << ", " << num(m.pm) << ", " << num(m.cr) << ", " << num(m.cm); o << ");\n"; }
  o << "close();\n"; return o.str();
}
struct World {
  Eng* e; std::map<int, TokenId> tok; std::map<int, ConstraintId> con; ObjectId r[2];
  World(const Model& m, std::string& err, bool directed) { e = new Eng(true, m.tol); if (m.tol || (!m.exact() && !directed)) e->ce->setAutoPropagation(false); err = e->nddl(text(m)); if (err.empty()) for (int i = 0; i < 2; ++i) r[i] = e->pdb->getObject("r" + std::to_string(i)); }
  ConstrainedVariableId time(const Model& m, int t, bool end) { return end ? tok[t]->end() : tok[t]->start(); }
  std::string show() { std::string o; for (auto& k : con) { o += "\n" + k.second->toLongString(); } return o; }
  ConstrainedVariableId q(int t) { return tok[t]->getVariable("quantity"); }
  void create(const Model& m, int id) {
    const Tok& k = m.toks.at(id); static const char* P[] = {"R.consume", "R.produce", "R.uses"};
    TokenId t = e->cl->createToken(P[k.kind], k.name, true); tok[id] = t;
    t->start()->restrictBaseDomain(IntervalIntDomain(k.s0, k.s1)); if (k.kind == 2) { t->duration()->restrictBaseDomain(IntervalIntDomain(k.d0, k.d1)); t->end()->restrictBaseDomain(IntervalIntDomain(0, m.H)); }
    q(id)->restrictBaseDomain(IntervalDomain(k.q0, k.q1));
    if (k.res != 2) e->cl->restrict(t->getObject(), ObjectDomain(t->getObject()->getDataType(), r[k.res]));
  }
  void constrain(const Model& m, int id) {
    const Con& k = m.cons.at(id); std::vector<ConstrainedVariableId> sc{time(m, k.a, k.ae), time(m, k.b, k.be)};
    if (k.type == "temporalDistance") { sc.insert(sc.begin() + 1, e->ce->createVariable("int", IntervalIntDomain(k.lo, k.hi), true, true, "dist")); }
    con[id] = e->cl->createConstraint(k.type, sc, "");
  }
  void apply(const Model& m, int id) {   // specified values and state of a token just created
    const Tok& k = m.toks.at(id); TokenId t = tok[id];
    if (k.sp >= 0) t->start()->specify(k.sp);
    if (k.ep >= 0) t->end()->specify(k.ep);
    if (k.qp >= 0) q(id)->specify(k.qp);
    if (k.rp >= 0) t->getObject()->specify(r[k.rp]->getKey());
    state(m, id);
  }
  void state(const Model& m, int id) { const Tok& k = m.toks.at(id); TokenId t = tok[id]; if (k.active && !t->isActive()) e->cl->activate(t); else if (!k.active && t->isActive()) e->cl->cancel(t); }
};
struct Prof { std::vector<std::pair<double, double>> lv; std::set<long> bad, flawed; std::map<long, std::string> inst; };
static Prof prof(World& w, int ri, long H) {
  Prof p; Resource* r = dynamic_cast<Resource*>((Object*)w.r[ri]); ProfileId pr = r->getProfile();
  for (long t = 0; t <= H; ++t) { IntervalDomain d; pr->getLevel(t, d); auto cap = r->getCapacityProfile()->getValue(t); p.lv.push_back({cast_double(d.getLowerBound()) + cast_double(cap.first), cast_double(d.getUpperBound()) + cast_double(cap.second)}); }
  for (auto& i : pr->getInstants()) { long t = cast_int(i.first); if (i.second->isViolated()) p.bad.insert(t); if (i.second->isFlawed()) p.flawed.insert(t); }
  return p;
}
// every schedule
struct Tx { int tok; bool end; int sign; };
struct Enum {
  const Model& m; int ri; std::vector<std::pair<int, bool>> vars; std::vector<std::pair<long, long>> dom; std::vector<long> val; long nodes = 0, found = 0; bool over = false;
  std::vector<int> mine; std::vector<double> mn, mx; bool feasible = false; // feasible: some schedule keeps every limit
  Enum(const Model& mm, int r) : m(mm), ri(r) {
    std::set<int> used; for (auto& k : m.toks) used.insert(k.first);
    for (int t : used) { const Tok& k = m.toks.at(t); vars.push_back({t, false}); dom.push_back(k.sp >= 0 ? std::make_pair((long)k.sp, (long)k.sp) : std::make_pair(k.s0, k.s1)); if (k.kind == 2) { vars.push_back({t, true}); dom.push_back(k.ep >= 0 ? std::make_pair((long)k.ep, (long)k.ep) : std::make_pair(0L, m.H)); } }
    val.assign(vars.size(), 0); mn.assign((size_t)m.H + 1, 1e9); mx.assign((size_t)m.H + 1, -1e9);
  }
  long at(int t, bool end) const { if (end && m.toks.at(t).kind != 2) end = false; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].first == t && vars[i].second == end) return val[i]; return 0; }
  int idx(int t, bool end) const { if (end && m.toks.at(t).kind != 2) end = false; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].first == t && vars[i].second == end) return (int)i; return -1; }
  bool ok(size_t i) const {
    if (vars[i].second) { long d = val[i] - at(vars[i].first, false); const Tok& k = m.toks.at(vars[i].first); if (d < k.d0 || d > k.d1) return false; }
    for (auto& c : m.cons) { const Con& k = c.second; int x = idx(k.a, k.ae), y = idx(k.b, k.be); if (std::max(x, y) != (int)i) continue; long d = val[(size_t)y] - val[(size_t)x];
      if (k.type == "concurrent" ? d != 0 : k.type == "precedes" ? d < 0 : k.type == "strictlyPrecedes" ? d < 1 : (d < k.lo || d > k.hi)) return false; }
    return true;
  }
  void go(size_t i) {
    if (over) return; if (++nodes > 60000) { over = true; return; }
    if (i == vars.size()) { leaf(); return; }
    for (long v = dom[i].first; v <= dom[i].second; ++v) { val[i] = v; if (ok(i)) go(i + 1); }
  }
  void leaf() {
    ++found; size_t n = mine.size(); std::vector<std::array<double, 2>> qs(n); 
    for (size_t j = 0; j < n; ++j) { const Tok& k = m.toks.at(mine[j]); qs[j] = k.qp >= 0 ? std::array<double, 2>{k.qp, k.qp} : std::array<double, 2>{k.q0, k.q1}; }
    for (unsigned mask = 0; mask < (1u << n); ++mask) {
      bool skip = false; for (size_t j = 0; j < n; ++j) if ((mask >> j & 1) && qs[j][0] == qs[j][1]) skip = true; if (skip) continue;
      bool good = true; double ps = 0, cs = 0;
      for (long t = 0; t <= m.H; ++t) { double l = m.ic, pi = 0, ci = 0; 
        for (size_t j = 0; j < n; ++j) { const Tok& k = m.toks.at(mine[j]); double q = qs[j][mask >> j & 1]; long s = at(mine[j], false); if (s <= t) l += k.kind == 1 ? q : -q; if (s == t) { (k.kind == 1 ? pi : ci) += q; } if (k.kind == 2) { long e = at(mine[j], true); if (e <= t) l += q; if (e == t) pi += q; } }
        mn[(size_t)t] = std::min(mn[(size_t)t], l); mx[(size_t)t] = std::max(mx[(size_t)t], l); ps += pi; cs += ci;
        if (n && (l < m.lo || l > m.hi || pi > m.pr || ci > m.cr)) good = false; }
      if (ps > m.pm || cs > m.cm) good = false;
      if (good) feasible = true;
    }
  }
};
static void run(H::Ctx& c) {
  if (getenv("DBG")) { DebugMessage::setStream(std::cerr); DebugMessage::enableMatchingMsgs("", getenv("DBG")); }
  bool script = c.directed && c.idx == 1, drift = c.directed && c.idx == 0;   // witnesses of C11-2 and C11-1
  if (drift) c.rng = H::Rng(33);
  H::Rng& r = c.rng; Model m; m.tol = r.chance(30); m.reus = r.chance(50); m.H = r.range(3, 7);
  static const char* PR[] = {"TimetableProfile", "GroundedProfile", "FlowProfile", "IncrementalFlowProfile"}; m.prof = PR[r.below(4)];
  if (drift) { m.prof = "IncrementalFlowProfile"; m.tol = false; } if (getenv("PROF")) m.prof = getenv("PROF");
  m.det = m.prof[0] == 'G' ? "GroundedFVDetector" : m.prof[0] == 'T' && r.chance(35) ? "OpenWorldFVDetector" : "ClosedWorldFVDetector";
  if (script) { m.tol = m.reus = true; m.H = 6; m.prof = "TimetableProfile"; m.det = "ClosedWorldFVDetector"; }
  const double INF = 1e9; double wide = r.chance(30) ? INF : 0;
  m.ic = (double)r.range(1, 6); m.lo = r.chance(70) ? 0 : (double)r.range(-2, 1); m.hi = m.reus ? INF : wide ? INF : m.ic + (double)r.range(0, 5); if (wide) m.lo = -INF;
  m.pr = m.pm = m.cr = m.cm = INF; if (m.exact() && r.chance(40)) { if (r.chance(50)) m.cr = (double)r.range(1, 5); if (r.chance(40)) m.cm = (double)r.range(2, 9); if (m.reus) { m.pr = m.cr; m.pm = m.cm; } else { if (r.chance(40)) m.pr = (double)r.range(1, 5); if (r.chance(40)) m.pm = (double)r.range(2, 9); } }
  if (script) { m.ic = 1; m.lo = 0; m.hi = m.pr = m.cr = INF; m.pm = m.cm = 2; }
  std::string err; World w(m, err, c.directed); c.trace << text(m) << (m.tol ? "violations tolerated\n" : "") << "ends up to " << m.H << "\n"; if (!err.empty()) { c.fail("rejected", err); return; }
  int seq = 0; size_t maxt = m.reus ? 3 : 5; int edits = (int)r.range(6, m.exact() ? c.thorough ? 60 : 35 : 14);   // a flow profile follows edits badly (C11-1): the plan is propagated once
  std::vector<std::function<void()>> undo; // inverses since the last consistent state
  bool wasOk = true;
  if (drift) edits = 35;
  auto keys = [&](auto& mp) { std::vector<int> v; for (auto& x : mp) v.push_back(x.first); return v; };
  auto possible = [&]() -> bool { if (!m.tol) return true; Enum x(m, 0); x.go(0); if (x.over || x.found) return true; c.count("conflicts_avoided"); return false; };   // tolerating temporal contradictions is unfinished in the engine
  auto judge = [&](const char* when) -> bool {
    // independent verdict
    Enum en[2] = {Enum(m, 0), Enum(m, 1)}; bool over = false, openRes = false;
    for (int i = 0; i < 2; ++i) { for (auto& k : m.toks) if (k.second.active) { int ri = k.second.rp >= 0 ? k.second.rp : k.second.res; if (ri == 2) openRes = true; if (ri == i) en[i].mine.push_back(k.first); } en[i].go(0); over |= en[i].over; }
    if (over) { c.count("too_large"); }
    bool sched = en[0].found > 0;
    // temporal contradictions are not tolerated properly (the temporal propagator says so): keep clear of them
    if (m.tol && over) return true;
    bool cons = w.e->ce->propagate();
    if (!over && !m.tol && cons && !sched) { c.fail("temporal", std::string(when) + ": consistent although no schedule exists" + w.show()); return false; }
    if (!over && !m.tol && !cons && sched && en[0].feasible && en[1].feasible) { c.fail("refused-plan", std::string(when) + ": inconsistent although a schedule keeps every limit"); return false; }
    if (!cons) { c.count("inconsistent_states"); if (sched) c.count("refused_by_resource"); wasOk = false; }
    // the same plan from nothing
    std::string e2; World f(m, e2, c.directed); if (!e2.empty()) { c.fail("rejected", e2); return false; }
    auto tk = keys(m.toks), ck = keys(m.cons); r.shuffle(tk); r.shuffle(ck); bool early = r.chance(50);
    for (int t : tk) { f.create(m, t); if (early) f.apply(m, t); } for (int k : ck) f.constrain(m, k); if (!early) for (int t : tk) f.apply(m, t);
    bool fc = f.e->ce->propagate(); if (fc != cons) { c.fail("verdict", std::string(when) + (cons ? ": consistent, but the same plan built from nothing is not" : ": inconsistent, but the same plan built from nothing is consistent")); return false; }
    if (!cons) { delete f.e; return true; }
    wasOk = true; double tot = 0;
    for (int t : tk) for (int n = 0; n < 3; ++n) { auto pick = [&](World& x) -> ConstrainedVariableId { if (n == 0) return x.tok[t]->start(); if (n == 1) return x.tok[t]->end(); return x.q(t); }; ConstrainedVariableId a = pick(w), b = pick(f); if (a->lastDomain() != b->lastDomain()) { c.fail("domains", std::string(when) + ": " + (n == 0 ? "start" : n == 1 ? "end" : "quantity") + " of " + m.toks[t].name + " is " + a->lastDomain().toString() + ", built from nothing " + b->lastDomain().toString()); return false; } }
    for (int i = 0; i < 2; ++i) {
      Prof p = prof(w, i, m.H), q = prof(f, i, m.H); std::ostringstream d; 
      for (long t = 0; t <= m.H; ++t) { auto& x = p.lv[(size_t)t]; auto& y = q.lv[(size_t)t]; if (x != y) { d << when << ": resource r" << i << " at time " << t << " reports [" << x.first << " " << x.second << "], built from nothing [" << y.first << " " << y.second << "]"; c.fail("history", d.str()); return false; } }
      if (p.bad != q.bad) { c.fail("history-violations", std::string(when) + ": violated instants differ from those of the same plan built from nothing: " + S((double)p.bad.size()) + " / " + S((double)q.bad.size())); return false; }
      if (p.flawed != q.flawed) { c.fail("history-flaws", std::string(when) + ": flawed instants differ from those of the same plan built from nothing: " + S((double)p.flawed.size()) + " / " + S((double)q.flawed.size())); return false; }
      tot += (double)p.bad.size(); if (en[i].mine.empty()) continue; c.count("profiles");
      uint64_t h = 0; for (auto& x : p.lv) h = H::mix(h, (uint64_t)(x.first * 7 + 1000) * 100003 + (uint64_t)(x.second * 7 + 1000)); c.seen(h);
      if (over) continue;
      for (long t = 0; t <= m.H; ++t) { auto& x = p.lv[(size_t)t]; c.count("levels"); double a = en[i].mn[(size_t)t], b = en[i].mx[(size_t)t];
        if (x.first > a + 1e-9 || x.second < b - 1e-9) { d << when << ": resource r" << i << " at time " << t << " reports [" << x.first << " " << x.second << "], schedules reach [" << a << " " << b << "]"; c.fail("envelope", d.str()); return false; }
        if (x.first == a && x.second == b) c.count("tight_levels"); }
      bool fixed = true; for (int t : en[i].mine) { auto& k = m.toks.at(t); if (k.qp < 0 && k.q0 != k.q1) fixed = false; TokenId tt = w.tok[t]; if (!tt->start()->lastDomain().isSingleton() || (k.kind == 2 && !tt->end()->lastDomain().isSingleton())) fixed = false; }
      if (fixed) { c.count("fixed_profiles"); for (long t = 0; t <= m.H; ++t) if (p.lv[(size_t)t].first != p.lv[(size_t)t].second) { d << when << ": all is fixed but resource r" << i << " at time " << t << " reports [" << p.lv[(size_t)t].first << " " << p.lv[(size_t)t].second << "]"; c.fail("fixed-level", d.str()); return false; } }
      if (!p.bad.empty() && en[i].feasible) { c.fail("false-violation", std::string(when) + ": a violation is reported at " + S((double)*p.bad.begin()) + " although a schedule keeps every limit"); return false; }
      if (fixed && p.bad.empty() && !en[i].feasible && !m.open()) { c.fail("missed-violation", std::string(when) + ": all is fixed and breaks a limit, but no violation is reported"); return false; }
      if (fixed && p.bad.empty() && en[i].feasible && !m.open() && !p.flawed.empty()) { c.fail("false-flaw", std::string(when) + ": all is fixed within the limits but instant " + S((double)*p.flawed.begin()) + " is flawed"); return false; }
      if (!p.bad.empty()) c.count("violated"); else c.count("unviolated");
      // the reported level decides
      if (!m.open()) for (auto& in : dynamic_cast<Resource*>((Object*)w.r[i])->getProfile()->getInstants()) { long t = cast_int(in.first); if (t < 0 || t > m.H) continue; auto& x = p.lv[(size_t)t]; bool out = x.second < m.lo || x.first > m.hi; if (out && !p.bad.count(t)) { c.fail("unreported", std::string(when) + ": the level reported at " + S((double)t) + " is outside the limits but no violation is reported there"); return false; } 
        bool may = x.first < m.lo || x.second > m.hi; if (may && !m.exact() && !p.flawed.count(t)) { c.fail("unreported-flaw", std::string(when) + ": the level reported at " + S((double)t) + " may leave the limits but the instant is not flawed"); return false; } }
    }
    if (m.tol) { bool v = w.e->ce->getViolation() > 0; if (v && tot == 0) { c.fail("violation-total", std::string(when) + ": the engine counts violations but no instant is violated"); return false; }
      if (c.directed && !v && tot > 0) { c.fail("violation-uncounted", std::string(when) + ": instants are violated but the engine counts no violation"); return false; } }   // C11-2
    delete f.e; return true;
  };
  if (script) {
    auto tok = [&](int id, long s0, long s1, long d0, long d1, double q0, double q1) { Tok k; k.name = "t" + std::to_string(id); k.kind = 2; k.nres = 1; k.res = 0; k.s0 = s0; k.s1 = s1; k.d0 = d0; k.d1 = d1; k.q0 = q0; k.q1 = q1; k.active = false; m.toks[id] = k; c.trace << "token " << k.name << " start [" << s0 << " " << s1 << "] duration [" << d0 << " " << d1 << "] quantity [" << q0 << " " << q1 << "]\n"; w.create(m, id); m.toks[id].active = w.tok[id]->isActive(); };
    auto con = [&](int id, const char* type, int a, bool ae, int b, bool be) { Con q; q.type = type; q.a = a; q.b = b; q.ae = ae; q.be = be; q.lo = q.hi = 0; m.cons[id] = q; c.trace << type << " t" << a << (ae ? ".end t" : ".start t") << b << (be ? ".end\n" : ".start\n"); w.constrain(m, id); };
    { tok(1, 2, 2, 1, 3, 2, 2); if (!judge("first")) return; tok(2, 5, 5, 1, 2, 1, 3); if (!judge("second")) return; con(3, "precedes", 1, true, 2, false); if (!judge("third")) return; c.trace << "cancel t2\n"; m.toks[2].active = false; w.e->cl->cancel(w.tok[2]); judge("last"); }
    delete w.e; return;
  }
  for (int i = 0; i < edits; ++i) {
    int op = (int)r.below(16); std::vector<int> tk = keys(m.toks), ck = keys(m.cons);
    if (op < 4 || tk.empty()) { if (tk.size() >= maxt) continue; Tok k; int id = seq++; k.name = "t" + std::to_string(id); k.kind = m.reus ? 2 : (int)r.below(2); k.s0 = r.range(0, m.H - 1); k.s1 = r.chance(30) ? k.s0 : r.range(k.s0, m.H); k.d0 = r.range(1, 2); k.d1 = k.d0 + r.range(0, 2); if (m.reus && r.chance(60)) { k.s0 = r.range(0, 1); k.s1 = std::max(k.s0, k.s1); } k.q0 = (double)r.range(0, 3); k.q1 = r.chance(50) ? k.q0 : k.q0 + (double)r.range(0, 2); k.nres = 1; k.res = r.chance(75) ? 0 : r.chance(50) ? 1 : 2; k.active = false; if (m.reus && k.s0 + k.d0 > m.H) continue;
      m.toks[id] = k; c.trace << "token " << k.name << " " << (k.kind == 0 ? "consume" : k.kind == 1 ? "produce" : "uses") << " start [" << k.s0 << " " << k.s1 << "] duration [" << k.d0 << " " << k.d1 << "] quantity [" << k.q0 << " " << k.q1 << "] resource " << k.res << "\n"; w.create(m, id); m.toks[id].active = w.tok[id]->isActive(); 
      undo.push_back([&, id] { if (w.tok[id]->isActive()) w.e->cl->cancel(w.tok[id]); w.e->cl->deleteToken(w.tok[id]); w.tok.erase(id); m.toks.erase(id); }); }
    else { int id = r.pick(tk); Tok& k = m.toks[id]; TokenId t = w.tok[id];
      switch (op) {
        case 4: case 5: if (k.sp < 0) { long v = r.range(k.s0, k.s1); if (!k.active && !t->isInactive()) break; k.sp = (int)v; if (!possible()) { k.sp = -1; break; } c.trace << "start of " << k.name << " = " << v << "\n"; t->start()->specify(v); undo.push_back([&, id] { m.toks[id].sp = -1; w.tok[id]->start()->reset(); }); }
          else if (k.s0 != k.s1) { int old = k.sp; c.trace << "reset start of " << k.name << "\n"; k.sp = -1; t->start()->reset(); undo.push_back([&, id, old] { m.toks[id].sp = old; w.tok[id]->start()->specify(old); }); } break;
        case 6: if (k.kind != 2) break; if (k.ep < 0) { long v = r.range(1, m.H); k.ep = (int)v; if (!possible()) { k.ep = -1; break; } c.trace << "end of " << k.name << " = " << v << "\n"; t->end()->specify(v); undo.push_back([&, id] { m.toks[id].ep = -1; w.tok[id]->end()->reset(); }); }
          else { int old = k.ep; c.trace << "reset end of " << k.name << "\n"; k.ep = -1; t->end()->reset(); undo.push_back([&, id, old] { m.toks[id].ep = old; w.tok[id]->end()->specify(old); }); } break;
        case 7: if (k.qp < 0) { double v = k.q0 + (double)r.range(0, (long)(k.q1 - k.q0)); c.trace << "quantity of " << k.name << " = " << v << "\n"; k.qp = v; w.q(id)->specify(v); undo.push_back([&, id] { m.toks[id].qp = -1; w.q(id)->reset(); }); }
          else if (k.q0 != k.q1) { double old = k.qp; c.trace << "reset quantity of " << k.name << "\n"; k.qp = -1; w.q(id)->reset(); undo.push_back([&, id, old] { m.toks[id].qp = old; w.q(id)->specify(old); }); } break;
        case 8: case 9: if (k.active) { c.trace << "cancel " << k.name << "\n"; k.active = false; w.e->cl->cancel(t); undo.push_back([&, id] { m.toks[id].active = true; w.e->cl->activate(w.tok[id]); }); }
          else { c.trace << "activate " << k.name << "\n"; k.active = true; w.e->cl->activate(t); undo.push_back([&, id] { m.toks[id].active = false; w.e->cl->cancel(w.tok[id]); }); } break;
        case 10: case 11: case 12: { if (tk.size() < 2 || m.cons.size() > 4) break; Con q; q.a = id; do q.b = r.pick(tk); while (q.b == id); q.ae = r.chance(50) && k.kind == 2; q.be = r.chance(30) && m.toks[q.b].kind == 2; q.type = r.chance(40) ? "precedes" : r.chance(30) ? "strictlyPrecedes" : r.chance(40) ? "concurrent" : "temporalDistance"; q.lo = r.range(-2, 3); q.hi = q.lo + r.range(0, 3); int ci = seq++; m.cons[ci] = q; if (!possible()) { m.cons.erase(ci); break; } c.trace << q.type << " " << k.name << (q.ae ? ".end " : ".start ") << m.toks[q.b].name << (q.be ? ".end " : ".start "); if (q.type[0] == 't') c.trace << q.lo << " " << q.hi; c.trace << "\n"; w.constrain(m, ci); undo.push_back([&, ci] { w.e->cl->deleteConstraint(w.con[ci]); w.con.erase(ci); m.cons.erase(ci); }); break; }
        case 13: if (ck.empty()) break; { int ci = r.pick(ck); Con old = m.cons[ci]; c.trace << "remove " << old.type << " " << m.toks[old.a].name << " " << m.toks[old.b].name << "\n"; w.e->cl->deleteConstraint(w.con[ci]); w.con.erase(ci); m.cons.erase(ci); undo.push_back([&, ci, old] { m.cons[ci] = old; w.constrain(m, ci); }); } break;
        case 14: if (k.res != 2) break; if (k.rp < 0) { int v = (int)r.below(2); c.trace << k.name << " on r" << v << "\n"; k.rp = v; t->getObject()->specify(w.r[v]->getKey()); undo.push_back([&, id] { m.toks[id].rp = -1; w.tok[id]->getObject()->reset(); }); }
          else { int old = k.rp; c.trace << k.name << " on any\n"; k.rp = -1; t->getObject()->reset(); undo.push_back([&, id, old] { m.toks[id].rp = old; w.tok[id]->getObject()->specify(w.r[old]->getKey()); }); } break;
        case 15: { if (!wasOk || r.chance(60)) break; bool used = false; for (auto& q : m.cons) used |= q.second.a == id || q.second.b == id; if (used) break; c.trace << "delete " << k.name << "\n"; if (k.active) w.e->cl->cancel(t); w.e->cl->deleteToken(t); w.tok.erase(id); m.toks.erase(id); undo.clear(); break; }
      }
    }
    if (m.exact() || drift ? r.chance(65) : i == edits - 1) { c.trace << "propagate\n"; if (!judge("after edits")) return;
      if (!wasOk && (m.exact() || drift)) { c.trace << "undo " << undo.size() << "\n"; bool step = !m.tol && r.chance(30); while (!undo.empty()) { undo.back()(); undo.pop_back(); if (step) w.e->ce->propagate(); } if (!judge("after undoing edits")) return; c.count("undone"); if (!wasOk) { c.count("still_inconsistent"); return; } }
      undo.clear(); }
  }
  delete w.e;
}
static H::Suite suite{"res", 2, run, nullptr, 60};
HARNESS_MAIN(suite)
