// Random planning problems: an abstract syntax, their NDDL text, a brute-force decision procedure that knows
// nothing of the engine, and a judge of finished plans.
#pragma once
#include "snap.hh"
#include "Solver.hh"
#include "Context.hh"
#include "SearchListener.hh"
#include "SolverDecisionPoint.hh"
#include "SolverUtils.hh"
#include "SolverDefs.hh"
#include "FlawManager.hh"
#include "Debug.hh"
#include "tinyxml.h"

namespace SV {
using namespace PL;
using SOLVERS::SolverId; using SOLVERS::Solver; using SOLVERS::DecisionPointId;
inline std::string S(long x) { return std::to_string(x); }

struct Sub { std::string rel; int pred; bool same; int link; long guard; bool neg; long qty = 0; };   // link: 0 none, 1 equal, 2 at most the master's, 3 equal to qty; guard: -1 none
struct Pred { int cls;   // -1: use of the resource
  std::string name; long p0, p1, d0, d1; std::vector<Sub> subs; };
struct Tok { int pred; bool rej; long s0, s1, e0, e1; int pk; long pv; int obj; };          // pk: 0 none 1 == 2 != 3 <=
struct Ord { int a, b; std::string rel; };
struct Prob {
  long H, cap = 0; std::vector<int> no; std::vector<Pred> preds; std::vector<Tok> toks; std::vector<Ord> ords;
  int objects(int cls) const { return cls < 0 ? 1 : no[cls]; }
  std::string on(int cls, int i) const { return cls < 0 ? "res" : "o" + S(cls) + S(i); }
  static std::string cls(int c) { return c < 0 ? "Res" : "T" + S(c); }
  std::string text() const {
    std::string t; if (cap) t += "#include \"Resources.nddl\"\nclass Res extends Reusable { string profileType; Res(float a, float b) { super(a, b); profileType = \"TimetableProfile\"; } }\n";
    for (size_t k = 0; k < preds.size(); ++k) if (preds[k].cls >= 0) t += "typedef int [" + S(preds[k].p0) + " " + S(preds[k].p1) + "] P" + S((long)k) + ";\n";
    for (size_t c = 0; c < no.size(); ++c) {
      t += "class T" + S((long)c) + " extends Timeline {";
      for (size_t k = 0; k < preds.size(); ++k) if (preds[k].cls == (int)c) t += " predicate " + preds[k].name + " { P" + S((long)k) + " p; eq(duration, [" + S(preds[k].d0) + " " + S(preds[k].d1) + "]); }";
      t += " }\n";
    }
    for (auto& p : preds) {
      if (p.cls < 0) continue;
      t += "T" + S(p.cls) + "::" + p.name + " { leq(0, start); leq(end, " + S(H) + ");\n";
      int i = 0;
      for (auto& s : p.subs) {
        const Pred& q = preds[s.pred]; std::string n = "s" + S(i++);
        std::string b = s.rel + "(" + (s.same ? "object" : cls(q.cls)) + "." + q.name + " " + n + ");";
        if (s.link == 1) b += " eq(" + n + ".p, p);"; if (s.link == 3) b += " eq(" + n + ".quantity, " + S(s.qty) + ".0);"; if (s.link == 2) b += " leq(" + n + ".p, p);";
        if (s.guard >= 0) b = std::string("if (p ") + (s.neg ? "!=" : "==") + " " + S(s.guard) + ") { " + b + " }";
        t += "  " + b + "\n";
      }
      t += "}\n";
    }
    for (size_t c = 0; c < no.size(); ++c) for (int i = 0; i < no[c]; ++i) t += "T" + S((long)c) + " " + on((int)c, i) + " = new T" + S((long)c) + "();\n";
    if (cap) t += "Res res = new Res(" + S(cap) + ".0, 0.0);\n";
    t += "close();\n";
    for (size_t i = 0; i < toks.size(); ++i) {
      const Tok& k = toks[i]; const Pred& p = preds[k.pred]; std::string n = "g" + S((long)i);
      t += std::string(k.rej ? "rejectable" : "goal") + "(T" + S(p.cls) + "." + p.name + " " + n + ");";
      t += " leq(" + S(k.s0) + ", " + n + ".start); leq(" + n + ".start, " + S(k.s1) + "); leq(" + S(k.e0) + ", " + n + ".end); leq(" + n + ".end, " + S(k.e1) + ");";
      if (k.pk == 1) t += " eq(" + n + ".p, " + S(k.pv) + ");"; if (k.pk == 2) t += " neq(" + n + ".p, " + S(k.pv) + ");"; if (k.pk == 3) t += " leq(" + n + ".p, " + S(k.pv) + ");";
      if (k.obj >= 0) t += " eq(" + n + ".object, " + on(p.cls, k.obj) + ");";
      t += "\n";
    }
    for (auto& o : ords) t += "g" + S(o.a) + " " + o.rel + " g" + S(o.b) + ";\n";
    return t;
  }
};
inline bool okp(const Tok& k, long p) { return k.pk == 0 || (k.pk == 1 && p == k.pv) || (k.pk == 2 && p != k.pv) || (k.pk == 3 && p <= k.pv); }
inline bool okl(const Sub& s, long m, long p) { return s.link == 0 || (s.link == 1 && p == m) || (s.link == 2 && p <= m) || (s.link == 3 && p == s.qty); }
inline bool fires(const Sub& s, long p) { return s.guard < 0 || ((p == s.guard) != s.neg); }
inline bool holds(const std::string& r, long a, long b, long s, long d) {
  if (r == "any") return true; if (r == "meets") return b == s; if (r == "met_by") return d == a; if (r == "before") return b <= s; if (r == "after") return d <= a;
  if (r == "contains") return a <= s && d <= b; if (r == "contained_by") return s <= a && b <= d; if (r == "starts") return a == s; if (r == "ends") return b == d; if (r == "equals") return a == s && b == d;
  abort();
}
inline Prob gen(H::Rng& r, int size = 1, int resPct = 0) {
  Prob P; P.H = r.range(5, 14); int nc = (int)r.range(1, 2); for (int c = 0; c < nc; ++c) P.no.push_back(r.chance(60) ? 1 : 2);
  int np = (int)r.range(1, nc + 2);
  for (int k = 0; k < np; ++k) { Pred p; p.cls = k < nc ? k : (int)r.below(nc); p.name = std::string(1, (char)('A' + k)); p.p0 = 0; p.p1 = r.range(0, 2); p.d0 = r.range(1, 4); p.d1 = p.d0 + (r.chance(50) ? 0 : r.range(1, 4)); P.preds.push_back(p); }
  if (np > 1 && nc == 2) {}
  for (int k = 0; k + 1 < np; ++k) { int n = r.chance(60) ? (int)r.range(1, 2) : 0;
    for (int i = 0; i < n; ++i) { Sub s; s.pred = (int)r.range(k + 1, np - 1); bool sc = P.preds[s.pred].cls == P.preds[k].cls; s.same = sc && r.chance(50);
      s.rel = r.pick(std::vector<std::string>{"meets", "met_by", "before", "after", "contains", "contained_by", "starts", "ends", "equals", "any"});
      if (s.same && s.rel != "meets" && s.rel != "met_by" && s.rel != "before" && s.rel != "after" && r.chance(80)) s.rel = r.chance(50) ? "meets" : "met_by";   // others cannot be met on one timeline
      s.link = r.chance(40) ? (int)r.range(1, 2) : 0; s.guard = r.chance(35) ? r.range(0, 1) : -1; s.neg = r.chance(40); P.preds[k].subs.push_back(s); } }
  int all = np;
  if (r.chance(resPct)) { P.cap = r.range(1, 4); Pred u; u.cls = -1; u.name = "uses"; u.p0 = 1; u.p1 = 3; u.d0 = 1; u.d1 = P.H; all = np + 1; P.preds.push_back(u);
    for (int k = 0; k < np; ++k) if (r.chance(60)) { Sub s; s.pred = np; s.same = false; s.rel = "equals"; s.link = 3; s.guard = r.chance(20) ? r.range(0, 1) : -1; s.neg = r.chance(40); s.qty = r.range(1, 3); P.preds[k].subs.push_back(s); } }
  (void)all; int nt = (int)r.range(1, 2 + size);
  for (int i = 0; i < nt; ++i) { Tok k; k.pred = (int)r.below(np); if (np > 1 && r.chance(30)) k.pred = 0; k.rej = r.chance(25); k.s0 = 0; k.s1 = P.H; k.e0 = 0; k.e1 = P.H;
    if (r.chance(40)) { k.s0 = r.range(0, P.H / 2); k.s1 = r.range(k.s0, P.H); } if (r.chance(25)) k.e1 = r.range(std::min(P.H, k.s0 + P.preds[k.pred].d0), P.H); if (r.chance(15)) k.e0 = r.range(1, k.e1);
    const Pred& kp = P.preds[k.pred]; if (std::max(k.s0 + kp.d0, k.e0) > std::min(k.s1 + kp.d1, k.e1)) { k.s0 = k.e0 = 0; k.s1 = k.e1 = P.H; }
    k.pk = r.chance(45) ? (int)r.range(1, 3) : 0; k.pv = r.range(0, P.preds[k.pred].p1); if (k.pk == 2 && kp.p1 == 0) k.pk = 0; k.obj = r.chance(25) ? (int)r.below(P.no[P.preds[k.pred].cls]) : -1; P.toks.push_back(k); }
  for (int i = 0; i + 1 < nt; ++i) if (r.chance(20) && !P.toks[i].rej && !P.toks[i + 1].rej) { Ord o; o.a = i; o.b = i + 1; if (r.chance(50)) std::swap(o.a, o.b); o.rel = r.pick(std::vector<std::string>{"before", "meets", "after", "contains", "starts"}); P.ords.push_back(o); }
  return P;
}

// ------------------------------------------------------------------ the brute-force procedure
struct Brute {
  const Prob& P; long work = 0, cap; bool gaveUp = false; std::string plan;
  Brute(const Prob& p, long cap) : P(p), cap(cap) {}
  struct E { int a, b; long w; };                                        // t[b] - t[a] <= w
  struct Act { int pred, obj; long p; };
  struct Pend { int pred; bool rej; int goal, master; int sub; };
  struct St { std::vector<Act> act; std::vector<E> es; std::vector<Pend> q; std::vector<int> goal; };
  static int s(int k) { return 1 + 2 * k; } static int e(int k) { return 2 + 2 * k; }
  bool feasible(const St& x, std::vector<long>& early) {
    ++work; int n = 1 + 2 * (int)x.act.size();
    // earliest times: t[a] >= t[b] - w for every edge
    std::vector<long> t((size_t)n, 0);
    for (int it = 0; it <= n; ++it) { bool ch = false; for (auto& d : x.es) if (t[d.a] < t[d.b] - d.w) { t[d.a] = t[d.b] - d.w; ch = true; if (d.a == 0) return false; } if (!ch) { early = t; return true; } }
    return false;
  }
  static void rel(std::vector<E>& es, const std::string& r, int a, int b, int sm, int d) {
    auto le = [&](int x, int y) { es.push_back({y, x, 0}); }; auto eq = [&](int x, int y) { le(x, y); le(y, x); };
    if (r == "meets") eq(b, sm); else if (r == "met_by") eq(d, a); else if (r == "before") le(b, sm); else if (r == "after") le(d, a); else if (r == "contains") { le(a, sm); le(d, b); }
    else if (r == "contained_by") { le(sm, a); le(b, d); } else if (r == "starts") eq(a, sm); else if (r == "ends") eq(b, d); else if (r == "equals") { eq(a, sm); eq(b, d); }
  }
  bool bind(St& x, const Pend& q, int k) {                               // token q becomes (part of) active token k
    const Act& a = x.act[k];
    if (q.goal >= 0) { const Tok& t = P.toks[q.goal]; if (!okp(t, a.p) || (t.obj >= 0 && t.obj != a.obj)) return false; x.goal[q.goal] = k;
      x.es.push_back({0, s(k), t.s1}); x.es.push_back({s(k), 0, -t.s0}); x.es.push_back({0, e(k), t.e1}); x.es.push_back({e(k), 0, -t.e0}); }
    else { const Act& m = x.act[q.master]; const Sub& b = P.preds[m.pred].subs[q.sub]; if (!okl(b, m.p, a.p) || (b.same && m.obj != a.obj)) return false; rel(x.es, b.rel, s(q.master), e(q.master), s(k), e(k)); }
    for (auto& o : P.ords) if (x.goal[o.a] >= 0 && x.goal[o.b] >= 0 && (o.a == q.goal || o.b == q.goal)) rel(x.es, o.rel, s(x.goal[o.a]), e(x.goal[o.a]), s(x.goal[o.b]), e(x.goal[o.b]));
    return true;
  }
  bool order(St& x) {
    if (gaveUp || work > cap) { gaveUp = true; return false; }
    std::vector<long> t; if (!feasible(x, t)) return false;
    if (P.cap) for (size_t i = 0; i < x.act.size(); ++i) if (P.preds[x.act[i].pred].cls < 0) {   // what is used at the start of token i
      long u = 0; std::vector<int> on; for (size_t j = 0; j < x.act.size(); ++j) if (P.preds[x.act[j].pred].cls < 0 && t[s((int)j)] <= t[s((int)i)] && t[s((int)i)] < t[e((int)j)]) { u += x.act[j].p; on.push_back((int)j); }
      if (u <= P.cap) continue;
      for (auto a : on) for (auto b : on) if (a != b) { St y = x; y.es.push_back({s(b), e(a), 0}); if (order(y)) return true; }
      return false;
    }
    for (size_t i = 0; i < x.act.size(); ++i) for (size_t j = i + 1; j < x.act.size(); ++j)
      if (P.preds[x.act[i].pred].cls >= 0 && P.preds[x.act[i].pred].cls == P.preds[x.act[j].pred].cls && x.act[i].obj == x.act[j].obj && t[s((int)i)] < t[e((int)j)] && t[s((int)j)] < t[e((int)i)]) {
        St y = x; y.es.push_back({s((int)j), e((int)i), 0}); if (order(y)) return true;   // e(i) <= s(j)
        y = x; y.es.push_back({s((int)i), e((int)j), 0}); return order(y);
      }
    plan.clear(); for (size_t i = 0; i < x.act.size(); ++i) plan += P.preds[x.act[i].pred].name + "(" + S(x.act[i].p) + ")@" + P.on(P.preds[x.act[i].pred].cls, x.act[i].obj) + " [" + S(t[s((int)i)]) + "," + S(t[e((int)i)]) + "] ";
    return true;
  }
  bool go(const St& x, size_t i) {
    if (gaveUp || work > cap) { gaveUp = true; return false; }
    std::vector<long> t;
    if (i == x.q.size()) { St y = x; return order(y); }
    Pend q = x.q[i];
    // resource tokens are activated as soon as they exist: they are never merged
    if (P.preds[q.pred].cls >= 0) for (int k = 0; k < (int)x.act.size(); ++k) if (x.act[k].pred == q.pred) { St y = x; if (bind(y, q, k) && feasible(y, t) && go(y, i + 1)) return true; }
    const Pred& p = P.preds[q.pred];
    for (int o = 0; o < P.objects(p.cls); ++o) for (long v = p.p0; v <= p.p1; ++v) {
      St y = x; int k = (int)y.act.size(); y.act.push_back({q.pred, o, v});
      y.es.push_back({s(k), 0, 0}); y.es.push_back({0, e(k), P.H}); y.es.push_back({s(k), e(k), p.d1}); y.es.push_back({e(k), s(k), -p.d0});
      if (!bind(y, q, k)) continue;
      for (size_t b = 0; b < p.subs.size(); ++b) if (fires(p.subs[b], v)) y.q.push_back({p.subs[b].pred, false, -1, k, (int)b});
      if (feasible(y, t) && go(y, i + 1)) return true;
    }
    if (q.rej && go(x, i + 1)) return true;
    return false;
  }
  // 1 there is a plan, 0 there is none, -1 too hard
  int decide() {
    St x; x.goal.assign(P.toks.size(), -1); for (size_t i = 0; i < P.toks.size(); ++i) x.q.push_back({P.toks[i].pred, P.toks[i].rej, (int)i, -1, -1});
    bool f = go(x, 0); return f ? 1 : gaveUp ? -1 : 0;
  }
};

// ------------------------------------------------------------------ the judge of finished plans
inline std::string judge(const Prob& P, Eng& e, std::string& plan, long& checks) {
  auto bad = [&](const std::string& s) { return s; };
  auto rep = [](TokenId t) { return t->isMerged() ? t->getActiveToken() : t; };
  struct I { int pred, obj; long p, s, e; };
  std::map<TokenId, I> act;
  for (TokenId t : e.pdb->getTokens()) {
    if (t->isInactive()) return bad("token " + t->getName() + " is left inactive");
    if (t->isRejected() || t->isMerged()) continue;
    I x; x.pred = -1; std::string pn = t->getPredicateName(); for (size_t k = 0; k < P.preds.size(); ++k) if (pn == Prob::cls(P.preds[k].cls) + "." + P.preds[k].name) x.pred = (int)k;
    if (x.pred < 0) return bad("token of unknown predicate " + pn);
    const Pred& p = P.preds[x.pred]; const Domain &d = t->getObject()->lastDomain(), &v = t->getVariable(p.cls < 0 ? "quantity" : "p")->lastDomain();
    if (!d.isSingleton()) return bad("active token " + t->getName() + " has no single object: " + dom(d)); if (!v.isSingleton()) return bad("active token " + t->getName() + " has no single value for p: " + dom(v));
    std::string on = Entity::getEntity(cast_int(d.getSingletonValue()))->getName(); x.obj = -1; for (int o = 0; o < P.objects(p.cls); ++o) if (on == P.on(p.cls, o)) x.obj = o;
    if (x.obj < 0) return bad(t->getName() + " sits on " + on);
    x.p = (long)cast_double(v.getSingletonValue()); if (t->start()->lastDomain().isEmpty() || t->end()->lastDomain().isEmpty()) return bad("empty times"); x.s = (long)cast_double(t->start()->lastDomain().getLowerBound()); x.e = (long)cast_double(t->end()->lastDomain().getLowerBound());
    act[t] = x;
  }
  std::vector<std::string> lines; auto show = [&](TokenId t) { auto& x = act[t]; return P.preds[x.pred].name + "(" + S(x.p) + ")@" + P.on(P.preds[x.pred].cls, x.obj) + " [" + S(x.s) + "," + S(x.e) + "]"; };
  for (auto& a : act) lines.push_back(show(a.first)); std::sort(lines.begin(), lines.end()); for (auto& l : lines) plan += l + " ";
  for (auto& a : act) { auto& x = a.second; const Pred& p = P.preds[x.pred];
    if (x.p < p.p0 || x.p > p.p1) return bad("parameter out of its type: " + show(a.first));
    if (x.s < 0 || x.e > P.H || x.e - x.s < p.d0 || x.e - x.s > p.d1) return bad("times of " + show(a.first));
    checks += 2;
    if (p.cls < 0) { long u = 0; for (auto& b : act) if (P.preds[b.second.pred].cls < 0 && b.second.s <= x.s && x.s < b.second.e) u += b.second.p; ++checks; if (u > P.cap) return bad("at " + S(x.s) + " the resource is used " + S(u) + " times, " + S(P.cap) + " allowed"); continue; }
    // its rules
    std::vector<TokenId> left(a.first->slaves().begin(), a.first->slaves().end()); std::vector<const Sub*> need; for (auto& b : p.subs) if (fires(b, x.p)) need.push_back(&b);
    std::function<bool(size_t)> match = [&](size_t i) { if (i == need.size()) return true;
      for (auto& t : left) if (t.isId()) { TokenId k = rep(t); auto it = act.find(k); if (it == act.end()) continue; const I& y = it->second; const Sub& b = *need[i];
        if (y.pred == b.pred && t->getRelation() == b.rel && holds(b.rel, x.s, x.e, y.s, y.e) && okl(b, x.p, y.p) && (!b.same || y.obj == x.obj)) { TokenId keep = t; t = TokenId(); if (match(i + 1)) return true; t = keep; } }
      return false; };
    if (left.size() != need.size()) return bad(show(a.first) + " has " + S((long)left.size()) + " subgoals, its rules ask for " + S((long)need.size()));
    if (!match(0)) { std::string s; for (auto t : a.first->slaves()) { TokenId k = rep(t); s += " " + t->getRelation() + " " + (act.count(k) ? show(k) : "(not in the plan)"); } return bad("the rules of " + show(a.first) + " are not met by" + s); }
    checks += (long)need.size();
    for (auto& b : act) if (a.first->getKey() < b.first->getKey()) { auto& y = b.second; ++checks; if (p.cls >= 0 && P.preds[y.pred].cls == p.cls && x.obj == y.obj && x.s < y.e && y.s < x.e) return bad(show(a.first) + " and " + show(b.first) + " overlap"); }
  }
  std::vector<TokenId> g;
  for (size_t i = 0; i < P.toks.size(); ++i) { TokenId t = e.pdb->getGlobalToken("g" + S((long)i)); g.push_back(t); const Tok& k = P.toks[i];
    if (t->isRejected()) { if (!k.rej) return bad("goal g" + S((long)i) + " is rejected"); continue; }
    TokenId a = rep(t); if (!act.count(a)) return bad("goal g" + S((long)i) + " has no active token"); auto& x = act[a];
    if (x.pred != k.pred || !okp(k, x.p) || (k.obj >= 0 && x.obj != k.obj) || x.s < k.s0 || x.s > k.s1 || x.e < k.e0 || x.e > k.e1) return bad("goal g" + S((long)i) + " is not met by " + show(a)); ++checks; }
  for (auto& o : P.ords) { auto &x = act[rep(g[o.a])], &y = act[rep(g[o.b])]; ++checks; if (!holds(o.rel, x.s, x.e, y.s, y.e)) return bad("g" + S(o.a) + " " + o.rel + " g" + S(o.b) + ": " + show(rep(g[o.a])) + " " + show(rep(g[o.b]))); }
  return "";
}

// ------------------------------------------------------------------ solver configurations
inline std::string config(H::Rng& r, bool allTimes = false, bool res = false) {
  auto pr = [&]() { return r.chance(30) ? " priority=\"" + S(r.range(0, 2000)) + "\"" : std::string(); };
  auto hv = [&]() { return r.pick(std::vector<std::string>{"Min", "Max", "StandardVariableHandler"}); };
  std::string u = "<UnboundVariableManager>"; int w = allTimes ? (int)r.below(4) : 0;
  if (w != 1) u += "<FlawFilter var-match=\"start\"/>"; if (w != 2) u += "<FlawFilter var-match=\"end\"/>"; if (w != 3) u += "<FlawFilter var-match=\"duration\"/>";
  u += "<FlawHandler component=\"" + hv() + "\"" + pr() + "/>"; if (r.chance(30)) u += "<FlawHandler component=\"" + hv() + "\" var-match=\"" + (r.chance(50) ? "p" : "object") + "\"" + pr() + "/>"; u += "</UnboundVariableManager>";
  std::string o = "<OpenConditionManager><FlawHandler component=\"StandardOpenConditionHandler\"" + pr() + "/>"; if (r.chance(30)) o += "<FlawHandler component=\"StandardOpenConditionHandler\" predicate-match=\"" + std::string(r.chance(50) ? "A" : "B") + "\"" + pr() + "/>"; o += "</OpenConditionManager>";
  std::string t = std::string("<ThreatManager>") + (res ? "<FlawFilter class-match=\"Res\"/>" : "") + "<FlawHandler component=\"StandardThreatHandler\"" + pr() + "/></ThreatManager>";
  std::vector<std::string> m = {u, o, t}; if (res) m.push_back("<ResourceThreatManager><FlawHandler component=\"ResourceThreatHandler\"" + pr() + "/></ResourceThreatManager>"); r.shuffle(m);
  std::string all; for (auto& x : m) all += x; return "<Solver name=\"S\">" + all + "</Solver>";
}
inline SolverId make(Eng& e, const std::string& xml, long H0, long H1) {
  std::string copy = xml; TiXmlElement* x = initXml(copy); SolverId s = (new Solver(e.pdb, *x))->getId(); delete x; s->getContext()->put("horizonStart", (double)H0); s->getContext()->put("horizonEnd", (double)H1); return s;
}
inline void dbg() { if (getenv("DBG")) { DebugMessage::setStream(std::cerr); DebugMessage::enableMatchingMsgs("", getenv("DBG")); } }
}  // namespace SV
