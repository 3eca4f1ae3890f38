// Independent closure of the temporal content of a plan: the engine's own list of active temporal
// constraints, base domains and specified values turned into a distance graph.
#pragma once
#include "plan.hh"
using namespace PL;

static const long INF = 1L << 50;
static long lo(const Domain& d) { double v = cast_double(d.getLowerBound()); return v <= cast_double(MINUS_INFINITY) ? -INF : (long)v; }
static long hi(const Domain& d) { double v = cast_double(d.getUpperBound()); return v >= cast_double(PLUS_INFINITY) ? INF : (long)v; }
static std::string iv(long a, long b) { auto s = [](long x) { return x <= -INF ? std::string("-inf") : x >= INF ? std::string("+inf") : std::to_string(x); }; return "[" + s(a) + "," + s(b) + "]"; }

struct Clo {
  std::map<ConstrainedVariableId, int> ix; std::vector<ConstrainedVariableId> vars; std::vector<std::vector<long>> d; bool ok = true; std::string why;
  int node(ConstrainedVariableId v) { auto it = ix.find(v); if (it != ix.end()) return it->second; int n = (int)vars.size() + 1; vars.push_back(v); ix[v] = n; return n; }
};
// base domain as the content says: specified value, otherwise the base domain
static void base1(ConstrainedVariableId v, long& l, long& h) {
  if (v->isSpecified()) { l = h = (long)cast_double(v->getSpecifiedValue()); 
    if (l < lo(v->baseDomain()) || l > hi(v->baseDomain())) { l = 1; h = 0; } return; }
  l = lo(v->baseDomain()); h = hi(v->baseDomain());
}
// ... together with those of the tokens merged into the one it belongs to
static void base(ConstrainedVariableId v, long& l, long& h) {
  base1(v, l, h);
  if (l > h || v->parent().isNoId() || !TokenId::convertable(v->parent())) return;
  TokenId t = v->parent(); auto same = [&](TokenId m) { return v == t->start() ? (ConstrainedVariableId)m->start() : v == t->end() ? (ConstrainedVariableId)m->end() : (ConstrainedVariableId)m->duration(); };
  for (TokenId m : t->getMergedTokens()) { long a, b; base1(same(m), a, b); l = std::max(l, a); h = std::min(h, b); }
  if (l > h) { l = 1; h = 0; }
}
static void closure(ConstraintEngineId ce, Clo& g, const std::vector<ConstrainedVariableId>& more) {
  struct E { int a, b; long w; };
  std::vector<E> es;
  auto add = [&](int a, int b, long l, long h) { if (h < INF) es.push_back({a, b, h}); if (l > -INF) es.push_back({b, a, -l}); };
  for (ConstraintId c : ce->getConstraints()) {
    if (!c->isActive()) continue;
    const std::string n = c->getName(); const auto& s = c->getScope();
    if (n == "concurrent") add(g.node(s[0]), g.node(s[1]), 0, 0);
    else if (n == "precedes") add(g.node(s[0]), g.node(s[1]), 0, INF);
    else if (n == "strictlyPrecedes") add(g.node(s[0]), g.node(s[1]), 1, INF);
    else if (n == "temporalDistance") { long l, h; base(s[1], l, h); if (l > h) { g.ok = false; g.why = "empty distance"; } add(g.node(s[0]), g.node(s[2]), l, h); }
  }
  for (auto v : more) g.node(v);
  for (auto v : std::vector<ConstrainedVariableId>(g.vars)) { long l, h; base(v, l, h); if (l > h) { g.ok = false; g.why = "empty base"; } add(0, g.node(v), l, h); }
  int n = (int)g.vars.size() + 1;
  g.d.assign(n, std::vector<long>(n, INF));
  for (int i = 0; i < n; ++i) g.d[i][i] = 0;
  for (auto& e : es) g.d[e.a][e.b] = std::min(g.d[e.a][e.b], e.w);
  for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (g.d[i][k] < INF) for (int j = 0; j < n; ++j) if (g.d[k][j] < INF) g.d[i][j] = std::min(g.d[i][j], g.d[i][k] + g.d[k][j]);
  for (int i = 0; i < n; ++i) if (g.d[i][i] < 0) { g.ok = false; g.why = "negative cycle"; }
  if (!g.ok) {
    std::ostringstream o;
    for (auto v : g.vars) o << "\n" << v->toLongString();
    for (ConstraintId c : ce->getConstraints()) if (c->isActive()) { o << "\n" << c->toString(); for (auto v : c->getScope()) o << " " << v->getKey(); }
    g.why += o.str();
  }
}

static std::string vn(ConstrainedVariableId v) { return (v->parent().isId() ? v->parent()->getName() + "." : std::string()) + v->getName(); }
