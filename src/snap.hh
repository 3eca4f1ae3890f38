// Structural snapshots of a plan: every token, variable and constraint under a name that does not depend on
// keys or addresses, so that two plans (or the same plan at two times) can be compared.
#pragma once
#include "plan.hh"
#include "RuleInstance.hh"
#include "Rule.hh"
#include "Utils.hh"

namespace PL {
struct Namer {
  std::map<long, std::string> n; std::map<std::string, TokenId> tok; std::vector<TokenId> toks; bool byObject;   // tokens masters first
  static long k(EntityId e) { return (long)cast_int(e->getKey()); }
  static bool byKey(TokenId a, TokenId b) { return a->getKey() < b->getKey(); }
  void add(TokenId t, const std::string& nm) {
    std::string u = nm; for (int i = 2; tok.count(u); ++i) u = nm + "'" + std::to_string(i);
    n[k(t)] = u; tok[u] = t; toks.push_back(t);
    std::vector<TokenId> s(t->slaves().begin(), t->slaves().end()); std::sort(s.begin(), s.end(), byKey);
    std::map<std::string, int> c;
    for (auto x : s) { std::string b = u + (byObject ? "@" + dom(x->getObject()->lastDomain()) : "") + "/" + x->getRelation() + ":" + x->getPredicateName() + (x->getName().size() && x->getName() != "NO_NAME" ? "." + x->getName() : ""); add(x, b + "#" + std::to_string(c[b]++)); }
  }
  explicit Namer(PlanDatabaseId p, bool bo = false) : byObject(bo) {
    for (ObjectId o : p->getObjects()) n[k(o)] = o->getName();
    std::vector<TokenId> f; for (TokenId t : p->getTokens()) if (t->master().isNoId()) f.push_back(t);
    std::sort(f.begin(), f.end(), byKey);
    for (auto t : f) add(t, t->getName());
  }
  std::string of(EntityId e) {
    if (e.isNoId()) return "";
    auto it = n.find(k(e)); if (it != n.end()) return it->second;
    if (RuleInstanceId::convertable(e)) { RuleInstanceId r(e); return of(r->getToken()) + "~" + (r->getRule().isId() ? r->getRule()->getName() : "rule"); }
    return e->getName();
  }
  std::string of(TokenId t) { return of(EntityId(t)); }
  template <class T> std::string of(const Id<T>& v) { return ofv(ConstrainedVariableId(v)); }
  std::string of(const ConstrainedVariableId& v) { return ofv(v); }
  std::string ofv(ConstrainedVariableId v) {
    if (v->parent().isNoId()) return v->getName() + ":" + dom(v->baseDomain());
    return of(v->parent()) + "." + v->getName();
  }
};
struct SnapOpt { bool derived = true, constraints = true, base = true, byObject = false; };
inline std::vector<std::string> snap(PlanDatabaseId p, ConstraintEngineId ce, SnapOpt o = SnapOpt()) {
  Namer nm(p, o.byObject); std::vector<std::string> out;
  auto names = [&](const TokenSet& s) { std::vector<std::string> v; for (auto t : s) v.push_back(nm.of(t)); std::sort(v.begin(), v.end()); std::string r; for (auto& x : v) r += x + " "; return r; };
  for (TokenId t : nm.toks) {
    std::string l = "token " + nm.of(t) + " " + t->getPredicateName() + (t->isActive() ? " active" : "") + (t->isInactive() ? " inactive" : "") + (t->isMerged() ? " merged into " + nm.of(t->getActiveToken()) : "") + (t->isRejected() ? " rejected" : "") + (t->isCommitted() ? " committed" : "") + (t->isFact() ? " fact" : "");
    if (t->getMergedTokens().size()) l += " with " + names(t->getMergedTokens());
    if (t->master().isId()) l += " master " + nm.of(t->master());
    out.push_back(l);
  }
  for (ObjectId ob : p->getObjects()) {
    std::string l = "object " + ob->getName() + " " + ob->getType() + " tokens " + names(ob->tokens());
    if (TimelineId::convertable(ob)) { l += " sequence"; for (auto t : TimelineId(ob)->getTokenSequence()) l += " " + nm.of(t); }
    out.push_back(l);
  }
  for (ConstrainedVariableId v : ce->getVariables()) {
    if (v->parent().isNoId() && v->isInternal()) continue;
    out.push_back("var " + nm.of(v) + (o.base ? " base " + dom(v->baseDomain()) : "") + (o.derived ? " is " + dom(v->lastDomain()) : "") + (v->isSpecified() ? " specified " + (v->lastDomain().isEmpty() ? num(v->getSpecifiedValue()) : v->lastDomain().isNumeric() ? num(v->getSpecifiedValue()) : dom(v->lastDomain())) : "") + (v->isActive() ? "" : " off"));
  }
  if (o.constraints) for (ConstraintId c : ce->getConstraints()) {
    std::string l = "constraint " + c->getName() + "("; for (auto v : c->getScope()) l += nm.of(v) + ","; out.push_back(l + ")" + (c->isActive() ? "" : " off"));
  }
  std::sort(out.begin(), out.end());
  return out;
}
inline std::string diff(const std::vector<std::string>& a, const std::vector<std::string>& b, const char* la = "before", const char* lb = "after") {
  std::vector<std::string> x, y; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
  std::string o; int k = 0; for (auto& s : x) if (k++ < 12) o += std::string("\n ") + la + ": " + s; k = 0; for (auto& s : y) if (k++ < 12) o += std::string("\n ") + lb + ": " + s;
  return o;
}
}  // namespace PL
