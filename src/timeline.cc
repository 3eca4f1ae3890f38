// C09: tokens on a timeline. Random placing, freeing, retraction, merging under random temporal constraints;
// the sequence, the ordering flaws and the ordering choices are compared with a model of the orderings made
// and with an independent temporal closure.
#include "tclo.hh"
#include <algorithm>

struct TL { TimelineId o; std::vector<TokenId> seq; std::set<std::pair<TokenId, TokenId>> expl, impl;   // links made by a client, and those the timeline makes to keep neighbours apart
  void drop(std::set<std::pair<TokenId, TokenId>>& s, TokenId t) { for (auto x = s.begin(); x != s.end();) if (x->first == t || x->second == t) x = s.erase(x); else ++x; }
};
struct World {
  H::Ctx& c; H::Rng& r; Eng e; std::vector<TokenId> toks; std::vector<ConstraintId> cons, ocons; int seq = 0; std::vector<TL> tls; std::map<TokenId, std::string> nm;
  World(H::Ctx& c) : c(c), r(c.rng), e(false) {}
  std::string n(TokenId t) { return nm[t]; }
  TL* placed(TokenId t) { for (auto& l : tls) if (std::count(l.seq.begin(), l.seq.end(), t)) return &l; return nullptr; }
  // what the timeline does when the token leaves it (cancelled, deleted, ...)
  void leave(TokenId t) {
    for (auto& l : tls) {
      auto it = std::find(l.seq.begin(), l.seq.end(), t); if (it == l.seq.end()) continue;
      bool mid = it != l.seq.begin() && it + 1 != l.seq.end(); TokenId a, b; if (mid) { a = *(it - 1); b = *(it + 1); }
      bool linked = mid && (l.expl.count({a, b}) || l.impl.count({a, b}));
      l.seq.erase(it); l.drop(l.expl, t); l.drop(l.impl, t);
      if (mid && !linked) l.expl.insert({a, b});
    }
  }
};
static std::string seqs(World& w, const std::vector<TokenId>& s) { std::string o; for (auto t : s) o += w.n(t) + " "; return o; }
static std::vector<ConstrainedVariableId> times(World& w) { std::vector<ConstrainedVariableId> v; for (auto t : w.toks) if (!t->isMerged()) { v.push_back(t->start()); v.push_back(t->end()); } return v; }

// can the object variables all be given values?
static bool objectsPossible(World& w) {
  auto rep = [](TokenId t) { return t->isMerged() ? t->getActiveToken() : t; };
  std::map<TokenId, std::set<size_t>> dom;
  for (auto t : w.toks) if (!t->isMerged()) for (size_t i = 0; i < w.tls.size(); ++i) dom[t].insert(i);
  for (auto t : w.toks) {
    auto& d = dom[rep(t)];
    for (size_t i = 0; i < w.tls.size(); ++i) {
      ObjectVarId v = t->getObject();
      if (v->isSpecified() && v->getSpecifiedValue() != edouble(w.tls[i].o->getKey())) d.erase(i);
      if (std::count(w.tls[i].seq.begin(), w.tls[i].seq.end(), t)) for (size_t j = 0; j < w.tls.size(); ++j) if (j != i) d.erase(j);
    }
  }
  for (auto& kv : dom) if (kv.second.empty()) return false;
  std::vector<TokenId> vs; for (auto k : w.ocons) for (auto v : k->getScope()) { TokenId t = rep(TokenId(v->parent())); if (!std::count(vs.begin(), vs.end(), t)) vs.push_back(t); }
  std::map<TokenId, size_t> val;
  std::function<bool(size_t)> go = [&](size_t i) {
    if (i == vs.size()) { for (auto k : w.ocons) { auto a = val[rep(TokenId(k->getScope()[0]->parent()))], b = val[rep(TokenId(k->getScope()[1]->parent()))]; if ((a == b) != (k->getName() == "eq")) return false; } return true; }
    for (auto x : dom[vs[i]]) { val[vs[i]] = x; if (go(i + 1)) return true; }
    return false;
  };
  return go(0);
}

static void judge(World& w) {
  H::Ctx& c = w.c; ConstraintEngineId ce = w.e.ce;
  if (getenv("DBG")) std::cerr << "JUDGE\n"; bool ok = ce->propagate(); if (getenv("DBG")) std::cerr << "JUDGED " << ok << "\n"; c.trace << " => " << (ok ? "consistent" : "inconsistent") << "\n";
  c.count(ok ? "consistent_states" : "inconsistent_states");
  std::string sig;
  for (auto& l : w.tls) {
    std::vector<TokenId> s(l.o->getTokenSequence().begin(), l.o->getTokenSequence().end());
    c.count("sequences"); if (s.size() > 2) c.count("long_sequences"); sig += std::to_string(s.size()) + "/";
    if (s != l.seq) c.fail("sequence", l.o->getName() + " reports " + seqs(w, s) + "expected " + seqs(w, l.seq));
  }
  Clo g; closure(ce, g, times(w));
  if (c.failed()) return;
  bool objs = objectsPossible(w);
  if (ok && !g.ok) { c.fail("contradiction-missed", g.why); return; }
  if (!ok && g.ok && objs) { c.fail("contradiction-imagined", "the temporal constraints can be met"); return; }
  if (!ok) return;
  auto D = [&](ConstrainedVariableId a, ConstrainedVariableId b) { return g.d[g.ix.at(a)][g.ix.at(b)]; };  // most b - a may be
  // placed tokens follow each other, on this object only
  for (auto& l : w.tls) for (size_t i = 0; i < l.seq.size(); ++i) {
    TokenId t = l.seq[i];
    const Domain& d = t->getObject()->lastDomain();
    if (!d.isSingleton() || d.getSingletonValue() != edouble(l.o->getKey())) c.fail("object-of-placed-token", w.n(t) + " on " + l.o->getName() + " has " + d.toString());
    if (!t->isActive()) c.fail("placed-not-active", w.n(t));
    if (i && D(t->start(), l.seq[i - 1]->end()) > 0) c.fail("overlap-possible", w.n(l.seq[i - 1]) + " can end after the start of " + w.n(t) + " on " + l.o->getName());
    if (i && l.seq[i - 1]->end()->lastDomain().getLowerBound() > t->start()->lastDomain().getLowerBound()) c.fail("order-bounds", w.n(t));
    c.count("placed_tokens");
  }
  // explicit orderings
  for (auto& l : w.tls) for (auto& p : l.expl) if (p.first != p.second && D(p.second->start(), p.first->end()) > 0) c.fail("explicit-ordering-lost", w.n(p.first) + " before " + w.n(p.second));
  // who needs ordering
  std::set<std::pair<TokenId, ObjectId>> want, have;
  for (auto t : w.toks) if (t->isActive()) for (auto& l : w.tls) if (t->getObject()->lastDomain().isMember(l.o->getKey()) && !std::count(l.seq.begin(), l.seq.end(), t)) want.insert({t, l.o});
  for (auto& kv : w.e.pdb->getTokensToOrder()) for (auto o : kv.second.second) have.insert({kv.second.first, o});
  auto str = [&](const std::set<std::pair<TokenId, ObjectId>>& s) { std::string o; for (auto& p : s) o += w.n(p.first) + "@" + p.second->getName() + " "; return o; };
  c.count("needing_order", (long)want.size());
  if (want != have) c.fail("tokens-to-order", "reported " + str(have) + "expected " + str(want));
  std::set<std::pair<TokenId, ObjectId>> have2;
  for (auto& l : w.tls) {
    std::vector<TokenId> v; l.o->getTokensToOrder(v); for (auto t : v) have2.insert({t, l.o});
    if (l.o->hasTokensToOrder() != !v.empty()) c.fail("has-tokens-to-order", l.o->getName());
    for (auto t : w.toks) { bool on = l.o->tokens().count(t), e = t->isActive() && t->getObject()->lastDomain().isMember(l.o->getKey()); if (on != e) c.fail("tokens-of-timeline", w.n(t) + (on ? " on " : " missing on ") + l.o->getName()); }
  }
  if (want != have2) c.fail("timeline-tokens-to-order", "reported " + str(have2) + "expected " + str(want));
  if (c.failed()) return;
  // choices
  for (auto& tw : want) {
    if (!w.r.chance(60)) continue;
    TokenId t = tw.first; TL* l = nullptr; for (auto& x : w.tls) if ((ObjectId)x.o == tw.second) l = &x;
    std::vector<std::pair<TokenId, TokenId>> exp, got; size_t n = l->seq.size();
    if (n == 0) exp.push_back({t, t});
    for (size_t i = 0; n && i <= n; ++i) {
      TokenId p, s; if (i) p = l->seq[i - 1]; if (i < n) s = l->seq[i];
      bool fit = true;
      if (p.isId() && D(p->end(), t->start()) < 0) fit = false;
      if (s.isId() && D(t->end(), s->start()) < 0) fit = false;
      if (fit && p.isId() && s.isId() && D(p->end(), s->start()) < INF && D(t->end(), t->start()) < INF && D(p->end(), s->start()) + D(t->end(), t->start()) < 0) fit = false;
      if (fit) exp.push_back(i < n ? std::make_pair(t, s) : std::make_pair(p, t)); else c.count("positions_excluded");
    }
    c.count("choices_compared"); c.count("positions_offered", (long)exp.size());
    unsigned long lim = w.r.chance(60) ? PLUS_INFINITY == PLUS_INFINITY ? 1000 : 0 : (unsigned long)w.r.range(1, 3);
    l->o->getOrderingChoices(t, got, lim);
    auto ps = [&](const std::vector<std::pair<TokenId, TokenId>>& v) { std::string o; for (auto& p : v) o += "(" + w.n(p.first) + "," + w.n(p.second) + ") "; return o; };
    auto cut = exp; if (cut.size() > lim) cut.resize(lim);
    if (got != cut) c.fail("ordering-choices", w.n(t) + " on " + l->o->getName() + " [" + seqs(w, l->seq) + "] offered " + ps(got) + "expected " + ps(cut));
  }
  for (auto t : w.toks) if (w.r.chance(20) && w.e.pdb->getTokensToOrder().count(t->getKey())) {
    std::vector<OrderingChoice> ch; w.e.pdb->getOrderingChoices(t, ch, 1000);
    size_t n = 0; for (auto& l : w.tls) if (want.count({t, l.o})) { std::vector<std::pair<TokenId, TokenId>> g2; l.o->getOrderingChoices(t, g2, 1000); n += g2.size(); for (auto& p : g2) { bool f = false; for (auto& x : ch) if (x.first == (ObjectId)l.o && x.second == p) f = true; if (!f) c.fail("plan-ordering-choices", w.n(t)); } }
    if (ch.size() != n) c.fail("plan-ordering-choices", w.n(t) + " offered " + std::to_string(ch.size()) + " expected " + std::to_string(n));
    if (w.e.pdb->countOrderingChoices(t, 1000) != n && want.size()) { bool all = true; std::list<edouble> os; t->getObject()->lastDomain().getValues(os); for (auto o : os) { bool f = false; for (auto& l : w.tls) if (edouble(l.o->getKey()) == o) f = true; all = all && f; } if (all) c.fail("count-ordering-choices", w.n(t)); }
    if (w.e.pdb->hasOrderingChoice(t) != (n > 0)) c.fail("has-ordering-choice", w.n(t));
    c.count("plan_choices");
  }
  sig += str(want); c.seen(sig + std::to_string(w.cons.size()));
}

static void run(H::Ctx& c) {
  if (getenv("DBG")) { DebugMessage::setStream(std::cerr); DebugMessage::enableMatchingMsgs("", getenv("DBG")); }
  World* wp = new World(c); World& w = *wp; H::Rng& r = c.rng;
  w.e.nddl("class R extends Timeline { predicate p { } predicate q { } } R r1 = new R(); R r2 = new R(); R r3 = new R(); close();");
  w.e.ce->setAutoPropagation(r.chance(20));
  for (ObjectId o : w.e.pdb->getObjects()) w.tls.push_back({TimelineId(o), {}, {}});
  int steps = (int)r.range(10, c.thorough ? 80 : 40); long span = r.pick(std::vector<long>{6, 15, 40});
  auto live = [&]() { return w.e.ce->constraintConsistent() && !w.e.ce->pending(); };
  for (int st = 0; st < steps && !c.failed(); ++st) {
    int op = (int)r.below(16);
    if (w.toks.size() < 3) op = 0;
    switch (op) {
      case 0: case 1: if (w.toks.size() < 9) {
        TokenId t = w.e.cl->createToken(r.chance(80) ? "R.p" : "R.q", "t" + std::to_string(w.seq), true); w.nm[t] = "t" + std::to_string(w.seq++); w.toks.push_back(t); c.trace << "token " << w.n(t) << " " << t->getPredicateName();
        if (r.chance(60)) { long a = r.range(1, span / 2), b = a + r.range(0, span / 2); t->duration()->restrictBaseDomain(IntervalIntDomain(a, b)); c.trace << " duration " << iv(a, b); }
        if (r.chance(60)) { t->start()->restrictBaseDomain(IntervalIntDomain(0, span)); t->end()->restrictBaseDomain(IntervalIntDomain(0, span * 2)); c.trace << " horizon " << span; }
        if (r.chance(50)) { auto& l = r.pick(w.tls); t->getObject()->specify(l.o->getKey()); c.trace << " object " << l.o->getName(); }
        if (r.chance(70)) { t->activate(); c.trace << " active"; }
        c.trace << "\n"; } break;
      case 2: case 3: { auto tv = times(w); auto a = r.pick(tv), b = r.pick(tv); if (a == b) break;
        std::vector<ConstrainedVariableId> sc{a, b}; std::string n = r.chance(40) ? "precedes" : r.chance(30) ? "strictlyPrecedes" : r.chance(30) ? "concurrent" : "temporalDistance";
        if (n == "temporalDistance") { long x = r.range(-span / 2, span), y = x + r.range(0, span); auto d = w.e.ce->createVariable("int", IntervalIntDomain(x, y), true, true, "d" + std::to_string(w.seq++)); sc = {a, d, b}; c.trace << iv(x, y) << " "; }
        c.trace << n << " " << vn(a) << " " << vn(b) << "\n"; w.cons.push_back(w.e.cl->createConstraint(n, sc, "")); break; }
      case 4: if (!w.cons.empty()) { size_t i = r.below(w.cons.size()); bool mg = false; for (auto t : w.toks) if (t->isMerged()) for (auto v : w.cons[i]->getScope()) if (v->parent() == t) mg = true; if (mg) break;
        c.trace << "remove " << w.cons[i]->getName() << " " << vn(w.cons[i]->getScope()[0]) << "\n"; ConstrainedVariableId dv; if (w.cons[i]->getScope().size() == 3) dv = w.cons[i]->getScope()[1]; w.e.cl->deleteConstraint(w.cons[i]); if (dv.isId()) delete (ConstrainedVariable*)dv; w.cons.erase(w.cons.begin() + i); } break;
      case 5: { auto t = r.pick(w.toks); if (t->isMerged()) break; auto v = r.chance(50) ? (ConstrainedVariableId)t->start() : (ConstrainedVariableId)t->end();
        if (v->isSpecified()) { v->reset(); c.trace << "reset " << vn(v) << "\n"; } else { long l, h; base(v, l, h); long x = r.range(0, span); if (l <= x && x <= h) { v->specify(edouble(double(x))); c.trace << "specify " << vn(v) << " " << x << "\n"; } } break; }
      case 6: { auto t = r.pick(w.toks); if (t->isInactive()) { if (t->getObject()->lastDomain().isEmpty()) break; t->activate(); c.trace << "activate " << w.n(t) << "\n"; } else if (r.chance(50) && (t->isActive() || t->isMerged())) { c.trace << "cancel " << w.n(t) << "\n"; if (t->isActive()) w.leave(t); t->cancel(); } break; }
      case 7: { size_t i = r.below(w.toks.size()); auto t = w.toks[i]; bool used = false; for (auto k : w.cons) for (auto v : k->getScope()) if (v->parent() == t) used = true; for (auto k : w.ocons) for (auto v : k->getScope()) if (v->parent() == t) used = true;
        if (used || w.toks.size() < 4) break; c.trace << "delete " << w.n(t) << "\n"; if (t->isActive()) w.leave(t); if (t->isActive() && t->getMergedTokens().empty() && !w.e.ce->getAutoPropagation() && r.chance(40)) delete (Token*)t; else { if (t->isActive() || t->isMerged()) t->cancel(); w.e.cl->deleteToken(t); } w.toks.erase(w.toks.begin() + i); break; }
      case 8: { auto t = r.pick(w.toks); if (!t->isInactive() || !live()) break; std::vector<TokenId> cs; w.e.pdb->getCompatibleTokens(t, cs); if (cs.empty()) break; auto a = r.pick(cs); c.trace << "merge " << w.n(t) << " into " << w.n(a) << "\n"; t->merge(a); break; }
      case 9: { // where a token may be, by hand; only while it has no place
        auto t = r.pick(w.toks); if (t->isMerged() || w.placed(t) || !live()) break; auto v = t->getObject();
        if (v->isSpecified()) { v->reset(); c.trace << "reset object of " << w.n(t) << "\n"; } else { auto& l = r.pick(w.tls); if (v->lastDomain().isMember(l.o->getKey())) { v->specify(l.o->getKey()); c.trace << "object of " << w.n(t) << " " << l.o->getName() << "\n"; } } break; }
      case 10: if (!live()) break; if (w.ocons.size() < 2 && r.chance(60)) { auto a = r.pick(w.toks), b = r.pick(w.toks); if (a == b || a->isMerged() || b->isMerged()) break; std::string n = r.chance(50) ? "eq" : "neq"; c.trace << n << " objects of " << w.n(a) << " " << w.n(b) << "\n"; w.ocons.push_back(w.e.cl->createConstraint(n, {a->getObject(), b->getObject()}, "")); }
        else if (!w.ocons.empty()) { bool mg = false; for (auto v : w.ocons.back()->getScope()) if (TokenId(v->parent())->isMerged()) mg = true; if (mg) break; c.trace << "remove " << w.ocons.back()->getName() << " objects\n"; w.e.cl->deleteConstraint(w.ocons.back()); w.ocons.pop_back(); } break;
      case 11: { // free an ordering
        TL& l = w.tls[r.below(w.tls.size())]; if (l.expl.empty() || !live()) break; std::vector<std::pair<TokenId, TokenId>> es(l.expl.begin(), l.expl.end()); auto p = r.pick(es);
        c.trace << "free " << w.n(p.first) << " " << w.n(p.second) << " on " << l.o->getName() << "\n";
        if (r.chance(50)) w.e.cl->free(l.o, p.first, p.second); else l.o->free(p.first, p.second);
        l.expl.erase(p);
        auto req = [&](TokenId t) { for (auto& x : l.expl) if (x.first == t || x.second == t) return true; return false; };
        bool r1 = req(p.first), r2 = req(p.second);
        if (r1 && r2) l.impl.insert(p);
        auto unlink = [&](TokenId t) { auto it = std::find(l.seq.begin(), l.seq.end(), t); if (it == l.seq.end()) return; l.drop(l.impl, t); if (it != l.seq.begin() && it + 1 != l.seq.end() && !l.expl.count({*(it - 1), *(it + 1)})) l.impl.insert({*(it - 1), *(it + 1)}); l.seq.erase(it); };
        if (!r2) unlink(p.second);
        if (!r1) unlink(p.first);
        break; }
      default: { // place a token
        if (!live()) break; TL& l = w.tls[r.below(w.tls.size())]; std::vector<TokenId> can; for (auto t : w.toks) if (t->isActive() && !w.placed(t) && t->getObject()->lastDomain().isMember(l.o->getKey())) can.push_back(t);
        if (can.empty()) break; TokenId t = r.pick(can), p, s;
        if (l.seq.empty()) { p = s = t; if (can.size() > 1 && w.ocons.empty() && r.chance(30)) { do s = r.pick(can); while (s == t); } l.seq = p == s ? std::vector<TokenId>{p} : std::vector<TokenId>{p, s}; }
        else {
          std::vector<std::pair<TokenId, TokenId>> ch; l.o->getOrderingChoices(t, ch, 1000);
          if (!ch.empty() && r.chance(85)) { auto x = r.pick(ch); p = x.first; s = x.second; }
          else if (r.chance(50)) { p = t; s = r.pick(l.seq); } else { s = t; p = r.pick(l.seq); }
          auto at = std::find(l.seq.begin(), l.seq.end(), p == t ? s : p); l.seq.insert(p == t ? at : at + 1, t);
        }
        { auto it = std::find(l.seq.begin(), l.seq.end(), t); if (p != s && l.seq.size() > 2) { if (t == p && it != l.seq.begin()) l.impl.insert({*(it - 1), t}); if (t == s && it + 1 != l.seq.end()) l.impl.insert({t, *(it + 1)}); } }
        l.expl.insert({p, s}); c.trace << "place " << w.n(p) << " " << w.n(s) << " on " << l.o->getName() << "\n"; c.count("placements");
        if (r.chance(50)) w.e.cl->constrain(l.o, p, s); else l.o->constrain(p, s);
        break; }
    }
    if (r.chance(w.e.ce->getAutoPropagation() ? 100 : 60)) judge(w);
  }
  if (!c.failed()) judge(w);
  delete wp;
}
static H::Suite suite{"timeline", 0, run, nullptr, 30};
HARNESS_MAIN(suite)
