// C07: temporal variables in a plan carry the exact temporal closure.
// Random plan edits; after each propagation the engine's own list of temporal constraints, the base
// domains and the specified values are turned into a distance graph and closed independently.
#include "tclo.hh"

struct World {
  H::Ctx& c; H::Rng& r; Eng e; std::vector<TokenId> toks; std::vector<ConstraintId> cons; std::vector<ConstrainedVariableId> free; int seq = 0; bool consistent = true; std::vector<ObjectId> tls;
  World(H::Ctx& c) : c(c), r(c.rng), e(false) {}
  std::vector<ConstrainedVariableId> times() { std::vector<ConstrainedVariableId> v; for (auto t : toks) { if (t->isMerged()) continue; v.push_back(t->start()); v.push_back(t->end()); } for (auto f : free) v.push_back(f); return v; }
};

static void judge(World& w) {
  H::Ctx& c = w.c; ConstraintEngineId ce = w.e.ce;
  bool ok = ce->propagate(); w.consistent = ok;
  Clo g; closure(ce, g, w.times());
  c.trace << " => " << (ok ? "consistent" : "inconsistent") << "\n";
  if (ok != g.ok) { c.fail(ok ? "contradiction-missed" : "contradiction-imagined", g.ok ? "the constraints can be met" : g.why); return; }
  c.count(ok ? "consistent_states" : "inconsistent_states");
  if (!ok) return;
  std::string sig;
  for (auto v : g.vars) {
    int i = g.ix[v]; long l = -g.d[i][0], h = g.d[0][i]; if (g.d[i][0] >= INF) l = -INF;
    long el = lo(v->lastDomain()), eh = hi(v->lastDomain());
    c.count("bounds_compared"); sig += iv(l, h);
    if (el != l || eh != h) c.fail(el > l || eh < h ? "bounds-too-tight" : "bounds-too-wide", vn(v) + " is " + iv(el, eh) + ", implied " + iv(l, h) + " base " + dom(v->baseDomain()));
  }
  c.seen(sig); 
  for (auto t : w.toks) {
    if (t->isMerged() || !g.ix.count(t->start())) continue;
    int s = g.ix[t->start()], q = g.ix[t->end()]; long bl, bh; base(t->duration(), bl, bh);
    long l = std::max(bl, g.d[q][s] >= INF ? -INF : -g.d[q][s]), h = std::min(bh, g.d[s][q]);
    // what the start and end bounds alone imply
    long sl = lo(t->start()->lastDomain()), sh = hi(t->start()->lastDomain()), dl = lo(t->end()->lastDomain()), dh = hi(t->end()->lastDomain());
    bool fin = sl > -INF && sh < INF && dl > -INF && dh < INF;
    long wl = fin ? std::max(bl, dl - sh) : bl, wh = fin ? std::min(bh, dh - sl) : bh;
    long el = lo(t->duration()->lastDomain()), eh = hi(t->duration()->lastDomain());
    c.count("durations_compared");
    if (el > l || eh < h) c.fail("duration-too-tight", t->getName() + " duration " + iv(el, eh) + ", implied " + iv(l, h));
    if (el < wl || eh > wh) c.fail("duration-too-wide", t->getName() + " duration " + iv(el, eh) + ", start and end imply " + iv(wl, wh));
    if (el != l || eh != h) c.count("durations_wider_than_closure");
  }
  if (c.failed()) return;
  // queries
  TemporalAdvisorId ad = w.e.pdb->getTemporalAdvisor();
  auto D = [&](ConstrainedVariableId a, ConstrainedVariableId b) { return g.d[g.ix[a]][g.ix[b]]; };  // most b - a may be
  auto tv = w.times();
  for (int k = 0; k < 6 && tv.size() > 1; ++k) {
    auto a = w.r.pick(tv), b = w.r.pick(tv); if (a == b) continue;
    if (!TimeVarId::convertable(a) || !TimeVarId::convertable(b)) continue;
    TimeVarId ta(a), tb(b);
    long l = D(b, a) >= INF ? -INF : -D(b, a), h = D(a, b); c.count("distance_queries");
    { IntervalIntDomain q = ad->getTemporalDistanceDomain(ta, tb, true);
      if (lo(q) != l || hi(q) != h) c.fail("distance-query", vn(a) + " to " + vn(b) + " answered " + iv(lo(q), hi(q)) + ", implied " + iv(l, h)); }
    { IntervalIntDomain q = ad->getTemporalDistanceDomain(ta, tb, false);
      if (lo(q) > l || hi(q) < h) c.fail("loose-distance-query", vn(a) + " to " + vn(b) + " answered " + iv(lo(q), hi(q)) + ", implied " + iv(l, h)); }
    bool cp = ad->canPrecede(ta, tb);
    if (cp != (h >= 0)) c.fail("can-precede-query", vn(a) + " before " + vn(b) + " answered " + (cp ? "yes" : "no") + ", distance " + iv(l, h));
  }
  auto hasTp = [&](ConstrainedVariableId v) { for (ConstraintId k : w.e.ce->getConstraints()) { auto n = k->getName(); if (k->isActive() && (n == "concurrent" || n == "precedes" || n == "strictlyPrecedes" || n == "temporalDistance")) { const auto& s = k->getScope(); if (s[0] == v || s[s.size() - 1] == v) return true; } } return false; };
  if (tv.size() > 2) {
    auto a = w.r.pick(tv); std::vector<ConstrainedVariableId> bs; for (auto b : tv) if (b != a && hasTp(b)) bs.push_back(b);
    if (hasTp(a) && !bs.empty()) {
      std::vector<IntervalIntDomain> ds; ad->getTemporalDistanceDomains(a, bs, ds);
      std::vector<eint> ls, us; ad->getTemporalDistanceSigns(a, bs, ls, us);
      auto sg = [](long x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
      for (size_t i = 0; i < bs.size(); ++i) {
        long l = D(bs[i], a) >= INF ? -INF : -D(bs[i], a), h = D(a, bs[i]);
        if (lo(ds[i]) != l || hi(ds[i]) != h) c.fail("distances-query", vn(a) + " to " + vn(bs[i]) + " answered " + iv(lo(ds[i]), hi(ds[i])) + ", implied " + iv(l, h));
        if (sg(cast_long(ls[i])) != sg(l) || sg(cast_long(us[i])) != sg(h)) c.fail("signs-query", vn(a) + " to " + vn(bs[i]) + " answered " + std::to_string(cast_long(ls[i])) + " " + std::to_string(cast_long(us[i])) + ", implied " + iv(l, h));
        c.count("sign_queries");
      }
    }
  }
  std::vector<TokenId> live; for (auto t : w.toks) if (!t->isMerged()) live.push_back(t); else c.count("merged_tokens");
  if (live.size() > 1) for (int k = 0; k < 4; ++k) {
    auto a = w.r.pick(live), b = w.r.pick(live); if (a == b) continue;
    c.count("token_queries");
    bool cp = ad->canPrecede(a, b), xp = D(a->end(), b->start()) >= 0;
    if (cp != xp) c.fail("token-can-precede", a->getName() + " before " + b->getName() + " answered " + (cp ? "yes" : "no"));
    bool cc = ad->canBeConcurrent(a, b);
    auto zero = [&](ConstrainedVariableId p, ConstrainedVariableId q) { return D(p, q) >= 0 && D(q, p) >= 0; };
    bool xc = zero(a->start(), b->start()) && zero(a->end(), b->end());
    if (cc != xc) c.fail("token-can-be-concurrent", a->getName() + " with " + b->getName() + " answered " + (cc ? "yes" : "no"));
    if (live.size() > 2) {
      auto t = w.r.pick(live); if (t == a || t == b) continue;
      // room for t between a and b
      bool cf = ad->canFitBetween(t, a, b);
      long room = D(a->end(), b->start()), need = D(t->end(), t->start()) >= INF ? -INF : -D(t->end(), t->start());
      bool xf = D(a->end(), t->start()) >= 0 && D(t->end(), b->start()) >= 0 && room >= need;
      c.count(xf ? "fits" : "fits_not");
      if (cf != xf) c.fail(cf ? "fit-imagined" : "fit-missed", t->getName() + " between " + a->getName() + " and " + b->getName() + " answered " + (cf ? "yes" : "no") + " room " + std::to_string(room) + " need " + std::to_string(need));
    }
  }
}

static void run(H::Ctx& c) {
  if (getenv("DBG")) { DebugMessage::setStream(std::cerr); DebugMessage::enableMatchingMsgs("", getenv("DBG")); }
  World* wp = new World(c); World& w = *wp; H::Rng& r = c.rng;  // kept when an error escapes: it cannot be taken apart then
  w.e.nddl("class R extends Timeline { predicate p { } } class O { predicate s { } } R r1 = new R(); R r2 = new R(); O o1 = new O(); close();");
  w.e.ce->setAutoPropagation(r.chance(20));
  for (ObjectId o : w.e.pdb->getObjects()) if (TimelineId::convertable(o)) w.tls.push_back(o);
  int steps = (int)r.range(8, c.thorough ? 60 : 30); long span = r.pick(std::vector<long>{6, 15, 40, 1000});
  auto rnd = [&]() { return r.range(-span / 2, span); };
  auto range = [&](long& a, long& b, bool neg) { a = neg ? rnd() : r.range(0, span); b = a + (r.chance(30) ? 0 : r.range(0, span)); };
  for (int st = 0; st < steps && !c.failed(); ++st) {
    int op = (int)r.below(17); auto tv = w.times();
    if (w.toks.size() < 2) op = 0;
    switch (op) {
      case 0: case 1: if (w.toks.size() < 8) {
        TokenId t = w.e.cl->createToken(r.chance(50) ? "O.s" : "R.p", "t" + std::to_string(w.seq++), true); w.toks.push_back(t); c.trace << "token " << t->getName() << " " << t->getPredicateName();
        if (r.chance(40)) { long a, b; range(a, b, false); if (b > 0) { a = std::max(a, r.chance(20) ? 0L : 1L); b = std::max(a, b); t->duration()->restrictBaseDomain(IntervalIntDomain(std::max(1L, a), std::max(1L, b))); c.trace << " duration " << iv(std::max(1L, a), std::max(1L, b)); } }
        if (r.chance(50)) { t->start()->restrictBaseDomain(IntervalIntDomain(0, span)); t->end()->restrictBaseDomain(IntervalIntDomain(0, span * 2)); c.trace << " horizon " << span; }
        if (r.chance(60)) { t->activate(); c.trace << " active"; }
        c.trace << "\n"; } break;
      case 2: if (w.free.size() < 3) { auto v = w.e.ce->createVariable("int", IntervalIntDomain(r.chance(50) ? eint(0) : MINUS_INFINITY, r.chance(50) ? eint(span) : PLUS_INFINITY), false, true, "v" + std::to_string(w.seq++)); w.free.push_back(v); c.trace << "variable " << v->getName() << " " << dom(v->baseDomain()) << "\n"; } break;
      case 3: case 4: case 5: case 6: {
        auto a = r.pick(tv), b = r.pick(tv); if (a == b) break;
        std::vector<ConstrainedVariableId> sc; std::string n;
        switch (r.below(4)) { case 0: n = "concurrent"; break; case 1: n = "precedes"; break; case 2: n = "strictlyPrecedes"; break; default: n = "temporalDistance"; }
        sc.push_back(a);
        if (n == "temporalDistance") { long x, y; range(x, y, true); IntervalIntDomain d(r.chance(15) ? MINUS_INFINITY : eint(x), r.chance(20) ? PLUS_INFINITY : eint(y)); sc.push_back(w.e.ce->createVariable("int", d, true, true, "d" + std::to_string(w.seq++))); c.trace << dom(d) << " "; }
        sc.push_back(b);
        c.trace << n << " " << vn(a) << " " << vn(b) << "\n";
        w.cons.push_back(w.e.cl->createConstraint(n, sc, "")); break; }
      case 7: case 8: if (!w.cons.empty()) { size_t i = r.below(w.cons.size()); bool mg = false; for (auto t : w.toks) if (t->isMerged()) for (auto v : w.cons[i]->getScope()) if (v->parent() == t) mg = true; if (mg) break; c.trace << "remove " << w.cons[i]->getName() << " " << vn(w.cons[i]->getScope()[0]) << "\n"; ConstrainedVariableId dv; if (w.cons[i]->getScope().size() == 3) dv = w.cons[i]->getScope()[1]; w.e.cl->deleteConstraint(w.cons[i]); if (dv.isId()) delete (ConstrainedVariable*)dv; w.cons.erase(w.cons.begin() + i); } break;
      case 10: case 11: { auto dt = r.pick(w.toks); auto v = r.chance(20) && !dt->isMerged() ? (ConstrainedVariableId)dt->duration() : r.pick(tv); 
        if (v->isSpecified()) { v->reset(); c.trace << "reset " << vn(v) << "\n"; }
        else { long l = lo(v->lastDomain()), h = hi(v->lastDomain()); long x = l > -INF && h < INF && l <= h ? r.range(l, h) : rnd(); if (r.chance(15)) x = rnd(); long bl, bh; base(v, bl, bh); if (x >= bl && x <= bh) { v->specify(edouble(double(x))); c.trace << "specify " << vn(v) << " " << x << "\n"; } } break; }
      case 12: { auto v = r.pick(tv); long a, b; range(a, b, true); a -= span / 2; b += span / 2; IntervalIntDomain d(a, b); IntervalIntDomain q(lo(v->baseDomain()) <= -INF ? MINUS_INFINITY : eint(lo(v->baseDomain())), hi(v->baseDomain()) >= INF ? PLUS_INFINITY : eint(hi(v->baseDomain())));
        long bl, bh; base(v, bl, bh); if (v->isSpecified() || !q.intersects(d)) break; q.intersect(d); if (lo(q) > bh || hi(q) < bl) break; c.trace << "restrict " << vn(v) << " " << dom(q) << "\n"; v->restrictBaseDomain(q); break; }
      case 13: { auto t = r.pick(w.toks); if (t->isInactive()) { t->activate(); c.trace << "activate " << t->getName() << "\n"; } else if ((t->isActive() || t->isMerged()) && !t->isCommitted()) { t->cancel(); c.trace << "cancel " << t->getName() << "\n"; } break; }
      case 14: { size_t i = r.below(w.toks.size()); auto t = w.toks[i]; bool used = false; for (auto k : w.cons) for (auto v : k->getScope()) if (v == t->start() || v == t->end()) used = true;
        if (used || w.toks.size() < 4) break; if (t->isActive() || t->isMerged()) t->cancel(); c.trace << "delete " << t->getName() << "\n"; w.e.cl->deleteToken(t); w.toks.erase(w.toks.begin() + i); break; }
      case 15: { // order two tokens on a timeline
        auto a = r.pick(w.toks), b = r.pick(w.toks); auto o = r.pick(w.tls); if (a == b || a->getPredicateName() != "R.p" || b->getPredicateName() != "R.p" || !w.e.ce->constraintConsistent() || w.e.ce->pending()) break;
        const auto& sq = TimelineId(o)->getTokenSequence(); auto in = [&](TokenId t) { for (auto x : sq) if (x == t) return true; return false; };
        if (in(a) && in(b)) break;                       // ordered already
        if (!sq.empty() && !in(a) && !in(b)) break;      // not possible by definition
        if (!a->isActive() || !b->isActive() || !a->getObject()->lastDomain().isMember(o->getKey()) || !b->getObject()->lastDomain().isMember(o->getKey())) break;
        bool on = false; for (auto k : w.e.ce->getConstraints()) (void)k;
        c.trace << "order " << a->getName() << " " << b->getName() << " on " << o->getName() << "\n"; (void)on;
        try { o->constrain(a, b); } catch (Error& x) { c.trace << "refused " << x.getMsg().substr(0, 80) << "\n"; } break; }
      case 16: { auto t = r.pick(w.toks); if (!t->isInactive() || !w.e.ce->constraintConsistent() || w.e.ce->pending() ) break; std::vector<TokenId> cs; w.e.pdb->getCompatibleTokens(t, cs); if (cs.empty()) break; auto a = r.pick(cs); c.trace << "merge " << t->getName() << " into " << a->getName() << "\n"; t->merge(a); break; }
      default: break;
    }
    if (r.chance(w.e.ce->getAutoPropagation() ? 100 : 45)) judge(w);
  }
  if (!c.failed()) judge(w);
  delete wp;
}
static H::Suite suite{"temporal", 0, run, nullptr, 30};
HARNESS_MAIN(suite)
