// C08: token life cycle. Random histories of activation, merging, rejection, cancelling, restriction and deletion;
// states and links checked after every step, undone bursts compared structurally, derived domains compared with an
// engine in which every merged token is kept apart and its variables equated with those of the token it is merged into.
#include "snap.hh"
using namespace PL;

static const char* MODEL =
  "typedef int [0 12] N; enum C {A,B,D};\n"
  "class R { predicate p { N x; N y; } predicate q { N x; C c; } predicate s { N x; bool b; } predicate w { C c; } }\n"
  "R::p { meets(object.q a); eq(a.x, x); starts(R.s d); leq(d.x, y); }\n"
  "R::q { contained_by(object.s b); leq(x, b.x); }\n"
  "R r1 = new R(); R r2 = new R(); R r3 = new R(); close();";

struct Con { ConstraintId id; long key; std::string type; std::vector<std::string> vars; };
struct Free { std::string name, pred; bool rej; TokenId id; };
struct World {
  H::Ctx& c; H::Rng& r; Eng e; int seq = 0; bool orphans;
  std::vector<Free> free; std::map<std::string, double> spec; std::map<std::string, std::vector<std::pair<long, long>>> base; std::vector<Con> cons;
  World(H::Ctx& c) : c(c), r(c.rng), orphans(false) {}
};
struct Names : Namer { PlanDatabaseId p; Names(Eng& e) : Namer(e.pdb), p(e.pdb) {}
  ConstrainedVariableId var(const std::string& s) { size_t d = s.rfind('.'); auto t = tok.find(s.substr(0, d)); if (t == tok.end()) return ConstrainedVariableId::noId(); for (auto v : t->second->getVariables()) if (v->getName() == s.substr(d + 1)) return v; return ConstrainedVariableId::noId(); }
};
static const Domain& D(ConstrainedVariableId v) { return v->lastDomain(); }

// forget content that went with its tokens
static void prune(World& w) {
  Names n(w.e);
  for (auto it = w.spec.begin(); it != w.spec.end();) if (n.var(it->first).isNoId()) it = w.spec.erase(it); else ++it;
  for (auto it = w.base.begin(); it != w.base.end();) if (n.var(it->first).isNoId()) it = w.base.erase(it); else ++it;
  std::vector<Con> keep;
  std::set<std::pair<ConstraintId, long>> alive; for (auto k : w.e.ce->getConstraints()) alive.insert({k, (long)cast_int(k->getKey())});
  for (auto& k : w.cons) { bool ok = alive.count({k.id, k.key}); for (auto& v : k.vars) if (!w.orphans && n.var(v).isNoId()) ok = false; if (ok) keep.push_back(k); }
  w.cons = keep;
}

static bool shown(H::Ctx& c, const std::string& op) { if (getenv("DBG")) std::cerr << "## " << op << "\n"; c.trace << op << "\n"; return true; }

static void invariants(World& w) {
  H::Ctx& c = w.c; Names n(w.e); std::set<TokenId> all(n.toks.begin(), n.toks.end());
  if (all.size() != w.e.pdb->getTokens().size()) c.fail("tokens-set", std::to_string(all.size()) + " reachable of " + std::to_string(w.e.pdb->getTokens().size()));
  std::map<std::string, std::set<TokenId>> act;
  for (TokenId t : n.toks) {
    int k = t->isActive() + t->isInactive() + t->isMerged() + t->isRejected() + t->isIncomplete();
    if (k != 1) c.fail("state-not-exclusive", n.of(t) + " is in " + std::to_string(k) + " states");
    StateVarId s = t->getState();
    std::string v = s->isSpecified() ? LabelStr(s->getSpecifiedValue()).toString() : "INACTIVE", e = t->isActive() ? "ACTIVE" : t->isMerged() ? "MERGED" : t->isRejected() ? "REJECTED" : "INACTIVE";
    if (v != e) c.fail("state-variable", n.of(t) + " has " + v + " is " + e);
    if (t->isActive()) act[t->getPredicateName()].insert(t);
    for (auto m : t->getMergedTokens()) if (!m->isMerged() || m->getActiveToken() != t || !all.count(m)) c.fail("merged-list", n.of(t));
    if (t->getMergedTokens().size() && !t->isActive()) c.fail("merged-into-inactive", n.of(t));
    if (t->isMerged()) { if (t->getActiveToken().isNoId() || !t->getActiveToken()->isActive() || !t->getActiveToken()->getMergedTokens().count(t)) c.fail("active-token", n.of(t)); if (t->slaves().size()) c.fail("merged-with-slaves", n.of(t)); }
    else if (t->getActiveToken().isId()) c.fail("active-token", n.of(t) + " is not merged");
    if (!t->isActive() && t->slaves().size()) c.fail("slaves-of-inactive", n.of(t));
    for (auto x : t->slaves()) if (x->master() != t) c.fail("slave-master", n.of(x));
    if (t->master().isId() && (!t->master()->isActive() || !t->master()->slaves().count(t))) c.fail("master-slave", n.of(t));
    for (auto x : t->getVariables()) { bool on = x->isActive(), want = !t->isMerged() || x == s; if (on != want) c.fail("variable-activity", n.of(x)); }
    c.count("tokens_inspected");
  }
  for (auto p : {"R.p", "R.q", "R.s", "R.w"}) { auto& g = w.e.pdb->getActiveTokens(p); std::set<TokenId> got(g.begin(), g.end()); if (got != act[p]) c.fail("active-by-predicate", std::string(p) + " lists " + std::to_string(got.size()) + " of " + std::to_string(act[p].size())); }
}

// the same content with merged tokens kept apart
static void conjunction(World& w, bool ok) {
  H::Ctx& c = w.c; Names n(w.e); Eng* rp = new Eng(false); Eng& f = *rp;
  f.nddl(MODEL);
  for (auto& t : w.free) f.cl->createToken(t.pred.c_str(), t.name.c_str(), t.rej);
  for (TokenId t : n.toks) if (t->isActive()) {
    Names m(f); auto it = m.tok.find(n.of(t)); if (it == m.tok.end()) { if (!ok) { c.count("set_aside"); delete rp; return; } c.fail("slaves-differ", n.of(t) + " does not come about"); delete rp; return; }
    it->second->activate(); f.ce->propagate();
  }
  Names m(f);
  auto add = [&](const std::string& k, ConstrainedVariableId a, ConstrainedVariableId b) { f.cl->createConstraint(k.c_str(), {a, b}, ""); };
  bool rok = true; bool merged = false;
  for (TokenId t : n.toks) {
    auto it = m.tok.find(n.of(t)); if (it == m.tok.end()) { if (ok) c.fail("slaves-differ", n.of(t)); delete rp; return; }
    if (t->isRejected()) it->second->reject();
    if (t->isMerged()) { merged = true; TokenId a = m.tok.at(n.of(t->getActiveToken())), b = it->second; for (size_t i = 1; i < b->getVariables().size(); ++i) { auto v = b->getVariables()[i]; add(v->getName() == "start" || v->getName() == "end" ? "concurrent" : "eq", v, a->getVariables()[i]); } }
  }
  if (ok && m.toks.size() != n.toks.size()) { c.fail("slaves-differ", std::to_string(n.toks.size()) + " tokens against " + std::to_string(m.toks.size())); delete rp; return; }
  for (auto& kv : w.base) for (auto& b : kv.second) m.var(kv.first)->restrictBaseDomain(IntervalIntDomain(b.first, b.second));
  for (auto& kv : w.spec) { auto v = m.var(kv.first); double x = kv.second; if (v->baseDomain().isEntity()) { ObjectId o = w.e.pdb->getObject(Entity::getEntity(cast_int(edouble(x)))->getName()); x = cast_double(edouble(f.pdb->getObject(o->getName())->getKey())); }
    if (v->baseDomain().isMember(edouble(x))) v->specify(edouble(x)); else { c.count("set_aside"); delete rp; return; } }
  for (auto& k : w.cons) { std::vector<ConstrainedVariableId> s; for (auto& v : k.vars) s.push_back(m.var(v)); f.cl->createConstraint(k.type.c_str(), s, ""); }
  rok = f.ce->propagate();
  c.count(rok ? "consistent_states" : "inconsistent_states"); if (merged) c.count(rok ? "merged_states" : "merged_inconsistent");
  if (rok != ok) c.fail(ok ? "contradiction-missed" : "contradiction-imagined", std::string("with merged tokens kept apart the content is ") + (rok ? "consistent" : "inconsistent"));
  else if (ok) {
    std::string sig;
    for (TokenId t : n.toks) { if (t->isMerged()) continue; TokenId x = m.tok.at(n.of(t));
      for (size_t i = t->isInactive() ? 0 : 1; i < t->getVariables().size(); ++i) { std::string a = dom(D(t->getVariables()[i])), b = dom(D(x->getVariables()[i])); sig += a; c.count("domains_compared"); if (a != b) c.fail("conjunction", n.of(t->getVariables()[i]) + " is " + a + " but the tokens' restrictions together give " + b); } }
    c.seen(sig);
  }
  delete rp;
}
// names are not shared between engines for object keys: objects have the same names, see dom()

static std::vector<TokenId> live(World& w) { Names n(w.e); return n.toks; }
static bool hasGuests(TokenId t) { if (t->master().isId() && t->getMergedTokens().size()) return true; for (auto s : t->slaves()) if (hasGuests(s)) return true; return false; }

typedef std::function<void()> Undo;
// one life-cycle step that can be undone; empty if nothing was done
static Undo step(World& w, bool forUndo) {
  H::Ctx& c = w.c; H::Rng& r = w.r; Names n(w.e); auto& ts = n.toks;
  int op = (int)r.below(16);
  if (w.free.size() < 3) op = 0;
  auto dropTok = [&w](const std::string& nm) { for (size_t i = 0; i < w.free.size(); ++i) if (w.free[i].name == nm) { w.free.erase(w.free.begin() + i); break; } };
  switch (op) {
    case 0: case 1: { if (w.free.size() > 6) break;
      std::string nm = "t" + std::to_string(w.seq++), p = r.pick(std::vector<std::string>{"R.p", "R.q", "R.q", "R.s", "R.s", "R.s", "R.w"}); bool rej = r.chance(50);
      shown(c, "create " + nm + " " + p + (rej ? " rejectable" : "")); TokenId t = w.e.cl->createToken(p.c_str(), nm.c_str(), rej); w.free.push_back({nm, p, rej, t});
      return [&w, nm, t, dropTok]() { shown(w.c, "delete " + nm); w.e.cl->deleteToken(t); dropTok(nm); }; }
    case 2: case 3: { if (ts.empty()) break; TokenId t = r.pick(ts); if (!t->isInactive() || D(t->getObject()).isEmpty()) break;
      shown(c, "activate " + n.of(t)); w.c.count("activations"); if (r.chance(50)) t->activate(); else w.e.cl->activate(t); std::string nm = n.of(t);
      return [&w, t, nm]() { shown(w.c, "cancel " + nm); w.e.cl->cancel(t); }; }
    case 4: case 5: case 6: { if (ts.empty()) break; TokenId t = r.pick(ts); if (!t->isInactive()) break; if (!w.e.ce->propagate()) break;
      std::vector<TokenId> cs; w.e.pdb->getCompatibleTokens(t, cs); if (cs.empty()) break; TokenId a = r.pick(cs);
      shown(c, "merge " + n.of(t) + " into " + n.of(a)); w.c.count("merges"); if (r.chance(50)) t->doMerge(a); else w.e.cl->merge(t, a); std::string nm = n.of(t); w.e.ce->propagate();   // what a deactivated constraint did stays until something relaxes: edits between a merge and its propagation are not judged
      return [&w, t, nm]() { shown(w.c, "cancel " + nm); w.e.cl->cancel(t); }; }
    case 7: { if (r.chance(60)) break; std::vector<TokenId> can; for (auto& f : w.free) if (f.rej && f.id->isInactive()) can.push_back(f.id); if (can.empty()) break; TokenId t = r.pick(can);
      shown(c, "reject " + n.of(t)); t->reject(); std::string nm = n.of(t); w.c.count("rejections");
      return [&w, t, nm]() { shown(w.c, "cancel " + nm); t->cancel(); }; }
    case 8: case 9: { if (ts.empty()) break; TokenId t = r.pick(ts); if (t->isMerged()) break; auto v = r.pick(t->getVariables()); if (v == t->getState()) break; std::string nm = n.of(v);
      if (w.spec.count(nm)) { double x = w.spec[nm]; shown(c, "reset " + nm); v->reset(); w.spec.erase(nm); return [&w, v, nm, x]() { shown(w.c, "specify " + nm + " again"); v->specify(edouble(x)); w.spec[nm] = x; }; }
      if (v->isSpecified() || !w.e.ce->propagate()) break;   // a token merged into it has the value
      const Domain& d = r.chance(40) && t->getMergedTokens().empty() ? v->baseDomain() : D(v); double x; if (d.isInterval()) { double lo = std::max(-20.0, cast_double(d.getLowerBound())), hi = std::min(40.0, cast_double(d.getUpperBound())); if (lo > hi) break; x = (double)r.range((long)lo, (long)hi); } else { std::list<edouble> l; d.getValues(l); if (l.empty()) break; auto it = l.begin(); std::advance(it, r.below(l.size())); x = cast_double(*it); }
      shown(c, "specify " + nm + " " + (d.isNumeric() ? std::to_string((long)x) : dom(d))); v->specify(edouble(x)); w.spec[nm] = x; w.c.count("specified");
      return [&w, v, nm]() { shown(w.c, "reset " + nm); v->reset(); w.spec.erase(nm); }; }
    default: { if (ts.empty() || w.cons.size() > 7) break; TokenId a = r.pick(ts), b = r.pick(ts); if (a == b) break;
      ConstrainedVariableId u = r.pick(a->getVariables()), v = r.pick(b->getVariables()); if (r.chance(60)) for (auto x : b->getVariables()) if (x->getName() == u->getName()) v = x; if (u == a->getState() || v == b->getState()) break;
      auto time = [](ConstrainedVariableId x) { return x->getName() == "start" || x->getName() == "end"; };
      std::string k; if (time(u) && time(v)) k = r.chance(60) ? "precedes" : "concurrent"; else if (time(u) != time(v)) break; else if (D(u).isNumeric() && D(v).isNumeric()) { if (D(u).isBool() != D(v).isBool()) break; k = D(u).isBool() ? "eq" : r.pick(std::vector<std::string>{"eq", "leq", "neq"}); } else { if (!Domain::canBeCompared(D(u), D(v)) || u->baseDomain().getDataType() != v->baseDomain().getDataType()) break; k = r.chance(50) ? "eq" : "neq"; }
      shown(c, k + " " + n.of(u) + " " + n.of(v)); ConstraintId id = w.e.cl->createConstraint(k.c_str(), {u, v}, ""); long key = (long)cast_int(id->getKey()); w.cons.push_back({id, key, k, {n.of(u), n.of(v)}}); w.c.count("constraints");
      std::string what = k + " " + n.of(u) + " " + n.of(v);
      return [&w, id, key, what]() { shown(w.c, "remove " + what); w.e.cl->deleteConstraint(id); for (size_t i = 0; i < w.cons.size(); ++i) if (w.cons[i].key == key) { w.cons.erase(w.cons.begin() + i); break; } }; }
  }
  (void)forUndo; return Undo();
}

// steps that are not undone in bursts
static void other(World& w) {
  H::Ctx& c = w.c; H::Rng& r = w.r; Names n(w.e); auto& ts = n.toks; if (ts.empty()) return;
  switch ((int)r.below(8)) {
    case 0: case 1: case 2: { TokenId t = r.pick(ts); if (t->isInactive() || t->isCommitted()) break; if (t->isActive() && !w.orphans) { bool g = false; for (auto s : t->slaves()) if (hasGuests(s)) g = true; if (g) break; }
      shown(c, "cancel " + n.of(t)); if (r.chance(50)) w.e.cl->cancel(t); else t->cancel(); c.count("cancellations"); break; }
    case 3: { if (w.cons.empty()) break; size_t i = r.below(w.cons.size()); Con k = w.cons[i]; shown(c, "remove " + k.type + " " + k.vars[0] + " " + k.vars[1]); w.e.cl->deleteConstraint(k.id); w.cons.erase(w.cons.begin() + i); break; }
    case 4: case 5: { if (w.free.empty()) break; size_t i = r.below(w.free.size()); Free f = w.free[i]; if (f.id->isCommitted()) break; bool g = false; for (auto s : f.id->slaves()) if (hasGuests(s)) g = true; if (g && !w.orphans) break;
      if (f.id->isActive() && f.id->getMergedTokens().size() && r.chance(70)) break;
      shown(c, "delete " + f.name + (f.id->isActive() ? " (active)" : f.id->isMerged() ? " (merged)" : "")); 
      if (!f.id->isInactive() && r.chance(60)) { f.id->cancel(); w.e.cl->deleteToken(f.id); } else if (f.id->isInactive() && r.chance(50)) w.e.cl->deleteToken(f.id); else { if (f.id->isActive()) while (f.id->getMergedTokens().size()) (*f.id->getMergedTokens().begin())->cancel(); delete (Token*)f.id; }
      w.free.erase(w.free.begin() + i); c.count("deletions"); break; }
    case 6: { if (w.free.empty() || !w.e.ce->propagate()) break; Free& f = w.free[r.below(w.free.size())]; if (f.id->isMerged()) break; auto v = r.pick(f.id->getVariables()); if (!v->lastDomain().isInterval() || v->baseDomain().isBool()) break; bool g = f.id->getMergedTokens().size(); 
      double lo = std::max(-20.0, cast_double(D(v).getLowerBound())), hi = std::min(40.0, cast_double(D(v).getUpperBound())); if (lo > hi) break; long a = r.range((long)lo, (long)hi), b = r.range(a, (long)hi); if (v->isSpecified() || v->getName() == "start" || v->getName() == "end" || g) { a = (long)lo; b = (long)hi; }
      shown(c, "restrict " + n.of(v) + " " + std::to_string(a) + " " + std::to_string(b)); v->restrictBaseDomain(IntervalIntDomain(a, b)); w.base[n.of(v)].push_back({a, b}); c.count("restrictions"); break; }
    default: { // what the life cycle does not allow
      TokenId t = r.pick(ts), a = r.pick(ts); std::string what; std::function<void()> f; ConstrainedVariableId mv = t->getVariables()[1 + r.below(t->getVariables().size() - 1)];
      switch ((int)r.below(7)) {
        case 0: if (t->isInactive()) return; what = "activate " + n.of(t); f = [&] { t->activate(); }; break;
        case 1: if (t->isInactive() && a->isActive() && t->getPredicateName() == a->getPredicateName()) return; what = "merge " + n.of(t) + " into " + n.of(a); f = [&] { t->doMerge(a); }; break;
        case 2: { bool mand = !t->getState()->baseDomain().isMember(Token::REJECTED); if (t->isInactive() && !mand && t->master().isNoId()) return; what = "reject " + n.of(t); f = [&] { t->reject(); }; break; }
        case 3: if (!t->isInactive()) return; what = "cancel " + n.of(t); f = [&] { t->cancel(); }; break;
        case 5: if (!t->isMerged()) return; what = "specify " + n.of(mv) + " of merged"; f = [&] { mv->specify(mv->baseDomain().getLowerBound()); }; break;
        default: if (t->isInactive() || t->master().isNoId()) return; what = "activate " + n.of(t) + " through the client"; f = [&] { w.e.cl->activate(t); }; break;
      }
      bool ok = w.e.ce->propagate(); auto s0 = snap(w.e.pdb, w.e.ce); bool refused = false; shown(c, "try " + what);
      try { f(); } catch (Error&) { refused = true; }
      c.count("illegal_tried");
      if (!refused) { c.fail("illegal-accepted/" + what.substr(0, what.find(' ')), what); return; }
      w.e.ce->propagate(); auto s1 = snap(w.e.pdb, w.e.ce); if (ok && s0 != s1) c.fail("illegal-changed/" + what.substr(0, what.find(' ')), what + diff(s0, s1)); }
  }
}

static void run(H::Ctx& c) {
  if (getenv("DBG")) { DebugMessage::setStream(std::cerr); DebugMessage::enableMatchingMsgs("", getenv("DBG")); }
  World* wp = new World(c); World& w = *wp; H::Rng& r = c.rng;
  std::string err = w.e.nddl(MODEL); if (!err.empty()) { c.fail("model", err); return; }
  w.e.ce->setAutoPropagation(r.chance(20)); w.orphans = r.chance(10);
  size_t nv0 = w.e.ce->getVariables().size(), nc0 = w.e.ce->getConstraints().size();
  int steps = (int)r.range(8, c.thorough ? 70 : 40);
  for (int i = 0; i < steps && !c.failed(); ++i) {
    int k = (int)r.below(10);
    if (k < 6) { step(w, false); }
    else if (k < 8) { other(w); prune(w); }
    else if (!w.orphans) {
      if (!w.e.ce->propagate()) continue;
      prune(w); auto s0 = snap(w.e.pdb, w.e.ce); auto spec0 = w.spec; std::vector<Undo> u; shown(c, "{"); int n = (int)r.range(1, 5);
      for (int j = 0; j < n; ++j) { Undo x = step(w, true); if (x) u.push_back(x); if (r.chance(60)) w.e.ce->propagate(); }
      shown(c, "} undo"); while (!u.empty()) { u.back()(); u.pop_back(); if (r.chance(30)) w.e.ce->propagate(); if (r.chance(30)) invariants(w); }
      bool ok = w.e.ce->propagate(); auto s1 = snap(w.e.pdb, w.e.ce); c.count("bursts_undone");
      if (!ok) c.fail("undone-inconsistent", "inconsistent after undoing everything"); else if (s0 != s1) c.fail("not-undone", diff(s0, s1));
      w.spec = spec0;
    }
    if (c.failed()) return;
    invariants(w);
    if (!w.orphans && !c.failed() && r.chance(25)) { prune(w); bool ok = w.e.ce->propagate(); shown(c, ok ? " => consistent" : " => inconsistent"); prune(w); conjunction(w, ok); }
  }
  if (c.failed()) return;
  // everything retracted: nothing is left
  shown(c, "retract everything");
  for (int guard = 0; guard < 200; ++guard) {
    auto ts = live(w); std::vector<TokenId> m; for (auto t : ts) if (t->isMerged()) m.push_back(t); if (m.empty()) break; r.pick(m)->cancel();
  }
  { Names n(w.e); for (size_t i = n.toks.size(); i-- > 0;) if (!n.toks[i]->isInactive() && n.toks[i]->master().isNoId()) n.toks[i]->cancel(); }
  { std::vector<TokenId> ts(live(w)); for (auto t : ts) w.e.cl->deleteToken(t); }
  if (w.e.pdb->getTokens().size()) c.fail("leftover-tokens", std::to_string(w.e.pdb->getTokens().size()));
  if (w.e.ce->getVariables().size() != nv0 || w.e.ce->getConstraints().size() != nc0) { std::string l; for (auto k : w.e.ce->getConstraints()) l += "\n" + k->toLongString(); for (auto k : w.e.ce->getVariables()) l += "\n" + k->toLongString(); c.fail("leftover-content", std::to_string(w.e.ce->getVariables().size()) + "/" + std::to_string(nv0) + " variables, " + std::to_string(w.e.ce->getConstraints().size()) + "/" + std::to_string(nc0) + " constraints" + l); }
  if (!w.e.ce->propagate()) c.fail("leftover-contradiction", "inconsistent with nothing left");
  if (!c.failed()) { c.count("emptied"); delete wp; }
}
static H::Suite suite{"token", 0, run, nullptr, 30};
HARNESS_MAIN(suite)
