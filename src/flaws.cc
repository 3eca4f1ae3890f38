// C14: the flaws a solver sees and the choices it offers. A plan is edited (by a client, and by the solver itself)
// under a random configuration of filters and handlers; after each propagation the flaws offered, the handler chosen
// for each, and the choices of some of them are compared with an independent reading of the configuration.
#include "solve.hh"
#include "FlawHandler.hh"
#include "RuleInstance.hh"
#include "TokenType.hh"
using namespace SV;
using SOLVERS::FlawHandlerId;
typedef std::map<std::string, std::string> Attr;
static std::list<edouble> vals(const Domain& d) { std::list<edouble> l; d.getValues(l); return l; }
struct El { std::string comp; Attr a; std::vector<std::pair<std::string, long>> g, mg; long pri = 0, maxc = 0;   // a filter or a handler
  std::string xml(const char* tag) const { std::string s = std::string("<") + tag + (comp.empty() ? "" : " component=\"" + comp + "\""); for (auto& x : a) s += " " + x.first + "=\"" + x.second + "\""; if (std::string(tag) == "FlawHandler") { s += " priority=\"" + S(pri) + "\""; if (maxc) s += " maxChoices=\"" + S(maxc) + "\""; }
    if (g.empty() && mg.empty()) return s + "/>"; s += ">"; for (auto& x : g) s += "<Guard name=\"" + x.first + "\" value=\"" + S(x.second) + "\"/>"; for (auto& x : mg) s += "<MasterGuard name=\"" + x.first + "\" value=\"" + S(x.second) + "\"/>"; return s + "</" + tag + ">"; }
  int statics() const { int n = 0; for (auto& x : a) if (x.first != "policy") ++n; return n; } };
struct Mgr { std::string name; std::vector<El> f, h; };
struct Cfg { std::vector<El> f; std::vector<Mgr> m;
  std::string xml() const { std::string s = "<Solver name=\"S\">"; for (auto& x : f) s += x.xml("FlawFilter"); for (auto& k : m) { s += "<" + k.name + ">"; for (auto& x : k.f) s += x.xml("FlawFilter"); for (auto& x : k.h) s += x.xml("FlawHandler"); s += "</" + k.name + ">"; } return s + "</Solver>"; } };
struct World;
static std::map<long, std::set<long>> once; static std::set<long> loaded, firstG;
struct World {
  Eng e; Prob P; Cfg cfg; SolverId s; long h0 = 0, h1 = 10; std::set<long> guarded;   // predicates whose p guards a rule
  // ---- the reading of the configuration
  std::string cls(const std::string& t) { return t; }
  TokenId token(EntityId x) { if (TokenId::convertable(x)) return TokenId(x); EntityId p = ConstrainedVariableId(x)->parent(); if (p.isNoId() || ObjectId::convertable(p)) return TokenId(); if (RuleInstanceId::convertable(p)) return RuleInstanceId(p)->getToken(); return TokenId(p); }
  static bool isa(const std::string& t, const std::string& c) { return c == t || c == "Object" || (t != "Object" && c == "Timeline") || (t == "U" && c == "T0"); }
  static std::string head(const std::string& s) { return s.substr(0, s.find('.')); } static std::string tail(const std::string& s) { return s.substr(s.find('.') + 1); }
  bool matches(const El& l, EntityId x) {
    bool var = ConstrainedVariableId::convertable(x); TokenId t = token(x); ObjectId o; if (var && ConstrainedVariableId(x)->parent().isId() && ObjectId::convertable(ConstrainedVariableId(x)->parent())) o = ObjectId(ConstrainedVariableId(x)->parent());
    for (auto& a : l.a) { const std::string &k = a.first, &v = a.second; if (k == "policy") continue;
      if (k == "var-match") { if (!var || ConstrainedVariableId(x)->getName() != v) return false; }
      else if (k == "class-match") { if (t.isId() ? !isa(head(t->getPredicateName()), v) : o.isId() ? !isa(o->getType(), v) : true) return false; }
      else if (t.isNoId()) return false;
      else if (k == "predicate-match") { if (tail(t->getPredicateName()) != v) return false; }
      else if (k == "tokenName") { if (t->getName().find(v) == std::string::npos) return false; }
      else if (k == "masterRelation") { if (t->master().isNoId()) { if (v != "none") return false; } else { const std::string& r = t->getRelation(); if (!(r == v || (v == "before" && r == "meets") || (v == "after" && r == "met_by"))) return false; } }
      else if (k == "masterClass") { if (t->master().isNoId() || !isa(head(t->master()->getPredicateName()), v)) return false; }
      else if (k == "masterPredicate") { if (t->master().isNoId() || tail(t->master()->getPredicateName()) != v) return false; }
      else abort(); }
    return true;
  }
  bool inserted(TokenId t) { if (!t->isActive()) return false; const Domain& d = t->getObject()->lastDomain(); if (!d.isSingleton()) return false; ObjectId o = Entity::getTypedEntity<Object>(d.getSingletonValue()); return o->tokens().count(t) && o->hasToken(t); }
  bool excludes(const El& l, EntityId x) {
    if (!matches(l, x)) return false; const std::string& c = l.comp; if (c.empty()) return true;
    bool var = ConstrainedVariableId::convertable(x); ConstrainedVariableId v; if (var) v = x; TokenId t = token(x);
    if (c == "HorizonFilter" || c == "HorizonVariableFilter") { if (c == "HorizonVariableFilter" && !var) return false; if (t.isNoId()) return false;
      double sl = cast_double(t->start()->lastDomain().getLowerBound()), su = cast_double(t->start()->lastDomain().getUpperBound()), el = cast_double(t->end()->lastDomain().getLowerBound()), eu = cast_double(t->end()->lastDomain().getUpperBound());
      auto pit = l.a.find("policy"); std::string p = pit == l.a.end() ? "PartiallyContained" : pit->second;
      bool in = p == "PossiblyContained" ? sl <= h1 && su >= h0 && el <= h1 && eu >= h0 : p == "PartiallyContained" ? el > h0 && su < h1 : sl >= h0 && sl <= h1 && eu >= h0 && eu <= h1; return !in; }
    if (c == "MasterMustBeInsertedFilter") return t->master().isId() && !inserted(t->master());
    if (!var) return false;
    if (c == "ParameterFilter") return v->parent().isId() && TokenId::convertable(v->parent());
    if (c == "LocalVariableFilter") return v->parent().isId() && RuleInstanceId::convertable(v->parent());
    if (c == "Singleton") return !v->lastDomain().isSingleton();
    if (c == "InfiniteDynamicFilter") return v->lastDomain().isOpen() || cast_double(v->lastDomain().getLowerBound()) <= cast_double(MINUS_INFINITY) || cast_double(v->lastDomain().getUpperBound()) >= cast_double(PLUS_INFINITY) || (v->lastDomain().isInterval() && !v->lastDomain().isFinite());
    if (c == "TokenMustBeAssignedFilter" || c == "ParentMustBeInsertedFilter") return t.isId() && !inserted(t);
    if (c == "GuardFilter" || c == "NotGuardFilter") { bool g = false; if (v->parent().isId() && TokenId::convertable(v->parent()) && v->getName() == "p" && t->isActive()) for (auto& k : P.preds) if (Prob::cls(k.cls) + "." + k.name == t->getPredicateName()) for (auto& b : k.subs) if (b.guard >= 0) g = true; return g == (c == "GuardFilter"); }
    abort();
  }
  bool in(const Mgr& m, EntityId x) { for (auto& f : cfg.f) if (excludes(f, x)) return false; for (auto& f : m.f) if (excludes(f, x)) return false; return true; }
  bool guardsOk(const El& h, EntityId x, bool& possible) { possible = true; if (h.g.empty() && h.mg.empty()) return true; TokenId t = token(x); if (t.isNoId()) { possible = false; return false; }
    auto ok = [&](TokenId k, const std::pair<std::string, long>& g) { if (k.isNoId()) return false; ConstrainedVariableId v = k->getVariable(g.first); if (v.isNoId()) return false; return v->lastDomain().isSingleton() && cast_double(v->lastDomain().getSingletonValue()) == (double)g.second; };
    for (auto& g : h.g) if (!ok(t, g)) return false; for (auto& g : h.mg) if (!ok(t->master(), g)) return false; return true; }
  const El* handler(const Mgr& m, EntityId x) { const El* best = nullptr; double bw = -1; for (auto& h : m.h) { bool p; if (!matches(h, x) || !guardsOk(h, x, p)) continue; double w = std::fabs((double)h.pri - (2.0 + h.statics() + (double)h.g.size() + (double)h.mg.size()) * 100000.0); if (w > bw) { bw = w; best = &h; } } return best; }
};
static El filter(H::Rng& r, int kind) {   // 0 variables, 1 tokens, 2 either
  El l; std::vector<std::string> pr = {"A", "B", "C"};
  int q = (int)r.below(kind == 0 ? 13 : kind == 1 ? 9 : 7);
  if (q == 0) l.a["class-match"] = r.pick(std::vector<std::string>{"T0", "T1", "U", "Timeline"}); else if (q == 1) l.a["predicate-match"] = r.pick(pr); else if (q == 2) l.a["masterRelation"] = r.pick(std::vector<std::string>{"before", "meets", "none", "contains", "after", "any"});
  else if (q == 3) { l.a["masterPredicate"] = r.pick(pr); } else if (q == 4) l.a["tokenName"] = r.pick(std::vector<std::string>{"g0", "g1", "w"}); else if (q == 5 || q == 6) { l.comp = "HorizonFilter"; if (r.chance(80)) l.a["policy"] = r.pick(std::vector<std::string>{"PossiblyContained", "PartiallyContained", "TotallyContained"}); if (r.chance(20)) l.a["predicate-match"] = r.pick(pr); }
  else if (kind == 1) { l.comp = q == 7 ? "MasterMustBeInsertedFilter" : ""; if (q == 8) l.a["masterClass"] = r.pick(std::vector<std::string>{"T0", "T1"}); }
  else if (q == 7) l.a["var-match"] = r.pick(std::vector<std::string>{"p", "object", "v0", "v1", "loc", "mv", "start"}); else { l.comp = r.pick(std::vector<std::string>{"ParameterFilter", "LocalVariableFilter", "Singleton", "InfiniteDynamicFilter", "TokenMustBeAssignedFilter", "GuardFilter", "NotGuardFilter", "HorizonVariableFilter"}); if (r.chance(35)) l.a["var-match"] = r.pick(std::vector<std::string>{"p", "object", "end", "loc"}); }
  if (l.comp.empty() && r.chance(25)) { l.a["predicate-match"] = r.pick(pr); if (kind == 0 && r.chance(50)) l.a["var-match"] = r.pick(std::vector<std::string>{"p", "object", "start", "loc"}); }
  return l;
}
static El hand(H::Rng& r, int kind, std::set<long>& used) {
  El l; l.comp = kind == 0 ? r.pick(std::vector<std::string>{"Min", "Max", "StandardVariableHandler"}) : kind == 1 ? r.pick(std::vector<std::string>{"StandardOpenConditionHandler", "BasicOpenConditionHandler"}) : "StandardThreatHandler";
  do l.pri = r.range(0, 5000); while (!used.insert(l.pri).second); if (r.chance(25)) l.maxc = r.range(1, 3); return l;
}
static Cfg makeCfg(H::Rng& r) {
  Cfg c; std::set<long> used; if (r.chance(25)) c.f.push_back(filter(r, 2));
  for (int k = 0; k < 3; ++k) { Mgr m; m.name = k == 0 ? "UnboundVariableManager" : k == 1 ? "OpenConditionManager" : "ThreatManager"; int n = r.chance(60) ? (int)r.range(1, 3) : 0;
    for (int i = 0; i < n; ++i) { El f = filter(r, k == 0 ? 0 : 1); m.f.push_back(f); }
    m.h.push_back(hand(r, k, used)); n = r.chance(60) ? (int)r.range(1, 3) : 0;
    for (int i = 0; i < n; ++i) { El h = hand(r, k, used); if (r.chance(70)) { El f = filter(r, k == 0 ? 0 : 1); h.a = f.a; h.a.erase("policy"); } if (k != 2 && r.chance(45)) { auto& g = r.chance(65) ? h.g : h.mg; g.push_back({"p", r.range(0, 2)}); } m.h.push_back(h); }
    c.m.push_back(m); }
  r.shuffle(c.m); return c;
}
static std::string shape(const El& h) { return h.comp + "/" + S(h.pri); }
// the choices of one flaw, each tried and undone
static bool choices(H::Ctx& c, World& w, const Mgr& m, const El& h, EntityId x, Namer& nm) {
  FlawHandlerId fh = w.s->getFlawHandler(x); DecisionPointId dp = fh->create(w.e.cl, x, "");
  if (dp.isNoId()) { c.fail("no-decision", "handler gives no decision for a flaw"); return false; }
  std::vector<std::string> want, got; bool ordered = true; std::set<std::string> tried;
  if (ConstrainedVariableId::convertable(x)) { ConstrainedVariableId v = x; const Domain& d = v->lastDomain(); std::vector<double> vs; if (d.isEnumerated()) for (edouble q : vals(d)) vs.push_back(cast_double(q)); else if (d.minDelta() == edouble(1)) for (double q = cast_double(d.getLowerBound()); q <= cast_double(d.getUpperBound()); ++q) vs.push_back(q); else { delete (SOLVERS::DecisionPoint*)dp; return true; }
    std::sort(vs.begin(), vs.end()); if (h.comp == "Max") std::reverse(vs.begin(), vs.end()); for (double q : vs) want.push_back(num(q)); }
  else if (m.name == "OpenConditionManager") { TokenId t = x; const StateDomain sd(t->getState()->lastDomain()); std::vector<TokenId> comp; std::set<std::string> must;
    if (sd.isMember(Token::MERGED)) { w.e.pdb->getCompatibleTokens(t, comp, 1000, true); for (auto k : comp) { want.push_back("merge " + nm.of(k)); if (!k->isActive() || k->getPredicateName() != t->getPredicateName()) { c.fail("merge-choice", "merging onto " + nm.of(k) + " is offered"); return false; } } }
    if (sd.isMember(Token::ACTIVE)) want.push_back("activate"); if (sd.isMember(Token::REJECTED)) want.push_back("reject");
    std::string full; for (auto& q : want) full += q + " ";
    if (sd.isMember(Token::MERGED)) for (TokenId k : w.e.pdb->getTokens()) { if (k == t || !k->isActive() || k->getPredicateName() != t->getPredicateName() || k->isFact() != t->isFact()) continue; bool may = true; for (size_t i = 1; i < t->getVariables().size() && i < k->getVariables().size(); ++i) if (!t->getVariables()[i]->lastDomain().intersects(k->getVariables()[i]->lastDomain())) may = false; if (!may) continue;
        if (std::find(want.begin(), want.end(), "merge " + nm.of(k)) != want.end()) continue;
        w.e.cl->merge(t, k); bool ok = w.e.ce->propagate(); w.e.cl->cancel(t); w.e.ce->propagate(); c.count("merges_not_offered"); if (ok) { c.fail("merge-missed", "merging " + nm.of(t) + " onto " + nm.of(k) + " is possible and not offered (" + full + ")"); return false; } } }
  else { std::vector<std::pair<ObjectId, std::pair<TokenId, TokenId>>> oc; w.e.pdb->getOrderingChoices(TokenId(x), oc); for (auto& o : oc) want.push_back(o.first->getName() + ": " + nm.of(o.second.first) + " < " + nm.of(o.second.second)); ordered = false; }
  dp->setCutoff((unsigned)h.maxc); dp->initialize(); long lastObj = -1;
  if (h.maxc && !ordered) { delete (SOLVERS::DecisionPoint*)dp; return true; }
  if (h.maxc && want.size() > (size_t)h.maxc) want.resize((size_t)h.maxc);
  while (dp->hasNext() && !dp->cut() && got.size() < 60) {
    dp->execute(); std::string g;
    if (ConstrainedVariableId::convertable(x)) { ConstrainedVariableId v = x; g = v->isSpecified() ? num(v->getSpecifiedValue()) : "nothing"; }
    else if (m.name == "OpenConditionManager") { TokenId t = x; g = t->isMerged() ? "merge " + nm.of(t->getActiveToken()) : t->isActive() ? "activate" : t->isRejected() ? "reject" : "nothing"; }
    else { std::string a = dp->toShortString(); size_t p = a.find('{'), q = a.find(' ', p), b1 = a.find('('), b2 = a.find(')', b1), b3 = a.find('(', b2), b4 = a.find(')', b3); TokenId t1(Entity::getEntity(atol(a.substr(b1 + 1, b2 - b1 - 1).c_str()))), t2(Entity::getEntity(atol(a.substr(b3 + 1, b4 - b3 - 1).c_str())));
      std::string on = a.substr(p + 1, q - p - 1); g = on + ": " + nm.of(t1) + " < " + nm.of(t2); ObjectId o = w.e.pdb->getObject(on); long k = (long)cast_int(o->getKey()); if (k < lastObj) { c.fail("threat-order", "choices of a lower object after those of a higher one: " + g); return false; } lastObj = k;
    }
    got.push_back(g); if (!tried.insert(g).second) { c.fail("choice-repeated", g); return false; }
    if (got.size() == 1) { w.e.ce->propagate(); } dp->undo();
  }
  w.e.ce->propagate();
  std::vector<std::string> a = want, b = got; if (!ordered) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
  if (want.size() <= 60 && a != b) { std::string s = "choices of " + (ConstrainedVariableId::convertable(x) ? nm.ofv(ConstrainedVariableId(x)) : nm.of(x)) + " under " + h.comp + (h.maxc ? " at most " + S(h.maxc) : "") + "\n wanted:"; for (auto& q : want) s += " " + q + ";"; s += "\n got:"; for (auto& q : got) s += " " + q + ";"; c.fail("choices-" + h.comp, s); return false; }
  c.count("choices_tried", (long)got.size()); if (h.maxc) c.count("cut_choices"); delete (SOLVERS::DecisionPoint*)dp; return true;
}
static bool check(H::Ctx& c, World& w, bool deep) {
  Namer nm(w.e.pdb); auto nameOf = [&](EntityId x) { return ConstrainedVariableId::convertable(x) ? "var " + nm.ofv(ConstrainedVariableId(x)) + "(" + S((long)cast_int(x->getKey())) + ")" : "token " + nm.of(x); };
  std::map<long, EntityId> want; std::map<long, const Mgr*> by;
  for (auto& m : w.cfg.m) {
    if (m.name[0] == 'U') for (ConstrainedVariableId v : w.e.ce->getVariables()) { if (!v->canBeSpecified() || v->isSpecified()) continue; if (v->parent().isId() && TokenId::convertable(v->parent()) && !TokenId(v->parent())->isActive()) continue; const Domain& d = v->lastDomain(); if (d.isEmpty()) continue;
        if (d.isNumeric() && (cast_double(d.getLowerBound()) <= cast_double(MINUS_INFINITY) || cast_double(d.getUpperBound()) >= cast_double(PLUS_INFINITY))) continue; if (w.in(m, v)) { want[Namer::k(v)] = v; by[Namer::k(v)] = &m; } }
    else if (m.name[0] == 'O') { for (TokenId t : w.e.pdb->getTokens()) if (t->isInactive() && w.in(m, t)) { want[Namer::k(t)] = t; by[Namer::k(t)] = &m; } }
    else for (auto& p : w.e.pdb->getTokensToOrder()) if (w.in(m, p.second.first)) { want[Namer::k(p.second.first)] = p.second.first; by[Namer::k(p.second.first)] = &m; }
  }
  std::map<long, EntityId> got; IteratorId it = w.s->createIterator(); while (!it->done()) { EntityId f = it->next(); if (f.isNoId()) continue; if (!got.insert({Namer::k(f), f}).second) { c.fail("repeated", "flaw offered twice: " + nameOf(f)); return false; } } delete (Iterator*)it;
  for (auto& x : want) if (!got.count(x.first)) { c.fail(std::string("missed-") + by[x.first]->name, nameOf(x.second) + " is a flaw and is not offered"); return false; }
  for (auto& x : got) if (!want.count(x.first)) { c.fail(ConstrainedVariableId::convertable(x.second) ? "stale-variable" : TokenId(x.second)->isInactive() ? "stale-open" : "stale-threat", nameOf(x.second) + " is offered and is no flaw"); return false; }
  c.count("flaw_sets"); c.count("flaws", (long)got.size()); unsigned long hs = 0; for (auto& x : want) hs = hs * 31 + H::hash(nameOf(x.second)); c.seen(hs ^ H::hash(w.cfg.xml()));
  if (w.cfg.f.size() + w.cfg.m[0].f.size() + w.cfg.m[1].f.size() + w.cfg.m[2].f.size()) c.count("filtered_sets");
  for (auto& x : want) { const El* h = w.handler(*by[x.first], x.second); FlawHandlerId f = w.s->getFlawHandler(x.second); c.count("handlers");
    if (f.isNoId() || (long)f->getPriority() != h->pri) { c.fail(h->g.empty() && h->mg.empty() ? "handler" : "guarded-handler", nameOf(x.second) + " is given to " + (f.isNoId() ? "nobody" : "the handler of priority " + S((long)f->getPriority())) + " instead of " + shape(*h)); return false; } if (!h->g.empty() || !h->mg.empty()) { c.count("guarded_handlers"); if (!loaded.count(x.first)) firstG.insert(x.first); once[x.first].insert(h->pri); } else if (firstG.count(x.first)) c.count("first_lapsed"); loaded.insert(x.first); if (0) {} else if (once.count(x.first)) for (auto& g : by[x.first]->h) if (once[x.first].count(g.pri) && std::fabs((double)g.pri - (2.0 + g.statics() + 1) * 100000.0) > std::fabs((double)h->pri - (2.0 + h->statics()) * 100000.0)) { c.count("guards_lapsed"); } }
  if (deep && !want.empty()) { auto i = want.begin(); std::advance(i, (long)c.rng.below(want.size())); const Mgr& m = *by[i->first]; const El* h = w.handler(m, i->second); c.trace << "  choices of " << nameOf(i->second) << "\n"; if (!choices(c, w, m, *h, i->second, nm)) return false; }
  return true;
}
static void run(H::Ctx& c) {
  once.clear(); loaded.clear(); firstG.clear(); dbg(); H::Rng& r = c.rng; World* wp = new World; World& w = *wp; w.P = gen(r, 1, 0); w.cfg = makeCfg(r);
  std::string t = w.P.text(); size_t q = t.find("close();");
  t.insert(q, std::string("class U extends T0 { int mv; U() { mv = [0 3]; } }\n") + (r.chance(60) ? "U u0 = new U();\n" : ""));
  if (r.chance(60)) { size_t z = t.find("leq(0, start);"); if (z != std::string::npos) t.insert(z, "int loc = [0 2]; "); }
  t += "int v0 = [0 3];\nint v1 = [1 2];\nfloat v2 = [0.5 2.5];\nint v3;\nbool v4;\nint v5 = 1;\n"; if (r.chance(40)) t += "neq(v0, v1);\n";
  c.trace << t << w.cfg.xml() << "\n"; std::string err = w.e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  if (!w.e.ce->propagate()) { c.count("refuted_at_once"); delete wp; return; }
  w.h1 = w.P.H; auto mk = [&]() { w.s = make(w.e, w.cfg.xml(), w.h0, w.h1); };
  bool late = r.chance(30); int quiet = (int)r.pick(std::vector<long>{100, 60, 25}); if (!late) mk(); 
  std::vector<ConstraintId> cons; std::vector<ConstrainedVariableId> extra; int names = 0; int steps = (int)r.range(5, c.thorough ? 60 : 30);
  auto toks = [&](std::function<bool(TokenId)> f) { std::vector<TokenId> v; for (TokenId x : w.e.pdb->getTokens()) if (f(x)) v.push_back(x); std::sort(v.begin(), v.end(), Namer::byKey); return v; };
  auto vars = [&](std::function<bool(ConstrainedVariableId)> f) { std::vector<ConstrainedVariableId> v; for (ConstrainedVariableId x : w.e.ce->getVariables()) if (!Token::isStateVariable(x) && x->canBeSpecified() && f(x)) v.push_back(x); std::sort(v.begin(), v.end(), [](ConstrainedVariableId a, ConstrainedVariableId b) { return a->getKey() < b->getKey(); }); return v; };
  for (int i = 0; i < steps; ++i) {
    if (late && i == 3) { mk(); late = false; }
    if (!late && r.chance(quiet) && !check(c, w, r.chance(30))) return;
    if (!w.e.ce->propagate()) { c.fail("inconsistent", "after trying choices"); return; }
    Namer nm(w.e.pdb); std::function<void()> inv; int op = (int)r.below(22);
    if (op < 4) { auto v = toks([](TokenId x) { return x->isInactive() && x->getState()->lastDomain().isMember(Token::ACTIVE); }); if (v.empty()) continue; TokenId x = r.pick(v); c.trace << "activate " << nm.of(x) << "\n"; w.e.cl->activate(x); inv = [&w, x]() { w.e.cl->cancel(x); }; }
    else if (op < 7) { auto v = toks([](TokenId x) { return x->isInactive() && x->getState()->lastDomain().isMember(Token::MERGED); }); if (v.empty()) continue; TokenId x = r.pick(v); std::vector<TokenId> o; w.e.pdb->getCompatibleTokens(x, o, 1000, true); if (o.empty()) continue; TokenId y = r.pick(o); c.trace << "merge " << nm.of(x) << " onto " << nm.of(y) << "\n"; w.e.cl->merge(x, y); inv = [&w, x]() { w.e.cl->cancel(x); }; }
    else if (op == 7) { auto v = toks([](TokenId x) { return x->isInactive() && x->getState()->lastDomain().isMember(Token::REJECTED); }); if (v.empty()) continue; TokenId x = r.pick(v); c.trace << "reject " << nm.of(x) << "\n"; w.e.cl->reject(x); inv = [&w, x]() { w.e.cl->cancel(x); }; }
    else if (op < 10) { auto v = toks([&](TokenId x) { if (x->isInactive() || x->isFact()) return false; std::function<bool(TokenId)> low = [&](TokenId k) { for (TokenId z : k->slaves()) if (z->getMergedTokens().size() || !low(z)) return false; return true; }; return low(x); });   // a subgoal others are merged into would lose its master, by which filters know it
      if (v.empty()) continue; TokenId x = r.pick(v); 
      c.trace << "cancel " << nm.of(x) << "\n"; w.e.cl->cancel(x); }
    else if (op < 14) { auto v = vars([](ConstrainedVariableId x) { return !x->isSpecified() && !x->lastDomain().isEmpty() && x->lastDomain().areBoundsFinite() && !(x->parent().isId() && TokenId::convertable(x->parent()) && !TokenId(x->parent())->isActive()) && x->isActive(); }); if (v.empty()) continue; auto x = r.pick(v); std::vector<double> vs; const Domain& d = x->lastDomain(); if (d.isEnumerated()) for (edouble z : vals(d)) vs.push_back(cast_double(z)); else { vs.push_back(cast_double(d.getLowerBound())); vs.push_back(cast_double(d.getUpperBound())); } double val = r.pick(vs); c.trace << "specify " << nm.ofv(x) << " " << num(val) << "\n"; w.e.cl->specify(x, val); inv = [&w, x]() { w.e.cl->reset(x); }; }
    else if (op < 16) { auto v = vars([](ConstrainedVariableId x) { return x->isSpecified() && !x->baseDomain().isSingleton() && x->isActive() && !(x->parent().isId() && TokenId::convertable(x->parent()) && !TokenId(x->parent())->isActive()); }); if (v.empty()) continue; auto x = r.pick(v); c.trace << "reset " << nm.ofv(x) << "\n"; w.e.cl->reset(x); }
    else if (op == 16) { int p = (int)r.below(w.P.preds.size()); std::string n = (r.chance(50) ? "w" : "g") + S(100 + names++); c.trace << "create " << n << " " << w.P.preds[(size_t)p].name << "\n"; TokenId x = w.e.cl->createToken(Prob::cls(w.P.preds[(size_t)p].cls) + "." + w.P.preds[(size_t)p].name, n, r.chance(50)); inv = [&w, x]() { if (!x->isInactive()) w.e.cl->cancel(x); w.e.cl->deleteToken(x); }; }
    else if (op == 17) { auto v = toks([](TokenId x) { return x->isInactive() && x->master().isNoId() && x->getName()[1] == '1' && x->getName().size() == 4; }); if (v.empty()) continue; TokenId x = r.pick(v); c.trace << "delete " << nm.of(x) << "\n"; w.e.cl->deleteToken(x); }
    else if (op == 18) { std::vector<TokenId> v; for (auto& p : w.e.pdb->getTokensToOrder()) v.push_back(p.second.first); if (v.empty()) continue; TokenId x = r.pick(v); std::vector<std::pair<ObjectId, std::pair<TokenId, TokenId>>> oc; w.e.pdb->getOrderingChoices(x, oc); if (oc.empty()) continue; auto o = r.pick(oc); c.trace << "constrain " << o.first->getName() << " " << nm.of(o.second.first) << " < " << nm.of(o.second.second) << "\n"; w.e.cl->constrain(o.first, o.second.first, o.second.second); inv = [&w, o]() { w.e.cl->free(o.first, o.second.first, o.second.second); }; }
    else if (op == 19) { if (cons.size() && r.chance(50)) { size_t k = r.below(cons.size()); c.trace << "remove constraint\n"; delete (Constraint*)cons[k]; cons.erase(cons.begin() + (long)k); }
      else { auto gv = [&](const char* n) { return w.e.pdb->getGlobalVariable(n); }; std::vector<ConstrainedVariableId> sc = r.chance(50) ? std::vector<ConstrainedVariableId>{gv("v3"), gv("v0")} : r.chance(50) ? std::vector<ConstrainedVariableId>{gv("v0"), gv("v1")} : std::vector<ConstrainedVariableId>{gv("v5"), gv("v3")}; std::string n = r.pick(std::vector<std::string>{"leq", "eq", "neq", "lessThan"}); if (n == "lessThan" && !w.e.ce->getCESchema()->isConstraintType(n)) n = "leq"; c.trace << "add " << n << "\n"; ConstraintId k = w.e.cl->createConstraint(n.c_str(), sc, ""); cons.push_back(k); inv = [&cons]() { delete (Constraint*)cons.back(); cons.pop_back(); }; } }
    else if (op == 20) { if (late) continue; w.h0 = r.range(0, w.P.H / 2); w.h1 = r.range(w.h0, w.P.H + 2); c.trace << "horizon " << w.h0 << " " << w.h1 << "\n"; w.s->getContext()->put("horizonStart", (double)w.h0); w.s->getContext()->put("horizonEnd", (double)w.h1); }
    else if (op == 21) { if (late) continue; if (extra.size() && r.chance(50)) { c.trace << "delete variable\n"; if (w.e.pdb->isGlobalVariable(extra.back()->getName())) w.e.cl->deleteVariable(extra.back()); else delete (ConstrainedVariable*)extra.back(); extra.pop_back(); } else { c.trace << "new variable\n"; std::string n = "x" + S(names++); if (r.chance(50)) extra.push_back((new Variable<IntervalIntDomain>(w.e.ce, IntervalIntDomain(0, 2), false, true, n))->getId()); else extra.push_back(w.e.cl->createVariable("int", IntervalIntDomain(1, 3), n)); } }
    if (!w.e.ce->propagate()) { if (inv) { c.trace << " undone\n"; c.count("undone"); inv(); } if (!w.e.ce->propagate()) { c.count("stuck"); break; } }
    // the solver works a while and takes it all back, or leaves it to the end of the case
    if (!late && r.chance(12)) { c.trace << "solver steps\n"; int n = (int)r.range(1, 6); for (int k = 0; k < n && w.e.ce->constraintConsistent(); ++k) { w.s->step(); if (w.s->isExhausted() || w.s->noMoreFlaws()) break; if (!w.e.ce->propagate()) break; if (!check(c, w, false)) return; c.count("solver_steps"); } w.s->reset(); if (!w.e.ce->propagate()) { c.fail("solver-reset", "inconsistent after reset"); return; } }
  }
  if (w.s.isId()) delete (Solver*)w.s; for (auto k : cons) delete (Constraint*)k; for (auto v : extra) { if (w.e.pdb->isGlobalVariable(v->getName())) w.e.cl->deleteVariable(v); else delete (ConstrainedVariable*)v; } delete wp;
}
static H::Suite suite{"flaws", 0, run, nullptr, 60};
HARNESS_MAIN(suite)
