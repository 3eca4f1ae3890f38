// C10: rules fire exactly when their guards hold and are fully withdrawn otherwise.
#define MODEL_AS_HEADER
#include "model.cc"
#include "snap.hh"
// statements: 0 subgoal, 1 if, 2 foreach, 3 local variable, 4 constraint on the token
struct Q { int kind; std::string rel, pred, nm, from; std::string vr, vl; bool neg = false; int id = 0; Ex x; std::vector<Q> a, b; };
static void vars(const Ex& e, std::set<std::string>& s) { if (e.op == "v") s.insert(e.name); for (auto& k : e.k) vars(k, s); }
static void mk(H::Rng& r, std::vector<Q>& out, int d, int& id, const std::vector<Var>& vs, const std::string& loop) {
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    Q s; int k = (int)r.below(d > 0 ? 10 : 5); s.kind = k < 3 ? 0 : k < 4 ? 3 : k < 5 ? 4 : k < 8 ? 1 : 2; s.id = id++;
    if (s.kind == 0) { s.rel = r.chance(70) ? "any" : r.pick(std::vector<std::string>{"meets", "met_by", "before", "contains", "starts", "equals", "contained_by", "after"}); s.pred = r.pick(std::vector<std::string>{"a", "b"}); s.nm = "s" + S(s.id); s.from = loop.size() && r.chance(60) ? loop : r.chance(50) ? "object" : "K"; }
    else if (s.kind == 1) {
      s.neg = r.chance(40); int w = (int)r.below(5); s.vr = w < 2 ? "n" : w == 2 ? "e" : w == 3 ? "f" : ""; if (w < 2) s.vl = S(r.range(0, 4)); else if (w == 2) s.vl = r.pick(std::vector<std::string>{"A", "B", "D"}); else if (w == 3) s.vl = r.chance(50) ? "true" : "false";
      else for (;;) { s.x = boo(r, vs, (int)r.below(3)); if (s.x.op == "v" || s.x.op == "c" || s.x.op == "==" || s.x.op == "!=") continue; break; }
      mk(r, s.a, d - 1, id, vs, loop); if (r.chance(50)) mk(r, s.b, d - 1, id, vs, loop);
    } else if (s.kind == 2) { if (loop.size()) { --i; continue; } s.nm = "i" + S(s.id); mk(r, s.a, d - 1, id, vs, s.nm); }
    out.push_back(s);
  }
}
static std::string txt(const std::vector<Q>& b, H::Rng& r, const std::string& in) {
  std::string t;
  for (auto& s : b) { t += in;
    if (s.kind == 0) t += s.rel + "(" + s.from + "." + s.pred + " " + s.nm + ");\n";
    else if (s.kind == 3) t += "int lv" + S(s.id) + " = [0 " + S(1000 + s.id) + "];\n";
    else if (s.kind == 4) t += "leq(n, " + S(1000 + s.id) + ");\n";
    else if (s.kind == 1) { std::string g = s.vr.empty() ? text(s.x, r) : s.vr + (s.neg ? " != " : " == ") + s.vl; t += "if (" + g + ") {\n" + txt(s.a, r, in + "  ") + in + "}"; if (s.b.size()) t += " else {\n" + txt(s.b, r, in + "  ") + in + "}"; t += "\n"; }
    else t += "foreach (" + s.nm + " in q) {\n" + txt(s.a, r, in + "  ") + in + "}\n"; }
  return t;
}
// what is known of a token's parameters
struct Know { std::map<std::string, std::string> spec; Env env; std::string mine; };
static std::string objs(const std::vector<std::string>& os) { std::string w = "{"; for (auto& o : os) w += o + " "; return w + "}"; }
static void want(const std::vector<Q>& b, const Know& k, const std::vector<std::string>& os, const std::string& each, std::vector<std::string>& out) {
  for (auto& s : b) {
    if (s.kind == 0) out.push_back("sub " + s.rel + " " + s.pred + " " + (s.from == "K" ? objs(os) : s.from == "object" ? k.mine.empty() ? objs(os) : objs({k.mine}) : objs({each})));
    else if (s.kind == 3) out.push_back("local lv" + S(s.id));
    else if (s.kind == 4) out.push_back("leq " + S(1000 + s.id));
    else if (s.kind == 2) for (auto& o : os) want(s.a, k, os, o, out);
    else { int t = -1;   // -1 undecided
      if (s.vr.empty()) { std::set<std::string> u; vars(s.x, u); bool all = true; for (auto& v : u) all = all && k.spec.count(v); if (all) t = ev(s.x, k.env) != 0; }
      // a guard is decided when its variables are specified, not when their domains happen to have been narrowed to one value
      else if (k.spec.count(s.vr)) t = (k.spec.at(s.vr) == s.vl) != s.neg;
      if (t == 1) want(s.a, k, os, each, out); if (t == 0) want(s.b, k, os, each, out); }
  }
}
static std::vector<std::string> have(Eng& e, TokenId t, std::string& bad) {
  std::vector<std::string> g;
  for (auto s : t->slaves()) { if (s->master() != t) bad = "master"; g.push_back("sub " + s->getRelation() + " " + s->getPredicateName().substr(2) + " " + dom(s->getObject()->lastDomain())); }
  for (auto v : e.ce->getVariables()) if (v->parent().isId() && RuleInstanceId::convertable(v->parent()) && v->getName().compare(0, 2, "lv") == 0) { RuleInstanceId ri(v->parent()); if (ri->getToken() == t) g.push_back("local " + v->getName()); }
  ConstraintSet cs; t->getVariable("n")->constraints(cs);
  for (auto c : cs) if (c->getName() == "leq" && c->getScope()[0] == t->getVariable("n") && c->getScope()[1]->lastDomain().isSingleton()) { double v = cast_double(c->getScope()[1]->lastDomain().getSingletonValue()); if (v >= 1000) g.push_back("leq " + S((long)v)); }
  std::sort(g.begin(), g.end()); return g;
}
static void dyn(H::Ctx& c) {
  if (getenv("DBG")) { DebugMessage::setStream(std::cerr); DebugMessage::enableMatchingMsgs("", getenv("DBG")); }
  H::Rng& r = c.rng; Eng* ep = new Eng(false); Eng& e = *ep; std::vector<Var> vs = {{"n", INT}, {"f", BOO}, {"x", FLT}};
  int no = (int)r.range(1, 3), id = 0; std::vector<std::vector<Q>> rules((size_t)r.range(1, 2)); for (auto& b : rules) mk(r, b, 2, id, vs, "");
  std::string t = "typedef int [0 3] N;\nenum C { A, B, D }\nclass J;\nclass K { predicate a {} predicate b {} predicate p { N n; C e; bool f; float x; K q; } }\n";
  for (auto& b : rules) t += "K::p {\n" + txt(b, r, "  ") + "}\n"; t += "K::a {\n  any(object.b z);\n}\n";
  std::vector<std::string> os; for (int i = 0; i < no; ++i) { os.push_back("k" + S(i)); t += "K k" + S(i) + " = new K();\n"; }
  t += "close();\n"; int nt = r.chance(35) ? 2 : 1; for (int i = 0; i < nt; ++i) t += "rejectable(K.p t" + S(i) + ");\n"; t += "N g; N h; eq(t0.n, g); leq(t0.n, h);\n";
  c.trace << t << "\n"; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  std::vector<Know> ks((size_t)nt); std::vector<int> act((size_t)nt, 0); int gs = -1, hs = -1;
  std::map<std::string, std::vector<std::string>> seen; SnapOpt so; so.byObject = true;
  int steps = (int)r.range(8, 30);
  for (int st = 0; st < steps; ++st) {
    std::string cmd; int burst = (int)r.range(1, 3);
    for (int bi = 0; bi < burst; ++bi) {
      int i = (int)r.below(nt); Know& k = ks[i]; std::string nm = "t" + S(i), s; int w = (int)r.below(12);
      if (w < 2) { if (act[i]) { if (r.chance(60)) { s = nm + ".cancel();"; act[i] = 0; } } else { s = nm + ".activate();"; act[i] = 1; } }
      else if (w < 9) { std::string v = r.pick(std::vector<std::string>{"n", "n", "e", "f", "x", no > 1 ? "object" : "n"});
        if (k.spec.count(v)) { s = nm + "." + v + ".reset();"; k.spec.erase(v); k.env.erase(v); if (v == "object" && no > 1) k.mine = ""; }
        else { std::string l; if (v == "n") { int lo = 0, hi = 3; if (i == 0 && gs >= 0) lo = hi = gs; if (i == 0 && hs >= 0) hi = std::min(hi, hs); if (lo > hi) continue; int x = (int)r.range(lo, hi); l = S(x); k.env[v] = x; } else if (v == "e") l = r.pick(std::vector<std::string>{"A", "B", "D"}); else if (v == "f") { int x = (int)r.below(2); l = x ? "true" : "false"; k.env[v] = x; } else if (v == "x") { double x = r.range(-8, 8) / 2.0; l = half(x); k.env[v] = x; } else { l = r.pick(os); k.mine = l; }
          k.spec[v] = l; s = nm + "." + v + ".specify(" + l + ");"; } }
      else if (w < 11) { bool g = r.chance(50); int& z = g ? gs : hs; std::string v = g ? "g" : "h"; if (z >= 0) { s = v + ".reset();"; z = -1; } else { int lo = 0, hi = 3; if (ks[0].spec.count("n")) { lo = atoi(ks[0].spec["n"].c_str()); if (g) hi = lo; } if (g) { if (hs >= 0) hi = std::min(hi, hs); } else if (gs >= 0) lo = std::max(lo, gs); if (lo > hi) continue; z = (int)r.range(lo, hi); s = v + ".specify(" + S(z) + ");"; } }
      if (s.empty()) continue; c.trace << s << "\n"; cmd += s;
      std::string er = e.nddl(s); if (!er.empty()) { c.fail("rejected", s + " " + er); return; }
      if (r.chance(40)) e.ce->propagate();
    }
    // a subgoal of a rule is itself activated or given up
    if (r.chance(30)) { std::vector<TokenId> cand; for (auto tk : e.pdb->getTokens()) if (tk->master().isId() && tk->getPredicateName() == "K.a") cand.push_back(tk); std::sort(cand.begin(), cand.end(), Namer::byKey);
      if (cand.size()) { TokenId tk = cand[r.below(cand.size())]; bool in = tk->isInactive(); c.trace << (in ? "activate " : "cancel ") << tk->getName() << " of " << tk->master()->getName() << "\n"; if (in) tk->activate(); else tk->cancel(); } }
    if (!e.ce->propagate()) { c.fail("inconsistent", "after " + cmd); return; }
    bool quiet = true; std::string state = S(gs) + " " + S(hs);
    for (int i = 0; i < nt; ++i) {
      TokenId tok = e.pdb->getGlobalToken("t" + S(i)); std::vector<std::string> w, g; std::string bad; state += act[i] ? " on" : " off"; for (auto& p : ks[i].spec) state += " " + p.first + "=" + p.second;
      if (act[i]) for (auto& b : rules) want(b, ks[i], os, "", w); std::sort(w.begin(), w.end()); g = have(e, tok, bad);
      if (g != w) { c.fail(!act[i] ? "left-behind" : g.size() < w.size() ? "missing" : "extra", "t" + S(i) + diff(w, g, "wanted", "found")); return; }
      c.count("elements", (long)g.size()); c.count(act[i] ? "active_states" : "inactive_states"); std::string ws; for (auto& x : w) ws += x + " "; c.seen(t + ws);
      for (auto s : tok->slaves()) { size_t want1 = s->isActive() && s->getPredicateName() == "K.a" ? 1 : 0; if (s->slaves().size() != want1) { c.fail("nested-rule", s->getName() + " has " + S((long)s->slaves().size()) + " subgoals"); return; } if (s->isActive()) quiet = false; c.count("nested_rules", (long)want1); }
    }
    size_t expectTok = 0; for (auto tk : e.pdb->getTokens()) { (void)tk; ++expectTok; } size_t reach = 0; for (int i = 0; i < nt; ++i) { TokenId tok = e.pdb->getGlobalToken("t" + S(i)); ++reach; for (auto s : tok->slaves()) reach += 1 + s->slaves().size(); } if (expectTok != reach) { c.fail("tokens", S((long)expectTok) + " tokens and not " + S((long)reach)); return; }
    if (quiet) { std::vector<std::string> s = snap(e.pdb, e.ce, so); for (auto& l : s) for (size_t p = l.find("_VARIABLE_"); p != std::string::npos; p = l.find("_VARIABLE_", p + 9)) { size_t q = p + 10; while (q < l.size() && isdigit(l[q])) ++q; l.erase(p + 10, q - p - 10); } for (auto& l : s) for (size_t p = l.find('#'); p != std::string::npos; p = l.find('#', p + 1)) { size_t q = p + 1; while (q < l.size() && isdigit(l[q])) ++q; l.erase(p + 1, q - p - 1); } std::sort(s.begin(), s.end()); auto it = seen.find(state); if (it == seen.end()) seen[state] = s; else { c.count("revisited"); if (it->second != s) { c.fail("not-the-same-again", state + diff(it->second, s, "first", "again")); return; } } }
  }
  delete ep;
}
static H::Suite suite{"rules", 0, dyn, nullptr, 30};
HARNESS_MAIN(suite)
