// C18: shutting an engine down releases everything it created. Each case makes an engine, works it (models, edits,
// errors, solvers that finish or are abandoned), shuts it down and looks at what is left: live handles, live entities,
// and unreachable memory (leak sanitizer).
#include "solve.hh"
#include "leak.hh"
#include <sanitizer/lsan_interface.h>
using namespace SV;
static std::map<std::string, long> known; static Eng* g_eng; static Solver* g_solver;   // reachable while in use
// unreachable memory found now: "alloc < caller < caller" of the first leak, or empty
static std::string lsan() {
  char tmp[] = "lsanXXXXXX"; int fd = mkstemp(tmp); int keep = dup(2); fflush(stderr); dup2(fd, 2);
  int bad = __lsan_do_recoverable_leak_check();
  fflush(stderr); dup2(keep, 2); close(keep); std::string t; char b[4096]; lseek(fd, 0, SEEK_SET); for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) t.append(b, (size_t)n); close(fd); unlink(tmp);
  if (!bad) return ""; return t.empty() ? "leak" : t;
}
// what is unreachable, by the innermost engine functions that allocated it
static std::map<std::string, long> leaks(const std::string& rep) {
  std::map<std::string, long> m; std::istringstream i(rep); std::string l, out; bool in = false; int n = 0; long k = 0;
  auto flush = [&]() { if (in) m[out.empty() ? "?" : out] += k; in = false; };
  while (std::getline(i, l)) {
    size_t q = l.find("Direct leak of"); if (q != std::string::npos) { flush(); in = true; out.clear(); n = 0; size_t z = l.find(" in ", q); k = atol(l.c_str() + z + 4); continue; }
    if (l.find("Indirect leak of") != std::string::npos) { flush(); continue; }
    size_t p = l.find(" in "); if (!in || p == std::string::npos || n == 3) continue;
    std::string f = l.substr(p + 4); size_t z = f.find("EUROPA::"); size_t sp = f.find(" /"); if (f.find("operator new") == 0 || sp == std::string::npos || f.find("/usr/", sp) != std::string::npos || f.find("std::") == 0) continue;
    f = f.substr(0, std::min(f.find('('), sp)); (void)z; out += (n ? " < " : "") + f; ++n;
  }
  flush(); return m;
}
template <class F> static bool guarded(H::Ctx& c, const char* what, F f) {
  try { f(); return true; }
  catch (Error& x) { c.count(std::string(what) + "_error"); c.trace << "  error: " << x.getMsg().substr(0, 120) << "\n"; }
  catch (PSLanguageExceptionList&) { c.count(std::string(what) + "_error"); }
  catch (PSLanguageException&) { c.count(std::string(what) + "_error"); }
  catch (std::exception& x) { c.count(std::string(what) + "_error"); }
  return false;
}
static const char* WRONG[] = {
  "int ok1 = [1 5]; noSuchThing(ok1);\n", "class K1 { int a; K1(int x) { a = x; } }\nK1 k1 = new K1(true);\n", "goal(Nope.x t);\n", "int w = ; \n", "T0 zz = new T0(3);\n",
  "class K2 extends T0 { predicate q { int z; leq(z, nothing); } }\nK2 k2 = new K2();\n", "enum E { a, b };\nE e1 = c;\n", "int x9 = [1 3]; x9.specify(7);\n", "g0.activate(); g0.merge(g0);\n",
  "class K3 { int a; K3(int x) { a = nowhere; } }\nK3 k3 = new K3(1);\n", "typedef int [0 3] TT; TT t1 = [7 9];\n", "string s1 = 4;\n", "g0.reject(); g0.reject();\n", "float f1 = [1.0 2.0]; f1.restrict([5.0 6.0]);\n",
  "class K4 { } K4 k4 = new K4(); K4 k5 = new K4(k4);\n", "class K6 { int a; predicate p { int b; } } K6::p { int q = [1 2]; if (q == 7) { any(object.nope z); } eq(b, nothere); }\nK6 k6 = new K6();\nfact(K6.p f6);\nf6.activate();\n",
  "int a1 = [0 5]; int a2 = [0 5]; lt(a1, a2); lt(a2, a1);\n", "#include \"nofile.nddl\"\n", "class K7 extends K77 { }\n", "g0.start.specify(-5);\n",
  "class K8 { string s; K8(string t) { s = t; } } K8 k8 = new K8(\"q\"); K8 k9 = new K8(7);\n", "class K9 { K9 next; K9() { next = new K9(3); } K9(int i) { } } K9 n9 = new K9();\n", "class KA { float a; KA(float f) { a = f; b = 3; } }\nKA ka = new KA(1.0);\n",
  "class KB extends T0 { KB(int z) { super(z); } }\nKB kb = new KB(2);\n", "int q1 = [0 9]; foreach (z in T0) { leq(q1, 3); }\n", "T0 any0; foreach (z in any0) { eq(q77, 3); }\n", "constraint cc(a, b) extends leq { a <: numeric && b <: nothing }\n", "constraint cd(a, b) extends nosuch { a <: numeric }\n",
  "rejectable(T0.A r1); rejectable(T0.A r1);\n", "fact(T0.A f1); f1.duration.specify(90);\n", "goal(T0.A h1); h1.p = 77;\n", "T0::A { any(T0.Zip z); }\n", "T0::A { leq(nothing, 3); }\n", "T0::Q { leq(start, 3); }\n", "int v_ = [3 1];\n", "int s_ = { }; \n", "bool b_ = (3 < true);\n", "o00.x = 3;\n", "o00 = 3; close();\n", "class T0 { int again; }\n", "enum E7 { a7, a7 };\nE7 e7 = a7;\n",
};
static const char* XMLT[] = {
  "<var type='int' name='v1'><interval type='int' min='1' max='9'/></var>", "<nddl><new type='T0' name='b9'/></nddl>", "<goal type='T0.A' mandatory='true'><id type='T0.A' name='g7'/></goal>", "<invoke name='leq' identifier='c1'><id name='x'/><id name='v1'/></invoke>",
  "<nope/>", "<activate name='g0'/>", "<reject name='g0'/>", "<assign name='v1'><value type='int' name='2'/></assign>", "<goal type='T0.Z'><id type='T0.Z' name='g8'/></goal>", "<enum name='E9'><set><symbol value='k'/><symbol value='l'/></set></enum>",
  "<typedef name='T9' basetype='int'><interval type='int' min='0' max='3'/></typedef>", "<class name='C9' extends='Object'><var type='int' name='m'/></class>", "<new type='T7' name='b9'/>",
};
static void run(H::Ctx& c) {
  H::Rng& r = c.rng; bool fullLeak = !getenv("NOLSAN");
  static bool warm = false;
  if (!warm) { warm = true; Eng* e = new Eng(true); e->nddl("#include \"Resources.nddl\"\nenum WE { w1, w2 };\nint x = [1 2]; string s; float f; bool b; WE we; typedef string { \"a\", \"b\" } WS; WS ws; typedef float [0.0 1.0] WF; WF wf; class WT extends Timeline { predicate P { eq(duration, [1 2]); } } WT::P { if (start == 0) { any(WT.P z); } } WT wt = new WT(); close(); rejectable(WT.P wr); goal(WT.P wg); wg.activate();");
    SolverId s = make(*e, config(r, true, true), 0, 10); if (e->ce->propagate()) s->solve(10, 10); delete (Solver*)s; delete e; known = leaks(lsan()); }
  auto ids0 = LK::ids(); size_t ent0 = 0; { std::set<EntityId> es; Entity::getEntities(es); ent0 = es.size(); }
  bool tol = false; g_eng = new Eng(true, tol); Eng& e = *g_eng; Prob P = gen(r, 1, 30); std::string t = P.text();
  bool log = r.chance(20);
  if (log) guarded(c, "log", [&]() { e.cl->enableTransactionLogging(); });
  c.trace << (tol ? "tolerant\n" : "") << (log ? "logging\n" : "") << t; bool loaded = false; guarded(c, "load", [&]() { std::string x = e.nddl(t); loaded = x.empty(); if (!loaded) c.trace << x.substr(0, 200) << "\n"; });
  c.count(loaded ? "loaded" : "not_loaded"); int n = (int)r.range(0, 5);
  for (int i = 0; i < n; ++i) {
    int op = (int)r.below(8);
    if (op < 2) { std::string x = WRONG[r.below(sizeof WRONG / sizeof *WRONG)]; c.trace << x; guarded(c, "wrong", [&]() { std::string m = e.nddl(x); c.count(m.empty() ? "wrong_accepted" : "wrong_refused"); }); }
    else if (op == 2) { std::string x = XMLT[r.below(sizeof XMLT / sizeof *XMLT)]; c.trace << x << "\n"; guarded(c, "xml", [&]() { e.executeScript("nddl-xml-txn", x, false); c.count("xml_run"); }); }
    else if (op < 6) {
      std::string cfg = config(r, true, P.cap > 0); c.trace << cfg << "\n";
      guarded(c, "solver", [&]() { g_solver = (Solver*)make(e, cfg, 0, P.H); }); if (!g_solver) continue; c.count("solvers");
      bool can = false; guarded(c, "propagate", [&]() { can = e.ce->propagate(); }); if (can) guarded(c, "solve", [&]() { bool ok = g_solver->solve((unsigned)r.range(1, 60), 60); c.count(ok ? "solved" : "unsolved"); });
      int after = (int)r.below(4); if (after == 1) guarded(c, "reset", [&]() { g_solver->reset(); }); if (after == 2) guarded(c, "backjump", [&]() { if (g_solver->getDepth()) g_solver->backjump(1 + r.below(g_solver->getDepth())); });
      c.trace << "after " << after << "\n"; guarded(c, "delete", [&]() { delete g_solver; }); g_solver = 0; c.count(after == 0 || after == 3 ? "abandoned" : "undone");
    } else {
      TokenSet ts = e.pdb->getTokens(); std::vector<TokenId> v(ts.begin(), ts.end()); if (v.empty()) continue; TokenId k = v[r.below(v.size())], k2 = v[r.below(v.size())]; int how = (int)r.below(5); c.trace << "edit " << how << "\n";
      guarded(c, "edit", [&]() { if (how == 0 && k->isInactive()) e.cl->activate(k); else if (how == 1 && k->isInactive() && k2->isActive() && e.pdb->hasCompatibleTokens(k)) { std::vector<TokenId> m; e.pdb->getCompatibleTokens(k, m); if (!m.empty()) e.cl->merge(k, m[0]); } else if (how == 2 && !k->isInactive()) e.cl->cancel(k); else if (how == 3 && k->isInactive() && k->master().isNoId()) e.cl->deleteToken(k); else e.ce->propagate(); });
    }
  }
  if (log && r.chance(60)) guarded(c, "close_log", [&]() { e.cl->disableTransactionLogging(); });
  bool down = guarded(c, "shutdown", [&]() { delete g_eng; }); g_eng = 0;
  if (!down) { c.fail("shutdown", "shutting the engine down reports an error"); return; }
  for (auto& x : LK::grown(ids0, LK::ids())) if (x.second) c.fail("left/" + x.first, std::to_string(x.second) + " more handles of type " + x.first + " after the engine was shut down");
  { std::set<EntityId> es; Entity::getEntities(es); if (es.size() != ent0) c.fail("entities", std::to_string(es.size() - ent0) + " more entities"); }
  c.count("shutdowns"); c.seen(t);
  if (fullLeak) { std::string rep = lsan(); auto now = leaks(rep); c.count("leak_checks");
    for (auto& x : now) { if (x.second > known[x.first]) c.fail("unreachable/" + x.first, std::to_string(x.second - known[x.first]) + " objects allocated there can no longer be reached\n" + rep.substr(0, 1500)); known[x.first] = x.second; } }
}
static H::Suite suite{"mem", 0, run, nullptr, 60};
HARNESS_MAIN(suite)
