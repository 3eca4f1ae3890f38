// C17: no input text can crash or hang the engine that reads it.
// MODE: nddl | xml | solver | config | ast
#include "plan.hh"
#include "Solver.hh"
#include "Context.hh"
#include "ConstraintEngineListener.hh"
#include "tinyxml.h"
#include "leak.hh"
using namespace PL;
using namespace H;

struct Prop : public ConstraintEngineListener {
  Prop(const ConstraintEngineId ce) : ConstraintEngineListener(ce) {}
  void notifyPropagationCommenced() { g_slowOk = true; }
  void notifyPropagationCompleted() { g_slowOk = false; }
  void notifyPropagationPreempted() { g_slowOk = false; }
};

static const char* MODEL =
  "enum Loc { rock, hill, base };\n"
  "typedef int [0 10] Small;\n"
  "class Box { int size; Loc where; Box(int s, Loc l) { size = s; where = l; } }\n"
  "class Big extends Box { float weight; Big(int s, float w) { super(s, hill); weight = w; } predicate lift { int h; h <= 5; } }\n"
  "class Rover extends Timeline { Box box; Rover(Box b) { box = b; } predicate At { Loc l; } predicate Going { Loc from; Loc to; neq(from, to); eq(duration, [2 5]); } predicate Hold { int n; bool f; string s; } }\n"
  "Rover::At { met_by(object.Going g); eq(g.to, l); if (l == rock) { any(object.Hold h); h.n == 3; } else { meets(object.Going k); eq(k.from, l); } }\n"
  "Rover::Hold { int loc = [1 3]; if (f) { loc <= n; } }\n";
static const char* PROBLEM =
  "Box b1 = new Box(3, base);\nBig b2 = new Big(4, 2.5);\nRover r = new Rover(b1);\nclose();\n"
  "int x = [1 10]; float y = [0.0 5.5]; bool p; Loc q; string s; Box any_b;\n"
  "fact(Rover.At a0); a0.start.specify(0); a0.l.specify(base); eq(a0.object, r);\n"
  "goal(Rover.At a1); a1.l.specify(rock); a0 before a1; a1.start <= 50;\n"
  "rejectable(Big.lift li); \nx <= 7; x != 3; y + 1.0 < 4.0; p == (x < 5); q in { rock, hill }; \n";
static const char* EXTRA[] = {
  "foreach (i in any_b) { i.size <= 9; }\n",
  "if (p == true) { x == 4; } else { x == 5; }\n",
  "x.specify(4); x.reset(); x = 5; y.restrict([1.0 2.0]);\n",
  "a1.activate(); a1.cancel(); r.constrain(a1); r.free(a1); a0.merge(a1); a1.reject();\n",
  "enforce(x > 3); eq(x, 4); addEq(x, x, x); allDiff(x, x); \n",
  "class Node { float w; int v; Node(int k) { v = k; } }\nNode n1 = new Node(1);\nNode n2 = new Node(2);\n",
  "int arr = { 1, 2, 3 }; float fl = -inf; float fi = inff; int iw = [-inf inf]; string str = \"hel\\\"lo\"; bool bb = true;\n",
  "#include \"Plasma.nddl\"\n",
  "constraint lessOrSo(a, b) extends leq { a <: numeric && b <: numeric }\nlessOrSo(x, y);\n",
  "typedef { 1, 3, 5 } Odd; Odd od; typedef float [1.5 2.5] Fl; Fl f2; enum E2 { e1 };\n",
  "Rover r2 = new Rover(new Box(1, rock)); a1.object.specify(r2); delete li;\n",
  "Rover::Going { starts(At z); contains [1 2] [3 4] (object.Hold hh); ends_after_start(object.At zz); }\n",
  "goal(r.Hold go); go contains [0 3] a1; start < end; \n",
  "a0 before [0 5] a1; a1 starts a0; a0 any a1;\n",
  "a0.merge(x); x.activate(); r.constrain(x); r.free(b1); x.specify(); x.specify(a0); a0.activate(a1); Box.close(); r.close(); q.close();\n",
  "goal(Rover.At g1); goal(Rover.At g2); g1.activate(); g2.merge(g1); r.constrain(g1, a0); a0.activate(); r.constrain(a0, g1); r.free(a0, g1); g2.cancel(); g1.l = hill;\n",
  "any_b.size == 3; a1.object.box.size <= 4; r.box.where == base; this.x = 3; a1.l.specify(3); q.specify(rock, hill);\n",
  "x + y * 2 - 3 < 17 && p || !p; abs(x); min(x, 3); \n",
};
static const char* XMLT[] = {
  "<nddl><var type='int' name='v1'><interval type='int' min='1' max='9'/></var></nddl>",
  "<var type='Loc' name='q2'><symbol type='Loc' value='rock'/></var>",
  "<var type='Box' index='3'><object value='b1'/></var>",
  "<new type='Box' name='b9'><value type='int' name='3'/><symbol type='Loc' value='rock'/></new>",
  "<goal type='Rover.At' mandatory='true'><id type='Rover.At' name='g7'/></goal>",
  "<fact type='Rover.Hold'><id type='Rover.Hold' name='f7'/></fact>",
  "<goal><id type='Rover.Going' name='g8'/></goal>",
  "<goal type='Rover.At' relation='before' origin='g7'/>",
  "<activate><token path='0'/></activate>", "<activate name='a1'/>", "<activate><id name='g7'/></activate>",
  "<merge><token path='1'/><token path='0'/></merge>", "<reject><token path='1'/></reject>", "<cancel><token path='0'/></cancel>",
  "<constrain><object name='r'/><token path='0'/><token path='1'/></constrain>", "<free><object name='r'/><token path='0'/><token path='0'/></free>",
  "<specify><variable index='0' token='0'/><value type='int' name='3'/></specify>", "<specify><id name='x'/><value type='int' name='5'/></specify>",
  "<restrict><variable index='1' token='0'/><interval type='int' min='0' max='4'/></restrict>",
  "<assign type='int' name='v1' inherited='yes'><value type='int' name='2'/></assign>", "<assign name='x'><value type='int' name='2'/></assign>",
  "<reset><variable index='0' object='b1'/></reset>", "<reset><id name='x'/></reset>",
  "<invoke name='leq' identifier='c1'><id name='x'/><id name='v1'/></invoke>", "<invoke name='eq' index='0'><variable index='0' token='0'/><value type='int' name='3'/></invoke>",
  "<invoke name='close'/>", "<invoke name='close'><id name='Box'/></invoke>", "<invoke name='specify' identifier='x'><value type='int' name='3'/></invoke>",
  "<deletevar index='0' name='v1' type='int'/>", "<deleteobject name='b9'/>", "<deletetoken type='Rover.At' path='1' name='g7'/>", "<deleteconstraint index='0' name='eq'><variable index='0' token='0'/></deleteconstraint>",
  "<var type='int' name='v3'><set type='int'><value type='int' name='1'/><value type='int' name='4'/></set></var>",
  "<breakpoint/>", "<enum name='E9'><set><symbol value='k'/><symbol value='l'/></set></enum>",
  "<typedef name='T9' basetype='int'><interval type='int' min='0' max='3'/></typedef>",
  "<class name='C9' extends='Object'><var type='int' name='m'/></class>", "<class_decl name='C8'/>",
};
static const char* SOLV[] = {
  "<Solver name=\"S\"><UnboundVariableManager><FlawHandler component=\"Min\"/></UnboundVariableManager><OpenConditionManager><FlawHandler component=\"StandardOpenConditionHandler\"/></OpenConditionManager><ThreatManager><FlawHandler component=\"StandardThreatHandler\"/></ThreatManager></Solver>",
  "<Solver name=\"S\"><FlawFilter var-match=\"start\" component=\"Singleton\"/><UnboundVariableManager defaultPriority=\"5\"><FlawFilter class-match=\"Rover\" predicate-match=\"At\" var-match=\"l\"/><FlawHandler component=\"ValueEnum\"><Value val=\"rock\"/><Value val=\"hill\"/></FlawHandler><FlawHandler class-match=\"Rover\" component=\"Max\" priority=\"3\"/></UnboundVariableManager></Solver>",
  "<Solver name=\"S\"><OpenConditionManager><FlawFilter component=\"HorizonFilter\" policy=\"TotallyContained\"/><FlawHandler component=\"StandardOpenConditionHandler\" choice=\"activateOnly\" order=\"late\" priority=\"2\"><Guard name=\"l\" value=\"rock\"/><MasterGuard name=\"from\" value=\"base\"/></FlawHandler></OpenConditionManager></Solver>",
  "<Solver name=\"S\"><ThreatManager><FlawHandler component=\"StandardThreatHandler\" order=\"latest\" filter=\"precede\" class-match=\"Rover\" relation=\"met_by\"/></ThreatManager><ResourceThreatManager><FlawHandler component=\"ResourceThreatHandler\" order=\"leastImpact\"/></ResourceThreatManager></Solver>",
  "<Solver name=\"S\" backtracker=\"default\"><OpenConditionManager><FlawHandler component=\"HSTSOpenConditionDecisionPoint\"/><FlawHandler component=\"StandardOpenConditionHandler\" master=\"isRequired\"><MasterGuard class=\"Rover\" predicate=\"Going\"/></FlawHandler></OpenConditionManager><UnboundVariableManager><FlawHandler var-match=\"n\" component=\"Random\" distribution=\"NORMAL\" mu=\"1\" sigma=\"2\"/><FlawHandler component=\"ValueEnum\" type-match=\"Loc\" order=\"descending\"/></UnboundVariableManager></Solver>",
};
static const char* CONF[] = {
  "<EuropaConfig><Component name='nddl'><Property name='includePath'>a:b</Property></Component><Component name='CE'><Property name='x'>1</Property><Property name='y'>2</Property></Component></EuropaConfig>",
  "<?xml version='1.0'?><EuropaConfig><!-- c --><Component name='A'/> text <Component name='B'><Other/><Property name='z'> </Property></Component></EuropaConfig>",
};
static const char* TOK[] = {"{", "}", "(", ")", "[", "]", ";", ",", ".", "::", "=", "==", "<", "<=", "!=", "+", "-", "*", "/", "&&", "||", "!", ":", "inf", "-inf", "0", "-1", "99999999999999999999999", "4503599627370495", "-4503599627370496", "1e400", "3.5", ".", "\"", "'", "/*", "//", "*/", "#include", "true", "false", "this", "object", "start", "end", "duration", "state", "class", "extends", "predicate", "goal", "fact", "rejectable", "if", "else", "foreach", "in", "new", "super", "null", "int", "float", "bool", "string", "numeric", "enum", "typedef", "x", "y", "p", "q", "s", "r", "b1", "b2", "any_b", "a0", "a1", "li", "Box", "Rover", "Big", "Loc", "rock", "nosuch", "At", "Going", "Hold", "Timeline", "Object", "close", "specify", "restrict", "activate", "merge", "free", "constrain", "before", "any", "contains", "\x01", "\xff\xfe", "\\", "~", "@", "$", "%", "^", "?", "rejectable", "numeric", "leq", "eq", "addEq", "sum", "allDiff", "constraint", "<:", "x.specify", "a1.l", "a1.object", "object.box", "b1.size", "r.box.size", "a0.l.x", "b1.", "filterOnly", "delete"};
static const char* XTOK[] = {"", "x", "0", "-1", "99999999999999999999", "r", "b1", "b9", "a0", "a1", "g7", "0.0", "1.2.3", "..", "int", "float", "bool", "string", "Box", "Loc", "Rover.At", "Rover.Nope", "Rover", ".At", "rock", "nosuch", "eq", "leq", "before", "met_by", "true", "inf", "-inf", "1e999", "&lt;", "&#0;", "&#x;", "&", "state", "start", "*", "NaN", "a:b", "Min", "Max", "ValueEnum", "StandardOpenConditionHandler", "HorizonFilter", "SingletonFilter", "InfiniteDynamicFilter", "early", "late", "nearest", "mid", "choice", "activateFirst", "mergeFirst", "activateOnly", "mergeOnly"};

static std::vector<std::string> lex(const std::string& t) {
  std::vector<std::string> v; size_t i = 0;
  auto word = [](unsigned char c) { return isalnum(c) || c == '_'; };
  while (i < t.size()) {
    size_t j = i + 1;
    if (word(t[i])) while (j < t.size() && word(t[j])) ++j;
    v.push_back(t.substr(i, j - i)); i = j;
  }
  return v;
}
static int kind(unsigned char c) { return isdigit(c) ? 1 : isalpha(c) || c == '_' ? 2 : strchr("=<>!", c) ? 3 : strchr("+-*/", c) ? 4 : 10 + c; }
template <size_t N> static std::string pk(Rng& r, const char* const (&a)[N]) { return a[r.below(N)]; }

static std::string mutate(Rng& r, const std::string& t, bool xml) {
  std::vector<std::string> v = lex(t);
  bool like = r.chance(60);
  long n = r.chance(like ? 70 : 30) ? 1 : r.chance(60) ? r.range(1, 4) : r.range(1, 15);
  auto tok = [&]() { return xml ? pk(r, XTOK) : pk(r, TOK); };
  std::vector<size_t> solid;
  for (long k = 0; k < n && !v.empty(); ++k) {
    size_t i = r.below(v.size());
    for (int q = 0; q < 3 && isspace((unsigned char)v[i][0]); ++q) i = r.below(v.size());
    if (v[i].empty()) continue;
    switch (like ? 2 : r.below(16)) {
      case 0: v.erase(v.begin() + i); break;
      case 1: v.insert(v.begin() + i, tok()); break;
      case 2: case 3: case 12: case 13: case 14: case 15: {
        // mostly like for like, so that the text still parses
        std::string t2; for (int q = 0; q < 12; ++q) { t2 = r.chance(60) ? v[r.below(v.size())] : tok(); if (!t2.empty() && !v[i].empty() && kind(t2[0]) == kind(v[i][0])) break; }
        v[i] = t2; break; }
      case 4: { size_t j = r.below(v.size()); std::swap(v[i], v[j]); break; }
      case 5: v[i] = v[r.below(v.size())]; break;
      case 6: { size_t j = std::min(v.size(), i + 1 + r.below(8)); v.erase(v.begin() + i, v.begin() + j); break; }
      case 7: { size_t j = std::min(v.size(), i + 1 + r.below(12)); std::vector<std::string> w(v.begin() + i, v.begin() + j); size_t at = r.below(v.size()); v.insert(v.begin() + at, w.begin(), w.end()); break; }
      case 8: { if (r.chance(30)) v.resize(i); break; }
      case 9: { std::string& s = v[i]; size_t j = r.below(s.size()); s[j] = (char)(r.chance(50) ? r.range(32, 126) : r.range(0, 255)); break; }
      case 10: v.insert(v.begin() + i, v[i]); break;
      case 11: { static const char* op[] = {"(", "[", "{", "-", "!", "<", "a.", "&"}; std::string s; std::string o = pk(r, op); long m = r.chance(80) ? r.range(2, 10) : r.range(50, 200); for (long q = 0; q < m; ++q) s += o; v.insert(v.begin() + i, s); break; }
    }
    for (auto& s : v) if (s.empty()) s = " ";
  }
  std::string o; for (auto& s : v) { o += s; if (!xml && r.chance(2)) o += ' '; }
  return o;
}

struct Outcome { bool accepted = false; std::string msg; };
// Anything but a reported error escapes to the caller and is a violation there.
template <class F> static Outcome guarded(Ctx& c, const char* what, F f) {
  Outcome o;
  try { o.msg = f(); o.accepted = o.msg.empty(); c.count(o.accepted ? "accepted" : "rejected_with_text"); }
  catch (Error& e) { o.msg = e.getMsg(); c.count("rejected_by_error"); }
  catch (PSLanguageExceptionList& l) { o.msg = "language errors"; for (int i = 0; i < l.getExceptionCount(); ++i) o.msg += l.getException(i).asString(); c.count("rejected_by_exceptions"); }
  catch (PSLanguageException& l) { o.msg = l.asString(); c.count("rejected_by_exceptions"); }
  catch (std::exception& e) {
    if (dynamic_cast<std::overflow_error*>(&e) || dynamic_cast<std::underflow_error*>(&e)) { o.msg = e.what(); c.count("rejected_by_overflow"); }
    else c.fail(std::string("unreported/") + what + "/" + demangle(typeid(e).name()) + "/" + norm(e.what(), 50), e.what());
  }
  if (!o.accepted) c.seen(std::string(what) + norm(o.msg, 60));
  c.trace << "  -> " << (o.accepted ? "accepted" : "rejected: " + o.msg.substr(0, 300)) << "\n";
  g_slowOk = false;
  return o;
}

static std::string mode() { const char* m = getenv("MODE"); return m ? m : "nddl"; }

static void works(Ctx& c, Eng& e) {
  static int k = 0; std::string n = "later_" + std::to_string(++k);
  std::string r;
  try { r = e.nddl("int " + n + " = [2 5];"); }
  catch (Error& x) { r = x.getMsg(); }
  if (!r.empty()) { c.fail("later/rejected", "after the earlier text, 'int " + n + " = [2 5];' is refused: " + r); return; }
  if (!e.pdb->isGlobalVariable(n)) { c.fail("later/absent", "variable not created"); return; }
  ConstrainedVariableId v = e.pdb->getGlobalVariable(n);
  if (dom(v->baseDomain()) != "[2,5]") { c.fail("later/domain", dom(v->baseDomain())); return; }
  v->specify(3);
  bool ok = e.ce->propagate();
  if (dom(v->lastDomain()) != "[3,3]") c.fail("later/specify", dom(v->lastDomain()) + " after specify(3), propagation " + (ok ? "consistent" : "inconsistent"));
  c.count("worked_afterwards");
}

static std::string xtext(Rng& r) {
  std::string t; long n = r.range(1, 6);
  for (long i = 0; i < n; ++i) t += pk(r, XMLT) + std::string(r.chance(30) ? "\n" : "");
  if (r.chance(50)) t = "<nddl>" + t + "</nddl>";
  return t;
}

static void run(Ctx& c) {
  Rng& r = c.rng; std::string m = mode();
  if (m == "config") {
    std::string t = pk(r, CONF); if (r.chance(95)) t = mutate(r, t, true);
    c.trace << t << "\n";
    guarded(c, "config", [&]() { EngineConfig ec; ec.readFromXML(t.c_str(), false); return std::string(); });
    return;
  }
  static bool lk = getenv("LEAK"); std::map<std::string, long> ids0; if (lk) ids0 = LK::ids();
  Eng* e = new Eng();
  Prop* listener = new Prop(e->ce);
  std::string base = std::string(MODEL), prob = PROBLEM;
  bool pre = m != "nddl" || r.chance(50);
  if (pre) { std::string x = e->nddl(base + prob); if (x.find("has not been cleaned up") != std::string::npos) { c.count("corpus_blocked"); return; } // an object an earlier text left half made
    if (!x.empty()) { c.fail("corpus", x); return; } }
  long rounds = r.range(1, 3);
  for (long i = 0; i < rounds && !c.failed(); ++i) {
    std::string t;
    if (m == "nddl") {
      if (!pre && r.chance(70)) { t = base; if (r.chance(60)) t += prob; }
      long n = r.range(pre ? 1 : 0, 4); for (long k = 0; k < n; ++k) t += pk(r, EXTRA);
      if (r.chance(97)) t = mutate(r, t, false);
      c.trace << "nddl: " << t << "\n";
      guarded(c, "nddl", [&]() { return e->executeScript(r.chance(4) ? "nddl-ast" : "nddl", t, false); });
    } else if (m == "xml") {
      t = xtext(r); if (r.chance(90)) t = mutate(r, t, true);
      c.trace << "xml: " << t << "\n";
      guarded(c, "xml", [&]() { return e->executeScript("nddl-xml-txn", t, false); });
    } else if (m == "anml") {
      t = base; t = mutate(r, t, false);
      c.trace << "anml: " << t << "\n";
      guarded(c, "anml", [&]() { return e->executeScript("anml", t, false); });
    } else {
      t = pk(r, SOLV); if (r.chance(92)) t = mutate(r, t, true);
      c.trace << "solver: " << t << "\n";
      TiXmlElement* root = 0;
      guarded(c, "solver-xml", [&]() { root = initXml(t.c_str()); return std::string(root ? "" : "not xml"); });
      if (root) {
        SOLVERS::Solver* s = 0;
        Outcome o = guarded(c, "solver-new", [&]() { s = new SOLVERS::Solver(e->pdb, *root); return std::string(); });
        if (s) {
          c.count("solvers_made");
          guarded(c, "solver-run", [&]() { s->getContext()->put("horizonStart", 0); s->getContext()->put("horizonEnd", 100); s->solve(30, 30); return std::string(); });
          if (r.chance(50)) guarded(c, "solver-reset", [&]() { s->reset(); return std::string(); });
          delete s;
        }
        delete root;
      }
    }
    if (!c.failed()) { if (m == "solver") {} works(c, *e); }
  }
  if (!c.failed()) {
    delete listener;
    delete e;
    if (lk) for (auto& x : LK::grown(ids0, LK::ids())) c.fail("leak/" + x.first, std::to_string(x.second));
  }
}

static H::Suite suite{"fuzz", 0, run, nullptr, 20};
HARNESS_MAIN(suite)
