// C13: undoing solver decisions restores the plan. The state of the plan is recorded at every depth of the decision
// stack; whatever brings the stack back to a depth must bring back the state recorded there.
#include "solve.hh"
using namespace SV;
static std::vector<std::string> state(Eng& e, SolverId s) {
  e.ce->propagate(); std::vector<std::string> v = snap(e.pdb, e.ce);
  // compiler-made names carry counters
  for (auto& l : v) for (size_t p = l.find("_VARIABLE_"); p != std::string::npos; p = l.find("_VARIABLE_", p + 9)) { size_t q = p + 10; while (q < l.size() && (isalnum((unsigned char)l[q]) || l[q] == '_')) ++q; l.replace(p, q - p, "_VARIABLE"); }
  if (e.ce->constraintConsistent()) { Namer nm(e.pdb); IteratorId it = s->createIterator(); while (!it->done()) { EntityId f = it->next(); if (f.isNoId()) continue;
      v.push_back("flaw " + (ConstrainedVariableId::convertable(f) ? nm.ofv(ConstrainedVariableId(f)) : nm.of(f))); } delete (Iterator*)it; }
  else v.push_back("inconsistent");
  std::sort(v.begin(), v.end()); return v;
}
static void run(H::Ctx& c) {
  dbg(); H::Rng& r = c.rng; Prob P = gen(r, c.thorough ? 2 : 1, getenv("RES") ? atoi(getenv("RES")) : 35); 
  if (r.chance(40)) P.H = std::max(3L, P.H / 2);   // tight problems backtrack more
  for (auto& k : P.toks) { k.s1 = std::min(k.s1, P.H); k.e1 = std::min(k.e1, P.H); k.s0 = std::min(k.s0, k.s1); k.e0 = std::min(k.e0, k.e1); const Pred& p = P.preds[k.pred]; if (std::max(k.s0 + p.d0, k.e0) > std::min(k.s1 + p.d1, k.e1)) { k.s0 = k.e0 = 0; k.s1 = k.e1 = P.H; } }
  std::string t = P.text(), cfg = config(r, true, P.cap > 0); 
  if (r.chance(40)) t += "int v0 = [0 3];\nint v1 = [0 2];\nint v2 = [0 2];\nneq(v0, v1); neq(v1, v2); neq(v0, v2);\n";
  c.trace << t << cfg << "\n"; Eng* ep = new Eng(P.cap > 0); Eng& e = *ep; std::string err = e.nddl(t); if (!err.empty()) { c.fail("rejected", err); return; }
  if (!e.ce->propagate()) { c.count("refuted_at_once"); return; }
  SolverId s = make(e, cfg, 0, P.H); std::vector<std::vector<std::string>> at; at.push_back(state(e, s)); c.seen(H::hash(cfg) ^ H::hash(t));
  // was the state at the depth reached recorded there?
  auto same = [&](const char* how) { size_t d = s->getDepth(); if (d >= at.size()) { c.fail("depth", "depth grew while undoing"); return false; } at.resize(d + 1); auto now = state(e, s); c.count("restorations");
    if (now != at[d]) { c.fail(how, "the plan at depth " + S((long)d) + " differs from what it was" + diff(at[d], now, "was", "is")); return false; } return true; };
  int steps = (int)r.range(5, c.thorough ? 120 : 50); bool done = false;
  for (int i = 0; i < steps; ++i) {
    int op = (int)r.below(20); unsigned long d = s->getDepth(); if (done && op > 5) op = (int)r.below(6);
    if (op == 0 && d) { c.trace << "reset\n"; s->reset(); done = false; if (s->getDepth() != 0) { c.fail("depth", "after reset"); return; } if (!same("reset")) return; }
    else if (op < 3 && d) { unsigned long n = (unsigned long)r.range(1, (long)d); c.trace << "reset " << n << "\n"; s->reset(n); done = false; if (s->getDepth() != d - n) { c.fail("depth", "after reset of some decisions"); return; } if (!same("partial-reset")) return; c.count("partial_resets"); }
    else if (op < 5 && d) { unsigned long n = (unsigned long)r.range(1, (long)d); c.trace << "backjump " << n << "\n"; bool ex = s->backjump(n); c.trace << (ex ? " exhausted\n" : ""); done = false; if (!same("backjump")) return; c.count("backjumps"); if (ex != s->isExhausted()) { c.fail("backjump-result", "disagrees with isExhausted"); return; } if (ex) { if (s->getDepth()) { c.fail("depth", "exhausted with decisions left"); return; } s->reset(); } }
    else if (done) continue;
    else {
      if (!e.ce->propagate()) { c.fail("inconsistent", "before a step"); return; }
      s->step(); c.count("steps"); c.trace << "step " << s->getLastExecutedDecision().substr(0, 60) << " -> depth " << s->getDepth() << "\n";
      if (s->isExhausted()) { c.count("exhausted"); if (!same("exhausted")) return; s->reset(); if (!same("exhausted-reset")) return; break; }
      if (s->getDepth() == d + 1) { at.push_back(state(e, s)); c.count("decisions"); }
      else if (s->noMoreFlaws() && s->getDepth() == d) { done = true; c.count("completed"); if (!same("complete")) return; }
      else { if (d != s->getDepth()) c.count("deep_backtracks"); if (!same("backtrack")) return; c.count("backtracks"); }
    }
  }
  // all over again, twice
  s->reset(); if (!same("final-reset")) return;
  std::vector<std::string> end; bool res = false; unsigned n0 = 0;
  for (int k = 0; k < 2; ++k) {
    bool b = s->solve(60, 60); unsigned n = s->getStepCount(); auto v = state(e, s);
    if (k && (b != res || n != n0)) { c.fail("redo-outcome", std::string("first ") + (res ? "solved" : "unsolved") + " in " + S(n0) + " steps, then " + (b ? "solved" : "unsolved") + " in " + S(n)); return; }
    if (k && v != end) { c.fail("redo-plan", "another plan the second time" + diff(end, v, "first", "then")); return; }
    end = v; res = b; n0 = n; s->reset(); if (!same("reset-after-solve")) return; c.count(b ? "redone" : "redone_unsolved");
  }
  delete (Solver*)s; delete ep;
}
static H::Suite suite{"undo", 0, run, nullptr, 60};
HARNESS_MAIN(suite)
