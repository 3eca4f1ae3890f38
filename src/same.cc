// C21: the same problem gives the same plan in every run. Each case is run in several processes that differ only in
// what should not matter: where memory lies (an allocator that hands out blocks in a random order), what other engines
// ran before, and the environment. The runs record every domain change, constraint execution, decision and plan;
// the recordings must be equal.
#include "solve.hh"
#include "ConstraintEngineListener.hh"
#include <sys/wait.h>
#include <sys/mman.h>
#include <new>
using namespace SV;
// ---- an allocator whose blocks come in a random order
static bool g_shuffle = false; static uint64_t g_rs = 1;
static uint64_t rnd() { uint64_t z = (g_rs += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
struct Pool { void* b[96]; int n; }; static Pool g_pool[65];
static void* take(size_t n) {
  if (!g_shuffle || n > 1024) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  size_t k = (n + 15) / 16; if (!k) k = 1; Pool& q = g_pool[k];
  while (q.n < 96) { void* p = malloc(k * 16); if (!p) throw std::bad_alloc(); q.b[q.n++] = p; }
  int i = (int)(rnd() % (uint64_t)q.n); void* p = q.b[i]; q.b[i] = q.b[--q.n]; return p;
}
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }

static std::string strip(const std::string& s) {   // keys count every entity the process ever made: leave them out
  std::string o; for (size_t i = 0; i < s.size(); ++i) { bool in = i && (s[i - 1] == '(' || s[i - 1] == '_' || s[i - 1] == '-' || s[i - 1] == '=' || s[i - 1] == ' ' || s[i - 1] == ':' || s[i - 1] == '[' || s[i - 1] == '#' || s[i - 1] == '{' || s[i - 1] == ','); if (in && isdigit((unsigned char)s[i])) { o += '#'; while (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) ++i; } else o += s[i]; } return o;
}
struct Rec : public ConstraintEngineListener {
  std::vector<std::string>& out; Rec(const ConstraintEngineId ce, std::vector<std::string>& o) : ConstraintEngineListener(ce), out(o) {}
  void notifyChanged(const ConstrainedVariableId v, const DomainListener::ChangeType& t) { out.push_back("change " + S((long)t) + " " + strip(v->getName()) + " " + dom(v->lastDomain())); }
  void notifyExecuted(const ConstraintId c) { out.push_back("execute " + c->getName() + " " + S((long)c->getScope().size())); }
  void notifyAdded(const ConstraintId c) { out.push_back("added " + c->getName()); } void notifyRemoved(const ConstraintId c) { out.push_back("removed " + c->getName()); }
};
static void state(Eng& e, std::vector<std::string>& out) { bool ok = e.ce->propagate(); out.push_back(ok ? "consistent" : "inconsistent"); auto v = snap(e.pdb, e.ce); for (auto& l : v) for (size_t p = l.find("_VARIABLE_"); p != std::string::npos; p = l.find("_VARIABLE_", p + 9)) { size_t q = p + 10; while (q < l.size() && (isalnum((unsigned char)l[q]) || l[q] == '_')) ++q; l.replace(p, q - p, "_VARIABLE"); } for (auto& l : v) for (size_t p = 0; (p = l.find("implicit_var_", p)) != std::string::npos;) { p += 13; size_t q = p; while (q < l.size() && isdigit((unsigned char)l[q])) ++q; l.replace(p, q - p, "#"); } std::sort(v.begin(), v.end()); out.insert(out.end(), v.begin(), v.end());
  if (!ok) return; Namer nm(e.pdb);   // what the plan database offers, in the order it offers it
  for (TokenId t : nm.toks) if (t->isInactive()) { std::vector<TokenId> m; e.pdb->getCompatibleTokens(t, m); std::string l = "compatible " + nm.of(t) + ":"; for (auto x : m) l += " " + nm.of(x); out.push_back(l); }
  auto need = e.pdb->getTokensToOrder(); for (auto& x : need) { std::string l = "order " + nm.of(x.second.first) + ":"; std::vector<OrderingChoice> ch; if (x.second.first->getObject()->lastDomain().isEmpty()) continue; e.pdb->getOrderingChoices(x.second.first, ch); for (auto& k : ch) l += " " + nm.of(EntityId(k.first)) + "(" + nm.of(k.second.first) + "," + nm.of(k.second.second) + ")"; out.push_back(l); }
}
struct Job { Prob P; std::string text, cfg; bool tol; uint64_t ops; unsigned steps; };
static Job job(H::Rng& r) {
  Job j; j.P = gen(r, r.chance(40) ? 2 : 1, 40); j.tol = false; if (r.chance(40)) j.P.H = std::max(3L, j.P.H / 2);
  for (auto& k : j.P.toks) { k.s1 = std::min(k.s1, j.P.H); k.e1 = std::min(k.e1, j.P.H); k.s0 = std::min(k.s0, k.s1); k.e0 = std::min(k.e0, k.e1); const Pred& p = j.P.preds[k.pred]; if (std::max(k.s0 + p.d0, k.e0) > std::min(k.s1 + p.d1, k.e1)) { k.s0 = k.e0 = 0; k.s1 = k.e1 = j.P.H; } }
  j.text = j.P.text(); if (r.chance(40)) j.text += "int v0 = [0 3];\nint v1 = [0 2];\nint v2 = [0 2];\nneq(v0, v1); neq(v1, v2); neq(v0, v2);\n";
  j.cfg = config(r, true, j.P.cap > 0); j.ops = r.next(); j.steps = (unsigned)r.range(5, 60); return j;
}
static void perform(const Job& j, std::vector<std::string>& out) {
  Eng& e = *new Eng(true); new Rec(e.ce, out); std::string err = e.nddl(j.text); if (!err.empty()) { out.push_back("rejected " + err); return; }
  state(e, out); if (!e.ce->propagate()) { out.push_back("refuted at once"); return; }
  SolverId s = make(e, j.cfg, 0, j.P.H); H::Rng r(j.ops);
  for (unsigned i = 0; i < j.steps; ++i) {
    if (r.chance(6) && s->getDepth()) { unsigned long n = 1 + r.below(s->getDepth()); bool bj = r.chance(50); out.push_back((bj ? "backjump " : "reset ") + S((long)n)); if (bj) s->backjump((unsigned)n); else s->reset((unsigned)n); if (s->isExhausted()) s->reset(); }
    if (!e.ce->propagate()) { out.push_back("inconsistent before a step"); break; }
    s->step(); out.push_back("step: depth " + S((long)s->getDepth()) + " count " + S((long)s->getStepCount()) + " " + strip(s->getLastExecutedDecision())); if (r.chance(30)) state(e, out);
    if (s->isExhausted()) { out.push_back("exhausted"); break; } if (s->noMoreFlaws()) { out.push_back("complete"); if (r.chance(60)) break; s->reset(); }
  }
  state(e, out);
}
static void run(H::Ctx& c) {
  H::Rng& r = c.rng; Job j = job(r), other = job(r); c.trace << j.text << j.cfg << "\nsteps " << j.steps << "\n"; const int N = 3; std::vector<std::vector<std::string>> rec;
  static const char* how[] = {"as it comes", "memory in another order", "memory in another order, after another engine"};
  for (int v = 0; v < N; ++v) {
    int fd = memfd_create("rec", 0); uint64_t as = r.next(); pid_t p = fork(); if (p < 0) { c.count("fork_failed"); close(fd); return; }
    if (p == 0) {
      H::arm(60); std::vector<std::string> out; g_rs = as;
      try { if (v) g_shuffle = true; if (v == 2) { std::vector<std::string> o2; perform(other, o2); setenv("SOMETHING", std::string(as % 3000, 'x').c_str(), 1); } perform(j, out); }
      catch (Error& x) { out.push_back("error " + strip(x.getMsg())); } catch (std::exception& x) { out.push_back(std::string("exception ") + x.what()); }
      std::string t; for (auto& l : out) t += l + "\n"; for (size_t o = 0; o < t.size();) { ssize_t n = write(fd, t.data() + o, t.size() - o); if (n <= 0) _exit(9); o += (size_t)n; } _exit(0);
    }
    int st = 0; waitpid(p, &st, 0); std::string t; char b[65536]; lseek(fd, 0, SEEK_SET); for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) t.append(b, (size_t)n); close(fd);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { c.trace << how[v] << ": status " << st << "\n"; t += "ended with status " + S(st) + "\n"; c.count("child_ended"); }
    std::vector<std::string> l; std::istringstream is(t); for (std::string x; std::getline(is, x);) if (x.compare(0, 7, "change ") && x.compare(0, 8, "execute ") && x.compare(0, 6, "added ") && x.compare(0, 8, "removed ")) l.push_back(x); else if (!v) c.count("micro_events"); rec.push_back(l);
  }
  c.count("events", rec[0].size()); for (auto& l : rec[0]) { if (!l.compare(0, 5, "step:")) c.count("steps"); if (l == "complete") c.count("complete"); if (l == "exhausted") c.count("exhausted"); if (!l.compare(0, 7, "execute")) c.count("executions"); }
  c.seen(j.text + j.cfg);
  for (int v = 1; v < N; ++v) { c.count("compared"); size_t i = 0; while (i < rec[0].size() && i < rec[v].size() && rec[0][i] == rec[v][i]) ++i;
    if (i < rec[0].size() || i < rec[v].size()) { std::string d = std::string(how[v]) + ": the runs part at event " + S((long)i) + " of " + S((long)rec[0].size()) + "\n"; for (size_t k = i > 6 ? i - 6 : 0; k < i + 4; ++k) { d += (k < i ? "  both: " + rec[0][k] : "  one: " + (k < rec[0].size() ? rec[0][k] : "(end)") + "\n  other: " + (k < rec[v].size() ? rec[v][k] : "(end)")) + "\n"; }
      std::string kind = i < rec[0].size() ? rec[0][i].substr(0, rec[0][i].find(' ')) : "end"; c.fail("differs/" + kind, d); return; } }
}
static H::Suite suite{"same", 0, run, nullptr, 60};
HARNESS_MAIN(suite)
