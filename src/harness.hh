// Shared harness: deterministic case loop, observation counters, violation reports.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include "Error.hh"

namespace H {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // inclusive range
  long range(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  size_t below(size_t n) { return n ? (size_t)(next() % n) : 0; }
  bool chance(int pct) { return (int)(next() % 100) < pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x1234567));
  return r.next();
}
inline uint64_t hash(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Violation { std::string key, detail; };

struct Ctx {
  uint64_t seed = 1;
  long idx = 0;
  bool thorough = false;
  bool verbose = false;
  bool directed = false;
  Rng rng;
  std::ostringstream trace;              // the case, in words; part of every report
  std::vector<Violation> violations;     // of this case
  std::map<std::string, uint64_t> counts;
  std::unordered_set<uint64_t> distinct; // hashes of distinct non-trivial observations
  std::vector<std::string> samples;
  uint64_t evaluations = 0;

  void count(const std::string& k, uint64_t n = 1) { counts[k] += n; }
  void seen(uint64_t h) { if (distinct.size() < 2000000) distinct.insert(h); }
  void seen(const std::string& s) { seen(hash(s)); }
  void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s.substr(0, 1500)); }
  // A violation. key: what kind of failure this is (stable between runs); detail: the observation.
  void fail(const std::string& key, const std::string& detail) {
    static const bool memOnly = getenv("MEMONLY");   // C18: the sanitizers judge, other findings belong to other checks
    if (memOnly) { count("set_aside"); return; }
    if (violations.size() < 20) violations.push_back({key, detail});
  }
  bool failed() const { return !violations.empty(); }
};

// What a harness provides
struct Suite {
  const char* name;
  long directed;                                  // number of fixed cases, run first (index 0..directed-1)
  std::function<void(Ctx&)> run_case;             // idx < directed: fixed; otherwise random from ctx.rng
  std::function<void()> setup = nullptr;
  int case_cpu_s = 20;
};

inline std::string demangle(const char* n) {
  int st = 0; char* d = abi::__cxa_demangle(n, 0, 0, &st);
  std::string r = (st == 0 && d) ? d : n; free(d); return r;
}

// strip numbers and addresses so that messages group
inline std::string norm(const std::string& s, size_t lim = 90) {
  std::string o;
  for (size_t i = 0; i < s.size() && o.size() < lim; ++i) {
    unsigned char c = s[i];
    if (isdigit(c)) { if (o.empty() || o.back() != '#') o += '#'; }
    else if (c < 32 || c > 126) o += ' ';
    else o += c;
  }
  return o;
}

inline int g_statusFd = -1;
inline Ctx* g_ctx = 0;
inline volatile bool g_slowOk = false;  // this case may rightly take (nearly) for ever
inline void hang_handler(int) {
  if (g_slowOk) _exit(96);
  static const char m[] = "\nHARNESS-HANG\n";
  ssize_t r = write(2, m, sizeof m - 1); (void)r;
  if (g_ctx) { std::string t = g_ctx->trace.str(); r = write(2, t.data(), std::min<size_t>(t.size(), 2000)); }
  _exit(97);
}
inline void arm(int cpu_s) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &t, 0);
}

inline int run_main(Suite& suite, int argc, char** argv) {
  uint64_t seed = 1; long from = 0, to = 0; std::string out, status; bool thorough = false, verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--from") from = atol(val().c_str());
    else if (a == "--to") to = atol(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--status") status = val();
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") verbose = true;
    else if (a == "--cpu") suite.case_cpu_s = atoi(val().c_str());
    else if (a == "--directed") { printf("%ld\n", suite.directed); return 0; }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  if (!status.empty()) g_statusFd = open(status.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  signal(SIGPROF, hang_handler);
  std::set_terminate([]() {
    fprintf(stderr, "terminate called");
    if (std::exception_ptr p = std::current_exception()) {
      try { std::rethrow_exception(p); }
      catch (Error& e) { fprintf(stderr, " after Error: %s / %s", norm(e.getMsg(), 60).c_str(), e.getCondition().c_str()); }
      catch (std::exception& e) { fprintf(stderr, " after exception %s", norm(e.what(), 60).c_str()); }
      catch (...) {}
    }
    fprintf(stderr, "\n");
    if (g_ctx) fprintf(stderr, "%s\n", g_ctx->trace.str().substr(0, 2000).c_str());
    abort();
  });
  if (suite.setup) suite.setup();
  Ctx c; g_ctx = &c; c.seed = seed; c.thorough = thorough; c.verbose = verbose;
  std::ostringstream viol; size_t nviol = 0, vcases = 0;
  std::map<std::string, int> perKey;
  for (long i = from; i < to; ++i) {
    c.idx = i; c.directed = i < suite.directed;
    c.rng = Rng(mix(seed, (uint64_t)i));
    c.trace.str(""); c.violations.clear();
    if (g_statusFd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", i); ssize_t r = pwrite(g_statusFd, b, n, 0); (void)r; }
    g_slowOk = false;
    arm(suite.case_cpu_s);
    try { suite.run_case(c); }
    catch (Error& e) { c.fail("uncaught-error/" + norm(e.getMsg()), "EUROPA error: " + e.getMsg() + " / " + e.getCondition()); }
    catch (std::exception& e) { c.fail("uncaught-exception/" + demangle(typeid(e).name()), e.what()); }
    catch (const std::string& s) { c.fail("uncaught-string/" + norm(s), s); }
    catch (...) {
      const std::type_info* t = abi::__cxa_current_exception_type();
      c.fail("uncaught/" + std::string(t ? demangle(t->name()) : "?"), "unknown exception");
    }
    arm(0);
    c.evaluations++;
    if (verbose) std::cout << "case " << i << "\n" << c.trace.str() << "\n";
    if (c.failed()) {
      vcases++;
      for (auto& v : c.violations) {
        if (verbose) std::cout << "VIOLATED " << v.key << ": " << v.detail << "\n";
        if (perKey[v.key]++ < 3) {
          viol << (nviol++ ? "," : "") << "{\"case\":" << i << ",\"key\":" << jstr(v.key) << ",\"detail\":" << jstr(v.detail.substr(0, 3000))
               << ",\"trace\":" << jstr(c.trace.str().substr(0, 6000)) << "}";
        }
      }
    }
  }
  std::ostringstream o;
  o << "{\"evaluations\":" << c.evaluations << ",\"violating_cases\":" << vcases << ",\"violations\":[" << viol.str() << "],\"counts\":{";
  bool first = true;
  for (auto& k : c.counts) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
  o << "},\"keycounts\":{"; first = true;
  for (auto& k : perKey) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
  o << "},\"samples\":["; first = true;
  for (auto& s : c.samples) { o << (first ? "" : ",") << jstr(s); first = false; }
  o << "]}";
  if (out.empty()) { if (!verbose) std::cout << o.str() << "\n"; }
  else {
    std::ofstream f(out + ".tmp"); f << o.str() << "\n"; f.close();
    std::ofstream h(out + ".h", std::ios::binary);
    for (uint64_t d : c.distinct) h.write((const char*)&d, 8);
    h.close();
    rename((out + ".tmp").c_str(), out.c_str());
  }
  // the cases tore everything down themselves; skip static destruction
  fflush(stdout); std::cout.flush(); 
  if (!getenv("HARNESS_FULL_EXIT")) _exit(0);
  return 0;
}

// EUROPA errors as exceptions, silently
inline void quiet_errors() {
  Error::doThrowExceptions();
  Error::doNotDisplayErrors();
  Error::doNotDisplayWarnings();
}

}  // namespace H

#define HARNESS_MAIN(suite) int main(int argc, char** argv) { H::quiet_errors(); return H::run_main(suite, argc, argv); }
