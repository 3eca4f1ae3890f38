// Extended integers and reals: saturation at the infinities, exactness below them, overflow signalled.
#include "harness.hh"
#include <cmath>
#include "Number.hh"
using namespace EUROPA;
using namespace H;
namespace {
const long INFL = 4503599627370495L;  // documented: 2^52 - 1
typedef long double LD;
enum Op { ADD, SUB, MUL, DIV, MOD };
const char* opn[] = {"+", "-", "*", "/", "%"};
struct Ref { int kind; LD v; };  // 0 value, 1 must throw, 2 undefined
bool pinf(LD x) { return x >= INFL; }
bool ninf(LD x) { return x <= -INFL; }
Ref ref(Op o, LD a, LD b, bool integer) {
  bool ia = pinf(a) || ninf(a), ib = pinf(b) || ninf(b);
  int sa = a > 0 ? 1 : a < 0 ? -1 : 0, sb = b > 0 ? 1 : b < 0 ? -1 : 0;
  LD inf = INFL;
  switch (o) {
    case SUB: b = -b; sb = -sb; /* fall through */
    case ADD: if (ia && ib) return sa == sb ? Ref{0, sa * inf} : Ref{2, 0};
      if (ia) return {0, sa * inf}; if (ib) return {0, sb * inf}; break;
    case MUL: if (ia || ib) return sa && sb ? Ref{0, sa * sb * inf} : Ref{2, 0}; break;
    case DIV: if (ia && ib) return {2, 0}; if (!sb) return {2, 0}; if (ib) return {0, 0}; if (ia) return {0, sa * sb * inf}; break;
    case MOD: if (ia || !sb || ninf(b)) return {2, 0}; if (pinf(b)) return {0, a}; return {0, std::fmod(a, b)};
  }
  LD r;
  if (integer) {
    __int128 x = (__int128)a, y = (__int128)b, z = o == MUL ? x * y : o == DIV ? x / y : x + y; r = (LD)z;
    if (z > INFL || z < -INFL) return {1, 0};
    return {0, r};
  }
  double x = (double)a, y = (double)b, z = o == MUL ? x * y : o == DIV ? x / y : x + y;
  if (z > (double)INFL || z < -(double)INFL) return {1, 0};
  return {0, (LD)z};
}
std::string show(LD v) { char b[64]; snprintf(b, sizeof b, "%.17Lg", v); return b; }
template <class F> void check(Ctx& c, const char* forms, Op o, LD a, LD b, bool integer, F f) {
  Ref r = ref(o, a, b, integer);
  if (r.kind == 2) return;
  c.count("operations"); c.count(r.kind == 1 ? "overflows" : (pinf(a) || ninf(a) || pinf(b) || ninf(b)) ? "with_infinity" : "finite");
  int kind = 0; LD got = 0; std::string how;
  try { got = f(); } catch (std::overflow_error& e) { kind = 1; how = "overflow"; } catch (std::underflow_error& e) { kind = 1; how = "underflow"; }
  std::string d = std::string(forms) + ": " + show(a) + " " + opn[o] + " " + show(b);
  c.seen(d);
  if (kind != r.kind) c.fail(std::string("num/") + (r.kind ? "overflow-not-signalled/" : "spurious-overflow/") + forms + opn[o], d + " gave " + (kind ? how : show(got)) + " expected " + (r.kind ? "an overflow error" : show(r.v)));
  else if (!kind && got != r.v) c.fail(std::string("num/wrong/") + forms + opn[o], d + " = " + show(got) + " expected " + show(r.v));
}
long pickL(Rng& r) {
  switch (r.below(9)) {
    case 0: return INFL; case 1: return -INFL; case 2: return 0; case 3: return r.range(-3, 3); case 4: return r.range(-100, 100);
    case 5: return r.range(-100000000, 100000000); case 6: return INFL - 1 - r.range(0, 5); case 7: return -(INFL - 1 - r.range(0, 5));
    default: return r.range(-INFL, INFL);
  }
}
double pickD(Rng& r) {
  switch (r.below(4)) { case 0: return (double)pickL(r); case 1: return (double)r.range(-1000, 1000) / 8; case 2: return (double)r.range(-1000000, 1000000) / 1000.0; }
  double x = (double)r.range(-INFL, INFL) / (double)(1L << r.below(50)); return x;
}
#define L2(e) [&] { return (LD)cast_ldouble(e); }
#define CMP(T, x, y, lx, ly) \
  if ((x < y) != (lx < ly) || (x <= y) != (lx <= ly) || (x == y) != (lx == ly) || (x >= y) != (lx >= ly) || (x > y) != (lx > ly) || (x != y) != (lx != ly)) \
    c.fail(std::string("num/compare/") + T, std::string(T) + ": comparison of " + show(lx) + " and " + show(ly) + " differs from the numbers'"); \
  c.count("comparisons");

void run(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 200; ++k) {
    long a = pickL(r), b = pickL(r); if (r.chance(5)) b = a; double x = pickD(r), y = pickD(r); if (r.chance(5)) y = x;
    eint A(a), B(b); edouble X(x), Y(y); int bi = (int)r.range(-1000000, 1000000); unsigned long bu = (unsigned long)r.range(0, 1L << 40);
    LD la = a, lb = b, lx = x, ly = y;
    c.trace.str(""); c.trace << "a=" << a << " b=" << b << " x=" << show(x) << " y=" << show(y);
#define ALL(T, lA, lB, integer, EA, EB) \
    check(c, T, ADD, lA, lB, integer, L2(EA + EB)); check(c, T, SUB, lA, lB, integer, L2(EA - EB)); \
    check(c, T, MUL, lA, lB, integer, L2(EA * EB)); check(c, T, DIV, lA, lB, integer, L2(EA / EB));
    ALL("int.int", la, lb, true, A, B)
    check(c, "int.int", MOD, la, lb, true, L2(A % B));
    ALL("int.long", la, lb, true, A, b)
    ALL("int.machine-int", la, (LD)bi, true, A, bi)
    ALL("int.unsigned", la, (LD)bu, true, A, bu)
    ALL("long.int", la, lb, true, a, B)
    ALL("real.real", lx, ly, false, X, Y)
    ALL("double.real", lx, ly, false, x, Y)
    ALL("int.real", la, ly, false, A, Y)
    ALL("int.double", la, ly, false, A, y)
    // compound assignment
#define CA(o, e, T) check(c, "int.compound", o, la, lb, true, [&] { eint t(a); t e B; return (LD)cast_ldouble(t); }); check(c, "real.compound", o, lx, ly, false, [&] { edouble t(x); t e Y; return (LD)cast_ldouble(t); });
    CA(ADD, +=, 0) CA(SUB, -=, 0) CA(MUL, *=, 0) CA(DIV, /=, 0)
    // increments stop at the infinities
    { eint t(a); ++t; LD e = std::labs(a) >= INFL ? la : la + 1; if ((LD)t.asLong() != e) c.fail("num/increment", "++" + show(la)); 
      eint u(a); --u; LD f = std::labs(a) >= INFL ? la : la - 1; if ((LD)u.asLong() != f) c.fail("num/decrement", "--" + show(la));
      eint v(a); eint old = v++; if (old.asLong() != a) c.fail("num/post-increment", show(la)); 
      eint w(a); old = w--; if (old.asLong() != a) c.fail("num/post-decrement", show(la)); c.count("increments", 4); }
    if (cast_long(-A) != -a || cast_double(-X) != -x) c.fail("num/negate", "negation of " + show(la) + " or " + show(lx));
    // comparisons, all mixes, agree with the numbers'
    CMP("int.int", A, B, la, lb) CMP("int.long", A, b, la, lb) CMP("long.int", a, B, la, lb) CMP("int.double", A, y, la, ly) CMP("double.int", x, B, lx, lb)
    CMP("int.real", A, Y, la, ly) CMP("real.real", X, Y, lx, ly) CMP("real.double", X, y, lx, ly) CMP("double.real", x, Y, lx, ly) CMP("real.long", X, b, lx, lb) CMP("long.real", a, Y, la, ly)
    if (!(MINUS_INFINITY <= A && A <= PLUS_INFINITY)) c.fail("num/infinity-order", show(la));
    // conversions
    if (cast_long(A) != a || cast_double(A) != (double)a || cast_double(X) != x || cast_double(edouble(A)) != (double)a || cast_basis(A) != a) c.fail("num/conversion", "conversion of " + show(la) + " / " + show(lx));
    if (cast_long(eint(X)) != (long)x) c.fail("num/truncation", "real to integer of " + show(lx));
    // functions
    if (cast_double(std::abs(X)) != std::fabs(x)) c.fail("num/abs", show(lx));
    if (cast_double(std::floor(X)) != std::floor(x) || cast_double(std::ceil(X)) != std::ceil(x)) c.fail("num/floor-ceil", show(lx));
    if (cast_double(std::min(X, Y)) != std::min(x, y) || cast_double(std::max(X, Y)) != std::max(x, y)) c.fail("num/min-max", show(lx) + "," + show(ly));
    if (x >= 0 && std::fabs(x) < INFL && cast_double(std::sqrt(X)) != std::sqrt(x)) c.fail("num/sqrt", show(lx));
    if (EUROPA::finite(A) != (std::labs(a) < INFL)) c.fail("num/finite", show(la));
    std::ostringstream os; os << A; if (os.str() != std::to_string(a)) c.fail("num/print", show(la));
    std::istringstream is(os.str()); eint back; is >> back; if (back != A) c.fail("num/read", show(la));
    { // out of range: the infinity on that side
      double huge = (double)INFL * (1 + (double)r.range(0, 1000000)) * std::ldexp(1.0, (int)r.range(0, 900)); long hl = INFL + r.range(0, 0x7fffffffffffffffL - INFL); unsigned long hu = (unsigned long)INFL + (unsigned long)r.next() % (~0UL - (unsigned long)INFL);
      if (edouble(huge) != PLUS_INFINITY || edouble(-huge) != MINUS_INFINITY || cast_double(edouble(huge)) != (double)INFL) c.fail("num/saturate-real", show(huge));
      if (cast_long(eint(hl)) != INFL || cast_long(eint(-hl)) != -INFL || cast_double(edouble(hl)) != (double)INFL) c.fail("num/saturate-int", show(hl));
      if (cast_long(eint(hu)) != INFL || cast_double(edouble(hu)) != (double)INFL) c.fail("num/saturate-unsigned", show(hu));
      std::istringstream i1(std::to_string(-hl)); eint e1; i1 >> e1; if (cast_long(e1) != -INFL) c.fail("num/read-saturate", show(-hl));
      std::ostringstream o2; o2.precision(17); o2 << huge; std::istringstream i2(o2.str()); edouble e2; i2 >> e2; if (e2 != PLUS_INFINITY || cast_double(e2) != (double)INFL) c.fail("num/read-saturate-real", o2.str());
      c.count("out_of_range_conversions", 8);
    }
    c.count("conversions", 8);
  }
  if (c.idx % 500 == 0) c.sample(c.trace.str());
}
}
int main(int argc, char** argv) { quiet_errors(); Suite s{"num", 0, run}; return run_main(s, argc, argv); }
