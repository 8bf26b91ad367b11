#include "nanomath.h"
#include "ns.h"
#define CHK ns_check
using namespace nanostl;
// the IEEE-754 class of a pattern, from the pattern
struct C { u64 exp, man, emax; bool sign; C(u64 e, u64 m, u64 x, bool s) : exp(e), man(m), emax(x), sign(s) {} };
static C cls(float x) { unsigned b = ns_bits(x); return C((b >> 23) & 255, b & 0x7fffff, 255, b >> 31); }
static C cls(double x) { u64 b = ns_bits(x); return C((b >> 52) & 2047, b & 0xffffffffffffful, 2047, b >> 63); }
template <class T> static void classify(T x) {
  C c = cls(x);
  CHK(nanostl::isfinite(x) == (c.exp != c.emax), "isfinite exactly for exponents below the maximum");
  CHK(nanostl::isinf(x) == (c.exp == c.emax && c.man == 0), "isinf exactly for the infinities");
  CHK(nanostl::isnan(x) == (c.exp == c.emax && c.man != 0), "isnan exactly for the NaNs");
  CHK(nanostl::isnormal(x) == (c.exp != 0 && c.exp != c.emax), "isnormal exactly for the normal numbers");
}
extern "C" void d_classify_float() { classify<float>(ns_float()); }
extern "C" void d_classify_double() { classify<double>(ns_double()); }
template <class T> static void abs_(T x) {
  C c = cls(x);
  T y = nanostl::fabs(x);
  C d = cls(y);
  if (c.exp == c.emax && c.man != 0) CHK(nanostl::isnan(y), "fabs(NaN) is NaN");
  else {
    CHK(!d.sign, "fabs clears the sign");
    CHK(d.exp == c.exp && d.man == c.man, "fabs keeps the magnitude");
  }
}
extern "C" void d_fabs_float() { abs_<float>(ns_float()); }
extern "C" void d_fabs_double() { abs_<double>(ns_double()); }
extern "C" void d_copysign() {
  float x = ns_float(), y = ns_float();
  unsigned r = ns_bits(nanostl::copysign(x, y));
  CHK((r & 0x7fffffffu) == (ns_bits(x) & 0x7fffffffu), "copysign keeps the magnitude");
  CHK((r >> 31) == (ns_bits(y) >> 31), "copysign takes the sign");
}
template <class T> static void minmax(T x, T y) {
  T a = nanostl::fmin(x, y), b = nanostl::fmax(x, y);
  C cx = cls(x), cy = cls(y);
  bool nx = cx.exp == cx.emax && cx.man != 0, ny = cy.exp == cy.emax && cy.man != 0;
  if (nx && ny) {
    CHK(nanostl::isnan(a) && nanostl::isnan(b), "fmin/fmax of two NaNs is NaN");
  } else if (nx) {
    CHK(ns_bits(a) == ns_bits(y) && ns_bits(b) == ns_bits(y), "fmin/fmax ignore a NaN on the left");
  } else if (ny) {
    CHK(ns_bits(a) == ns_bits(x) && ns_bits(b) == ns_bits(x), "fmin/fmax ignore a NaN on the right");
  } else {
    CHK(ns_bits(a) == ns_bits(x) || ns_bits(a) == ns_bits(y), "fmin is one of its arguments");
    CHK(ns_bits(b) == ns_bits(x) || ns_bits(b) == ns_bits(y), "fmax is one of its arguments");
    CHK(a <= x && a <= y, "fmin is no greater than either");
    CHK(b >= x && b >= y, "fmax is no less than either");
  }
}
extern "C" void d_fmin_fmax_float() { float x = ns_float(), y = ns_float(); minmax<float>(x, y); }
extern "C" void d_fmin_fmax_double() { double x = ns_double(), y = ns_double(); minmax<double>(x, y); }
extern "C" void d_clamp() {
  float x = ns_float(), lo = ns_float(), hi = ns_float();
  ns_assume(lo <= hi && x == x);
  float r = nanostl::clamp(x, lo, hi);
  CHK(lo <= r && r <= hi, "clamp stays within the bounds");
  if (lo <= x && x <= hi) CHK(r == x, "clamp keeps values within the bounds");
  if (x < lo) CHK(r == lo, "clamp raises to the lower bound");
  if (x > hi) CHK(r == hi, "clamp lowers to the upper bound");
}
extern "C" void d_bits() {
  unsigned u = ns_u32();
  CHK(nanostl::FloatToUint(nanostl::UintToFloat(u)) == u, "UintToFloat and FloatToUint are inverse");
  CHK((unsigned)nanostl::FloatToInt(nanostl::IntToFloat((int)u)) == u, "IntToFloat and FloatToInt are inverse");
  CHK(ns_bits(nanostl::UintToFloat(u)) == u, "UintToFloat reinterprets the bits");
}
#define PINF 0x7f800000u
static bool isn(float x) { C c = cls(x); return c.exp == 255 && c.man != 0; }
extern "C" void d_sqrt_special() {
  unsigned u = ns_u32();
  float x = ns_float_of(u), r = nanostl::sqrt(x);
  if (u == 0 || u == 0x80000000u) CHK(ns_bits(r) == u, "sqrt(+-0) is +-0");
  if (u == 0x3f800000u) CHK(ns_bits(r) == u, "sqrt(1) is exactly 1");
  if (u == PINF) CHK(ns_bits(r) == u, "sqrt(inf) is inf");
  if (u > 0x80000000u && u <= 0xff800000u) CHK(isn(r), "sqrt of a negative number is NaN");
}
extern "C" void d_log_special() {
  unsigned u = ns_u32();
  float x = ns_float_of(u), r = nanostl::log(x);
  if (u == 0 || u == 0x80000000u) CHK(ns_bits(r) == 0xff800000u, "log(+-0) is -inf");
  if (u == 0x3f800000u) CHK(ns_bits(r) == 0, "log(1) is exactly +0");
  if (u > 0x80000000u && u <= 0xff800000u) CHK(isn(r), "log of a negative number is NaN");
}
extern "C" void d_log10_special() {
  unsigned u = ns_u32();
  float x = ns_float_of(u), r = nanostl::log10(x);
  if (u == 0 || u == 0x80000000u) CHK(ns_bits(r) == 0xff800000u, "log10(+-0) is -inf");
  if (u == 0x3f800000u) CHK(ns_bits(r) == 0, "log10(1) is exactly +0");
  if (u > 0x80000000u && u <= 0xff800000u) CHK(isn(r), "log10 of a negative number is NaN");
}
extern "C" void d_pow_special() {
  unsigned a = ns_u32(), b = ns_u32();
  float x = ns_float_of(a), y = ns_float_of(b), r = nanostl::pow(x, y);
  if ((b & 0x7fffffffu) == 0) CHK(ns_bits(r) == 0x3f800000u, "pow(x, +-0) is exactly 1");
  else if ((a & 0x7fffffffu) == 0 && (b & 0x7fffffffu) >= 0x34000000u && (b & 0x7fffffffu) <= PINF) CHK(ns_bits(r) == 0, "pow(0, y) is 0");
  else if (b == 0x3f800000u && (a & 0x7fffffffu) > 0x34000000u && (a & 0x7fffffffu) <= PINF) CHK(ns_bits(r) == a, "pow(x, 1) is exactly x");
}
// the sign of a power of a negative number follows the parity of the exponent
// @opt shards=0..24
extern "C" void d_pow_sign() {
  int k = ns_shard();
  unsigned m = ns_u32(), a = ns_u32();
  bool neg = ns_bool();
  ns_assume(m < (1u << 23) && a > 0x34000000u && a < 0x7f800000u);
  unsigned yb = (unsigned)(127 + k) << 23 | m;
  if (k == 1) ns_assume(m != 0);  // 2
  if (k == 0) ns_assume(m != 0);  // 1
  float y = ns_float_of(yb | (neg ? 0x80000000u : 0)), x = ns_float_of(a), nx = ns_float_of(a | 0x80000000u);
  unsigned full = m | (1u << 23);
  bool integer = k >= 23 || full % (1u << (23 - (k > 23 ? 23 : k))) == 0;
  bool odd = k <= 23 && ((full >> (23 - (k > 23 ? 23 : k))) & 1);
  if (integer && odd) ns_assume(true);
  float r = nanostl::pow(x, y), s = nanostl::pow(nx, y);
  if (!integer) CHK((ns_bits(s) & 0x7fffffffu) == 0, "a non-integer power of a negative number is 0");
  else if (odd) CHK(ns_bits(s) == (ns_bits(r) ^ 0x80000000u), "an odd power of a negative number is the negated power of its magnitude");
  else CHK(ns_bits(s) == ns_bits(r), "an even power of a negative number is the power of its magnitude");
}
template <float (*F)(float)> static void oddf() {
  unsigned a = ns_u32();
  ns_assume(a <= PINF);
  unsigned p = ns_bits(F(ns_float_of(a))), q = ns_bits(F(ns_float_of(a | 0x80000000u)));
  CHK((p & 0x7fffffffu) == (q & 0x7fffffffu), "f(-x) has the magnitude of f(x)");
  CHK((p >> 31) == 0 && (q >> 31) == 1, "f has the sign of its argument");
}
extern "C" void d_sinh_odd() { oddf<nanostl::sinh>(); }
extern "C" void d_tanh_odd() { oddf<nanostl::tanh>(); }
extern "C" void d_erf_odd() { oddf<nanostl::erf>(); }
extern "C" void d_cbrt_odd() { oddf<nanostl::cbrt>(); }
extern "C" void d_cosh_even() {
  unsigned a = ns_u32();
  ns_assume(a <= PINF);
  CHK(ns_bits(nanostl::cosh(ns_float_of(a))) == ns_bits(nanostl::cosh(ns_float_of(a | 0x80000000u))), "cosh(-x) is cosh(x)");
}
