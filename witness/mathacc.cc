// entry points for the accuracy analysis (F02)
#include "nanomath.h"
#define E1(f) extern "C" float a_##f(float x) { return nanostl::f(x); }
E1(sqrt) E1(exp) E1(fast_exp2) E1(fast_log2) E1(log) E1(log10) E1(sin) E1(cos) E1(tan) E1(sinh) E1(cosh) E1(tanh) E1(erf) E1(erfc) E1(cbrt) E1(ierf)
#define P1(n, y) extern "C" float a_pow_##n(float x) { return nanostl::pow(x, y); }
P1(half, 0.5f) P1(third, 0.333333343f) P1(three, 3.0f) P1(neg1, -1.0f) P1(neg2, -2.0f) P1(two, 2.0f) P1(one, 1.0f) P1(ten, 10.0f) P1(five, 5.0f) P1(onehalf, 1.5f)
#define P2(n, x) extern "C" float a_pow_of_##n(float y) { return nanostl::pow(x, y); }
P2(2, 2.0f) P2(10, 10.0f) P2(half, 0.5f) P2(e, 2.71828183f)
