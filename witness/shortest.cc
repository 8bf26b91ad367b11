// entry points for the shortest-decimal analysis (T04)
#define NANOSTL_IMPLEMENTATION
#include "nanostring.h"
extern "C" void t_f2d(unsigned m, unsigned e, unsigned *o, int *x) { auto r = nanostl::ryu::f2d(m, e); *o = r.mantissa; *x = r.exponent; }
extern "C" void t_d2d(unsigned long m, unsigned e, unsigned long *o, int *x) { auto r = nanostl::ryu::d2d(m, e); *o = r.mantissa; *x = r.exponent; }
