// entry points for the floor/ceil analysis (F03)
#include "nanomath.h"
extern "C" float i_floor_f(float x) { return nanostl::floor(x); }
extern "C" float i_ceil_f(float x) { return nanostl::ceil(x); }
extern "C" double i_floor_d(double x) { return nanostl::floor(x); }
extern "C" double i_ceil_d(double x) { return nanostl::ceil(x); }
