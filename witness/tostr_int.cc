#define NANOSTL_IMPLEMENTATION
#include "nanostring.h"
#include "ns.h"
#define CHK ns_check
using namespace nanostl;
// the decimal numeral of v: optional '-', no superfluous zero, digits only,
// and the digits denote v
template <class T, class U, int MAXD> static void check(const string &s, T v) {
  u64 n = s.size();
  const char *p = s.c_str();
  CHK(p[n] == 0, "the numeral is terminated");
  int neg = v < 0;
  CHK(n >= 1 + neg && n <= MAXD + neg, "the numeral has one to MAXD digits");
  if (neg) CHK(p[0] == '-', "a negative numeral starts with a minus sign");
  if (n > 1u + neg) CHK(p[neg] != '0', "the numeral has no leading zero");
  U acc = 0;
  for (u64 i = neg; i < n; i++) {
    CHK(p[i] >= '0' && p[i] <= '9', "the numeral consists of digits");
    U d = (U)(p[i] - '0');
    if (neg) acc = acc * 10 - d; else acc = acc * 10 + d;
  }
  CHK(acc == (U)v, "the numeral denotes the value");
}
// @opt mode=small sizes=0 iters=64 timeout=300
extern "C" void d_int() {
  { int v = ns_i32(); check<int, long, 10>(to_string(v), v); }
  ns_heap_clean();
}
// @opt mode=small sizes=0 iters=64 timeout=300
extern "C" void d_uint() {
  { unsigned v = ns_u32(); check<unsigned, u64, 10>(to_string(v), v); }
  ns_heap_clean();
}
// @opt mode=small sizes=0 iters=64 timeout=300
extern "C" void d_int64() {
  { int64_t v = ns_i64(); check<int64_t, int64_t, 19>(to_string(v), v); }
  ns_heap_clean();
}
// @opt mode=small sizes=0 iters=64 timeout=300
extern "C" void d_uint64() {
  { uint64_t v = ns_u64(); check<uint64_t, u64, 20>(to_string(v), v); }
  ns_heap_clean();
}
