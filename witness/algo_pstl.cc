// the overloads that NANOSTL_PSTL adds: an execution policy changes nothing
// about the result
#define NANOSTL_PSTL
#include "nanoalgorithm.h"
#include "nanoexecution.h"
#include "ns.h"
#define CHK ns_check
#define BIG (1ul << 40)
template <class P> static void fill_with(const P &pol) {
  u64 n = ns_size(BIG), m = ns_u64(), l = ns_u64(), k = ns_u64();
  ns_assume(l <= m && m <= n && k < n);
  u64 *p = (u64 *)ns_buf(8 * n);
  u64 v = ns_u64(), old = p[k];
  nanostl::fill(pol, p + l, p + m, v);
  CHK(p[k] == (k >= l && k < m ? v : old), "fill under a policy sets the range and nothing else");
}
extern "C" void d_fill_par() { fill_with(nanostl::execution::par); }
extern "C" void d_fill_par_unseq() { fill_with(nanostl::execution::par_unseq); }
