#include "nanostring.h"
#include "ns.h"
typedef nanostl::string S;
#define CHK ns_check
#define BIG 9
// reference: lexicographic order of unsigned characters
static int ref(const char *p, u64 n, const char *q, u64 m) {
  for (u64 i = 0; i < n && i < m; i++) {
    unsigned a = (unsigned char)p[i], b = (unsigned char)q[i];
    if (a < b) return -1;
    if (a > b) return 1;
  }
  return n < m ? -1 : n > m ? 1 : 0;
}
// @opt mode=small sizes=0,1,2,3 timeout=60
extern "C" void d_compare() {
  u64 n = ns_size(BIG), m = ns_size(BIG);
  const char *p = ns_cstr(n);
  const char *q = ns_cstr(m);
  S a(p), b(q);
  int r = ref(p, n, q, m);
  int c = a.compare(b), d = a.compare(q);
  CHK((c < 0) == (r < 0) && (c > 0) == (r > 0), "compare(string) has the sign of the lexicographic order");
  CHK((d < 0) == (r < 0) && (d > 0) == (r > 0), "compare(C string) has the sign of the lexicographic order");
  CHK((a == b) == (r == 0) && (a == q) == (r == 0), "operator== is equality of characters");
  CHK((a != b) == (r != 0) && (a != q) == (r != 0), "operator!= is its negation");
  CHK((a < b) == (r < 0) && (a < q) == (r < 0), "operator< is the lexicographic order");
  CHK((a > b) == (r > 0) && (a > q) == (r > 0), "operator> is its converse");
}
// strings given with a length may hold NUL characters
// @opt mode=small sizes=0,1,2,3,4 timeout=60
extern "C" void d_compare_nul() {
  u64 n = ns_size(BIG), m = ns_size(BIG);
  const char *p = (const char *)ns_buf(n);
  const char *q = (const char *)ns_buf(m);
  S a(p, (S::size_type)n), b(q, (S::size_type)m);
  int r = ref(p, n, q, m);
  int c = a.compare(b);
  CHK((c < 0) == (r < 0) && (c > 0) == (r > 0), "compare(string) orders strings holding NUL characters");
  CHK((a == b) == (r == 0) && (a != b) == (r != 0) && (a < b) == (r < 0) && (a > b) == (r > 0), "relational operators on strings holding NUL characters");
}
// any length: comparing with a copy, and no access outside the two strings
// @opt mode=small sizes=0,1,2,3,4,5 timeout=60
extern "C" void d_compare_copy() {
  u64 n = ns_size(1ul << 40);
  const char *p = ns_cstr(n);
  S a(p);
  S b(a);
  CHK(a.compare(b) == 0 && a == b && !(a != b) && !(a < b) && !(a > b), "a string equals its copy");
  CHK(a.compare(p) == 0 && a == p && !(a != p) && !(a < p) && !(a > p), "a string equals the characters it was built from");
}
// @opt mode=small sizes=0,1,2,3 timeout=60
extern "C" void d_compare_any() {
  u64 n = ns_size(1ul << 40), m = ns_size(1ul << 40);
  const char *p = ns_cstr(n);
  const char *q = ns_cstr(m);
  S a(p), b(q);
  int c = a.compare(b);
  if (n != m) CHK(c != 0, "strings of different length differ");
  u64 k = ns_size(1ul << 40);
  if (c == 0 && k < n) CHK(n == m && p[k] == q[k], "compare()==0 only for equal characters");
}
