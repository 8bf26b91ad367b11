#include "nanostring.h"
#include "ns.h"
typedef nanostl::string S;
#define CHK ns_check
#define BIG (1ul << 40)

static void sane(S &s, u64 n) {
  CHK(s.size() == n, "size() is the number of characters");
  CHK(s.length() == n, "length() == size()");
  CHK(s.empty() == (n == 0), "empty() iff size() == 0");
  CHK(ns_live(s.c_str(), n + 1), "c_str() points to size()+1 live characters");
  CHK(s.c_str()[n] == '\0', "c_str()[size()] is the terminator");
  CHK(&s[0] == s.c_str(), "operator[] and c_str() denote the same storage");
  const S &c = s;
  u64 k = ns_u64();
  if (k < n) {
    CHK(&s.at(k) == s.c_str() + k && &s[k] == s.c_str() + k, "at(k), [k] denote character k");
    CHK(&c.at(k) == &s[k] && &c[k] == &s[k], "const access denotes the same character");
  }
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_default() {
  { S s; sane(s, 0); }
  ns_heap_clean();
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_null() {
  { const char *p = 0; S s(p); sane(s, 0); }
  ns_heap_clean();
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_cstr() {
  u64 n = ns_size(BIG), k = ns_u64();
  const char *p = ns_cstr(n);
  {
    S s(p);
    sane(s, n);
    if (k < n) CHK(s[k] == p[k], "string(p) holds p's characters");
  }
  ns_heap_clean();
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_range() {
  u64 n = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  {
    S s(p, p + n);
    sane(s, n);
    if (k < n) CHK(s[k] == p[k], "string(first,last) holds the range");
  }
  ns_heap_clean();
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_count() {
  u64 n = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  {
    S s(p, (S::size_type)n);
    sane(s, n);
    if (k < n) CHK(s[k] == p[k], "string(s,count) holds count characters");
  }
  ns_heap_clean();
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_copy() {
  u64 n = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  {
    S a(p, (S::size_type)n);
    S b(a);
    sane(a, n); sane(b, n);
    if (k < n) {
      CHK(b[k] == p[k], "copy holds the same characters");
      b[k] = 'x';
      CHK(a[k] == p[k], "copy is independent");
    }
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4,5,7,8 timeout=200
extern "C" void d_assign() {
  u64 n = ns_size(BIG), m = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  const char *q = (const char *)ns_buf(m);
  {
    S a(p, (S::size_type)n), b(q, (S::size_type)m);
    S &r = (b = a);
    CHK(&r == &b, "operator= returns *this");
    sane(a, n); sane(b, n);
    if (k < n) {
      CHK(b[k] == p[k] && a[k] == p[k], "assignment copies the characters");
      b[k] = 'x';
      CHK(a[k] == p[k], "assigned string is independent");
    }
  }
  ns_heap_clean();
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_self_assign() {
  u64 n = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  {
    S a(p, (S::size_type)n);
    S &r = a;
    a = r;
    sane(a, n);
    if (k < n) CHK(a[k] == p[k], "self-assignment keeps the characters");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4 timeout=100
extern "C" void d_assign_cstr() {
  u64 n = ns_size(BIG), m = ns_size(BIG), k = ns_u64();
  const char *p = ns_cstr(n);
  const char *q = ns_cstr(m);
  {
    S a(p);
    a = q;
    sane(a, m);
    if (k < m) CHK(a[k] == q[k], "assignment from a C string copies it");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4,5,7,8 timeout=200
extern "C" void d_append() {
  u64 n = ns_size(BIG), m = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  const char *q = (const char *)ns_buf(m);
  {
    S a(p, (S::size_type)n), b(q, (S::size_type)m);
    S &r = (a += b);
    CHK(&r == &a, "operator+= returns *this");
    sane(a, n + m); sane(b, m);
    if (k < n) CHK(a[k] == p[k], "+= keeps the left characters");
    if (k < m) CHK(a[n + k] == q[k] && b[k] == q[k], "+= appends the right characters");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4,5,7,8 timeout=200
extern "C" void d_append_self() {
  u64 n = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  {
    S a(p, (S::size_type)n);
    a += a;
    sane(a, 2 * n);
    if (k < n) CHK(a[k] == p[k] && a[n + k] == p[k], "s += s doubles the string");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4 timeout=100
extern "C" void d_append_cstr() {
  u64 n = ns_size(BIG), m = ns_size(BIG), k = ns_u64();
  const char *p = ns_cstr(n);
  const char *q = ns_cstr(m);
  {
    S a(p);
    a += q;
    sane(a, n + m);
    if (k < n) CHK(a[k] == p[k], "+= keeps the left characters");
    if (k < m) CHK(a[n + k] == q[k], "+= appends the right characters");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4,5,7,8 timeout=200
extern "C" void d_plus() {
  u64 n = ns_size(BIG), m = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  const char *q = (const char *)ns_buf(m);
  {
    S a(p, (S::size_type)n), b(q, (S::size_type)m);
    S c(a + b);
    sane(a, n); sane(b, m); sane(c, n + m);
    if (k < n) CHK(c[k] == p[k] && a[k] == p[k], "a + b starts with a");
    if (k < m) CHK(c[n + k] == q[k] && b[k] == q[k], "a + b ends with b");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4,5,7,8 timeout=200
extern "C" void d_clear() {
  u64 n = ns_size(BIG), m = ns_size(BIG), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  const char *q = (const char *)ns_buf(m);
  {
    S a(p, (S::size_type)n);
    a.clear();
    sane(a, 0);
    S b(q, (S::size_type)m);
    a += b;
    sane(a, m);
    if (k < m) CHK(a[k] == q[k], "usable after clear");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4,5,7,8 timeout=200
extern "C" void d_erase() {
  u64 n = ns_size(BIG), i = ns_u64(), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  ns_assume(i < n);
  {
    S a(p, (S::size_type)n);
    S::iterator it = a.erase(&a[0] + i);
    sane(a, n - 1);
    CHK(it == &a[0] + i, "erase returns the position after the erased character");
    if (k < n && k != i) CHK(a[k < i ? k : k - 1] == p[k], "erase keeps the others in order");
  }
  ns_heap_clean();
}
// @opt sizes=0,1,2,3 timeout=40
extern "C" void d_set() {
  u64 n = ns_size(BIG), i = ns_u64(), k = ns_u64();
  const char *p = (const char *)ns_buf(n);
  char c = (char)ns_u8();
  ns_assume(i < n && k < n && k != i);
  {
    S a(p, (S::size_type)n);
    a[i] = c;
    CHK(a[i] == c && a.at(i) == c && a.c_str()[i] == c, "character reads back");
    CHK(a[k] == p[k], "others unchanged");
    sane(a, n);
  }
  ns_heap_clean();
}
