#include "nanoalgorithm.h"
#include "nanoutility.h"
#include "nanoiterator.h"
#include "nanocstring.h"
#include "nanofunctional.h"
#include "nanovector.h"
#include "ns.h"
#include "own.h"
#define CHK ns_check
#define BIG (1ul << 40)
using namespace nanostl;
template <class T> static void minmax(T a, T b) {
  const T &lo = nanostl::min(a, b), &hi = nanostl::max(a, b);
  CHK(&lo == (b < a ? &b : &a), "min(a,b) is the lesser, a when equivalent");
  CHK(&hi == (a < b ? &b : &a), "max(a,b) is the greater, a when equivalent");
}
extern "C" void d_minmax_int() { minmax<int>(ns_i32(), ns_i32()); }
extern "C" void d_minmax_u64() { minmax<u64>(ns_u64(), ns_u64()); }
extern "C" void d_minmax_i64() { minmax<long>(ns_i64(), ns_i64()); }
extern "C" void d_minmax_uchar() { minmax<unsigned char>(ns_u8(), ns_u8()); }
extern "C" void d_minmax_float() { minmax<float>(ns_float(), ns_float()); }
struct P { int k; int tag; bool operator<(const P &o) const { return k < o.k; } bool operator>(const P &o) const { return k > o.k; } };
extern "C" void d_minmax_class() { P a, b; a.k = ns_i32(); b.k = ns_i32(); a.tag = 1; b.tag = 2; minmax<P>(a, b); }
// @opt mode=small sizes=0,1,2,3,4,5 timeout=120
extern "C" void d_max_element() {
  u64 n = ns_size(BIG), k = ns_size(BIG);
  int *p = (int *)ns_buf(4 * n);
  int *m = nanostl::max_element(p, p + n);
  if (n == 0) CHK(m == p, "max_element of an empty range is its end");
  else {
    CHK(m >= p && m < p + n, "max_element lies in the range");
    if (k < n) {
      CHK(!(*m < p[k]), "no element exceeds *max_element");
      if (p + k < m) CHK(p[k] < *m, "max_element is the first of the greatest");
    }
  }
}
extern "C" void d_max_element_range() {
  u64 n = ns_size(BIG);
  int *p = (int *)ns_buf(4 * n);
  int *m = nanostl::max_element(p, p + n);
  if (n == 0) CHK(m == p, "max_element of an empty range is its end");
  else CHK(m >= p && m < p + n, "max_element lies in the range");
}
// @opt mode=small sizes=0,1,2,3,4,5 timeout=120
extern "C" void d_max_element_const() {
  u64 n = ns_size(BIG), k = ns_size(BIG);
  const u64 *p = (const u64 *)ns_buf(8 * n);
  const u64 *m = nanostl::max_element(p, p + n);
  ns_assume(n > 0);
  if (k < n) CHK(!(*m < p[k]), "no element exceeds *max_element");
}
extern "C" void d_fill() {
  u64 n = ns_size(BIG), m = ns_u64(), l = ns_u64(), k = ns_u64();
  ns_assume(l <= m && m <= n && k < n);
  u64 *p = (u64 *)ns_buf(8 * n);
  u64 v = ns_u64(), old = p[k];
  nanostl::fill(p + l, p + m, v);
  CHK(p[k] == (k >= l && k < m ? v : old), "fill sets the range and nothing else");
}
extern "C" void d_fill_vector() {
  u64 n = ns_size(BIG), k = ns_u64(), v = ns_u64();
  vector<u64> a;
  a.resize(n);
  nanostl::fill(a.begin(), a.end(), v);
  CHK(a.size() == n, "fill keeps the size");
  if (k < n) CHK(a[k] == v, "fill sets every element");
}
// the value may be an element of the range
// @opt sizes=0,1,2,3,4,5
extern "C" void d_fill_bytes() {
  u64 n = ns_size(BIG), k = ns_u64();
  ns_assume(k < n);
  unsigned char *p = (unsigned char *)ns_buf(n);
  unsigned char c = ns_u8();
  nanostl::fill(p, p + n, c);
  CHK(p[k] == c, "fill of bytes");
}
extern "C" void d_distance() {
  u64 n = ns_size(BIG), i = ns_u64(), j = ns_u64();
  ns_assume(i <= n && j <= n);
  int *p = (int *)ns_buf(4 * n);
  CHK(nanostl::distance(p + i, p + j) == (long long)j - (long long)i, "distance(first,last) is last - first");
}
extern "C" void d_memcpy() {
  u64 n = ns_size(BIG), m = ns_u64(), k = ns_u64(), o = ns_u64();
  ns_assume(m <= n && o <= n - m && k < n);
  unsigned char *d = (unsigned char *)ns_buf(n), *s = (unsigned char *)ns_buf(n);
  unsigned char old = d[k], so = s[k];
  void *r = nanostl::memcpy(d + o, s + o, m);
  CHK(r == d + o, "memcpy returns its destination");
  CHK(d[k] == (k >= o && k - o < m ? s[k] : old), "memcpy copies exactly the given bytes");
  CHK(s[k] == so, "memcpy leaves the source alone");
}
extern "C" void d_memcpy_offset() {
  u64 n = ns_size(BIG), k = ns_u64();
  unsigned char *d = (unsigned char *)ns_buf(n + 3), *s = (unsigned char *)ns_buf(n);
  nanostl::memcpy(d + 3, s, n);
  if (k < n) CHK(d[k + 3] == s[k], "memcpy copies byte k to byte k");
}
template <class A, class B> static void pairs(A a, B b, A c, B d) {
  pair<A, B> x(a, b), y(c, d);
  CHK(x.first == a && x.second == b, "pair(a,b) holds a and b");
  CHK((x == y) == (a == c && b == d), "pairs are equal iff both members are");
  CHK((x < y) == (a < c || (a == c && b < d)), "pairs order lexicographically");
  pair<A, B> m = nanostl::make_pair(a, b);
  CHK(m.first == a && m.second == b, "make_pair(a,b) holds a and b");
  pair<A, B> *z = new pair<A, B>;
  CHK(z->first == A() && z->second == B(), "pair() value-initialises its members");
  delete z;
  y = x;
  CHK(y.first == a && y.second == b && y == x, "pair assignment copies both members");
}
extern "C" void d_pair_int() { pairs<int, u64>(ns_i32(), ns_u64(), ns_i32(), ns_u64()); }
extern "C" void d_pair_char() { pairs<unsigned char, int>(ns_u8(), ns_i32(), ns_u8(), ns_i32()); }
extern "C" void d_swap() {
  int a = ns_i32(), b = ns_i32(), x = a, y = b;
  nanostl::swap(a, b);
  CHK(a == y && b == x, "swap exchanges two values");
  nanostl::swap(a, a);
  CHK(a == y, "swap of an object with itself keeps it");
}
extern "C" void d_swap_array() {
  u64 a[3], b[3], x[3], y[3];
  for (int i = 0; i < 3; i++) { x[i] = a[i] = ns_u64(); y[i] = b[i] = ns_u64(); }
  nanostl::swap(a, b);
  for (int i = 0; i < 3; i++) CHK(a[i] == y[i] && b[i] == x[i], "swap exchanges two arrays element by element");
  int c[2][2] = {{ns_i32(), 2}, {3, ns_i32()}}, d[2][2] = {{5, 6}, {7, 8}};
  int c0 = c[0][0], c3 = c[1][1];
  nanostl::swap(c, d);
  CHK(d[0][0] == c0 && d[0][1] == 2 && d[1][0] == 3 && d[1][1] == c3 && c[0][0] == 5 && c[1][1] == 8, "swap of nested arrays");
}
extern "C" void d_swap_own() {
  {
    u64 x = ns_u64(), y = ns_u64();
    Own a(x), b(y);
    nanostl::swap(a, b);
    CHK(a.get() == y && b.get() == x, "swap exchanges owning objects");
    Mov c(x), d(y);
    u64 *pc = c.p, *pd = d.p;
    nanostl::swap(c, d);
    CHK(c.get() == y && d.get() == x && c.p == pd && d.p == pc, "swap moves when it can");
  }
  ns_heap_clean();
}
extern "C" void d_move_forward() {
  {
    u64 x = ns_u64();
    Mov a(x);
    u64 *p = a.p;
    Mov b(nanostl::move(a));
    CHK(b.p == p && a.p == 0, "move() selects the move constructor");
    Mov c(nanostl::forward<Mov &>(b));
    CHK(c.p != p && b.p == p && c.get() == x, "forward of an lvalue copies");
    Mov d(nanostl::forward<Mov>(b));
    CHK(d.p == p && b.p == 0, "forward of an rvalue moves");
    int i = ns_i32();
    CHK(&static_cast<int &>(i) == &nanostl::forward<int &>(i), "forward denotes the same object");
  }
  ns_heap_clean();
}
extern "C" void d_less() {
  int a = ns_i32(), b = ns_i32();
  u64 c = ns_u64(), d = ns_u64();
  CHK(less<int>()(a, b) == (a < b) && less<u64>()(c, d) == (c < d), "less is operator<");
  float f = ns_float(), g = ns_float();
  CHK(less<float>()(f, g) == (f < g), "less<float> is operator<");
}
template <class T> static void hashes(T a, T b) {
  nanostl::hash<T> h;
  CHK(h(a) == h(a), "hash is a function of the value");
  if (a == b) CHK(h(a) == h(b), "equal values hash equal");
  else CHK(h(a) != h(b), "distinct values of an integer type hash distinct");
}
extern "C" void d_hash_int() { hashes<int>(ns_i32(), ns_i32()); }
extern "C" void d_hash_uint() { hashes<unsigned>(ns_u32(), ns_u32()); }
extern "C" void d_hash_u64() { hashes<unsigned long>(ns_u64(), ns_u64()); }
extern "C" void d_hash_i64() { hashes<long>(ns_i64(), ns_i64()); }
extern "C" void d_hash_ll() { hashes<long long>(ns_i64(), ns_i64()); hashes<unsigned long long>(ns_u64(), ns_u64()); }
extern "C" void d_hash_uchar() { hashes<unsigned char>(ns_u8(), ns_u8()); }
extern "C" void d_hash_schar() { hashes<signed char>((signed char)ns_u8(), (signed char)ns_u8()); }
extern "C" void d_hash_short() { hashes<short>((short)ns_i32(), (short)ns_i32()); }
extern "C" void d_hash_ushort() { hashes<unsigned short>((unsigned short)ns_u32(), (unsigned short)ns_u32()); }
extern "C" void d_hash_bool() { hashes<bool>(ns_bool(), ns_bool()); }
extern "C" void d_hash_float() {
  hash<float> h;
  CHK(h(0.0f) == h(-0.0f), "+0 and -0 are equal and hash equal");
  float a = ns_float();
  CHK(h(a) == h(a), "hash<float> is a function of the value");
  unsigned u = ns_u32(), v = ns_u32();
  ns_assume((u & 0x7fffffffu) <= 0x7f800000u && (v & 0x7fffffffu) <= 0x7f800000u && u != v && (u & 0x7fffffffu) && (v & 0x7fffffffu));
  CHK(h(ns_float_of(u)) != h(ns_float_of(v)), "distinct floats hash distinct");
}
extern "C" void d_hash_double() {
  hash<double> h;
  CHK(h(0.0) == h(-0.0), "+0 and -0 are equal and hash equal");
  double a = ns_double();
  CHK(h(a) == h(a), "hash<double> is a function of the value");
}
#include "nanoinitializer_list.h"
extern "C" void d_init_list() {
  nanostl::initializer_list<u64> l;
  CHK(l.size() == 0 && l.begin() == l.end() && nanostl::begin(l) == nanostl::end(l), "a default initializer_list is empty");
}
