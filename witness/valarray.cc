#include "nanovalarray.h"
#include "ns.h"
typedef nanostl::valarray<u64> V;
#define CHK ns_check
#define BIG (1ul << 40)

// every vector a client can build: most general client over the modifying API
static void history(V &v) {
  while (ns_bool()) {
    ns_coarsen();
    switch (ns_u8()) {
      case 0: { u64 t[1]; t[0] = ns_u64(); v.assign(t, t + 1); break; }
      case 1: v.resize(ns_hsize(BIG)); break;
      case 2: v.clear(); break;
      case 4: if (!v.empty()) v[0] = ns_u64(); break;
      default: break;
    }
  }
}
// the observations that must hold of any vector
static void sane(V &v) {
  u64 n = v.size();
  CHK(v.size() <= v.capacity(), "size() <= capacity()");
  CHK(v.empty() == (n == 0), "empty() iff size() == 0");
  CHK((u64)(v.end() - v.begin()) == n, "end() - begin() == size()");
  u64 k = ns_u64();
  if (k < n) {
    CHK(&v[k] == v.data() + k, "&v[k] == data() + k");
    CHK(v.begin() + k == &v[k], "begin()+k denotes v[k]");
    const V &c = v;
    CHK(&c[k] == &v[k], "const access denotes the same element");
    CHK(ns_live(&v[k], 8), "element storage is live");
  }
}
extern "C" void d_fresh() {
  V v;
  CHK(v.size() == 0, "a new vector is empty");
  CHK(v.empty(), "a new vector is empty()");
  CHK(v.begin() == v.end(), "a new vector iterates nothing");
}
extern "C" void d_any_history() { V v; history(v); sane(v); }

extern "C" void d_resize() {
  V v; history(v);
  u64 n = v.size(), m = ns_size(BIG), k = ns_u64(), old = 0;
  if (k < n) old = v[k];
  v.resize(m);
  CHK(v.size() == m, "resize(m) sets size() to m");
  if (k < n && k < m) CHK(v[k] == old, "resize keeps the common prefix");
  if (k >= n && k < m) CHK(v[k] == 0, "resize value-initialises the elements it adds");
  sane(v);
}
extern "C" void d_clear() {
  V v; history(v);
  u64 c = v.capacity();
  v.clear();
  CHK(v.size() == 0 && v.empty(), "clear empties");
  CHK(v.begin() == v.end(), "clear leaves nothing to iterate");
  v.resize(1);
  v[0] = 5;
  CHK(v.size() == 1 && v[0] == 5, "usable after clear");
}
extern "C" void d_set() {
  V v; history(v);
  u64 n = v.size(), i = ns_u64(), k = ns_u64(), x = ns_u64(), old = 0;
  ns_assume(i < n && k < n && k != i);
  old = v[k];
  v[i] = x;
  CHK(v[i] == x && *(v.begin() + i) == x && v.data()[i] == x, "element reads back");
  CHK(v[k] == old, "other elements unchanged");
  CHK(v.size() == n, "size unchanged");
}
extern "C" void d_copy() {
  V a; history(a);
  u64 n = a.size(), k = ns_u64(), old = 0;
  if (k < n) old = a[k];
  V b(a);
  CHK(b.size() == n && a.size() == n, "copy has the same size");
  if (k < n) {
    CHK(b[k] == old, "copy has the same elements");
    CHK(!ns_same_block(&a[k], &b[k]), "copy owns separate storage");
    b[k] = old + 1;
    CHK(a[k] == old, "copy is independent");
  }
  sane(b);
}
extern "C" void d_assign_op() {
  V a; history(a);
  V b; history(b);
  u64 n = a.size(), k = ns_u64(), old = 0;
  if (k < n) old = a[k];
  V &r = (b = a);
  CHK(&r == &b, "operator= returns *this");
  CHK(b.size() == n && a.size() == n, "operator= copies the size");
  if (k < n) {
    CHK(b[k] == old && a[k] == old, "operator= copies the elements");
    CHK(!ns_same_block(&a[k], &b[k]), "operator= keeps separate storage");
  }
  sane(b);
}
extern "C" void d_self_assign() {
  V a; history(a);
  u64 n = a.size(), k = ns_u64(), old = 0;
  if (k < n) old = a[k];
  V &r = a;
  a = r;
  CHK(a.size() == n, "self-assignment keeps the size");
  if (k < n) CHK(a[k] == old, "self-assignment keeps the elements");
}
extern "C" void d_assign_range() {
  V v; history(v);
  u64 n = ns_size(BIG), k = ns_u64();
  const u64 *p = (const u64 *)ns_buf(8 * n);
  v.assign(p, p + n);
  CHK(v.size() == n, "assign(first,last) sets the size");
  if (k < n) CHK(v[k] == p[k], "assign(first,last) copies the range");
  sane(v);
}
extern "C" void d_erase() {
  V v; history(v);
  u64 n = v.size(), i = ns_u64(), k = ns_u64(), old = 0;
  ns_assume(i < n && k < n && k != i);
  old = v[k];
  V::iterator it = v.erase(v.begin() + i);
  CHK(v.size() == n - 1, "erase removes one element");
  CHK(v[k < i ? k : k - 1] == old, "erase keeps the others in order");
  CHK(it == v.begin() + i, "erase returns the position after the erased element");
  sane(v);
}
extern "C" void d_swap() {
  V a; history(a);
  V b; history(b);
  u64 n = a.size(), m = b.size(), k = ns_u64(), ca = a.capacity(), cb = b.capacity(), oa = 0, ob = 0;
  if (k < n) oa = a[k];
  if (k < m) ob = b[k];
  a.swap(b);
  CHK(a.size() == m && b.size() == n, "swap exchanges sizes");
  CHK(a.capacity() == cb && b.capacity() == ca, "swap exchanges capacities");
  if (k < n) CHK(b[k] == oa, "swap exchanges elements");
  if (k < m) CHK(a[k] == ob, "swap exchanges elements (2)");
  sane(a); sane(b);
}
extern "C" void d_sized_ctor() {
  u64 n = ns_size(BIG);
  V v(n);
  CHK(v.size() == n, "valarray(n) has n elements");
  sane(v);
}
typedef nanostl::valarray<float> F;
// the element-wise function over arrays of any length: no alias, right length, each element
// @opt uf=_ZN7nanostl3sinEf
extern "C" void d_sin() {
  u64 n = ns_size(BIG), c = ns_size(BIG), k = ns_u64();
  ns_assume(n <= c);
  F a(c);  // possibly with room to spare
  a.resize(n);
  ns_havoc(a.data(), 4 * n);
  float ak = 0, want = 0;
  if (k < n) { ak = a[k]; want = nanostl::sin(ak); }
  F r(nanostl::sin(a));
  CHK(r.size() == n, "sin(valarray) has the argument's length");
  CHK(a.size() == n, "sin(valarray) keeps the argument");
  if (k < n) {
    float g = r[k];
    CHK(!ns_same_block(&r[k], &a[k]), "result has its own storage");
    CHK(ns_live(&r[k], 4) && ns_init(&r[k], 4), "every result element is set");
    CHK(ns_bits(g) == ns_bits(want), "element k is sin(a[k])");
  }
}
extern "C" void d_plus() {
  u64 n = ns_size(BIG), k = ns_size(BIG), c = ns_size(BIG);
  ns_assume(n <= c);
  F a(c), b(n);
  a.resize(n);
  ns_havoc(a.data(), 4 * n);
  ns_havoc(b.data(), 4 * n);
  float x = 0, y = 0;
  if (k < n) { x = a[k]; y = b[k]; }
  F &r = (a += b);
  CHK(&r == &a, "+= returns the array itself");
  CHK(a.size() == n && b.size() == n, "+= keeps the lengths");
  if (k < n) {
    float g = a[k], h = b[k];
    CHK(ns_bits(g) == ns_bits(x + y), "+= adds element by element");
    CHK(ns_bits(h) == ns_bits(y), "+= keeps its argument");
  }
}
extern "C" void d_plus_self() {
  u64 n = ns_size(BIG), k = ns_size(BIG);
  F a(n);
  ns_havoc(a.data(), 4 * n);
  float x = 0;
  if (k < n) x = a[k];
  a += a;
  CHK(a.size() == n, "a += a keeps the length");
  if (k < n) {
    float g = a[k];
    CHK(ns_bits(g) == ns_bits(x + x), "a += a doubles each element");
  }
}
