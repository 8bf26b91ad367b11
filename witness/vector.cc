#include "nanovector.h"
#include "ns.h"
typedef nanostl::vector<u64> V;
#define CHK ns_check
#define BIG (1ul << 40)

// every vector a client can build: most general client over the modifying API
static void history(V &v) {
  while (ns_bool()) {
    ns_coarsen();
    switch (ns_u8()) {
      case 0: v.push_back(ns_u64()); break;
      case 1: v.resize(ns_hsize(BIG)); break;
      case 2: v.clear(); break;
      case 3: if (!v.empty()) v.pop_back(); break;
      case 4: if (!v.empty()) v[0] = ns_u64(); break;
      default: break;
    }
  }
}
// the observations that must hold of any vector
static void sane(V &v) {
  u64 n = v.size();
  CHK(v.size() <= v.capacity(), "size() <= capacity()");
  CHK(v.empty() == (n == 0), "empty() iff size() == 0");
  CHK((u64)(v.end() - v.begin()) == n, "end() - begin() == size()");
  u64 k = ns_u64();
  if (k < n) {
    CHK(&v[k] == v.data() + k, "&v[k] == data() + k");
    CHK(&v.at(k) == &v[k], "at(k) is v[k]");
    CHK(v.begin() + k == &v[k], "begin()+k denotes v[k]");
    const V &c = v;
    CHK(&c[k] == &v[k] && &c.at(k) == &v[k], "const access denotes the same element");
    CHK(ns_live(&v[k], 8), "element storage is live");
  }
}
extern "C" void d_fresh() {
  V v;
  CHK(v.size() == 0, "a new vector is empty");
  CHK(v.empty(), "a new vector is empty()");
  CHK(v.begin() == v.end(), "a new vector iterates nothing");
}
extern "C" void d_any_history() { V v; history(v); sane(v); }

extern "C" void d_push_back() {
  V v; history(v);
  u64 n = v.size(), x = ns_u64(), k = ns_u64(), old = 0;
  if (k < n) old = v[k];
  v.push_back(x);
  CHK(v.size() == n + 1, "push_back grows by one");
  CHK(v[n] == x, "push_back appends the value");
  if (k < n) CHK(v[k] == old, "push_back keeps earlier elements");
  sane(v);
}
extern "C" void d_push_back_self() {
  V v; history(v);
  u64 n = v.size(), i = ns_u64(), k = ns_u64(), old = 0;
  ns_assume(i < n);
  u64 x = v[i];
  if (k < n) old = v[k];
  v.push_back(v[i]);
  CHK(v.size() == n + 1, "push_back(v[i]) grows by one");
  CHK(v[n] == x, "push_back(v[i]) appends the element's value");
  if (k < n) CHK(v[k] == old, "push_back(v[i]) keeps earlier elements");
}
extern "C" void d_pop_back() {
  V v; history(v);
  u64 n = v.size(), k = ns_u64(), old = 0;
  ns_assume(n > 0);
  if (k < n - 1) old = v[k];
  v.pop_back();
  CHK(v.size() == n - 1, "pop_back shrinks by one");
  if (k < n - 1) CHK(v[k] == old, "pop_back keeps the rest");
  sane(v);
}
extern "C" void d_resize() {
  V v; history(v);
  u64 n = v.size(), m = ns_size(BIG), k = ns_u64(), old = 0;
  if (k < n) old = v[k];
  v.resize(m);
  CHK(v.size() == m, "resize(m) sets size() to m");
  if (k < n && k < m) CHK(v[k] == old, "resize keeps the common prefix");
  if (k >= n && k < m) CHK(v[k] == 0, "resize value-initialises the elements it adds");
  sane(v);
}
extern "C" void d_clear() {
  V v; history(v);
  u64 c = v.capacity();
  v.clear();
  CHK(v.size() == 0 && v.empty(), "clear empties");
  CHK(v.begin() == v.end(), "clear leaves nothing to iterate");
  v.push_back(5);
  CHK(v.size() == 1 && v[0] == 5, "usable after clear");
}
extern "C" void d_set() {
  V v; history(v);
  u64 n = v.size(), i = ns_u64(), k = ns_u64(), x = ns_u64(), old = 0;
  ns_assume(i < n && k < n && k != i);
  old = v[k];
  v[i] = x;
  CHK(v[i] == x && v.at(i) == x && *(v.begin() + i) == x && v.data()[i] == x, "element reads back");
  CHK(v[k] == old, "other elements unchanged");
  CHK(v.size() == n, "size unchanged");
}
extern "C" void d_copy() {
  V a; history(a);
  u64 n = a.size(), k = ns_u64(), old = 0;
  if (k < n) old = a[k];
  V b(a);
  CHK(b.size() == n && a.size() == n, "copy has the same size");
  if (k < n) {
    CHK(b[k] == old, "copy has the same elements");
    CHK(!ns_same_block(&a[k], &b[k]), "copy owns separate storage");
    b[k] = old + 1;
    CHK(a[k] == old, "copy is independent");
  }
  sane(b);
}
extern "C" void d_assign_op() {
  V a; history(a);
  V b; history(b);
  u64 n = a.size(), k = ns_u64(), old = 0;
  if (k < n) old = a[k];
  V &r = (b = a);
  CHK(&r == &b, "operator= returns *this");
  CHK(b.size() == n && a.size() == n, "operator= copies the size");
  if (k < n) {
    CHK(b[k] == old && a[k] == old, "operator= copies the elements");
    CHK(!ns_same_block(&a[k], &b[k]), "operator= keeps separate storage");
  }
  sane(b);
}
extern "C" void d_self_assign() {
  V a; history(a);
  u64 n = a.size(), k = ns_u64(), old = 0;
  if (k < n) old = a[k];
  V &r = a;
  a = r;
  CHK(a.size() == n, "self-assignment keeps the size");
  if (k < n) CHK(a[k] == old, "self-assignment keeps the elements");
}
extern "C" void d_assign_range() {
  V v; history(v);
  u64 n = ns_size(BIG), k = ns_u64();
  const u64 *p = (const u64 *)ns_buf(8 * n);
  v.assign(p, p + n);
  CHK(v.size() == n, "assign(first,last) sets the size");
  if (k < n) CHK(v[k] == p[k], "assign(first,last) copies the range");
  sane(v);
}
extern "C" void d_erase() {
  V v; history(v);
  u64 n = v.size(), i = ns_u64(), k = ns_u64(), old = 0;
  ns_assume(i < n && k < n && k != i);
  old = v[k];
  V::iterator it = v.erase(v.begin() + i);
  CHK(v.size() == n - 1, "erase removes one element");
  CHK(v[k < i ? k : k - 1] == old, "erase keeps the others in order");
  CHK(it == v.begin() + i, "erase returns the position after the erased element");
  sane(v);
}
extern "C" void d_swap() {
  V a; history(a);
  V b; history(b);
  u64 n = a.size(), m = b.size(), k = ns_u64(), ca = a.capacity(), cb = b.capacity(), oa = 0, ob = 0;
  if (k < n) oa = a[k];
  if (k < m) ob = b[k];
  a.swap(b);
  CHK(a.size() == m && b.size() == n, "swap exchanges sizes");
  CHK(a.capacity() == cb && b.capacity() == ca, "swap exchanges capacities");
  if (k < n) CHK(b[k] == oa, "swap exchanges elements");
  if (k < m) CHK(a[k] == ob, "swap exchanges elements (2)");
  sane(a); sane(b);
}
