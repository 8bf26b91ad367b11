#include "nanovector.h"
#include "own.h"
typedef nanostl::vector<Own> V;
#define CHK ns_check
#define BIG 9

static void fill(V &v, u64 n, u64 base) { for (u64 i = 0; i < n; i++) v.push_back(Own(base + i)); }
// @opt mode=small sizes=0,1,2,3,4,5
extern "C" void d_own_push_back() {
  u64 b = ns_u64();
  {
    V v; u64 n = ns_size(BIG); fill(v, n, b);
    CHK(v.size() == n, "n push_backs give n elements");
    u64 k = ns_size(BIG);
    if (k < n) CHK(v[k].get() == b + k, "element k is the k-th pushed value");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4
extern "C" void d_own_push_back_self() {
  u64 b = ns_u64();
  {
    V v; u64 n = ns_size(BIG); fill(v, n, b);
    u64 i = ns_size(BIG);
    ns_assume(i < n);
    v.push_back(v[i]);
    CHK(v.size() == n + 1 && v[n].get() == b + i, "push_back(v[i]) appends that value");
    CHK(v[i].get() == b + i, "push_back(v[i]) keeps it");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4
extern "C" void d_own_resize() {
  u64 b = ns_u64();
  {
    V v; u64 n = ns_size(BIG), m = ns_size(BIG); fill(v, n, b);
    v.resize(m);
    CHK(v.size() == m, "resize sets the size");
    u64 k = ns_size(BIG);
    if (k < n && k < m) CHK(v[k].get() == b + k, "resize keeps the common prefix");
    if (k >= n && k < m) CHK(v[k].get() == 0, "resize value-initialises the elements it adds");
    if (k < m) { v[k] = Own(7); CHK(v[k].get() == 7, "resized elements are live objects"); }
  }
  ns_heap_clean();
}
// elements dropped by a shrink do not come back
// @opt mode=small sizes=0,1,2,3
extern "C" void d_own_regrow() {
  u64 b = ns_u64();
  {
    V v; u64 n = ns_size(BIG), m = ns_size(BIG), r = ns_size(BIG); fill(v, n, b);
    ns_assume(m <= n);
    if (ns_bool()) v.clear(), m = 0;
    else v.resize(m);
    v.resize(r);
    u64 k = ns_size(BIG);
    if (k < r && k < m) CHK(v[k].get() == b + k, "elements kept by a shrink and a regrowth");
    if (k < r && k >= m) CHK(v[k].get() == 0, "elements dropped by a shrink do not come back");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4
extern "C" void d_own_copy() {
  u64 b = ns_u64();
  {
    V v; u64 n = ns_size(BIG); fill(v, n, b);
    V w(v);
    CHK(w.size() == n && v.size() == n, "copy has the same size");
    u64 k = ns_size(BIG);
    if (k < n) {
      CHK(w[k].get() == b + k && v[k].get() == b + k, "copy has the same elements");
      w[k] = Own(3);
      CHK(v[k].get() == b + k, "copy is independent");
    }
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3
extern "C" void d_own_assign() {
  u64 b = ns_u64(), c = ns_u64();
  {
    V v; u64 n = ns_size(BIG); fill(v, n, b);
    V w; u64 m = ns_size(BIG); fill(w, m, c);
    w = v;
    CHK(w.size() == n && v.size() == n, "assignment copies the size");
    u64 k = ns_size(BIG);
    if (k < n) {
      CHK(w[k].get() == b + k && v[k].get() == b + k, "assignment copies the elements");
      w[k] = Own(3);
      CHK(v[k].get() == b + k, "assigned vector is independent");
    }
    w = w;
    CHK(w.size() == n, "self-assignment keeps the size");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4
extern "C" void d_own_erase() {
  u64 b = ns_u64();
  {
    V v; u64 n = ns_size(BIG), i = ns_size(BIG), k = ns_size(BIG); fill(v, n, b);
    ns_assume(i < n);
    v.erase(v.begin() + i);
    CHK(v.size() == n - 1, "erase removes one element");
    if (k < n - 1) CHK(v[k].get() == b + (k < i ? k : k + 1), "erase keeps the others in order");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,4
extern "C" void d_own_pop_clear() {
  u64 b = ns_u64(), c = ns_u64();
  {
    V v; u64 n = ns_size(BIG); fill(v, n, b);
    if (n > 0) { v.pop_back(); CHK(v.size() == n - 1, "pop_back removes one"); }
    if (ns_bool()) { v.clear(); CHK(v.size() == 0, "clear empties"); }
    u64 s = v.size();
    v.push_back(Own(c));
    CHK(v.size() == s + 1 && v[s].get() == c, "usable after pop_back/clear");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3
extern "C" void d_own_swap() {
  u64 b = ns_u64(), c = ns_u64();
  {
    V v; u64 n = ns_size(BIG); fill(v, n, b);
    V w; u64 m = ns_size(BIG); fill(w, m, c);
    v.swap(w);
    CHK(v.size() == m && w.size() == n, "swap exchanges sizes");
    u64 k = ns_size(BIG);
    if (k < n) CHK(w[k].get() == b + k, "swap exchanges elements");
    if (k < m) CHK(v[k].get() == c + k, "swap exchanges elements (2)");
  }
  ns_heap_clean();
}
// vectors of vectors: nested ownership
// @opt mode=small sizes=0,1,2,3
extern "C" void d_own_nested() {
  u64 b = ns_u64();
  {
    nanostl::vector<nanostl::vector<u64> > vv;
    u64 n = ns_size(BIG), m = ns_size(BIG);
    for (u64 i = 0; i < n; i++) {
      nanostl::vector<u64> r;
      for (u64 j = 0; j < m; j++) r.push_back(b + i * 8 + j);
      vv.push_back(r);
    }
    nanostl::vector<nanostl::vector<u64> > ww(vv);
    u64 i = ns_size(BIG), j = ns_size(BIG);
    CHK(ww.size() == n, "copy of a vector of vectors has the same size");
    if (i < n) {
      CHK(ww[i].size() == m, "rows have the same size");
      if (j < m) {
        ww[i][j] = 1;
        CHK(vv[i][j] == b + i * 8 + j, "rows are copied, not shared");
      }
    }
  }
  ns_heap_clean();
}
