#include "nanomap.h"
#include "ns.h"
#include "own.h"
typedef nanostl::map<int, u64> M;
#define CHK ns_check
#ifdef NS_THOROUGH
#define NCOPY 3
#else
#define NCOPY 2
#endif
template <int N> struct Model {
  int k[N]; u64 v[N]; int n;
  Model() : n(0) {}
  int at(int key) const { for (int i = 0; i < n; i++) if (k[i] == key) return i; return -1; }
};
template <int N> static void fill(M &m, Model<N> &s, int n) {
  for (int i = 0; i < n; i++) {
    int key = ns_i32(); u64 val = ns_u64();
    if (s.at(key) < 0) { s.k[s.n] = key; s.v[s.n] = val; s.n++; }
    m.insert(M::value_type(key, val));
  }
}
template <int N> static void same(M &m, const Model<N> &s, const char *) {
  int n = 0, last = 0;
  for (M::iterator it = m.begin(); it != m.end(); ++it) {
    int key = it->first;
    if (n) CHK(last < key, "ascending keys");
    int j = s.at(key);
    CHK(j >= 0 && it->second == s.v[j], "holds exactly the expected elements");
    last = key;
    n++;
  }
  CHK(n == s.n, "holds all expected elements");
}
// @opt mode=small timeout=300
extern "C" void d_copy() {
  {
    M m; Model<4> s;
    fill(m, s, NCOPY);
    M c(m);
    int key = ns_i32(); u64 val = ns_u64();
    Model<4> t = s;
    int j = t.at(key);
    if (j < 0) { t.k[t.n] = key; t.v[t.n] = val; t.n++; } else t.v[j] = val;
    if (ns_bool()) { c[key] = val; same(c, t, "copy"); same(m, s, "original unchanged"); }
    else { m[key] = val; same(m, t, "original"); same(c, s, "copy unchanged"); }
  }
  ns_heap_clean();
}
// @opt mode=small timeout=300
extern "C" void d_copy_outlives() {
  {
    Model<3> s;
    M *m = new M;
    fill(*m, s, 3);
    M c(*m);
    delete m;
    same(c, s, "copy outlives the original");
    int q = ns_i32();
    CHK((c.find(q) != c.end()) == (s.at(q) >= 0), "find in the copy");
  }
  ns_heap_clean();
}
// @opt mode=small timeout=300
extern "C" void d_assign() {
  {
    M m, c; Model<3> s, t;
    fill(m, s, 2);
    fill(c, t, 2);
    M &r = (c = m);
    CHK(&r == &c, "operator= returns *this");
    same(c, s, "assigned");
    same(m, s, "source unchanged");
    int key = ns_i32(); u64 val = ns_u64();
    c[key] = val;
    same(m, s, "source independent");
    c = r;
    CHK(c.find(key) != c.end() && c.find(key)->second == val, "self-assignment keeps the elements");
  }
  ns_heap_clean();
}
// owning mapped values: released exactly once
// @opt mode=small timeout=300
extern "C" void d_own() {
  {
    nanostl::map<int, Own> m;
    int k[3]; u64 v[3];
    for (int i = 0; i < 3; i++) {
      k[i] = ns_i32(); v[i] = ns_u64();
      m[k[i]] = Own(v[i]);
    }
    for (int i = 0; i < 3; i++) {
      bool over = false;
      for (int j = i + 1; j < 3; j++) over = over || k[j] == k[i];
      if (!over) CHK(m.find(k[i])->second.get() == v[i], "owning values are kept");
    }
    nanostl::map<int, Own> c(m);
    c[k[0]] = Own(7);
    c = m;
    CHK(c.find(k[2])->second.get() == v[2], "owning values are copied");
  }
  ns_heap_clean();
}
