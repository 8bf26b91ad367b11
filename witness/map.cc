#include "nanomap.h"
#include "ns.h"
typedef nanostl::map<int, u64> M;
#define CHK ns_check
#ifdef NS_THOROUGH
#define MN 5
#else
#define MN 4
#endif
// every insertion history of N symbolic keys, against a model kept in two arrays
template <int N> struct Model {
  int k[N]; u64 v[N]; int n;
  Model() : n(0) {}
  int at(int key) const { for (int i = 0; i < n; i++) if (k[i] == key) return i; return -1; }
};
template <int N> static void build(M &m, Model<N> &s, int n) {
  for (int i = 0; i < n; i++) {
    int key = ns_i32(); u64 val = ns_u64();
    int j = s.at(key);
    nanostl::pair<M::iterator, bool> r = m.insert(M::value_type(key, val));
    CHK(r.second == (j < 0), "insert reports whether the key was new");
    CHK(r.first != m.end() && r.first->first == key, "insert returns the element with that key");
    if (j < 0) { s.k[s.n] = key; s.v[s.n] = val; s.n++; }
    CHK(r.first->second == (j < 0 ? val : s.v[j]), "insert keeps the mapped value of a present key");
  }
}
template <int N> static void lookups(const M &m, const Model<N> &s) {
  CHK(m.empty() == (s.n == 0), "empty() iff nothing was inserted");
  int q = ns_i32();
  int j = s.at(q);
  M::const_iterator it = m.find(q);
  CHK((it != m.end()) == (j >= 0), "find(key) is end() iff the key was never inserted");
  if (j >= 0) CHK(it->first == q && (*it).second == s.v[j], "find(key) denotes the key and its value");
}
template <int N> static void bounds(const M &m, const Model<N> &s) {
  int q = ns_i32(), b = -1;
  for (int i = 0; i < s.n; i++) if (s.k[i] > q && (b < 0 || s.k[i] < s.k[b])) b = i;
  M::const_iterator it = m.upper_bound(q);
  CHK((it != m.end()) == (b >= 0), "upper_bound(key) is end() iff no key is greater");
  if (b >= 0) CHK(it->first == s.k[b] && it->second == s.v[b], "upper_bound(key) is the least greater key");
}
template <int N> static void order(M &m, const Model<N> &s) {
  int n = 0, last = 0;
  for (M::iterator it = m.begin(); it != m.end(); ++it) {
    int key = it->first;
    if (n) CHK(last < key, "iteration is in strictly ascending key order");
    int j = s.at(key);
    CHK(j >= 0, "iteration visits only inserted keys");
    CHK(it->second == s.v[j], "iteration shows the mapped values");
    last = key;
    n++;
  }
  CHK(n == s.n, "iteration visits every element once");
}
// @opt mode=small timeout=300
extern "C" void d_find() {
  { M m; Model<MN> s; build(m, s, MN); lookups(m, s); }
  ns_heap_clean();
}
// @opt mode=small timeout=300
extern "C" void d_upper_bound() {
  { M m; Model<MN> s; build(m, s, MN); bounds(m, s); }
  ns_heap_clean();
}
// @opt mode=small timeout=300
extern "C" void d_iterate() {
  { M m; Model<MN> s; build(m, s, MN); order(m, s); }
  ns_heap_clean();
}
// a fourth insertion after the lookups: no state is lost by observing
// @opt mode=small timeout=300
extern "C" void d_insert_again() {
  { M m; Model<3> s; build(m, s, 2); lookups(m, s); build(m, s, s.n < 2 ? 1 : 1); order(m, s); }
  ns_heap_clean();
}
// @opt mode=small timeout=300
extern "C" void d_subscript() {
  {
    M m; Model<3> s;
    for (int i = 0; i < 3; i++) {
      int key = ns_i32(); u64 val = ns_u64();
      int j = s.at(key);
      if (ns_bool()) {
        u64 &r = m[key];
        CHK(r == (j < 0 ? 0 : s.v[j]), "m[key] is the mapped value, a zero for a new key");
        r = val;
        CHK(m[key] == val, "m[key] refers to the element");
      } else
        m[key] = val;
      if (j < 0) { s.k[s.n] = key; s.v[s.n] = val; s.n++; } else s.v[j] = val;
    }
    if (ns_bool()) lookups(m, s); else order(m, s);
  }
  ns_heap_clean();
}
// references and iterators survive later insertions
// @opt mode=small timeout=300
extern "C" void d_stable() {
  {
    M m; Model<4> s;
    build(m, s, 1);
    M::iterator it = m.find(s.k[0]);
    u64 *p = &it->second;
    build(m, s, 2);
    CHK(it->first == s.k[0] && it->second == s.v[0] && p == &it->second, "iterators and references survive insertions");
    CHK(m.find(s.k[0]) == it && !(m.find(s.k[0]) != it), "two iterators to one element are equal");
    CHK(it != m.end() && !(it == m.end()), "an iterator to an element is not end()");
    M::iterator b = m.begin();
    CHK((b == it) == (b->first == it->first), "iterators are equal iff they denote the same element");
    CHK(!it.isEnd() && m.end().isEnd(), "isEnd() is true of end() only");
  }
  ns_heap_clean();
}
// @opt mode=small timeout=300
extern "C" void d_empty_map() {
  {
    M m;
    CHK(m.empty() && m.begin() == m.end(), "a new map is empty");
    int q = ns_i32();
    CHK(m.find(q) == m.end() && m.upper_bound(q) == m.end(), "an empty map finds nothing");
    M c(m);
    CHK(c.empty() && c.begin() == c.end(), "a copy of an empty map is empty");
    c[q] = 1;
    CHK(m.empty() && !c.empty(), "empty() after an insertion into the copy");
    c = m;
    CHK(c.empty(), "assignment of an empty map empties the target");
  }
  ns_heap_clean();
}
