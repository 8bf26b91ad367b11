// the shape of the map's tree: heap-ordered by the nodes' priorities, whatever
// the keys, their order of arrival and the priorities drawn
#define private public
#include "nanomap.h"
#undef private
#include "ns.h"
typedef nanostl::map<int, u64> M;
#define CHK ns_check
#ifdef NS_THOROUGH
#define MN 5
#else
#define MN 4
#endif
// dir: what the edges seen so far say (0 nothing, 1 smaller on top, 2 greater on top)
static void walk(M::Node *t, int &dir, int &n) {
  if (!t) return;
  n++;
  for (int i = 0; i < 2; i++) {
    M::Node *c = t->ch[i];
    if (!c) continue;
    if (t->pri != c->pri) {
      int d = t->pri < c->pri ? 1 : 2;
      CHK(dir == 0 || dir == d, "the tree is heap-ordered by priority");
      dir = d;
    }
    walk(c, dir, n);
  }
}
static int insert_any(M &m, int n) {
  for (int i = 0; i < n; i++) m.insert(M::value_type(ns_i32(), ns_u64()));
  return n;
}
// the root's priority is the extreme one: fixed across trees
static void shape(M &m, int most) {
  int dir = 0, n = 0;
  walk(m.root, dir, n);
  CHK(n <= most, "one node per insertion at most");
}
// @opt mode=small timeout=300
extern "C" void d_heap_insert() {
  M m;
  int n = insert_any(m, MN);
  shape(m, n);
}
// @opt mode=small timeout=300
extern "C" void d_heap_copy() {
  M m;
  int n = insert_any(m, 3);
  M c(m);
  shape(c, n);
  n += insert_any(c, 1);
  shape(c, n);
}
// @opt mode=small timeout=300
extern "C" void d_heap_assign() {
  M m, c;
  int n = insert_any(m, 2);
  insert_any(c, 1);
  c = m;
  n += insert_any(c, 2);
  shape(c, n);
}
// looking keys up draws no priorities and moves no node
// @opt mode=small timeout=300
extern "C" void d_heap_lookup() {
  M m;
  insert_any(m, 3);
  M::Node *r = m.root;
  int q = ns_i32();
  m.find(q);
  m.upper_bound(q);
  CHK(m.root == r, "a lookup leaves the tree as it is");
  shape(m, 3);
}
