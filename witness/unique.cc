#include "nanomemory.h"
#include "nanoutility.h"
#include "ns.h"
#include "own.h"
#define CHK ns_check
using nanostl::unique_ptr;
using nanostl::move;
// deleters that record what they released
struct Log { int n; const void *p[8]; int id[8]; Log() : n(0) {} };
static int count(const Log &l, const void *p) { int c = 0; for (int i = 0; i < l.n; i++) c += l.p[i] == p; return c; }
template <class T> struct Del {
  Log *log; int id;
  Del() : log(0), id(0) {}
  Del(Log *l, int i) : log(l), id(i) {}
  void operator()(T *p) const { log->p[log->n] = p; log->id[log->n] = id; log->n++; }
};
typedef unique_ptr<int, Del<int> > UP;
typedef unique_ptr<int[], Del<int> > UA;
struct B { int b; }; struct D : B { int d; };
static_assert(!__is_constructible(unique_ptr<int>, const unique_ptr<int> &) && !__is_constructible(unique_ptr<int>, unique_ptr<int> &), "unique_ptr is not copy constructible");
static_assert(!__is_assignable(unique_ptr<int> &, const unique_ptr<int> &) && !__is_assignable(unique_ptr<int> &, unique_ptr<int> &), "unique_ptr is not copy assignable");
static_assert(!__is_constructible(unique_ptr<int[]>, const unique_ptr<int[]> &) && !__is_assignable(unique_ptr<int[]> &, unique_ptr<int[]> &), "unique_ptr<T[]> is not copyable");
static_assert(!__is_convertible_to(int *, unique_ptr<int>) && !__is_convertible_to(int *, unique_ptr<int[]>), "the constructor from a pointer is explicit");
static_assert(__is_constructible(unique_ptr<B>, unique_ptr<D>) && !__is_constructible(unique_ptr<D>, unique_ptr<B>), "unique_ptr converts to a base only");
static_assert(!__is_constructible(unique_ptr<B[]>, unique_ptr<D[]>) && __is_constructible(unique_ptr<const int[]>, unique_ptr<int[]>) && !__is_constructible(unique_ptr<int[]>, unique_ptr<const int[]>), "arrays convert by qualification only");
static_assert(!__is_constructible(unique_ptr<B[]>, D *) && __is_constructible(unique_ptr<const int[]>, int *), "array from pointer");
static_assert(!__is_constructible(unique_ptr<int>, unique_ptr<int[]>) && !__is_constructible(unique_ptr<int[]>, unique_ptr<int>), "single objects and arrays do not convert");
static_assert(!__is_constructible(unique_ptr<int, void (*)(int *)>) && !__is_constructible(unique_ptr<int, void (*)(int *)>, int *), "a pointer deleter must be given");
static_assert(!__is_constructible(unique_ptr<int, Del<int> &>) , "a reference deleter must be given");
static_assert(!__is_constructible(unique_ptr<int, const Del<int> &>, int *, Del<int>), "a reference deleter does not bind a temporary");
static_assert(!__is_convertible_to(unique_ptr<int>, bool), "operator bool is explicit");
static_assert(sizeof(unique_ptr<int>) == sizeof(int *), "the default deleter takes no space");
static_assert(__is_same(unique_ptr<int>::element_type, int) && __is_same(unique_ptr<int[]>::element_type, int) && __is_same(unique_ptr<int>::pointer, int *), "member types");
struct PD { struct pointer { int v; pointer() : v(0) {} pointer(decltype(nullptr)) : v(0) {} pointer(int x) : v(x) {} explicit operator bool() const { return v != 0; }
  friend bool operator==(pointer a, pointer b) { return a.v == b.v; } friend bool operator!=(pointer a, pointer b) { return a.v != b.v; } };
  int *last; PD(int *l) : last(l) {} void operator()(pointer p) { *last = p.v; } };

extern "C" void d_observe() {
  u64 x = ns_u64();
  {
    unique_ptr<Own> e, z(nullptr);
    CHK(e.get() == 0 && !e && z.get() == 0 && e == z && e == nullptr && nullptr == z, "a default unique_ptr is empty");
    Own *q = new Own(x);
    unique_ptr<Own> p(q);
    CHK(p.get() == q && p && p != nullptr && nullptr != p && &*p == q && p->get() == x && p.operator->() == q, "a unique_ptr denotes its object");
    CHK(p != e && !(p == e), "empty and non-empty differ");
  }
  ns_heap_clean();
}
extern "C" void d_reset() {
  {
    Log l; int a[2]; Del<int> d(&l, 7);
    {
      UP p(&a[0], d);
      CHK(l.n == 0, "construction releases nothing");
      p.reset(&a[1]);
      CHK(l.n == 1 && l.p[0] == &a[0] && l.id[0] == 7 && p.get() == &a[1], "reset(q) releases the old object once and holds q");
      p.reset();
      CHK(l.n == 2 && l.p[1] == &a[1] && p.get() == 0 && !p, "reset() releases the object and empties");
      p.reset();
      p.reset(nullptr);
      CHK(l.n == 2, "an empty unique_ptr releases nothing");
      p.reset(&a[0]);
      p = nullptr;
      CHK(l.n == 3 && l.p[2] == &a[0] && p.get() == 0, "assigning nullptr releases the object");
      p.reset(&a[1]);
      int *r = p.release();
      CHK(r == &a[1] && p.get() == 0 && l.n == 3, "release() gives up the object without releasing it");
      CHK(p.release() == 0, "release() of an empty unique_ptr is null");
      p.reset(&a[0]);
    }
    CHK(l.n == 4 && l.p[3] == &a[0], "the destructor releases the object once");
  }
}
extern "C" void d_move() {
  Log l; int a[4];
  {
    UP p(&a[0], Del<int>(&l, 1));
    UP q(move(p));
    CHK(p.get() == 0 && q.get() == &a[0] && q.get_deleter().id == 1 && l.n == 0, "move construction transfers object and deleter");
    UP r(&a[1], Del<int>(&l, 2));
    r = move(q);
    CHK(l.n == 1 && l.p[0] == &a[1] && l.id[0] == 2, "move assignment releases the old object with the old deleter");
    CHK(q.get() == 0 && r.get() == &a[0] && r.get_deleter().id == 1, "move assignment transfers object and deleter");
    UP &s = r;
    r = move(s);
    CHK(r.get() == &a[0] && l.n == 1, "self-move keeps the object");
    r = move(q);
    CHK(r.get() == 0 && l.n == 2 && l.p[1] == &a[0] && l.id[1] == 1, "assigning from an empty unique_ptr releases and empties");
  }
  CHK(l.n == 2, "moved-from unique_ptrs release nothing");
}
extern "C" void d_swap() {
  Log l; int a[2];
  {
    UP p(&a[0], Del<int>(&l, 1)), q(&a[1], Del<int>(&l, 2));
    p.swap(q);
    CHK(p.get() == &a[1] && q.get() == &a[0] && p.get_deleter().id == 2 && q.get_deleter().id == 1 && l.n == 0, "member swap exchanges objects and deleters");
    nanostl::swap(p, q);
    CHK(p.get() == &a[0] && q.get() == &a[1] && p.get_deleter().id == 1 && q.get_deleter().id == 2 && l.n == 0, "swap exchanges objects and deleters");
    UP e(nullptr, Del<int>(&l, 3));
    swap(e, p);
    CHK(p.get() == 0 && e.get() == &a[0], "swap with an empty unique_ptr");
  }
  CHK(l.n == 2 && count(l, &a[0]) == 1 && count(l, &a[1]) == 1, "each object is released once");
  for (int i = 0; i < 2; i++) CHK(l.id[i] == (l.p[i] == &a[0] ? 1 : 2), "each object is released by its own deleter");
}
struct Chain { Chain *self_seen; unique_ptr<Chain> next; u64 v; Chain(u64 x) : self_seen(0), v(x) {} };
extern "C" void d_chain() {
  {
    u64 x = ns_u64(), y = ns_u64(), z = ns_u64();
    unique_ptr<Chain> h(new Chain(x));
    h->next.reset(new Chain(y));
    h->next->next.reset(new Chain(z));
    h = move(h->next);
    CHK(h->v == y && h->next->v == z, "popping the head of a list keeps the rest");
    h = move(h->next);
    CHK(h->v == z && !h->next, "popping twice");
  }
  ns_heap_clean();
}
// while the deleter runs, the unique_ptr already holds the new pointer
struct Spy { UP *u; };
struct SpyDel { unique_ptr<int, SpyDel> **u; int **seen; void operator()(int *) const { *seen = (*u)->get(); } };
extern "C" void d_reset_order() {
  int a[2], *seen = 0;
  unique_ptr<int, SpyDel> *self = 0;
  SpyDel d = {&self, &seen};
  unique_ptr<int, SpyDel> p(&a[0], d);
  self = &p;
  p.reset(&a[1]);
  CHK(seen == &a[1], "reset(q) holds q before it releases the old object");
  p.reset();
  CHK(seen == 0, "reset() is empty before it releases the old object");
}
extern "C" void d_deleter_ref() {
  Log l; int a[2];
  Del<int> d(&l, 5), d2(&l, 6);
  {
    unique_ptr<int, Del<int> &> p(&a[0], d);
    CHK(&p.get_deleter() == &d, "a reference deleter denotes the caller's");
    unique_ptr<int, Del<int> &> q(move(p));
    CHK(&q.get_deleter() == &d && q.get() == &a[0] && p.get() == 0, "moving keeps the reference");
    d.id = 9;
    unique_ptr<int, const Del<int> &> r(&a[1], d2);
    CHK(&r.get_deleter() == &d2, "a const reference deleter denotes the caller's");
  }
  CHK(l.n == 2 && l.id[0] == 6 && l.id[1] == 9 && l.p[0] == &a[1] && l.p[1] == &a[0], "destruction uses the referenced deleter's present state");
}
static Log *g_log;
static void fdel(int *p) { g_log->p[g_log->n++] = p; }
extern "C" void d_deleter_function() {
  Log l; int a; g_log = &l;
  {
    unique_ptr<int, void (*)(int *)> p(&a, fdel);
    CHK(p.get_deleter() == fdel, "a function deleter is kept");
    unique_ptr<int, void (*)(int *)> q(move(p));
    CHK(q.get() == &a && q.get_deleter() == fdel, "a function deleter is moved");
  }
  CHK(l.n == 1 && l.p[0] == &a, "a function deleter is called once");
}
extern "C" void d_deleter_pointer_type() {
  int last = -1;
  {
    unique_ptr<int, PD> p(PD::pointer(42), PD(&last));
    CHK(p.get().v == 42 && p && last == -1, "the deleter's pointer type is used");
    p.reset(PD::pointer(43));
    CHK(last == 42 && p.get().v == 43, "reset with the deleter's pointer type");
    CHK(p.release().v == 43 && !p, "release with the deleter's pointer type");
    p.reset(PD::pointer(44));
  }
  CHK(last == 44, "destruction with the deleter's pointer type");
}
extern "C" void d_convert() {
  {
    u64 x = ns_u64();
    Log l; D d[2];
    {
      unique_ptr<D, Del<B> > p(&d[0], Del<B>(&l, 1));
      unique_ptr<B, Del<B> > q(move(p));
      CHK(q.get() == &d[0] && p.get() == 0 && q.get_deleter().id == 1, "converting move construction");
      unique_ptr<D, Del<B> > r(&d[1], Del<B>(&l, 2));
      q = move(r);
      CHK(l.n == 1 && l.p[0] == static_cast<B *>(&d[0]) && l.id[0] == 1 && q.get() == &d[1] && q.get_deleter().id == 2 && r.get() == 0, "converting move assignment");
    }
    CHK(l.n == 2 && l.p[1] == static_cast<B *>(&d[1]) && l.id[1] == 2, "converted objects are released once");
    unique_ptr<Own> a(new Own(x));
    unique_ptr<const Own> b(move(a));
    CHK(b->get() == x && !a, "conversion to a const element");
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,3,5
extern "C" void d_array() {
  {
    u64 n = ns_size(1ul << 40), k = ns_size(1ul << 40);
    unique_ptr<Own[]> p(new Own[n]), e;
    CHK(!e && e.get() == 0 && p && &p[0] == p.get(), "array unique_ptr denotes its array");
    if (k < n) {
      u64 x = ns_u64();
      p[k] = Own(x);
      CHK(p[k].get() == x && &p[k] == p.get() + k, "p[k] is the k-th element");
    }
    unique_ptr<Own[]> q(move(p));
    CHK(!p && q, "array move construction");
    p.reset(new Own[1]);
    p = move(q);
    CHK(p && !q, "array move assignment");
    q.reset(new Own[2]);
    p.swap(q);
    swap(p, q);
    q.reset();
    q = nullptr;
    CHK(q.get() == 0 && q.release() == 0, "array reset");
  }
  ns_heap_clean();
}
extern "C" void d_array_deleter() {
  Log l; int a[4];
  {
    UA p(&a[0], Del<int>(&l, 1)), n(nullptr, Del<int>(&l, 9));
    CHK(&p[1] == &a[1] && !n, "array with a deleter");
    UA q(move(p));
    CHK(q.get() == a && !p && q.get_deleter().id == 1, "array move keeps the deleter");
    UA r(&a[1], Del<int>(&l, 2));
    r = move(q);
    CHK(l.n == 1 && l.p[0] == &a[1] && l.id[0] == 2 && r.get() == &a[0] && r.get_deleter().id == 1 && !q, "array move assignment releases with the old deleter");
    r.reset(&a[2]);
    CHK(l.n == 2 && l.p[1] == &a[0] && r.get() == &a[2], "array reset(q)");
    r.reset(nullptr);
    CHK(l.n == 3 && l.p[2] == &a[2] && !r, "array reset(nullptr)");
    r.reset(&a[3]);
    UA s(nullptr, Del<int>(&l, 4));
    s.swap(r);
    CHK(s.get() == &a[3] && s.get_deleter().id == 1 && r.get_deleter().id == 4 && !r, "array swap");
    unique_ptr<const int[], Del<const int> > c(&a[0], Del<const int>(&l, 6));
    CHK(c.release() == &a[0] && !c, "array release");
  }
  CHK(l.n == 4 && l.p[3] == &a[3] && l.id[3] == 1, "array destruction releases once");
}
extern "C" void d_compare() {
  Log l; int a[8];
  u64 i = ns_u64(), j = ns_u64();
  ns_assume(i < 8 && j < 8);
  {
    UP p(&a[i], Del<int>(&l, 1)), q(&a[j], Del<int>(&l, 1));
    CHK((p == q) == (i == j) && (p != q) == (i != j), "== and != compare the pointers");
    CHK((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "the order is the order of the pointers");
    CHK(!(p == nullptr) && !(nullptr == p) && p != nullptr && nullptr != p, "a non-empty unique_ptr is not nullptr");
    CHK(!(p < nullptr) && nullptr < p && p > nullptr && !(nullptr > p) && !(p <= nullptr) && nullptr <= p && p >= nullptr && !(nullptr >= p), "nullptr orders first");
    p.release();
    CHK(p == nullptr && nullptr == p && !(p != nullptr) && !(nullptr != p), "an empty unique_ptr is nullptr");
    CHK(!(p < nullptr) && !(nullptr < p) && !(p > nullptr) && !(nullptr > p) && p <= nullptr && nullptr <= p && p >= nullptr && nullptr >= p, "an empty unique_ptr ranks with nullptr");
    q.release();
    CHK(p == q && !(p != q) && !(p < q) && p <= q, "empty unique_ptrs are equal");
  }
}
extern "C" void d_hash() {
  Log l; int a;
  UP p(&a, Del<int>(&l, 1)), e(nullptr, Del<int>(&l, 1));
  nanostl::hash<UP> h;
  nanostl::hash<int *> hp;
  CHK(h(p) == hp(&a) && h(e) == hp(nullptr), "hash of a unique_ptr is the hash of its pointer");
}
// every history of six calls on two unique_ptrs: each object is released
// exactly once, by a deleter that held it
// @opt mode=small sizes=0
extern "C" void d_history() {
  Log l; int a[3];
  int owner[3] = {1, 2, 0}; // 1: p, 2: q, 0: caller, 3: released
  {
    UP p(&a[0], Del<int>(&l, 1)), q(&a[1], Del<int>(&l, 2));
    for (int s = 0; s < 3; s++) {
      int op = ns_i32() & 7;
      int ip = p ? (int)(p.get() - a) : -1, iq = q ? (int)(q.get() - a) : -1;
      if (op == 0) { p.reset(); if (ip >= 0) owner[ip] = 3; }
      else if (op == 1) { q = move(p); if (iq >= 0) owner[iq] = 3; if (ip >= 0) owner[ip] = 2; }
      else if (op == 2) { p = move(q); if (ip >= 0) owner[ip] = 3; if (iq >= 0) owner[iq] = 1; }
      else if (op == 3) { p.swap(q); if (ip >= 0) owner[ip] = 2; if (iq >= 0) owner[iq] = 1; }
      else if (op == 4) { p.release(); if (ip >= 0) owner[ip] = 0; }
      else if (op == 5 && owner[2] == 0) { p.reset(&a[2]); if (ip >= 0) owner[ip] = 3; owner[2] = 1; }
      else if (op == 6) { UP t(move(q)); if (iq >= 0) owner[iq] = 3; }
      else { UP t(move(p)); p = move(t); }
      for (int i = 0; i < 3; i++) {
        CHK(count(l, &a[i]) == (owner[i] == 3), "an object is released exactly when its owner lets it go");
        CHK((p.get() == &a[i]) == (owner[i] == 1) && (q.get() == &a[i]) == (owner[i] == 2), "each object has one owner");
      }
    }
  }
  for (int i = 0; i < 3; i++) CHK(count(l, &a[i]) == (owner[i] != 0), "at the end every owned object was released once");
}
