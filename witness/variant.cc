#include "ns.h"
inline void *operator new(decltype(sizeof(0)), void *p) noexcept { return p; }
#include "nanovariant.h"
#include "own.h"
#define CHK ns_check
typedef nonstd::variant<Own, u64, Mov> V;
using nonstd::holds_alternative;
using nonstd::get_if;
static bool is(const V &v, u64 k, u64 x) {
  if (v.index() != k) return false;
  if (k == 0) return nonstd::get<Own>(v).get() == x;
  if (k == 1) return nonstd::get<u64>(v) == x;
  return nonstd::get<Mov>(v).get() == x;
}
// every state a variant can be in, reached by any of the ways to reach it
struct Any {
  V v;
  u64 k, x;
  Any() : k(0), x(0) {
    u64 y = ns_u64();
    switch (ns_u8()) {
      case 0: break;
      case 1: v = Own(y); x = y; break;
      case 2: v = y; k = 1; x = y; break;
      case 3: v = Mov(y); k = 2; x = y; break;
      case 4: v.emplace<Own>(y); x = y; break;
      case 5: v.emplace<1>(y); k = 1; x = y; break;
      case 6: v.emplace<Mov>(y); k = 2; x = y; break;
      case 7: { Mov m(y); v = m; k = 2; x = y; break; }
      case 8: v = y; v = Own(y); x = y; break;
      default: break;
    }
  }
};
// one state of each alternative, for the operations that take two variants
struct One {
  V v;
  u64 k, x;
  One() : k(0), x(ns_u64()) {
    switch (ns_u8()) {
      case 0: v.emplace<Own>(x); break;
      case 1: v.emplace<u64>(x); k = 1; break;
      default: v.emplace<Mov>(x); k = 2; break;
    }
  }
};
extern "C" void d_build() {
  Any a;
  CHK(is(a.v, a.k, a.x), "a variant holds the alternative and the value it was given");
  CHK(!a.v.valueless_by_exception(), "a variant always holds a value");
  CHK(holds_alternative<Own>(a.v) == (a.k == 0) && holds_alternative<u64>(a.v) == (a.k == 1) && holds_alternative<Mov>(a.v) == (a.k == 2), "holds_alternative names the held type");
}
extern "C" void d_direct() {
  u64 x = ns_u64();
  { V v; CHK(is(v, 0, 0), "a default variant holds a default first alternative"); }
  { Own o(x); V v(o); CHK(is(v, 0, x) && o.get() == x, "variant(T0 const&) holds a copy"); }
  { V v(x); CHK(is(v, 1, x), "variant(T1) holds the value"); }
  { Mov m(x); V v(m); CHK(is(v, 2, x) && m.get() == x, "variant(T2 const&) holds a copy"); }
  { Mov m(x); u64 *p = m.p; V v(nanostl::move(m)); CHK(is(v, 2, x) && nonstd::get<2>(v).p == p && m.p == 0, "variant(T2&&) moves"); }
  { V v(nonstd::in_place<Mov>, x); CHK(is(v, 2, x), "in-place construction by type"); }
  { V v(nonstd::in_place<0>, x); CHK(is(v, 0, x), "in-place construction by index"); }
}
extern "C" void d_access() {
  Any a;
  const V &c = a.v;
  CHK((get_if<Own>(&a.v) != 0) == (a.k == 0) && (get_if<u64>(&a.v) != 0) == (a.k == 1) && (get_if<Mov>(&a.v) != 0) == (a.k == 2), "get_if<T> is null unless T is held");
  CHK((get_if<0>(&c) != 0) == (a.k == 0) && (get_if<1>(&c) != 0) == (a.k == 1) && (get_if<2>(&c) != 0) == (a.k == 2), "get_if<K> is null unless K is held");
  if (a.k == 0) CHK(&nonstd::get<0>(a.v) == get_if<0>(&a.v) && get_if<Own>(&c) == &nonstd::get<Own>(c) && a.v.get<0>().get() == a.x, "accessors denote the held object");
  if (a.k == 1) CHK(&nonstd::get<1>(a.v) == get_if<1>(&a.v) && get_if<u64>(&c) == &nonstd::get<u64>(c) && a.v.get<u64>() == a.x, "accessors denote the held object");
  if (a.k == 2) CHK(&nonstd::get<2>(a.v) == get_if<2>(&a.v) && get_if<Mov>(&c) == &nonstd::get<Mov>(c) && a.v.get<2>().get() == a.x, "accessors denote the held object");
}
extern "C" void d_move_out() {
  u64 x = ns_u64();
  V v((Mov(x)));
  u64 *p = nonstd::get<Mov>(v).p;
  Mov m(nonstd::get<Mov>(nanostl::move(v)));
  CHK(m.p == p && v.index() == 2, "get of an rvalue moves the held object out");
}
extern "C" void d_copy() {
  Any a;
  V b(a.v);
  CHK(is(b, a.k, a.x) && is(a.v, a.k, a.x), "a copy holds an equal value and leaves the source as it was");
  if (a.k == 0) CHK(nonstd::get<0>(b).p != nonstd::get<0>(a.v).p, "a copy is independent");
  if (a.k == 2) CHK(nonstd::get<2>(b).p != nonstd::get<2>(a.v).p, "a copy is independent");
}
extern "C" void d_move() {
  Any a;
  u64 *p = a.k == 2 ? nonstd::get<2>(a.v).p : 0;
  V b(nanostl::move(a.v));
  CHK(is(b, a.k, a.x), "a moved-to variant holds the value");
  CHK(a.v.index() == a.k, "a moved-from variant keeps its alternative");
  if (a.k == 2) CHK(nonstd::get<2>(b).p == p && nonstd::get<2>(a.v).p == 0, "moving moves the held object");
}
extern "C" void d_assign() {
  One a, b;
  V &r = (a.v = b.v);
  CHK(&r == &a.v, "assignment returns its target");
  CHK(is(a.v, b.k, b.x) && is(b.v, b.k, b.x), "assignment copies alternative and value");
}
extern "C" void d_move_assign() {
  One a, b;
  u64 *p = b.k == 2 ? nonstd::get<2>(b.v).p : 0;
  a.v = nanostl::move(b.v);
  CHK(is(a.v, b.k, b.x), "move assignment takes alternative and value");
  if (b.k == 2) CHK(nonstd::get<2>(a.v).p == p, "move assignment moves the held object");
}
extern "C" void d_self() {
  Any a;
  V &s = a.v;
  a.v = s;
  CHK(is(a.v, a.k, a.x), "self-assignment changes nothing");
}
extern "C" void d_assign_value() {
  One a;
  u64 x = ns_u64();
  switch (ns_u8()) {
    case 0: { Own o(x); a.v = o; CHK(is(a.v, 0, x) && o.get() == x, "assigning a value holds a copy of it"); break; }
    case 1: a.v = Own(x); CHK(is(a.v, 0, x), "assigning an rvalue holds it"); break;
    case 2: a.v = x; CHK(is(a.v, 1, x), "assigning a plain value holds it"); break;
    case 3: { Mov m(x); a.v = m; CHK(is(a.v, 2, x) && m.get() == x, "assigning a value holds a copy of it"); break; }
    default: { Mov m(x); u64 *p = m.p; a.v = nanostl::move(m); CHK(is(a.v, 2, x) && nonstd::get<2>(a.v).p == p, "assigning an rvalue moves it"); }
  }
}
extern "C" void d_emplace() {
  One a;
  u64 x = ns_u64();
  switch (ns_u8()) {
    case 0: { Own &r = a.v.emplace<0>(x); CHK(is(a.v, 0, x) && &r == &nonstd::get<0>(a.v), "emplace holds and returns the new value"); break; }
    case 1: { u64 &r = a.v.emplace<u64>(x); CHK(is(a.v, 1, x) && &r == &nonstd::get<1>(a.v), "emplace holds and returns the new value"); break; }
    default: { Mov &r = a.v.emplace<2>(x); CHK(is(a.v, 2, x) && &r == &nonstd::get<2>(a.v), "emplace holds and returns the new value"); }
  }
}
extern "C" void d_swap() {
  One a, b;
  if (ns_bool()) a.v.swap(b.v); else swap(a.v, b.v);
  CHK(is(a.v, b.k, b.x) && is(b.v, a.k, a.x), "swap exchanges alternatives and values");
}
struct Vis {
  u64 operator()(const Own &o) const { return o.get(); }
  u64 operator()(u64 x) const { return x; }
  u64 operator()(const Mov &o) const { return o.get(); }
};
struct Kind {
  u64 operator()(const Own &) const { return 0; }
  u64 operator()(u64) const { return 1; }
  u64 operator()(const Mov &) const { return 2; }
};
extern "C" void d_visit() {
  Any a;
  CHK(nonstd::visit(Vis(), a.v) == a.x && nonstd::visit(Kind(), a.v) == a.k, "visit calls the visitor with the held alternative");
}
struct Two {
  template <class A, class B> u64 operator()(const A &a, const B &b) const { return Kind()(a) * 3 + Kind()(b); }
};
extern "C" void d_visit2() {
  One a, b;
  CHK(nonstd::visit(Two(), a.v, b.v) == a.k * 3 + b.k, "visit of two variants calls the visitor with both alternatives in order");
}
typedef nonstd::variant<unsigned, u64> P;
static P pick(u64 k, unsigned x, u64 y) { if (k == 0) return P(x); return P(y); }
extern "C" void d_compare() {
  u64 ka = ns_size(1), kb = ns_size(1), ya = ns_u64(), yb = ns_u64();
  unsigned xa = ns_u32(), xb = ns_u32();
  P a(pick(ka, xa, ya)), b(pick(kb, xb, yb));
  bool eq = ka == kb && (ka == 0 ? xa == xb : ya == yb);
  bool lt = ka < kb || (ka == kb && (ka == 0 ? xa < xb : ya < yb));
  CHK((a == b) == eq && (a != b) == !eq, "equal exactly when alternative and value are");
  CHK((a < b) == lt && (a >= b) == !lt, "ordered by alternative, then by value");
  CHK((a <= b) == (lt || eq) && (a > b) == !(lt || eq), "<= and > follow from < and ==");
  if (eq) CHK(nanostl::hash<P>()(a) == nanostl::hash<P>()(b), "equal variants have equal hashes");
}
// the alternatives beyond the third, and storage for the largest
struct Big { u64 a[5]; };
static bool operator==(const Big &x, const Big &y) { return x.a[0] == y.a[0]; }
static bool operator<(const Big &x, const Big &y) { return x.a[0] < y.a[0]; }
static bool operator==(const Mov &x, const Mov &y) { return x.get() == y.get(); }
static bool operator<(const Mov &x, const Mov &y) { return x.get() < y.get(); }
typedef nonstd::variant<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, u64, float, double, bool, char *, void *, Big, Mov> W;
template <nanostl::size_t K, class T> static void alt(W &w, T x) {
  w = x;
  CHK(w.index() == K && *get_if<K>(&w) == x, "assigning selects the alternative of exactly that type");
  W c(w);
  CHK(c.index() == K && *get_if<K>(&c) == x, "copy of each alternative");
  W d(nanostl::move(c));
  CHK(d.index() == K && *get_if<K>(&d) == x, "move of each alternative");
  W e, f(Mov(3));
  e = w;
  f = w;
  CHK(e.index() == K && *get_if<K>(&e) == x && f.index() == K && *get_if<K>(&f) == x, "assignment of each alternative");
  f.swap(e);
  CHK(e.index() == K && *get_if<K>(&e) == x, "swap of equal alternatives");
  CHK(w == e && !(w != e) && !(w < e), "comparison of each alternative");
}
extern "C" void d_alts() {
  W w;
  u64 x = ns_u64();
  switch (ns_u8()) {
    case 0: alt<0>(w, (char)x); break;
    case 1: alt<1>(w, (signed char)x); break;
    case 2: alt<2>(w, (unsigned char)x); break;
    case 3: alt<3>(w, (short)x); break;
    case 4: alt<4>(w, (unsigned short)x); break;
    case 5: alt<5>(w, (int)x); break;
    case 6: alt<6>(w, (unsigned)x); break;
    case 7: alt<7>(w, (long)x); break;
    case 8: alt<8>(w, x); break;
    case 11: alt<11>(w, (x & 1) != 0); break;
    case 12: alt<12>(w, (char *)&x); break;
    case 13: alt<13>(w, (void *)&x); break;
    case 15: w = Mov(x); CHK(w.index() == 15 && get_if<15>(&w)->get() == x, "the last alternative"); break;
    default: { Big b; for (int i = 0; i < 5; i++) b.a[i] = x + i; w = b; W c(w); CHK(w.index() == 14 && get_if<14>(&w)->a[4] == x + 4 && get_if<14>(&c)->a[0] == x, "storage holds the largest alternative"); }
  }
}
// sixteen owning alternatives: each must be built, copied, moved, assigned,
// swapped, compared, visited and destroyed as the type it is
template <int K> struct Tag : Mov {
  Tag() {}
  Tag(u64 v) : Mov(v) {}
};
template <int K> static bool operator==(const Tag<K> &x, const Tag<K> &y) { return x.get() == y.get(); }
template <int K> static bool operator<(const Tag<K> &x, const Tag<K> &y) { return x.get() < y.get(); }
typedef nonstd::variant<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>, Tag<6>, Tag<7>, Tag<8>, Tag<9>, Tag<10>, Tag<11>, Tag<12>, Tag<13>, Tag<14>, Tag<15> > X;
namespace nanostl {
template <int K> struct hash<Tag<K> > {
  nanostl::size_t operator()(const Tag<K> &t) const { return K + (t.p ? 1 : 2); }
};
}
struct Which {
  template <int K> int operator()(const Tag<K> &) const { return K; }
};
template <int K> static bool hold(const X &w, u64 x) {
  const Tag<K> *p = get_if<Tag<K> >(&w);
  return w.index() == K && p && p->p && p->get() == x && get_if<K>(&w) == p && &nonstd::get<Tag<K> >(w) == p && holds_alternative<Tag<K> >(w);
}
template <int K> static void every() {
  u64 x = ns_u64(), y = ns_u64();
  const int L = K == 15 ? 0 : K + 1;
  Tag<K> t(x);
  X a(t), b(Tag<K>(y + 0));
  CHK(hold<K>(a, x) && hold<K>(b, y) && t.get() == x, "built from a value of each alternative");
  CHK((a == b) == (x == y) && (a < b) == (x < y), "each alternative is compared by value");
  X c(a), d(nanostl::move(c));
  CHK(hold<K>(d, x), "copied and moved");
  c = a;
  d = b;
  CHK(hold<K>(c, x) && hold<K>(d, y) && hold<K>(a, x) && hold<K>(b, y), "copy assignment within an alternative");
  c = nanostl::move(d);
  CHK(hold<K>(c, y), "move assignment within an alternative");
  c.swap(a);
  CHK(hold<K>(c, x) && hold<K>(a, y), "swap within an alternative");
  X e(Tag<L>(y + 1));
  CHK(!get_if<Tag<K> >(&e) && e != a, "another alternative");
  e.swap(c);
  CHK(hold<K>(e, x) && hold<L>(c, y + 1), "swap between alternatives");
  c = e;
  CHK(hold<K>(c, x), "copy assignment between alternatives");
  X f;
  f = nanostl::move(c);
  CHK(hold<K>(f, x), "move assignment between alternatives");
  f.template emplace<K>(y);
  CHK(hold<K>(f, y), "emplace by position");
  f.template emplace<Tag<K> >(x);
  CHK(hold<K>(f, x), "emplace by type");
  f = t;
  CHK(hold<K>(f, x), "assignment of a value");
  f = Tag<L>(x);
  CHK(hold<L>(f, x), "assignment of a value of another alternative");
  CHK(nanostl::hash<X>()(a) == nanostl::hash<X>()(b), "equal variants have equal hashes");
  CHK(nonstd::visit(Which(), a) == K, "visit calls with the held alternative");
}
extern "C" void d_every() {
  switch (ns_u8()) {
    case 0: every<0>(); break;
    case 1: every<1>(); break;
    case 2: every<2>(); break;
    case 3: every<3>(); break;
    case 4: every<4>(); break;
    case 5: every<5>(); break;
    case 6: every<6>(); break;
    case 7: every<7>(); break;
    case 8: every<8>(); break;
    case 9: every<9>(); break;
    case 10: every<10>(); break;
    case 11: every<11>(); break;
    case 12: every<12>(); break;
    case 13: every<13>(); break;
    case 14: every<14>(); break;
    default: every<15>(); break;
  }
}
