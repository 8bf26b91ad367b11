#include "ns.h"
#include "nanotuple.h"
#include "own.h"
#define CHK ns_check
using tao::tuple;
using tao::get;
typedef tuple<Own, u64, Mov> T3;
static bool is(const T3 &t, u64 a, u64 b, u64 c) { return get<0>(t).get() == a && get<1>(t) == b && get<2>(t).get() == c; }
struct Vals { u64 a, b, c; Vals() : a(ns_u64()), b(ns_u64()), c(ns_u64()) {} };
extern "C" void d_build() {
  Vals v;
  T3 d;
  CHK(is(d, 0, 0, 0), "a default tuple holds value-initialised elements");
  Own o(v.a); Mov m(v.c);
  T3 t(o, v.b, m);
  CHK(is(t, v.a, v.b, v.c), "element I of a tuple is the I-th argument");
  CHK(o.get() == v.a && m.get() == v.c, "lvalue arguments are copied");
  u64 *p = m.p;
  T3 n(Own(v.a), v.b + 0, nanostl::move(m));
  CHK(is(n, v.a, v.b, v.c) && get<2>(n).p == p && m.p == 0, "rvalue arguments are moved");
}
extern "C" void d_get() {
  Vals v;
  T3 t(Own(v.a), v.b + 0, Mov(v.c));
  const T3 &c = t;
  CHK(&get<Own>(t) == &get<0>(t) && &get<u64>(c) == &get<1>(t) && &get<Mov>(c) == &get<2>(c), "get<T> and get<I> denote the same element");
  CHK((const void *)&get<0>(t) != (const void *)&get<2>(t), "elements are distinct objects");
  get<1>(t) = v.a;
  get<0>(t) = Own(v.b);
  CHK(is(c, v.b, v.a, v.c), "writing one element leaves the others");
  u64 *p = get<2>(t).p;
  Mov m(get<2>(nanostl::move(t)));
  CHK(m.p == p, "get of an rvalue tuple moves the element out");
  Mov k(get<2>(nanostl::move(c)).p ? 1 : 2);
  CHK(k.get() == 2, "get of a const rvalue tuple denotes the element");
}
extern "C" void d_copy() {
  Vals v;
  T3 t(Own(v.a), v.b + 0, Mov(v.c));
  T3 u(static_cast<const T3 &>(t));
  CHK(is(u, v.a, v.b, v.c) && is(t, v.a, v.b, v.c), "a copy holds equal elements");
  CHK(get<0>(u).p != get<0>(t).p && get<2>(u).p != get<2>(t).p, "a copy is independent");
  T3 w(t);
  CHK(is(w, v.a, v.b, v.c) && is(t, v.a, v.b, v.c), "copying a non-const tuple copies");
}
extern "C" void d_move() {
  Vals v;
  T3 t(Own(v.a), v.b + 0, Mov(v.c));
  u64 *p = get<2>(t).p;
  T3 u(nanostl::move(t));
  CHK(is(u, v.a, v.b, v.c) && get<2>(u).p == p, "a moved-to tuple holds the moved elements");
  T3 w;
  w = nanostl::move(u);
  CHK(is(w, v.a, v.b, v.c) && get<2>(w).p == p, "move assignment moves the elements");
}
extern "C" void d_assign() {
  Vals v, x;
  T3 t(Own(v.a), v.b + 0, Mov(v.c)), u(Own(x.a), x.b + 0, Mov(x.c));
  T3 &r = ns_bool() ? (t = u) : (t = static_cast<const T3 &>(u));
  CHK(&r == &t && is(t, x.a, x.b, x.c) && is(u, x.a, x.b, x.c), "assignment copies every element");
  t = static_cast<const T3 &>(t);
  CHK(is(t, x.a, x.b, x.c), "self-assignment changes nothing");
}
extern "C" void d_swap() {
  Vals v, x;
  T3 t(Own(v.a), v.b + 0, Mov(v.c)), u(Own(x.a), x.b + 0, Mov(x.c));
  if (ns_bool()) t.swap(u); else swap(t, u);
  CHK(is(t, x.a, x.b, x.c) && is(u, v.a, v.b, v.c), "swap exchanges every element");
}
typedef tuple<unsigned, u64, unsigned char> P;
extern "C" void d_compare() {
  unsigned a = ns_u32(), x = ns_u32();
  u64 b = ns_u64(), y = ns_u64();
  unsigned char c = ns_u8(), z = ns_u8();
  P p(a, b, c), q(x, y, z);
  bool eq = a == x && b == y && c == z, lt = a < x || (a == x && (b < y || (b == y && c < z)));
  CHK((p == q) == eq && (p != q) == !eq, "equal exactly when every element is");
  CHK((p < q) == lt && (p >= q) == !lt, "lexicographic order");
  CHK((p <= q) == (lt || eq) && (p > q) == !(lt || eq), "<= and > follow from < and ==");
}
extern "C" void d_tie() {
  Vals v;
  u64 a = 0, b = 0, c = 0;
  tao::tie(a, b, c) = tao::make_tuple(v.a, v.b, v.c);
  CHK(a == v.a && b == v.b && c == v.c, "assigning to tie() assigns each variable");
  CHK(&get<0>(tao::tie(a, b)) == &a && &get<1>(tao::tie(a, b)) == &b, "tie() refers to its arguments");
}
extern "C" void d_make() {
  Vals v;
  tuple<u64, u64, u64> t = tao::make_tuple(v.a, v.b, v.c);
  CHK(get<0>(t) == v.a && get<1>(t) == v.b && get<2>(t) == v.c, "make_tuple holds its arguments");
  v.a++;
  CHK(get<0>(t) == v.a - 1, "make_tuple copies");
  Own o(v.a);
  CHK(&get<0>(tao::forward_as_tuple(o, v.b)) == &o && &get<1>(tao::forward_as_tuple(o, v.b)) == &v.b, "forward_as_tuple refers to its arguments");
}
extern "C" void d_cat() {
  Vals v, x;
  tuple<u64, unsigned char> p(v.a, (unsigned char)v.b);
  tuple<> e;
  tuple<u64> q(x.a);
  tuple<u64, Mov> r(v.c, Mov(x.b));
  tuple<u64, unsigned char, u64, u64, Mov> t(tao::tuple_cat(p, e, q, nanostl::move(r)));
  CHK(get<0>(t) == v.a && get<1>(t) == (unsigned char)v.b && get<2>(t) == x.a && get<3>(t) == v.c && get<4>(t).get() == x.b, "tuple_cat holds the elements of its arguments in order");
}
struct E {}; struct F { u64 x; };
extern "C" void d_empty() {
  u64 x = ns_u64();
  F f; f.x = x;
  tuple<E, F, E, u64> t(E(), f, E(), x + 1);
  CHK(get<1>(t).x == x && get<3>(t) == x + 1, "empty elements do not disturb the others");
  tuple<E, F, E, u64> s(t);
  get<3>(s) = x;
  get<0>(s) = E();
  get<2>(s) = E();
  CHK(get<1>(s).x == x && get<3>(s) == x && get<3>(t) == x + 1, "empty elements do not disturb the others");
  s.swap(t);
  CHK(get<1>(s).x == x && get<3>(s) == x + 1 && get<3>(t) == x, "swap with empty elements");
}
extern "C" void d_convert() {
  unsigned a = ns_u32(), b = ns_u32();
  tuple<unsigned, unsigned> p(a, b);
  tuple<u64, u64> t;
  t = p;
  CHK(get<0>(t) == a && get<1>(t) == b, "converting assignment converts every element");
}
extern "C" void d_convert_ctor() {
  unsigned a = ns_u32(), b = ns_u32();
  tuple<unsigned, unsigned> p(a, b);
  tuple<u64, u64> t(p);
  CHK(get<0>(t) == a && get<1>(t) == b, "converting construction converts every element");
  tuple<Mov, u64> m(tao::tuple<Mov, unsigned>(Mov(a), b + 0));
  CHK(get<0>(m).get() == a && get<1>(m) == b, "converting construction from an rvalue moves");
  tuple<u64> s(static_cast<const tuple<unsigned> &>(tuple<unsigned>(a)));
  CHK(get<0>(s) == a, "converting construction of a single element");
  tuple<tuple<u64>> n(tuple<u64>(a + 0));
  CHK(get<0>(get<0>(n)) == a, "a tuple can hold a tuple");
}
static_assert(tao::tuple_size<T3>::value == 3 && tao::tuple_size<const tuple<> >::value == 0, "tuple_size");
static_assert(__is_same(tao::tuple_element<0, T3>::type, Own) && __is_same(tao::tuple_element<2, const T3>::type, Mov), "tuple_element");
static_assert(__is_same(decltype(tao::make_tuple(1, 2u, 'c')), tuple<int, unsigned, char>), "make_tuple decays");
// elements built with an allocator: leading, trailing and not at all
#include "nanoallocator.h"
struct Al { u64 id; Al(u64 i) : id(i) {} };
struct Lead { u64 x, al; Lead() : x(0), al(0) {} Lead(nanostl::allocator_arg_t, const Al &a) : x(0), al(a.id) {} Lead(nanostl::allocator_arg_t, const Al &a, u64 v) : x(v), al(a.id) {} Lead(nanostl::allocator_arg_t, const Al &a, const Lead &o) : x(o.x), al(a.id) {} };
struct Trail { u64 x, al; Trail() : x(0), al(0) {} Trail(const Al &a) : x(0), al(a.id) {} Trail(u64 v) : x(v), al(0) {} Trail(u64 v, const Al &a) : x(v), al(a.id) {} Trail(const Trail &o, const Al &a) : x(o.x), al(a.id) {} };
namespace nanostl {
template <> struct uses_allocator<Lead, Al> : true_type {};
template <> struct uses_allocator<Trail, Al> : true_type {};
}
extern "C" void d_alloc() {
  u64 id = ns_u64(), x = ns_u64(), y = ns_u64();
  Al al(id);
  tuple<Trail, u64> t(nanostl::allocator_arg_t(), al, x, y);
  CHK(get<0>(t).x == x && get<0>(t).al == id && get<1>(t) == y, "allocator construction passes values and the allocator on");
  tuple<Lead, u64, Trail> d(nanostl::allocator_arg_t(), al);
  CHK(get<0>(d).x == 0 && get<0>(d).al == id && get<1>(d) == 0 && get<2>(d).al == id, "allocator default construction");
  tuple<Trail, u64> c(nanostl::allocator_arg_t(), Al(id + 1), static_cast<const tuple<Trail, u64> &>(t));
  CHK(get<0>(c).x == x && get<0>(c).al == id + 1 && get<1>(c) == y, "allocator copy construction");
}
