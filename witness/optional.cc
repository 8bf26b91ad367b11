#include "ns.h"
inline void *operator new(decltype(sizeof(0)), void *p) noexcept { return p; }
#include "nanooptional.h"
#include "own.h"
#define CHK ns_check
using nonstd::optional;
using nonstd::nullopt;
template <class T> static bool is(const optional<T> &o, bool h, u64 v) { return o.has_value() == h && (!h || (*o).get() == v); }
// every state an optional can be in: built by any of the ways to build one
template <class T> struct Any {
  optional<T> o;
  bool h;
  u64 v;
  Any() : h(false), v(ns_u64()) {
    switch (ns_u8()) {
      case 0: break;
      case 1: o = T(v); h = true; break;
      case 2: o.emplace(v); h = true; break;
      case 3: o.emplace(v); o.reset(); break;
      case 4: o = T(v + 1); o = T(v); h = true; break;
      case 5: o = T(v); o = nullopt; break;
      default: break;
    }
  }
};
template <class T> static void build() {
  Any<T> a;
  CHK(is(a.o, a.h, a.v), "an optional holds what it was given, or nothing");
  CHK((bool)a.o == a.h, "operator bool is has_value()");
  CHK((a.o == nullopt) == !a.h && (nullopt != a.o) == a.h, "comparison with nullopt");
  if (a.h) {
    CHK(a.o->get() == a.v && a.o.value().get() == a.v, "->, * and value() denote the held value");
    CHK(&*a.o == &a.o.value() && &*a.o == a.o.operator->(), "all accessors denote the same object");
  }
}
extern "C" void d_build_own() { build<Own>(); }
extern "C" void d_build_mov() { build<Mov>(); }
extern "C" void d_direct() {
  u64 v = ns_u64();
  { optional<Own> e; CHK(!e.has_value(), "a new optional is empty"); }
  { optional<Own> e(nullopt); CHK(!e.has_value(), "optional(nullopt) is empty"); }
  { Own x(v); optional<Own> e(x); CHK(is(e, true, v) && x.get() == v, "optional(value) holds a copy"); }
  { optional<Mov> e(nonstd::in_place, v); CHK(is(e, true, v), "in-place construction passes its arguments on"); }
  { optional<Mov> e(nonstd::make_optional(Mov(v))); CHK(is(e, true, v), "make_optional holds the value"); }
}
template <class T> static void copy() {
  Any<T> a;
  optional<T> b(a.o);
  CHK(is(b, a.h, a.v), "a copy holds an equal value");
  CHK(is(a.o, a.h, a.v), "copying leaves the source as it was");
  if (a.h) CHK((const void *)&*a.o != (const void *)&*b && a.o->p != b->p, "a copy is independent");
}
extern "C" void d_copy_own() { copy<Own>(); }
extern "C" void d_copy_mov() { copy<Mov>(); }
extern "C" void d_move() {
  Any<Mov> a;
  u64 *p = a.h ? a.o->p : 0;
  optional<Mov> b(nanostl::move(a.o));
  CHK(is(b, a.h, a.v), "a moved-to optional holds the value");
  CHK(a.o.has_value() == a.h, "a moved-from optional stays engaged");
  if (a.h) CHK(b->p == p && a.o->p == 0, "moving moves the held object");
}
template <class T> static void assign() {
  Any<T> a, b;
  optional<T> &r = (a.o = b.o);
  CHK(&r == &a.o, "assignment returns its target");
  CHK(is(a.o, b.h, b.v) && is(b.o, b.h, b.v), "assignment copies the state of the source");
}
extern "C" void d_assign_own() { assign<Own>(); }
extern "C" void d_assign_mov() { assign<Mov>(); }
template <class T> static void self() {
  Any<T> a;
  optional<T> &s = a.o;
  a.o = s;
  CHK(is(a.o, a.h, a.v), "self-assignment changes nothing");
}
extern "C" void d_self_own() { self<Own>(); }
extern "C" void d_self_mov() { self<Mov>(); }
extern "C" void d_move_assign() {
  Any<Mov> a, b;
  u64 *p = b.h ? b.o->p : 0;
  a.o = nanostl::move(b.o);
  CHK(is(a.o, b.h, b.v), "move assignment takes the state of the source");
  if (b.h) CHK(a.o->p == p && b.o.has_value(), "move assignment moves the held object");
}
extern "C" void d_assign_value() {
  Any<Own> a;
  u64 v = ns_u64();
  Own x(v);
  a.o = x;
  CHK(is(a.o, true, v) && x.get() == v, "assigning a value holds a copy of it");
  a.o = nullopt;
  CHK(!a.o.has_value(), "assigning nullopt empties");
}
extern "C" void d_emplace() {
  Any<Own> a;
  u64 v = ns_u64();
  Own &r = a.o.emplace(v);
  CHK(is(a.o, true, v) && &r == &*a.o, "emplace replaces the held value and returns it");
}
extern "C" void d_reset() {
  Any<Own> a;
  a.o.reset();
  CHK(!a.o.has_value(), "reset empties");
  a.o.reset();
  CHK(!a.o.has_value(), "reset of an empty optional does nothing");
}
template <class T> static void swap_() {
  Any<T> a, b;
  if (ns_bool()) a.o.swap(b.o); else swap(a.o, b.o);
  CHK(is(a.o, b.h, b.v) && is(b.o, a.h, a.v), "swap exchanges the states");
}
extern "C" void d_swap_own() { swap_<Own>(); }
extern "C" void d_swap_mov() { swap_<Mov>(); }
extern "C" void d_value_or() {
  Any<Own> a;
  u64 d = ns_u64();
  CHK(a.o.value_or(d).get() == (a.h ? a.v : d), "value_or is the value or the default");
  CHK(is(a.o, a.h, a.v), "value_or changes nothing");
  Own t(nanostl::move(a.o).value_or(d));
  CHK(t.get() == (a.h ? a.v : d), "value_or of an rvalue is the value or the default");
}
// the orders on plain values
extern "C" void d_compare() {
  bool hx = ns_bool(), hy = ns_bool();
  u64 x = ns_u64(), y = ns_u64();
  optional<u64> a, b;
  if (hx) a = x;
  if (hy) b = y;
  bool lt = hy && (!hx || x < y), eq = hx == hy && (!hx || x == y);
  CHK((a == b) == eq && (a != b) == !eq, "optionals are equal when both are empty or both hold equal values");
  CHK((a < b) == lt && (a >= b) == !lt, "an empty optional precedes any value");
  CHK((a <= b) == (lt || eq) && (a > b) == !(lt || eq), "<= and > follow from < and ==");
}
extern "C" void d_compare_value() {
  bool h = ns_bool();
  u64 x = ns_u64(), y = ns_u64();
  optional<u64> a;
  if (h) a = x;
  CHK((a == y) == (h && x == y) && (y == a) == (h && x == y), "optional == value");
  CHK((a != y) == !(h && x == y) && (y != a) == !(h && x == y), "optional != value");
  CHK((a < y) == (!h || x < y) && (y > a) == (!h || x < y), "optional < value");
  CHK((a <= y) == (!h || x <= y) && (y >= a) == (!h || x <= y), "optional <= value");
  CHK((a > y) == (h && x > y) && (y < a) == (h && x > y), "optional > value");
  CHK((a >= y) == (h && x >= y) && (y <= a) == (h && x >= y), "optional >= value");
}
extern "C" void d_compare_null() {
  bool h = ns_bool();
  optional<u64> a;
  if (h) a = ns_u64();
  CHK((a == nullopt) == !h && (nullopt == a) == !h && (a != nullopt) == h && (nullopt != a) == h, "== nullopt exactly when empty");
  CHK(!(a < nullopt) && (nullopt < a) == h, "nothing precedes nullopt");
  CHK((a <= nullopt) == !h && (nullopt <= a) && (a > nullopt) == h && !(nullopt > a) && (a >= nullopt) && (nullopt >= a) == !h, "the other orders with nullopt");
}
extern "C" void d_convert() {
  bool h = ns_bool();
  unsigned x = ns_u32();
  optional<unsigned> a;
  if (h) a = x;
  optional<u64> b(a);
  CHK(b.has_value() == h && (!h || *b == x), "a converting copy holds the converted value");
  optional<u64> c;
  if (ns_bool()) c = ns_u64();
  c = a;
  CHK(c.has_value() == h && (!h || *c == x), "a converting assignment holds the converted value");
}
extern "C" void d_hash() {
  u64 x = ns_u64(), y = ns_u64();
  optional<unsigned long> a, b;
  if (ns_bool()) a = x;
  if (ns_bool()) b = y;
  if (a == b) CHK(nanostl::hash<optional<unsigned long> >()(a) == nanostl::hash<optional<unsigned long> >()(b), "equal optionals have equal hashes");
}
