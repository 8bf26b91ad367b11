// an element type that owns a heap cell: lifetime mistakes of a container
// become leaks, double frees or reads of freed cells
#ifndef NS_OWN_H_
#define NS_OWN_H_
#include "ns.h"
struct Own {
  u64 *p;
  Own() : p(new u64(0)) {}
  Own(u64 v) : p(new u64(v)) {}
  Own(const Own &o) : p(new u64(*o.p)) {}
  Own &operator=(const Own &o) { *p = *o.p; return *this; }
  ~Own() { delete p; }
  u64 get() const { return *p; }
};
// the same with move support (C++11)
struct Mov {
  u64 *p;
  Mov() : p(new u64(0)) {}
  Mov(u64 v) : p(new u64(v)) {}
  Mov(const Mov &o) : p(new u64(*o.p)) {}
  Mov(Mov &&o) noexcept : p(o.p) { o.p = 0; }
  Mov &operator=(const Mov &o) { if (this != &o) { u64 *q = new u64(*o.p); delete p; p = q; } return *this; }
  Mov &operator=(Mov &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; }
  ~Mov() { delete p; }
  u64 get() const { return *p; }
};
#endif
