#include "nanosstream.h"
#include "ns.h"
typedef nanostl::stringstream SS;
typedef nanostl::string S;
namespace nanostl { template <class T> static T &&mv(T &x) { return static_cast<T &&>(x); } }
#define CHK ns_check
#define BIG (1ul << 40)

static void text(const S &s, const char *p, u64 n, const char *q, u64 m) {
  CHK(s.size() == n + m, "the stream holds as many characters as were inserted");
  for (u64 i = 0; i < n; i++) CHK(s[i] == p[i], "what was inserted first comes first");
  for (u64 i = 0; i < m; i++) CHK(s[n + i] == q[i], "what was inserted last comes last");
  CHK(s.c_str()[n + m] == '\0', "the text is terminated");
}
// @opt mode=small sizes=0,1,2,4 timeout=120
extern "C" void d_insert() {
  u64 n = ns_size(BIG), m = ns_size(BIG);
  const char *p = (const char *)ns_buf(n), *q = (const char *)ns_buf(m);
  {
    SS ss;
    CHK(ss.str().empty(), "a new stream is empty");
    S a(p, (S::size_type)n), b(q, (S::size_type)m);
    SS &r = ss << a;
    CHK(&r == &ss, "operator<< returns the stream");
    text(ss.str(), p, n, 0, 0);
    ss << b;
    text(ss.str(), p, n, q, m);
    text(a, p, n, 0, 0);
    text(b, q, m, 0, 0);
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,4 timeout=120
extern "C" void d_insert_own_text() {
  u64 n = ns_size(BIG);
  const char *p = (const char *)ns_buf(n);
  {
    SS ss;
    ss << S(p, (S::size_type)n);
    ss << ss.str();
    text(ss.str(), p, n, p, n);
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,4 timeout=120
extern "C" void d_clear() {
  u64 n = ns_size(BIG), m = ns_size(BIG);
  const char *p = (const char *)ns_buf(n), *q = (const char *)ns_buf(m);
  {
    SS ss;
    ss << S(p, (S::size_type)n);
    ss.clear();
    CHK(ss.str().empty() && ss.str().c_str()[0] == '\0', "clear empties the stream");
    ss << S(q, (S::size_type)m);
    text(ss.str(), q, m, 0, 0);
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,4 timeout=120
extern "C" void d_str_reference() {
  u64 n = ns_size(BIG), m = ns_size(BIG);
  const char *p = (const char *)ns_buf(n), *q = (const char *)ns_buf(m);
  {
    SS ss;
    ss << S(p, (S::size_type)n);
    ss.str() = S(q, (S::size_type)m);
    text(ss.str(), q, m, 0, 0);
    ss << S(p, (S::size_type)n);
    text(ss.str(), q, m, p, n);
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0,1,2,4 timeout=120
extern "C" void d_move_assign() {
  u64 n = ns_size(BIG), m = ns_size(BIG);
  const char *p = (const char *)ns_buf(n), *q = (const char *)ns_buf(m);
  {
    SS a;
    a << S(p, (S::size_type)n);
    {
      SS b;
      b << S(q, (S::size_type)m);
      SS &r = (a = nanostl::mv(b));
      CHK(&r == &a, "assignment returns its target");
      text(a.str(), q, m, 0, 0);
      CHK(b.str().size() == 0, "the source is left empty");
      b << S(p, (S::size_type)n);
      text(a.str(), q, m, 0, 0);
    }
    text(a.str(), q, m, 0, 0);
    a << S(p, (S::size_type)n);
    text(a.str(), q, m, p, n);
  }
  ns_heap_clean();
}
