#define NANOSTL_IMPLEMENTATION
#include "nanostring.h"
#include "ns.h"
#define CHK ns_check
using namespace nanostl;
// [-]d[.ddd]E[-]x : the digits are exactly the mantissa, the exponent is that
// of the first digit
template <class V, class U, int MAXD> static void chars(V v, bool sign, const char *p, int n, int cap) {
  CHK(n >= 1 && n <= cap, "the text fits its buffer");
  int i = 0;
  if (sign) { CHK(p[0] == '-', "a negative number starts with a minus sign"); i = 1; }
  CHK(p[i] >= '0' && p[i] <= '9', "the first digit is a digit");
  U acc = (U)(p[i] - '0');
  i++;
  int frac = 0;
  if (p[i] == '.') {
    i++;
    while (p[i] != 'E') {
      CHK(frac < MAXD, "at most MAXD digits");
      CHK(p[i] >= '0' && p[i] <= '9', "the fraction consists of digits");
      acc = acc * 10 + (U)(p[i] - '0');
      frac++;
      i++;
    }
    CHK(frac > 0, "a point is followed by a digit");
  }
  CHK(acc == v.mantissa, "the digits are those of the mantissa");
  CHK(p[i] == 'E', "an exponent follows");
  i++;
  int neg = p[i] == '-';
  i += neg;
  CHK(i < n && n - i <= 3, "the exponent has one to three digits");
  CHK(n - i == 1 || p[i] != '0', "the exponent has no leading zero");
  int e = 0;
  for (; i < n; i++) { CHK(p[i] >= '0' && p[i] <= '9', "the exponent consists of digits"); e = e * 10 + (p[i] - '0'); }
  CHK((neg ? -e : e) == v.exponent + frac, "the exponent is that of the leading digit");
  if (neg) CHK(e != 0, "no negative zero exponent");
}
// @opt mode=small sizes=0 iters=64 timeout=300
extern "C" void d_chars_float() {
  ryu::floating_decimal_32 v;
  v.mantissa = ns_u32(); v.exponent = ns_i32();
  ns_assume(v.mantissa > 0 && v.mantissa < 1000000000u && v.exponent >= -53 && v.exponent <= 38);
  bool s = ns_bool();
  char b[15];
  int n = ryu::to_chars(v, s, b);
  chars<ryu::floating_decimal_32, unsigned, 8>(v, s, b, n, 15);
}
// @opt mode=small sizes=0 iters=64 timeout=300
extern "C" void d_chars_double() {
  ryu::floating_decimal_64 v;
  v.mantissa = ns_u64(); v.exponent = ns_i32();
  ns_assume(v.mantissa > 0 && v.mantissa < 100000000000000000ul && v.exponent >= -340 && v.exponent <= 308);
  ns_assume(v.exponent + 16 <= 324);
  bool s = ns_bool();
  char b[24];
  int n = ryu::to_chars(v, s, b);
  chars<ryu::floating_decimal_64, u64, 16>(v, s, b, n, 24);
}
static void same(const string &s, const char *t, u64 n) {
  CHK(s.size() == n, "the text has the expected length");
  for (u64 i = 0; i <= n; i++) CHK(s.c_str()[i] == t[i], "the text is the expected one");
}
// @opt mode=small sizes=0
extern "C" void d_special_float() {
  unsigned u = ns_u32();
  ns_assume((u & 0x7fffffffu) >= 0x7f800000u || (u & 0x7fffffffu) == 0);
  {
    string s = to_string(ns_float_of(u));
    if ((u & 0x7fffffffu) > 0x7f800000u) same(s, "NaN", 3);
    else if (u == 0) same(s, "0E0", 3);
    else if (u == 0x80000000u) same(s, "-0E0", 4);
    else if (u == 0x7f800000u) same(s, "Infinity", 8);
    else same(s, "-Infinity", 9);
  }
  ns_heap_clean();
}
// @opt mode=small sizes=0
extern "C" void d_special_double() {
  u64 u = ns_u64();
  ns_assume((u & 0x7ffffffffffffffful) >= 0x7ff0000000000000ul || (u & 0x7ffffffffffffffful) == 0);
  {
    string s = to_string(ns_double_of(u));
    if ((u & 0x7ffffffffffffffful) > 0x7ff0000000000000ul) same(s, "NaN", 3);
    else if (u == 0) same(s, "0E0", 3);
    else if (u == 0x8000000000000000ul) same(s, "-0E0", 4);
    else if (u == 0x7ff0000000000000ul) same(s, "Infinity", 8);
    else same(s, "-Infinity", 9);
  }
  ns_heap_clean();
}
// the integer path: m * 2^(e-1075) is an integer iff it is taken, and then its value
// @opt mode=small sizes=0 iters=80 timeout=300
extern "C" void d_small_int() {
  u64 m = ns_u64();
  ns_assume(m < (1ul << 52));
  for (int i = 0; i < 62; i++) {
    if (ns_bool()) continue;
    int e = i < 58 ? 1020 + i : i == 58 ? 1 : i == 59 ? 600 : i == 60 ? 1500 : 2046;
    ryu::floating_decimal_64 v;
    v.mantissa = 77; v.exponent = 77;
    bool r = ryu::d2d_small_int(m, e, &v);
    u64 full = (1ul << 52) | m;
    if (e < 1023 || e > 1075) CHK(!r, "only magnitudes in [1, 2^53) are taken as integers");
    else {
      CHK(r == ((full & ((1ul << (1075 - e)) - 1)) == 0), "exactly the integers are taken as integers");
      if (r) CHK(v.exponent == 0 && v.mantissa << (1075 - e) == full, "the integer's value");
    }
    return;
  }
}
// bounds: decimalLength is the number of digits
// @opt mode=small sizes=0 iters=64
extern "C" void d_decimal_length() {
  unsigned v = ns_u32();
  ns_assume(v < 1000000000u);
  unsigned n = ryu::decimalLength9(v), p = 1;
  CHK(n >= 1 && n <= 9, "decimalLength9 is 1 to 9");
  for (unsigned i = 1; i < n; i++) p *= 10;
  CHK((n == 1 || v >= p) && (n == 9 || v < p * 10), "decimalLength9 counts the digits");
  u64 w = ns_u64(), q = 1;
  ns_assume(w < 100000000000000000ul);
  unsigned k = ryu::decimalLength17(w);
  CHK(k >= 1 && k <= 17, "decimalLength17 is 1 to 17");
  for (unsigned i = 1; i < k; i++) q *= 10;
  CHK((k == 1 || w >= q) && (k == 17 || w < q * 10), "decimalLength17 counts the digits");
}
// an integer below 2^53 is printed exactly, without trailing zeros in its digits
// @opt mode=small sizes=0 iters=80 timeout=300 shards=1023..1075
extern "C" void d_integer_double() {
  u64 m = ns_u64();
  ns_assume(m < (1ul << 52));
  bool sign = ns_bool();
  {
    int e = ns_shard();
    u64 full = (1ul << 52) | m;
    ns_assume((full & ((1ul << (1075 - e)) - 1)) == 0);
    u64 k = full >> (1075 - e);
    char b[24];
    int n = ryu::d2s_buffered_n(ns_double_of(((u64)sign << 63) | ((u64)e << 52) | m), b);
    int i = 0;
    CHK(n >= 3 && n <= 24, "the text fits its buffer");
    if (sign) { CHK(b[0] == '-', "a negative number starts with a minus sign"); i = 1; }
    u64 acc = b[i] - '0';
    CHK(b[i] >= '1' && b[i] <= '9', "the first digit is not zero");
    int frac = 0;
    i++;
    if (b[i] == '.') {
      i++;
      for (; b[i] != 'E'; i++) { CHK(b[i] >= '0' && b[i] <= '9', "digits"); acc = acc * 10 + (b[i] - '0'); frac++; }
      CHK(b[i - 1] != '0', "no trailing zero digit");
    }
    CHK(b[i] == 'E' && b[i + 1] >= '0' && b[i + 1] <= '9', "a non-negative exponent");
    int x = b[i + 1] - '0';
    if (n > i + 2) x = x * 10 + (b[i + 2] - '0');
    CHK(n <= i + 3 && x >= frac && x <= 15, "the exponent is in range");
    for (int j = frac; j < x; j++) acc *= 10;
    CHK(acc == k, "the text denotes the integer");
  }
}
// the digit generator stays in the range to_chars prints
// @opt mode=small sizes=0 iters=300 timeout=300 shards=0..100/4,212..254/3 tshards=0..110,205..254
extern "C" void d_f2d() {
  unsigned m = ns_u32(), e = ns_shard();
  ns_assume(m < (1u << 23) && (m || e));
  ryu::floating_decimal_32 v = ryu::f2d(m, e);
  CHK(v.mantissa > 0 && v.mantissa < 1000000000u, "the decimal mantissa has one to nine digits");
  CHK(v.exponent >= -53 && v.exponent <= 38, "the decimal exponent is in range");
}
