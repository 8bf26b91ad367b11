#include "nanolimits.h"
#include "ns.h"
#define CHK ns_check
using nanostl::numeric_limits;
template <class T> static void integer(T lo, T hi, int digits) {
  CHK(numeric_limits<T>::min() == lo, "min() is the least value of the integer type");
  CHK(numeric_limits<T>::max() == hi, "max() is the greatest value of the integer type");
  CHK(numeric_limits<T>::epsilon() == T(0), "epsilon() is 0 for integers");
  CHK(numeric_limits<T>::digits10 == digits, "digits10 is the number of decimal digits always representable");
  T x = (T)ns_u64();
  CHK(numeric_limits<T>::min() <= x && x <= numeric_limits<T>::max(), "every value lies between min() and max()");
}
extern "C" void d_bool() {
  CHK(numeric_limits<bool>::min() == false && numeric_limits<bool>::max() == true && numeric_limits<bool>::epsilon() == false && numeric_limits<bool>::digits10 == 0, "numeric_limits<bool>");
}
extern "C" void d_char() { integer<char>(__SCHAR_MAX__ * -1 - 1, __SCHAR_MAX__, 2); }
extern "C" void d_uchar() { integer<unsigned char>(0, 255, 2); }
extern "C" void d_short() { integer<short>(-32768, 32767, 4); }
extern "C" void d_ushort() { integer<unsigned short>(0, 65535, 4); }
extern "C" void d_int() { integer<int>(-__INT_MAX__ - 1, __INT_MAX__, 9); }
extern "C" void d_uint() { integer<unsigned>(0, __INT_MAX__ * 2u + 1, 9); }
extern "C" void d_llong() { integer<long long>(-__LONG_LONG_MAX__ - 1, __LONG_LONG_MAX__, 18); }
extern "C" void d_ullong() { integer<unsigned long long>(0, __LONG_LONG_MAX__ * 2ull + 1, 19); }
extern "C" void d_float() {
  typedef numeric_limits<float> L;
  CHK(ns_bits(L::min()) == 0x00800000u, "float min() is the least positive normal number");
  CHK(ns_bits(L::max()) == 0x7f7fffffu, "float max() is the greatest finite number");
  CHK(ns_bits(L::epsilon()) == 0x34000000u, "float epsilon() is 2^-23");
  CHK(ns_bits(L::denorm_min()) == 1u, "float denorm_min() is the least positive number");
  CHK(ns_bits(L::infinity()) == 0x7f800000u, "float infinity() is +inf");
  unsigned q = ns_bits(L::quiet_NaN()), s = ns_bits(L::signaling_NaN());
  CHK((q & 0x7fc00000u) == 0x7fc00000u, "float quiet_NaN() is a quiet NaN");
  CHK((s & 0x7fc00000u) == 0x7f800000u && (s & 0x3fffffu), "float signaling_NaN() is a signaling NaN");
  CHK(L::digits10 == 6, "float digits10");
}
extern "C" void d_double() {
  typedef numeric_limits<double> L;
  CHK(ns_bits(L::min()) == 0x0010000000000000ul, "double min() is the least positive normal number");
  CHK(ns_bits(L::max()) == 0x7ffffffffffffffful - 0x10000000000000ul, "double max() is the greatest finite number");
  CHK(ns_bits(L::epsilon()) == 0x3cb0000000000000ul, "double epsilon() is 2^-52");
  CHK(ns_bits(L::denorm_min()) == 1ul, "double denorm_min() is the least positive number");
  CHK(ns_bits(L::infinity()) == 0x7ff0000000000000ul, "double infinity() is +inf");
  u64 q = ns_bits(L::quiet_NaN()), s = ns_bits(L::signaling_NaN());
  CHK((q & 0x7ff8000000000000ul) == 0x7ff8000000000000ul, "double quiet_NaN() is a quiet NaN");
  CHK((s & 0x7ff8000000000000ul) == 0x7ff0000000000000ul && (s & 0x7fffffffffffful), "double signaling_NaN() is a signaling NaN");
  CHK(L::digits10 == 15, "double digits10");
}
