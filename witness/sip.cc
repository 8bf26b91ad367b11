#include "hash.cc"
extern "C" void g_sip(const unsigned char *in, unsigned long n, const unsigned char *k, unsigned char *out, unsigned long m) { nanostl::siphash(in, n, k, out, m); }
