// entry points for the decimal-to-binary analysis (T03)
#define NANOSTL_IMPLEMENTATION
#include "nanostring.h"
inline void *operator new(decltype(sizeof(0)), void *p) noexcept { return p; }
extern "C" unsigned long t_size() { return sizeof(nanostl::string); }
extern "C" void t_make(nanostl::string *p, const char *s) { new (p) nanostl::string(s); }
extern "C" float t_stof(const nanostl::string *p) { return nanostl::stof(*p); }
extern "C" double t_stod(const nanostl::string *p) { return nanostl::stod(*p); }
