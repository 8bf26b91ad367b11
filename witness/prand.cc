// the priority generator alone
#include "nanomap.h"
extern "C" nanostl::priority_type g_priority() { return nanostl::priority_rand(); }
