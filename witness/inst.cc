#define NANOSTL_IMPLEMENTATION
#include "nanostl.h"
#include "nanovalarray.h"
#include "nanomemory.h"
#include "nanotuple.h"
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanoiterator.h"
#include "nanosstream.h"
#include "nanochrono.h"
#include "nanoexception.h"
#include "nanostdexcept.h"
#include "nanoinitializer_list.h"
#include "nanoratio.h"
namespace nanostl {
template class vector<int>;
template class vector<vector<int> >;
template class vector<string>;
template class valarray<float>;
template class valarray<int>;
template class map<int, int>;
template class map<string, vector<int> >;
template struct pair<int, string>;
template class unique_ptr<int>;
template class unique_ptr<int[]>;
template class basic_string<char>;
template class basic_ostream<char>;
template class allocator<int>;
template class initializer_list<int>;
template class hash<int>;
}
