#ifdef PLACEMENT
inline void *operator new(decltype(sizeof(0)), void *p) noexcept { return p; }
#endif
template class nanostl::variant<int, char, double>;
int use(nanostl::variant<int, char> &o) { nanostl::variant<int, char> p('a'), q(o); p = q; p = 4; p.swap(o); return (p == o) + (p < q) + (int)o.index() + nanostl::get<0>(p) + *nanostl::get_if<int>(&q) + nonstd::holds_alternative<char>(o); }
