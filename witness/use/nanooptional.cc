#ifdef PLACEMENT
inline void *operator new(decltype(sizeof(0)), void *p) noexcept { return p; }
#endif
template class nanostl::optional<int>;
int use(nanostl::optional<int> &o) { nanostl::optional<int> p(3), q(o); p = q; p = 4; p.emplace(5); p.swap(o); p.reset(); return (p == o) + (p < q) + q.value_or(3) + *o + (p == nonstd::nullopt); }
