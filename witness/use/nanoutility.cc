template struct nanostl::pair<int, char>;
int use(int a, int b) { nanostl::pair<int, int> p = nanostl::make_pair(a, b), q; nanostl::swap(a, b); q = p; int c[2] = {1, 2}, d[2] = {3, 4}; nanostl::swap(c, d); int &&r = nanostl::move(a); return (p == q || p < q) + nanostl::forward<int>(r) + nanostl::move_if_noexcept(b); }
