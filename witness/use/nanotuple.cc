template class nanostl::tuple<int, char, double>;
int use(int a, char b) { nanostl::tuple<int, char> t(a, b), u = tao::make_tuple(a, b); t.swap(u); int c; char d; tao::tie(c, d) = t; return tao::get<0>(t) + (t == u) + (t < u) + tao::get<2>(tao::tuple_cat(t, u)); }
