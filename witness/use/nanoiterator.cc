long use(int *a, int *b) { return nanostl::distance(a, b) + sizeof(nanostl::iterator_traits<int *>::value_type); }
