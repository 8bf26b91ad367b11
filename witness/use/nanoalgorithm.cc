int use(int *a, int *b) { nanostl::fill(a, b, 3); return nanostl::min(*a, 2) + nanostl::max(*a, 3) + *nanostl::max_element(a, b); }
