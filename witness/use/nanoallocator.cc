template class nanostl::allocator<int>;
int *use() { nanostl::allocator<int> a; int *p = a.allocate(3); a.deallocate(p, 3); return p; }
