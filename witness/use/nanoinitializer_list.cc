template class nanostl::initializer_list<int>;
