template class nanostl::valarray<float>;
nanostl::valarray<float> use(nanostl::valarray<float> &v) { v.resize(3); v += v; return nanostl::sin(v); }
