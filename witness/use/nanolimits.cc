double use() { return nanostl::numeric_limits<int>::max() + nanostl::numeric_limits<unsigned char>::min() + nanostl::numeric_limits<float>::epsilon() + nanostl::numeric_limits<double>::infinity() + nanostl::numeric_limits<float>::quiet_NaN() + nanostl::numeric_limits<double>::denorm_min() + nanostl::numeric_limits<double>::digits10; }
