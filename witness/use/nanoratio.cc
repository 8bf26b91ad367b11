static_assert(nanostl::ratio<2, 4>::den == 2 && nanostl::milli::den == 1000, "ratio");
