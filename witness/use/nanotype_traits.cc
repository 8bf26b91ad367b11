static_assert(nanostl::is_same<nanostl::decay<int &>::type, int>::value && nanostl::is_integral<int>::value && nanostl::is_class<int>::value == 0 && nanostl::is_constructible<int, char>::value && nanostl::is_convertible<int, double>::value && nanostl::is_nothrow_move_constructible<int>::value && nanostl::is_empty<int>::value == 0, "traits");
