template class nanostl::basic_string<char>;
nanostl::string use(int n) { nanostl::string a("x"), b = nanostl::to_string(n) + nanostl::to_string(1.5f) + nanostl::to_string(2.5); a += b; if (a == b || a < b || a != b || a == "x") a.clear(); float f = nanostl::stof(b); double d = nanostl::stod(b); return f < d ? a : b; }
