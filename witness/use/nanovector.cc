template class nanostl::vector<int>;
void use(nanostl::vector<int> &v) { v.push_back(1); nanostl::vector<int> w(v); w.swap(v); w = v; w.resize(3); for (nanostl::vector<int>::iterator i = w.begin(); i != w.end(); ++i) *i = 1; }
