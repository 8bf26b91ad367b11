template class nanostl::map<int, int>;
int use(nanostl::map<int, int> &m) { m[1] = 2; m.insert(nanostl::map<int, int>::value_type(3, 4)); nanostl::map<int, int> n(m); n = m; for (nanostl::map<int, int>::iterator i = n.begin(); i != n.end(); ++i) i->second++; return m.find(1) == m.end() ? (*m.upper_bound(0)).second : 0; }
