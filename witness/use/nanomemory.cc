struct Base { virtual ~Base() {} };
struct Derived : Base {};
template class nanostl::unique_ptr<int>;
template class nanostl::unique_ptr<int[]>;
int use(int *p, int *q) { nanostl::unique_ptr<int> a(p), b(nanostl::move(a)); a = nanostl::move(b); a.swap(b); b.reset(q); nanostl::unique_ptr<Base> c(nanostl::unique_ptr<Derived>(new Derived)); c.reset(); nanostl::unique_ptr<int[]> d(new int[3]); d[1] = 2; return (a == b) + (a < b) + (a != nullptr) + bool(b) + *b + d[1] + *a.release() + (nanostl::hash<nanostl::unique_ptr<int> >()(b) != 0); }
