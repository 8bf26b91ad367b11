template struct nanostl::less<int>;
unsigned long use(int *p) { return nanostl::hash<int>()(1) + nanostl::hash<bool>()(true) + nanostl::hash<float>()(1.f) + nanostl::hash<double>()(1.) + nanostl::hash<long long>()(1) + nanostl::hash<int *>()(p) + nanostl::less<int>()(1, 2); }
