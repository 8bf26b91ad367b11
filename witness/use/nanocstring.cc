void *use(void *a, const void *b) { return nanostl::memcpy(a, b, 3); }
