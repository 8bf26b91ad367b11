From 87bf287b791bc3e7f32afb5e4e0da7e119a4e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 01/55] fix: vector::push_back(v[i]) read freed storage on
 growth

---
 include/nanovector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..78e7833 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -115,8 +115,11 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
+    // `val' may refer to an element of this vector, so copy it before the
+    // storage is reallocated.
+    value_type tmp(val);
     resize(size() + 1);
-    elements_[size_ - 1] = val;
+    elements_[size_ - 1] = tmp;
   }
 
   // void push_back(value_type &val); // C++11
-- 
2.43.0


From e20ac439aa8bd2a7b85e0b932fc3c35c92e7381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 02/55] fix: vector::resize(0) kept the old size

---
 include/nanovector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanovector.h b/include/nanovector.h
index 78e7833..5ce0891 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -83,6 +83,7 @@ class vector {
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
     if (count < 1) {
+      size_ = 0;
       return;
     }
 
-- 
2.43.0


From beec50bdc77d3fc7d22d1aa2a52835f0f289d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 03/55] fix: vector::erase returned the end instead of the next
 element

---
 include/nanovector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 5ce0891..842e501 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -154,13 +154,14 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
+    iterator ret = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return ret;
   }
 
   template <class InputIterator>
-- 
2.43.0


From 230dab192b4764df1e9ed01a417eecc3ff96490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 04/55] fix: valarray::resize(0) kept the old size

---
 include/nanovalarray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..a9f72d1 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -83,6 +83,7 @@ class valarray {
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
     if (count < 1) {
+      size_ = 0;
       return;
     }
 
-- 
2.43.0


From e2600a6d21b7c0e389808b5878a50e8b05142ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 05/55] fix: valarray::erase returned the end instead of the
 next element

---
 include/nanovalarray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index a9f72d1..e490338 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -150,13 +150,14 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
+    iterator ret = pos;
     while ((pos + 1) != end()) {
       (*pos) = *(pos + 1);
       pos++;
     }
     size_--;
 
-    return pos;
+    return ret;
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From a2d8d9d8eadc52e974025b2ab11555aa8fbfe33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 06/55] fix: string(first, last) read past the range and left
 out the terminator

---
 include/nanostring.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..0262cbc 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -79,11 +79,12 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
-    const char *s = first;
-    while (s && (s <= last)) {
+    const charT *s = first;
+    while (s && (s < last)) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 5d340eb16675637364f55d354cedd4e5ddd136ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 07/55] fix: string(s, count) left out the terminator

---
 include/nanostring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 0262cbc..99b7895 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -92,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From cd45e9a2d67b40b1f41433d88f7f684ecc8f39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 08/55] fix: string::empty() was never true

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 99b7895..a2b8607 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -96,7 +96,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From e0e770e62381833215219e944ae18187753e34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 09/55] fix: string s += s read storage it had released

---
 include/nanostring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index a2b8607..46d5759 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -203,6 +203,12 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
+  if (this == &s) {
+    // appending changes the range being read
+    const basic_string<charT> tmp(s);
+    return (*this) += tmp;
+  }
+
   // remove '\0'
   if (data_.size() < 1) {
     // this should not be happen
-- 
2.43.0


From f8a14ab0a718bfc922fdafe9ac67311d9ff47764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 10/55] fix: map::find, upper_bound and end did not compile for
 const maps

---
 include/nanomap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..c39a969 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -76,12 +76,12 @@ class map {
   };
 
   class iterator {
-    map<Key, T>* mp;
+    const map<Key, T>* mp;
     Node* p;
 
    public:
     NANOSTL_HOST_AND_DEVICE_QUAL
-    iterator(map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
+    iterator(const map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     iterator& operator++() {
-- 
2.43.0


From 2be8d8ccc41e434c5dc1061990bfcd472f94e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 11/55] fix: map iterator comparison dereferenced end() and
 compared values

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index c39a969..68e00e9 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return rhs.p == this->p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return rhs.p != this->p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 9e8f45e357019ea720c43b8b95640c0108e86c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:43 +0000
Subject: [PATCH 12/55] fix: map::begin() was the tree root, so iteration
 skipped the smaller keys

---
 include/nanomap.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 68e00e9..abffac8 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -121,7 +121,12 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() {
+    // the smallest key is the leftmost node
+    Node* t = root;
+    while (t && t->ch[0]) t = t->ch[0];
+    return iterator(this, t);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
-- 
2.43.0


From 2b78ac643379a97838cbfe277f4c001b2451f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:43 +0000
Subject: [PATCH 13/55] fix: copying a map shared its nodes, which were then
 deleted twice

---
 include/nanomap.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index abffac8..14bf441 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,6 +115,19 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& rhs) { root = __clone(rhs.root); }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& rhs) {
+    if (this != &rhs) {
+      Node* t = __clone(rhs.root);
+      __delete(root);
+      root = t;
+    }
+    return *this;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
@@ -221,6 +234,16 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  Node* __clone(const Node* t) const {
+    if (!t) return 0;
+    Node* n = new Node(t->val);
+    n->pri = t->pri;
+    n->ch[0] = __clone(t->ch[0]);
+    n->ch[1] = __clone(t->ch[1]);
+    return n;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From cc261a5650bfd6cf985625d4cbcf3dc6f03ee7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:31 +0000
Subject: [PATCH 14/55] fix: to_string(int64_t) truncated to int and overran
 its buffer

---
 include/nanostring.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 46d5759..01c5349 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -343,13 +343,15 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];  // +3 for the last digit, sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs, in unsigned arithmetic since -value overflows for the minimum
+  uint64_t n = static_cast<uint64_t>(value);
+  if (value < 0) n = 0 - n;
   int i = 0;
   int base = 10;
   while (n) {
-    int r = n % base;
+    int r = static_cast<int>(n % base);
 
     if (r >= 10) {
       buffer[i++] = 'A' + (r - 10);  //
-- 
2.43.0


From 862ee9555547ffe604261000c0a30a64e2b38707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:31 +0000
Subject: [PATCH 15/55] fix: to_string(INT_MIN) overflowed and overran its
 buffer

---
 include/nanostring.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 01c5349..ee83eb6 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -295,13 +295,15 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];  // +3 for the last digit, sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs, in unsigned arithmetic since -value overflows for the minimum
+  unsigned int n = static_cast<unsigned int>(value);
+  if (value < 0) n = 0 - n;
   int i = 0;
   int base = 10;
   while (n) {
-    int r = n % base;
+    int r = static_cast<int>(n % base);
 
     if (r >= 10) {
       buffer[i++] = 'A' + (r - 10);  //
-- 
2.43.0


From b3aa78f9db8de54d3631e61fa5b45b861b55da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:31 +0000
Subject: [PATCH 16/55] fix: to_string(unsigned int) and to_string(uint64_t)
 were declared but not defined

---
 include/nanostring.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index ee83eb6..9f44633 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -379,6 +379,25 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];  // +2 for the last digit and null
+
+  char *p = buffer + sizeof(buffer) - 1;
+  *p = '\0';
+  do {
+    *--p = static_cast<char>('0' + static_cast<int>(value % 10));
+    value /= 10;
+  } while (value);
+
+  return string(p);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  return to_string(static_cast<uint64_t>(value));
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From 02e857f3643d2cd54050d63454d10988b285b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:32 +0000
Subject: [PATCH 17/55] fix: stof was declared but its definition was compiled
 out

---
 include/nanostring.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 9f44633..610d7ff 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -415,7 +415,6 @@ string to_string(double value) {
   return string(buf);
 }
 
-#if 0
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
@@ -429,8 +428,6 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 
   return value;
 }
-#else
-#endif
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stod(const nanostl::string &str, nanostl::size_t *idx) {
-- 
2.43.0


From 390a8e3a103059957c7dfa5e08a80f11c6ab00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:32 +0000
Subject: [PATCH 18/55] fix: stod returned float, losing the precision of the
 parsed double

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 610d7ff..cec62d2 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -266,7 +266,7 @@ NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
+double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_IMPLEMENTATION)
 #ifndef NANOSTL_STRING_IMPLEMENTATION
@@ -430,7 +430,7 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 }
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx) {
+double stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
   double value;
   ryu::RyuStatus ret = ryu::s2d_n(str.c_str(), str.size(), &value);
-- 
2.43.0


From 26a4197a6d631144942d09f5aa4743f89f32f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:32 +0000
Subject: [PATCH 19/55] fix: sqrt(+inf) and sqrt(-inf) returned -inf

---
 include/nanomath.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8d23def..fe8cc53 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -303,15 +303,15 @@ static inline float sqrt(const float x) {
     return 1.0f;               // +0
   }
 
-  // -inf
-  if ((x < 0.0f) && nanostl::isinf(x)) {
-    return x;
-  }
-
   if (x < 0.0f) {
     return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
+  // +inf
+  if (nanostl::isinf(x)) {
+    return x;
+  }
+
   // Faster sqrt using Sqrt2 descrived in:
   // https://www.codeproject.com/Articles/69941/Best-Square-Root-Method-Algorithm-Function-Precisi
 
-- 
2.43.0


From c277b788831931bb807e4bf1af02c4aab0fdd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:32 +0000
Subject: [PATCH 20/55] fix: log of a negative number returned +inf

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index fe8cc53..61a15e1 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -479,7 +479,7 @@ static inline float log(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of logf on [1.17549435e-38,3.40282347e+38]:
-- 
2.43.0


From c2428089e4101e2c19093802bdca949cb81ec93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:32 +0000
Subject: [PATCH 21/55] fix: log10 of a negative number returned +inf

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 61a15e1..4048467 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -501,7 +501,7 @@ static inline float log10(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of log10f on [1.17549435e-38,3.40282347e+38]:
-- 
2.43.0


From 17734f14a34aa132f67f1d9207760216ade4cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:46 +0000
Subject: [PATCH 22/55] fix: nullptr replacement macro did not compile outside
 namespace nanostl

---
 include/__nullptr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/__nullptr b/include/__nullptr
index cf26ce7..cac3518 100644
--- a/include/__nullptr
+++ b/include/__nullptr
@@ -40,7 +40,7 @@ struct nullptr_t
 inline constexpr nullptr_t __get_nullptr_t() {return nullptr_t(0);}
 
 //#define nullptr _VSTD::__get_nullptr_t()
-#define nullptr __get_nullptr_t()
+#define nullptr ::nanostl::__get_nullptr_t()
 
 }
 
-- 
2.43.0


From 021a3607f54a3033ef9db40ac2ade34402095342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:55 +0000
Subject: [PATCH 23/55] fix: nanofunctional.h did not compile when included on
 its own

---
 include/nanofunctional.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanofunctional.h b/include/nanofunctional.h
index aae9c32..e9e9fda 100644
--- a/include/nanofunctional.h
+++ b/include/nanofunctional.h
@@ -31,6 +31,7 @@
 
 #include "__hashfunc.h"
 #include "__nullptr"
+#include "nanotype_traits.h"
 
 namespace nanostl {
 
-- 
2.43.0


From a9397739599ecb63181fdee66d89a78a458a5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:55 +0000
Subject: [PATCH 24/55] fix: nanomemory.h did not compile when included on its
 own

---
 include/nanomemory.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nanomemory.h b/include/nanomemory.h
index 0bf553d..d7e4002 100644
--- a/include/nanomemory.h
+++ b/include/nanomemory.h
@@ -18,6 +18,8 @@
 #define _LIBCPP_INLINE_VISIBILITY
 #endif
 
+#include "nanoutility.h"
+
 #ifndef _LIBCPP_CONSTEXPR
 #define _LIBCPP_CONSTEXPR constexpr
 #endif
-- 
2.43.0


From e51ffc8dd49bec4974a1b78f4db9e1c8acd38eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:55 +0000
Subject: [PATCH 25/55] fix: nanoratio.h did not compile when included on its
 own

---
 include/nanoratio.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanoratio.h b/include/nanoratio.h
index 260acf4..e07e086 100644
--- a/include/nanoratio.h
+++ b/include/nanoratio.h
@@ -26,6 +26,7 @@
 #define NANOSTL_RATIO_H_
 
 #include "nanocommon.h"
+#include "nanocstdint.h"
 
 namespace nanostl {
 
-- 
2.43.0


From f281c0b4538fa61e6b1d22d2394dfbd02bcbd6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:55 +0000
Subject: [PATCH 26/55] fix: nanotypeinfo.h did not compile when included on
 its own

---
 include/nanotypeinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanotypeinfo.h b/include/nanotypeinfo.h
index e3aaba2..613acb9 100644
--- a/include/nanotypeinfo.h
+++ b/include/nanotypeinfo.h
@@ -3,6 +3,7 @@
 
 #include "nanocommon.h"
 #include "nanocstdint.h"
+#include "nanotype_traits.h"
 
 #ifndef _LIBCPP_INLINE_VISIBILITY
 #define _LIBCPP_INLINE_VISIBILITY
-- 
2.43.0


From 8a03f30130a0c9d4b6e0bd720c16355189a0a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:48 +0000
Subject: [PATCH 27/55] fix: is_union was false (and is_class true) for every
 union

---
 include/nanotype_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..44062ef 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -792,7 +792,7 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
 // is_union
 
-template <class _Tp> struct __libcpp_union : public false_type {};
+template <class _Tp> struct __libcpp_union : public integral_constant<bool, __is_union(_Tp)> {};
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_union
     : public __libcpp_union<typename remove_cv<_Tp>::type> {};
 
-- 
2.43.0


From 5f94b38bffa9286018638863ce029cea3b19aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:48 +0000
Subject: [PATCH 28/55] fix: is_empty did not compile for a final class

---
 include/nanotype_traits.h | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 44062ef..fbfb6a1 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -811,24 +811,8 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_class
 
 // is_empty
 
-template <class _Tp>
-struct __is_empty1
-    : public _Tp
-{
-    double __lx;
-};
-
-struct __is_empty2
-{
-    double __lx;
-};
-
-template <class _Tp, bool = is_class<_Tp>::value>
-struct __libcpp_empty : public integral_constant<bool, sizeof(__is_empty1<_Tp>) == sizeof(__is_empty2)> {};
-
-template <class _Tp> struct __libcpp_empty<_Tp, false> : public false_type {};
-
-template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty : public __libcpp_empty<_Tp> {};
+template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty
+    : public integral_constant<bool, __is_empty(_Tp)> {};
 
 
 // is_assignable
-- 
2.43.0


From 5713fe68e76234f3db9a90c470820859e3dc4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:48 +0000
Subject: [PATCH 29/55] fix: is_enum was true for nullptr_t

---
 include/nanotype_traits.h | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index fbfb6a1..d1f022f 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1324,16 +1324,7 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_pointer
 // is_enum
 
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_enum
-    : public integral_constant<bool, !is_void<_Tp>::value             &&
-                                     !is_integral<_Tp>::value         &&
-                                     !is_floating_point<_Tp>::value   &&
-                                     !is_array<_Tp>::value            &&
-                                     !is_pointer<_Tp>::value          &&
-                                     !is_reference<_Tp>::value        &&
-                                     !is_member_pointer<_Tp>::value   &&
-                                     !is_union<_Tp>::value            &&
-                                     !is_class<_Tp>::value            &&
-                                     !is_function<_Tp>::value         > {};
+    : public integral_constant<bool, __is_enum(_Tp)> {};
 
 
 // is_scalar
-- 
2.43.0


From 111b99664d351124fddf7531a03eb6087d73c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:48 +0000
Subject: [PATCH 30/55] fix: is_nothrow_* were false for every type because
 declval could throw

---
 include/nanotype_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index d1f022f..6b1248e 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -472,7 +472,7 @@ template <class _Tp> _Tp   __declval(long);
 
 template <class _Tp>
 decltype(__declval<_Tp>(0))
-declval() __NANOSTL_NOEXCEPT;
+declval() noexcept;
 
 
 
-- 
2.43.0


From 19b9836cec6993dc2619efedd02a9f5d4cf81f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:12 +0000
Subject: [PATCH 31/55] fix: is_integral was false for char16_t and char32_t

---
 include/nanocstddef.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanocstddef.h b/include/nanocstddef.h
index 6fa0d12..061d6ec 100644
--- a/include/nanocstddef.h
+++ b/include/nanocstddef.h
@@ -39,8 +39,8 @@ template <>          struct __libcpp_is_integral<wchar_t>            { enum { va
 //template <>          struct __libcpp_is_integral<char8_t>            { enum { value = 1 }; };
 //#endif
 //#ifndef _LIBCPP_HAS_NO_UNICODE_CHARS
-//template <>          struct __libcpp_is_integral<char16_t>           { enum { value = 1 }; };
-//template <>          struct __libcpp_is_integral<char32_t>           { enum { value = 1 }; };
+template <>          struct __libcpp_is_integral<char16_t>           { enum { value = 1 }; };
+template <>          struct __libcpp_is_integral<char32_t>           { enum { value = 1 }; };
 //#endif
 template <>          struct __libcpp_is_integral<short>              { enum { value = 1 }; };
 template <>          struct __libcpp_is_integral<unsigned short>     { enum { value = 1 }; };
-- 
2.43.0


From a2115ed8fe72e13cef9032ddd9998e4dc35c9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:12 +0000
Subject: [PATCH 32/55] fix: is_default_constructible was false for arrays

---
 include/nanotype_traits.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 6b1248e..bc5f331 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -712,6 +712,11 @@ struct _NANOSTL_TEMPLATE_VIS is_default_constructible
     : public is_constructible<_Tp>
     {};
 
+template <class _Tp, size_t _Np>
+struct _NANOSTL_TEMPLATE_VIS is_default_constructible<_Tp[_Np]>
+    : public is_default_constructible<typename remove_all_extents<_Tp>::type>
+    {};
+
 //#if _LIBCPP_STD_VER > 14
 //template <class _Tp>
 //inline constexpr bool is_default_constructible_v = is_default_constructible<_Tp>::value;
@@ -880,7 +885,7 @@ struct _NANOSTL_TEMPLATE_VIS is_nothrow_constructible
 
 template <class _Tp, size_t _Ns>
 struct _NANOSTL_TEMPLATE_VIS is_nothrow_constructible<_Tp[_Ns]>
-    : __libcpp_is_nothrow_constructible<is_constructible<_Tp>::value, is_reference<_Tp>::value, _Tp>
+    : is_nothrow_constructible<typename remove_all_extents<_Tp>::type>
 {
 };
 
-- 
2.43.0


From 5f1a4f65a6299e3bb93781fe2ad3e2eec0d3d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:40 +0000
Subject: [PATCH 33/55] fix: is_constructible<T&, void> did not compile

---
 include/nanotype_traits.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index bc5f331..2772d73 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -772,8 +772,10 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
          static no_type test1(...);
 
          template <typename T>
-         static yes_type ref_test(T);
-         template <typename T>
+         static void ref_arg(T);
+         template<typename T, typename Arg, typename = decltype(ref_arg<T>(declval<Arg>()))>
+         static yes_type ref_test(int);
+         template<typename, typename>
          static no_type ref_test(...);
       };
 
@@ -781,8 +783,8 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
    template <class T, class ...Args> struct is_constructible : public integral_constant<bool, sizeof(detail::is_constructible_imp::test<T, Args...>(0)) == sizeof(yes_type)>{};
    template <class T, class Arg> struct is_constructible<T, Arg> : public integral_constant<bool, is_destructible<T>::value && sizeof(detail::is_constructible_imp::test1<T, Arg>(0)) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&>(declval<Arg>())) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&>(declval<Arg>())) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&, Arg>(0)) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&, Arg>(0)) == sizeof(yes_type)>{};
 
    template <> struct is_constructible<void> : public false_type{};
    template <> struct is_constructible<void const> : public false_type{};
-- 
2.43.0


From 1eadcd55d14cae0257a4097fee6de3a46d79b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:48 +0000
Subject: [PATCH 34/55] fix: vector::begin() const and end() const gave mutable
 iterators

---
 include/nanovector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 842e501..def468e 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -142,9 +142,13 @@ class vector {
   NANOSTL_HOST_AND_DEVICE_QUAL vector& operator=(const vector& rhs);
   NANOSTL_HOST_AND_DEVICE_QUAL vector& operator+=(const vector& rhs);
 
-  inline iterator begin(void) const { return elements_ + 0; }
+  inline iterator begin(void) { return elements_ + 0; }
 
-  inline iterator end(void) const { return elements_ + size_; }
+  inline const_iterator begin(void) const { return elements_ + 0; }
+
+  inline iterator end(void) { return elements_ + size_; }
+
+  inline const_iterator end(void) const { return elements_ + size_; }
 
   inline void pop_back() {
     if (size_ < 1) {
-- 
2.43.0


From 1d3d62d15b2053c45b84590992b17ee9658f474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:48 +0000
Subject: [PATCH 35/55] fix: valarray::begin() const and end() const gave
 mutable iterators

---
 include/nanovalarray.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index e490338..52b5467 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -143,10 +143,16 @@ class valarray {
   valarray& operator+=(const valarray& rhs);
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  inline iterator begin(void) const { return elements_ + 0; }
+  inline iterator begin(void) { return elements_ + 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  inline iterator end(void) const { return elements_ + size_; }
+  inline const_iterator begin(void) const { return elements_ + 0; }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  inline iterator end(void) { return elements_ + size_; }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  inline const_iterator end(void) const { return elements_ + size_; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
-- 
2.43.0


From e32bbfc30559f1efd959353afe5c963867f313d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:34 +0000
Subject: [PATCH 36/55] fix: swap was declared but never defined

---
 include/nanotype_traits.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 2772d73..1560a74 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1175,14 +1175,24 @@ template <class _Tp>
 inline /*_LIBCPP_INLINE_VISIBILITY*/
 /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/ __swap_result_t<_Tp>
 swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
-                                    is_nothrow_move_assignable<_Tp>::value);
+                                    is_nothrow_move_assignable<_Tp>::value)
+{
+  _Tp __t(nanostl::move(__x));
+  __x = nanostl::move(__y);
+  __y = nanostl::move(__t);
+}
 
 template<class _Tp, size_t _Np>
 inline /*_LIBCPP_INLINE_VISIBILITY*/ /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/
 typename enable_if<
     __is_swappable<_Tp>::value
 >::type
-swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value);
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value)
+{
+  for (size_t __i = 0; __i != _Np; ++__i) {
+    swap(__a[__i], __b[__i]);
+  }
+}
 
 
 namespace __detail
-- 
2.43.0


From 1b2b5fcfba884fc10823b0c144b7411ceef41890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:47 +0000
Subject: [PATCH 37/55] fix: hash of a unique_ptr did not compile because
 pointers had no hash

---
 include/nanofunctional.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanofunctional.h b/include/nanofunctional.h
index e9e9fda..21c964d 100644
--- a/include/nanofunctional.h
+++ b/include/nanofunctional.h
@@ -153,6 +153,11 @@ struct __scalar_hash<_Tp, 1>
     }
 };
 
+template <class _Tp>
+struct hash<_Tp*> : public __scalar_hash<_Tp*>
+{
+};
+
 template <>
 struct hash<float> : public __scalar_hash<float>
 {
-- 
2.43.0


From 89a1e49563ce8e60a7cf48c53fb0ade75e6dfdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:47 +0000
Subject: [PATCH 38/55] fix: unique_ptr<T, function pointer>(p) left the
 deleter unset

---
 include/nanomemory.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/nanomemory.h b/include/nanomemory.h
index d7e4002..5a72d2b 100644
--- a/include/nanomemory.h
+++ b/include/nanomemory.h
@@ -459,12 +459,8 @@ public:
   _LIBCPP_INLINE_VISIBILITY
   _LIBCPP_CONSTEXPR unique_ptr(nullptr_t) __NANOSTL_NOEXCEPT : __ptr_(pointer(), __default_init_tag()) {}
 
-  // FIXME:
-  //template <bool _Dummy = true,
-  //          class = _EnableIfDeleterDefaultConstructible<_Dummy> >
-  //_LIBCPP_INLINE_VISIBILITY
-  //explicit unique_ptr(pointer __p) __NANOSTL_NOEXCEPT : __ptr_(__p, __default_init_tag()) {}
-
+  template <bool _Dummy = true,
+            class = _EnableIfDeleterDefaultConstructible<_Dummy> >
   _LIBCPP_INLINE_VISIBILITY
   explicit unique_ptr(pointer __p) __NANOSTL_NOEXCEPT : __ptr_(__p, __default_init_tag()) {}
 
-- 
2.43.0


From cd0a307a2851d08c90523c90f0c7855acfc43367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:43:09 +0000
Subject: [PATCH 39/55] fix: NANOSTL_IMPLEMENTATION pulled std headers into
 namespace nanostl and did not compile

---
 include/nanostring.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index cec62d2..9208c1a 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -276,8 +276,6 @@ double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_STRING_IMPLEMENTATION)
 
-#include "fast_float/fast_float.h"
-
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value) {
   // naiive implementation of base-10 int to ascii
-- 
2.43.0


From d18548c964f4536f54bdd578c931eb3ad5253b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:17 +0000
Subject: [PATCH 40/55] fix: comparing strings stopped at an embedded NUL
 character

---
 include/nanostring.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 9208c1a..7f52974 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -133,7 +133,8 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   int compare(const basic_string &str) const {
-    return compare_(&data_[0], &str[0]);
+    // a string may hold '\0', so compare all of its characters
+    return compare_(&data_[0], size(), &str[0], str.size());
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -190,6 +191,20 @@ class basic_string {
     return *reinterpret_cast<const unsigned char *>(p) -
            *reinterpret_cast<const unsigned char *>(q);
   }
+
+  inline int compare_(const charT *p, size_type n, const charT *q,
+                      size_type m) const {
+    size_type i = 0;
+    while ((i < n) && (i < m) && (p[i] == q[i])) {
+      i++;
+    }
+
+    if (i == n) return (i == m) ? 0 : -1;
+    if (i == m) return 1;
+
+    return *reinterpret_cast<const unsigned char *>(p + i) -
+           *reinterpret_cast<const unsigned char *>(q + i);
+  }
 };
 
 template <class charT>
-- 
2.43.0


From 3d4a2eb7b7e474f75c0deef0d0687f0743075b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:44 +0000
Subject: [PATCH 41/55] fix: vector::resize left the elements it added
 uninitialized or stale

---
 include/nanovector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanovector.h b/include/nanovector.h
index def468e..a6e5678 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -112,6 +112,11 @@ class vector {
       capacity_ = new_capacity;
     }
 
+    // the elements added are value-initialized
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From e97ef63e46d1ec7ef8bc9dcb11ef6d58f52d68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:44 +0000
Subject: [PATCH 42/55] fix: valarray::resize left the elements it added
 uninitialized or stale

---
 include/nanovalarray.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 52b5467..b36cda5 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -112,6 +112,11 @@ class valarray {
       capacity_ = new_capacity;
     }
 
+    // the elements added are value-initialized
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From b810417aa46b055f8b9aa476f32fe259ad65b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:44 +0000
Subject: [PATCH 43/55] fix: pair() left its members uninitialized

---
 include/nanoutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoutility.h b/include/nanoutility.h
index b5c75ee..67935eb 100644
--- a/include/nanoutility.h
+++ b/include/nanoutility.h
@@ -34,7 +34,7 @@ template <class T1, class T2>
 struct pair {
   T1 first;
   T2 second;
-  pair() {}
+  pair() : first(), second() {}
   pair(const T1& a, const T2& b) : first(a), second(b) {}
 };
 
-- 
2.43.0


From 9139b55700e8886982fabb6dd57d988c52832533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:39 +0000
Subject: [PATCH 44/55] fix: operator<<(ostream, string) called itself forever
 and was defined in every translation unit

---
 include/nanostring.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 7f52974..2731fab 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -252,9 +252,12 @@ basic_string<charT> &basic_string<charT>::operator+=(
 typedef basic_string<char> string;
 
 // stream
-ostream &operator<<(ostream &os, const string &s)
+// (a template since `ostream' is complete only after nanoiostream.h)
+template <class Traits>
+inline basic_ostream<char, Traits> &operator<<(basic_ostream<char, Traits> &os,
+                                               const string &s)
 {
-  os << s;
+  os << s.c_str();
 
   return os;
 }
-- 
2.43.0


From 8fa9f12cfd2c3bfb2830ef1fbf1683b5726b531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:52 +0000
Subject: [PATCH 45/55] fix: operator<<(ostream, const void*) was defined in
 every translation unit

---
 include/nanoiostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 7e9afb9..1b7e448 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -177,7 +177,7 @@ basic_ostream<_CharT, _Traits>::operator<<(double __n)
 }
 
 template<>
-basic_ostream<char, nanostl::char_traits<char>>&
+inline basic_ostream<char, nanostl::char_traits<char>>&
 basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 {
   // FIXME: Assume const char *
-- 
2.43.0


From 663b147ef294b639c159705cb4ece27f6ea2704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:09 +0000
Subject: [PATCH 46/55] fix: NANOSTL_IMPLEMENTATION with nanoiostream.h did not
 compile with g++

---
 include/nanoiostream.h | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 1b7e448..7f82495 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -216,15 +216,6 @@ namespace nanostl {
 
 #ifndef NANOSTL_NO_IO
 
-#if __has_feature(cxx_alignas)
-#define _ALIGNAS_TYPE(x) alignas(x)
-#define _ALIGNAS(x) alignas(x)
-#else
-#error TODO
-#define _ALIGNAS_TYPE(x) __attribute__((__aligned__(_LIBCPP_ALIGNOF(x))))
-#define _ALIGNAS(x) __attribute__((__aligned__(x)))
-#endif
-
 ios_base::~ios_base() {
   // TODO
 }
-- 
2.43.0


From d682329f8a29f877890c3c881571b47e7c6e58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:38 +0000
Subject: [PATCH 47/55] fix: valarray::operator+= was declared but never
 defined

---
 include/nanovalarray.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index b36cda5..36068e2 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -232,6 +232,15 @@ inline valarray<T, Allocator>& valarray<T, Allocator>::operator=(
   return *this;
 }
 
+template <class T, class Allocator>
+inline valarray<T, Allocator>& valarray<T, Allocator>::operator+=(
+    const valarray<T, Allocator>& rhs) {
+  for (size_type i = 0; i < size_ && i < rhs.size_; i++) {
+    elements_[i] += rhs.elements_[i];
+  }
+  return *this;
+}
+
 // math functions.
 
 template <class T>
-- 
2.43.0


From 2c35c9dbe30e21ab378d29b29ed12822f8692eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:42 +0000
Subject: [PATCH 48/55] fix: nanoatomic.h did not compile (missing semicolon)

---
 include/nanoatomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoatomic.h b/include/nanoatomic.h
index 8b606e9..e4a4a96 100644
--- a/include/nanoatomic.h
+++ b/include/nanoatomic.h
@@ -30,7 +30,7 @@
 namespace nanostl {
 
 template<class T>
-struct atomic
+struct atomic;
 
 } // namespace nanostl
 
-- 
2.43.0


From 5fc2205b6c2dfffd35a1eba35c6dfb172f9ba99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:34 +0000
Subject: [PATCH 49/55] fix: nanooptional.h did not compile with g++ (qualified
 name in a specialisation)

---
 include/nonstd/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 3c54fef..5145372 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1788,7 +1788,7 @@ using optional_lite::make_optional;
 namespace nanostl {
 
 template< class T >
-struct nanostl::hash< nonstd::optional<T> >
+struct hash< nonstd::optional<T> >
 {
 public:
     nanostl::size_t operator()( nonstd::optional<T> const & v ) const optional_noexcept
-- 
2.43.0


From e1880869851ce38042ce043bffe1abf4f28a9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:52 +0000
Subject: [PATCH 50/55] fix: fabs(-0) was -0

---
 include/nanomath.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 4048467..aac33cb 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -92,13 +92,15 @@ static inline bool __is_subnormal(double arg) {
 
 template <typename T>
 static inline T fabs(T num) {
-  // TODO(LTE): Handle +0 and -0 case correctly.
-  // TODO(LTE): Handle +inf and -inf case correctly.
-
   if (num < static_cast<T>(0)) {
     return -num;
   }
 
+  // +0, -0
+  if (num == static_cast<T>(0)) {
+    return static_cast<T>(0);
+  }
+
   return num;
 }
 
-- 
2.43.0


From ae8821c147d040b5baca024930a2656ccfd47839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:33 +0000
Subject: [PATCH 51/55] fix: hash of a variant did not compile

---
 include/nonstd/variant.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 1920bc7..a2a5f36 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -2370,22 +2370,22 @@ struct hash< nonstd::variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T
 
         switch( v.index() )
         {
-            case 0: return nvd::hash( 0 ) ^ nvd::hash( this->get<0>( v ) );
-            case 1: return nvd::hash( 1 ) ^ nvd::hash( this->get<1>( v ) );
-            case 2: return nvd::hash( 2 ) ^ nvd::hash( this->get<2>( v ) );
-            case 3: return nvd::hash( 3 ) ^ nvd::hash( this->get<3>( v ) );
-            case 4: return nvd::hash( 4 ) ^ nvd::hash( this->get<4>( v ) );
-            case 5: return nvd::hash( 5 ) ^ nvd::hash( this->get<5>( v ) );
-            case 6: return nvd::hash( 6 ) ^ nvd::hash( this->get<6>( v ) );
-            case 7: return nvd::hash( 7 ) ^ nvd::hash( this->get<7>( v ) );
-            case 8: return nvd::hash( 8 ) ^ nvd::hash( this->get<8>( v ) );
-            case 9: return nvd::hash( 9 ) ^ nvd::hash( this->get<9>( v ) );
-            case 10: return nvd::hash( 10 ) ^ nvd::hash( this->get<10>( v ) );
-            case 11: return nvd::hash( 11 ) ^ nvd::hash( this->get<11>( v ) );
-            case 12: return nvd::hash( 12 ) ^ nvd::hash( this->get<12>( v ) );
-            case 13: return nvd::hash( 13 ) ^ nvd::hash( this->get<13>( v ) );
-            case 14: return nvd::hash( 14 ) ^ nvd::hash( this->get<14>( v ) );
-            case 15: return nvd::hash( 15 ) ^ nvd::hash( this->get<15>( v ) );
+            case 0: return nvd::hash( 0 ) ^ nvd::hash( nonstd::get<0>( v ) );
+            case 1: return nvd::hash( 1 ) ^ nvd::hash( nonstd::get<1>( v ) );
+            case 2: return nvd::hash( 2 ) ^ nvd::hash( nonstd::get<2>( v ) );
+            case 3: return nvd::hash( 3 ) ^ nvd::hash( nonstd::get<3>( v ) );
+            case 4: return nvd::hash( 4 ) ^ nvd::hash( nonstd::get<4>( v ) );
+            case 5: return nvd::hash( 5 ) ^ nvd::hash( nonstd::get<5>( v ) );
+            case 6: return nvd::hash( 6 ) ^ nvd::hash( nonstd::get<6>( v ) );
+            case 7: return nvd::hash( 7 ) ^ nvd::hash( nonstd::get<7>( v ) );
+            case 8: return nvd::hash( 8 ) ^ nvd::hash( nonstd::get<8>( v ) );
+            case 9: return nvd::hash( 9 ) ^ nvd::hash( nonstd::get<9>( v ) );
+            case 10: return nvd::hash( 10 ) ^ nvd::hash( nonstd::get<10>( v ) );
+            case 11: return nvd::hash( 11 ) ^ nvd::hash( nonstd::get<11>( v ) );
+            case 12: return nvd::hash( 12 ) ^ nvd::hash( nonstd::get<12>( v ) );
+            case 13: return nvd::hash( 13 ) ^ nvd::hash( nonstd::get<13>( v ) );
+            case 14: return nvd::hash( 14 ) ^ nvd::hash( nonstd::get<14>( v ) );
+            case 15: return nvd::hash( 15 ) ^ nvd::hash( nonstd::get<15>( v ) );
 
             default: return 0;
         }
-- 
2.43.0


From 1c51cf7043c6f5b78cf58806ad8aecad466d92a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:47:31 +0000
Subject: [PATCH 52/55] fix: constructing a tuple from a tuple of other types
 did not compile

---
 include/tao/tuple/tuple.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index f4c2633..0553817 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -320,6 +320,10 @@ namespace tao
          }
       };
 
+      // selects the constructor that takes its elements from another tuple
+      struct from_tuple
+      {};
+
       template< typename, typename... >
       struct tuple_base;
 
@@ -334,6 +338,11 @@ namespace tao
             : tuple_value< Is, Ts >( nanostl::forward< Us >( us ) )...
          {}
 
+         template< typename T >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( from_tuple, T&& v )
+            : tuple_value< Is, Ts >( get< Is >( nanostl::forward< T >( v ) ) )...
+         {}
+
          template< typename A, typename... Us >
          TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( nanostl::allocator_arg_t, const A& a, Us&&... us )
             : tuple_value< Is, Ts >( uses_alloc_ctor_t< Ts, A, Us >(), a, nanostl::forward< Us >( us ) )...
@@ -437,7 +446,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, const Us& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( const tuple< Us... >& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, const Us& >::value... >::value )
-         : base( v )
+         : base( impl::from_tuple(), v )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
@@ -445,7 +454,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, Us&& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( tuple< Us... >&& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, Us&& >::value... >::value )
-         : base( nanostl::move( v ) )
+         : base( impl::from_tuple(), nanostl::move( v ) )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
-- 
2.43.0


From 7eba08c65b706e36761d12f9ef1620f9539002e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:48:14 +0000
Subject: [PATCH 53/55] fix: constructing a tuple from a tuple with an
 allocator did not compile

---
 include/tao/tuple/tuple.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index 0553817..f96aeb2 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -348,6 +348,16 @@ namespace tao
             : tuple_value< Is, Ts >( uses_alloc_ctor_t< Ts, A, Us >(), a, nanostl::forward< Us >( us ) )...
          {}
 
+         template< typename A >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( nanostl::allocator_arg_t, const A& a )
+            : tuple_value< Is, Ts >( uses_alloc_ctor_t< Ts, A >(), a )...
+         {}
+
+         template< typename A, typename T >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( nanostl::allocator_arg_t, const A& a, from_tuple, T&& v )
+            : tuple_value< Is, Ts >( uses_alloc_ctor_t< Ts, A, decltype( get< Is >( nanostl::forward< T >( v ) ) ) >(), a, get< Is >( nanostl::forward< T >( v ) ) )...
+         {}
+
          tuple_base( const tuple_base& ) = default;
          tuple_base( tuple_base&& ) = default;
          tuple_base& operator=( const tuple_base& v ) = default;
@@ -489,14 +499,14 @@ namespace tao
       template< typename A >
       TAO_TUPLE_CUDA_ANNOTATE_COMMON
       tuple( nanostl::allocator_arg_t, const A& a, const tuple& v )
-         : base( nanostl::allocator_arg_t(), a, v )
+         : base( nanostl::allocator_arg_t(), a, impl::from_tuple(), v )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
       template< typename A >
       TAO_TUPLE_CUDA_ANNOTATE_COMMON
       tuple( nanostl::allocator_arg_t, const A& a, tuple&& v )
-         : base( nanostl::allocator_arg_t(), a, nanostl::move( v ) )
+         : base( nanostl::allocator_arg_t(), a, impl::from_tuple(), nanostl::move( v ) )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
@@ -506,7 +516,7 @@ namespace tao
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, const Us& >::value... >::value > >
       TAO_TUPLE_CUDA_ANNOTATE_COMMON
       tuple( nanostl::allocator_arg_t, const A& a, const tuple< Us... >& v )
-         : base( nanostl::allocator_arg_t(), a, v )
+         : base( nanostl::allocator_arg_t(), a, impl::from_tuple(), v )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
@@ -516,7 +526,7 @@ namespace tao
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, Us&& >::value... >::value > >
       TAO_TUPLE_CUDA_ANNOTATE_COMMON
       tuple( nanostl::allocator_arg_t, const A& a, tuple< Us... >&& v )
-         : base( nanostl::allocator_arg_t(), a, nanostl::move( v ) )
+         : base( nanostl::allocator_arg_t(), a, impl::from_tuple(), nanostl::move( v ) )
       {}
 
       // 20.4.2.2 Assignment [tuple.assign]
-- 
2.43.0


From 01e035a35a553576f7be57cbb77cbdcc177c708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:06 +0000
Subject: [PATCH 54/55] fix: floor and ceil of tiny and of large values

---
 include/nanomath.h | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index aac33cb..8b4cdd9 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -104,36 +104,37 @@ static inline T fabs(T num) {
   return num;
 }
 
-// https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-// FIXME(LTE): Won't work for large float value.
+// At or above 2^(digits - 1) every floating point value is an integer (and NaN
+// and infinity have no nearest one): return those as they are. Everything below
+// that fits `long long`.
 template <typename T>
 static inline T ceil(T num) {
-  int inum = int(num);
-  T diff = num - static_cast<T>(inum);
-  if (fabs(diff) < nanostl::numeric_limits<T>::epsilon()) {
-    return inum;
+  const T scaled = num * nanostl::numeric_limits<T>::epsilon();
+  if (!(scaled < static_cast<T>(1)) || !(scaled > static_cast<T>(-1))) {
+    return num;
   }
 
-  if (num > static_cast<T>(0)) {
-    return inum + 1;
-  } else {
-    return inum;
+  T inum = static_cast<T>(static_cast<long long>(num));
+  if (inum < num) {
+    return inum + static_cast<T>(1);
   }
+
+  return inum;
 }
 
-// https://stackoverflow.com/questions/5122993/floor-int-function-implementaton
 template <typename T>
 static inline T floor(T x) {
-  if (x >= static_cast<T>(0)) {
-    return int(x);
-  } else {
-    int y = int(x);
-    if (fabs(static_cast<T>(y) - x) < nanostl::numeric_limits<T>::epsilon()) {
-      return y;
-    } else {
-      return y - 1;
-    }
+  const T scaled = x * nanostl::numeric_limits<T>::epsilon();
+  if (!(scaled < static_cast<T>(1)) || !(scaled > static_cast<T>(-1))) {
+    return x;
+  }
+
+  T y = static_cast<T>(static_cast<long long>(x));
+  if (x < y) {
+    return y - static_cast<T>(1);
   }
+
+  return y;
 }
 
 static inline bool isfinite(float x) {
-- 
2.43.0


From c59a2bfcaee1f3ad0565889247cdab1e8f631f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 55/55] fix: atomic store and swap left 0 in the cell instead
 of the new value

---
 src/libs_thread.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7620d93..deb5a16 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1037,8 +1037,7 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
+        __atomic_store_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1118,9 +1117,7 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        int old = (int)__sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
-        return old;
+        return (int)__atomic_exchange_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1174,8 +1171,7 @@ void thread_atomic_ptr_store( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
+        __atomic_store_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1196,9 +1192,7 @@ void* thread_atomic_ptr_swap( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* old = __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
-        return old;
+        return __atomic_exchange_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
-- 
2.43.0

