From 283b68a9ab964466913104544a517f92e8ffe9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:57 +0000
Subject: [PATCH 001/125] fix: out-of-bounds read of dims when reporting a bad
 multi-dimensional index

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 857143b..f0b2ffb 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -298,7 +298,7 @@ namespace vec_access {
 
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T ui, meta::cte_t<false>) {
-        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[D], ")");
+        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
 
-- 
2.43.0


From 2b53f244999886510c0ecde9f05aa9d25bdd731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:57 +0000
Subject: [PATCH 002/125] fix: accept negative indices in index vectors given
 to operator()

---
 include/vif/core/bits/access.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f0b2ffb..43416b6 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -422,7 +422,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<Dim-1>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[ivx+to_idx<Dim-1>(v,j)]);
                 ++itx;
             }
@@ -457,7 +457,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<IV>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids, const Args2& ... i) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 make_indices_(t, itx, v, ivx + to_idx<IV>(v,j)*pitch[IV], meta::cte_t<IV+1>(),
                     pitch, i...
                 );
@@ -542,7 +542,7 @@ namespace vec_access {
             t.resize();
 
             uint_t itx = 0;
-            for (uint_t i : ids) {
+            for (auto i : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[to_idx(v,i)]);
                 ++itx;
             }
-- 
2.43.0


From 189de7a08d2892075d032b48deb8f707bbe62412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:57 +0000
Subject: [PATCH 003/125] fix: negative index of a narrow integer type in a
 vector larger than that type

---
 include/vif/core/bits/access.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 43416b6..f81a9c2 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -290,8 +290,9 @@ namespace vec_access {
     template<typename T>
     uint_t to_idx_(uint_t size, T i, meta::cte_t<true>) {
         vif_check(size > 0, "operator[]: index out of bounds (", i, " vs. ", size, ")");
-        while (i < 0) i += size;
-        uint_t ui(i);
+        int_t si = i;
+        while (si < 0) si += size;
+        uint_t ui(si);
         vif_check(ui < size, "operator[]: index out of bounds (", ui, " vs. ", size, ")");
         return ui;
     }
@@ -305,8 +306,9 @@ namespace vec_access {
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T i, meta::cte_t<true>) {
         vif_check(dims[I] > 0, "operator[]: index out of bounds (", i, " vs. ", dims[I], ")");
-        while (i < 0) i += dims[I];
-        uint_t ui(i);
+        int_t si = i;
+        while (si < 0) si += dims[I];
+        uint_t ui(si);
         vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
-- 
2.43.0


From e96f1b91036dc3b96aeed2f77af382c53fe5a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:37 +0000
Subject: [PATCH 004/125] fix: vec compound assignment takes its scalar operand
 by value (v += v[0])

---
 include/vif/core/vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..df4cdce 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -589,7 +589,7 @@ namespace vif {
             template<typename U, typename enable = typename std::enable_if< \
                 meta::is_scalar<U>::value \
             >::type> \
-            vec& operator op (const U& u) { \
+            vec& operator op (U u) { \
                 for (auto& v : data) { \
                     v op u; \
                 } \
-- 
2.43.0


From 5b58fc1f1388f33402a20a503d1c2eae53944ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:37 +0000
Subject: [PATCH 005/125] fix: detect aliasing when one of the operands is a
 view on constant data

---
 include/vif/core/vec.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index df4cdce..6a6d2cf 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -196,6 +196,11 @@ namespace vif {
             return v.view_same(*this);
         }
 
+        template<std::size_t D>
+        bool view_same(const vec<D,const Type*>& v) const {
+            return v.view_same(*this);
+        }
+
         bool empty() const {
             return data.empty();
         }
@@ -802,13 +807,18 @@ namespace vif {
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        bool view_same(const vec<D,rtype*>& v) const {
+            return v.parent == parent;
+        }
+
+        template<std::size_t D>
+        bool view_same(const vec<D,const rtype*>& v) const {
             return v.parent == parent;
         }
 
         template<std::size_t D>
-        bool view_same(const vec<D,Type>& v) const {
-            return static_cast<void*>(const_cast<vec<D,Type>*>(&v)) == parent;
+        bool view_same(const vec<D,rtype>& v) const {
+            return static_cast<void*>(const_cast<vec<D,rtype>*>(&v)) == parent;
         }
 
         bool empty() const {
-- 
2.43.0


From 88458768b86366de232a4d4cb8d659094d29b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:37 +0000
Subject: [PATCH 006/125] fix: a range of a view refers to the viewed vector,
 so that aliasing is detected

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f81a9c2..c30db6b 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -645,7 +645,7 @@ namespace vec_access {
     template<typename V, typename T>
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
-        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, parent);
+        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
-- 
2.43.0


From d9a2a8a61e6f15f2cc92d47e7ccd577e09c23e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:37 +0000
Subject: [PATCH 007/125] fix: a vector moved from by assignment is left empty,
 with consistent dimensions

---
 include/vif/core/vec.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 6a6d2cf..745f781 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -145,8 +145,11 @@ namespace vif {
         }
 
         vec& operator = (vec&& v) {
-            data = std::move(v.data);
-            dims = std::move(v.dims);
+            if (this != &v) {
+                data = std::move(v.data);
+                dims = v.dims;
+                v.clear();
+            }
             return *this;
         }
 
-- 
2.43.0


From 12d860c301090fdfec20916286d2ff258bd6c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:16 +0000
Subject: [PATCH 008/125] fix: parallel_for with a first index other than 0, or
 a single worker, ran the wrong indices

---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..3f568ad 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, i0, i1, iend, di;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 == iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -103,7 +103,8 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                iend = ilast;
+                i1 = std::min(ifirst + di, iend);
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From 238c1a70df01ed48f1a9b146fa58ccb8fe8365ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:53 +0000
Subject: [PATCH 009/125] fix: restarting a running worker pool waited forever
 for the old workers

---
 include/vif/utility/bits/thread-worker-pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/utility/bits/thread-worker-pool.hpp b/include/vif/utility/bits/thread-worker-pool.hpp
index a5d4326..bc2ba74 100644
--- a/include/vif/utility/bits/thread-worker-pool.hpp
+++ b/include/vif/utility/bits/thread-worker-pool.hpp
@@ -100,6 +100,7 @@ namespace thread {
 
         template<typename F, typename ... Args>
         void start(uint_t nthread, const F& f, const Args&... args) {
+            join();
             workers.clear();
             workers.reserve(nthread);
             for (uint_t i = 0; i < nthread; ++i) {
-- 
2.43.0


From 382df0e704e97fa74c69f04d176db6f76ec841a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 010/125] fix: match() of large vectors lost duplicates of the
 first vector, matched NaNs, and returned the matches in another order

---
 include/vif/utility/bits/generic-find.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 99e4769..669dc8a 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -226,6 +226,8 @@ namespace vif {
             vec1u ids1 = sort(v1);
             vec1u ids2 = sort(v2);
 
+            std::vector<uint_t> matched(n1, npos);
+
             uint_t i1 = 0, i2 = 0;
             while (i1 < n1 && i2 < n2) {
                 auto tv1 = v1.safe[ids1.safe[i1]];
@@ -234,10 +236,21 @@ namespace vif {
                     ++i1;
                 } else if (tv1 > tv2) {
                     ++i2;
+                } else if (tv1 == tv2) {
+                    matched[ids1.safe[i1]] = ids2.safe[i2];
+                    // Keep i2, the next values of v1 may be the same
+                    ++i1;
                 } else {
-                    id1.data.push_back(ids1.safe[i1]);
-                    id2.data.push_back(ids2.safe[i2]);
-                    ++i1; ++i2;
+                    // Only invalid values (NaN) remain in one of the vectors
+                    break;
+                }
+            }
+
+            // Return the matches in the order of v1
+            for (uint_t i : range(n1)) {
+                if (matched[i] != npos) {
+                    id1.data.push_back(i);
+                    id2.data.push_back(matched[i]);
                 }
             }
 
-- 
2.43.0


From 19870971e56934a6686811281080693dcc4da11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 011/125] fix: set_intersection() and set_union() on views did
 not compile

---
 include/vif/utility/bits/generic-find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 669dc8a..3359fbf 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -288,7 +288,7 @@ namespace vif {
 
         template<std::size_t D, typename T>
         vec<D,meta::rtype_t<T>> make_sorted_(vec<D,T*> v) {
-            auto tv = v.concretize();
+            auto tv = v.concretise();
             inplace_sort(tv);
             return std::move(tv);
         }
-- 
2.43.0


From 04721fc56c3e705dcfc5fdd2481eb47e0ace811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 012/125] fix: equal_range() returned one past the last equal
 value, and positions when there was none

---
 include/vif/utility/bits/generic-find.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 3359fbf..52ce3d0 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -434,9 +434,9 @@ namespace vif {
         auto tres = std::equal_range(v.data.begin(), v.data.end(), x,
             typename vec<Dim,Type>::comparator_less());
 
-        if (tres.first != v.data.end()) {
+        if (tres.first != tres.second) {
             res[0] = tres.first - v.data.begin();
-            res[1] = tres.second - v.data.begin();
+            res[1] = tres.second - v.data.begin() - 1;
         } else {
             res[0] = res[1] = npos;
         }
-- 
2.43.0


From 55e3f0fcde091c99890bb9dac5f400c6004b5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 013/125] fix: is_sorted() rejected repeated values and read
 out of bounds on an empty vector

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..053b168 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -108,8 +108,10 @@ namespace vif {
     // Check if a given array is sorted or not
     template<std::size_t Dim, typename Type>
     bool is_sorted(const vec<Dim,Type>& v) {
+        if (v.empty()) return true;
+
         for (uint_t i : range(1, v.size())) {
-            if (!typename vec<Dim,Type>::comparator_less()(v.safe[i-1], v.safe[i])) return false;
+            if (typename vec<Dim,Type>::comparator_less()(v.safe[i], v.safe[i-1])) return false;
         }
 
         return true;
-- 
2.43.0


From 9bb32ca6ad37e0ca2f70e2e0ea0a4192803f8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 014/125] fix: shift() of an empty vector divided by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 053b168..a22ac9d 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -12,6 +12,8 @@ namespace vif {
     template<typename Type,
         typename enable = typename std::enable_if<!std::is_pointer<Type>::value>::type>
     void inplace_shift(vec<1,Type>& v, int_t n) {
+        if (v.empty()) return;
+
         n = (-n) % int_t(v.size());
         if (n < 0) n = int_t(v.size())+n;
 
-- 
2.43.0


From cee64f080973afc8deabc0f596112f3f64cf9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 015/125] fix: replicate() of an empty vector divided by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a22ac9d..4656d30 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -55,6 +55,8 @@ namespace vif {
         static const std::size_t FDim = Dim+meta::dim_total<Args...>::value;
         vec<FDim, meta::rtype_t<Type>> v(std::forward<Args>(args)..., t.dims);
 
+        if (t.empty()) return v;
+
         std::size_t pitch = t.size();
         std::size_t n = v.size()/pitch;
         for (uint_t i : range(n))
-- 
2.43.0


From a16bd8f4a09202214d13efa4bd484ddf1ba138c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 016/125] fix: remove() did not detect all the invalid or
 duplicate indices

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 4656d30..c85693f 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -128,7 +128,7 @@ namespace vif {
 
         uint_t i = 0;
         uint_t pitch = v.pitch(0);
-        uint_t osize = v.size();
+        uint_t osize = v.dims[0];
         while (i < ids.size()) {
             uint_t i1 = ids.safe[ids.size()-1-i];
             uint_t i0 = i1;
@@ -138,9 +138,9 @@ namespace vif {
 
             ++i;
             while (i < ids.size() && i0 - ids.safe[ids.size()-1-i] <= 1) {
+                vif_check(i0 != ids.safe[ids.size()-1-i], "remove indices contain duplicates");
                 i0 = ids.safe[ids.size()-1-i];
 
-                vif_check(i0 != i1, "remove indices contain duplicates");
                 vif_check(i0 < osize, "trying to erase value ", i0, " in vector of "
                     "dimensions ", v.dims);
 
-- 
2.43.0


From b564bd61564dd4a699c5e738440866346e89ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 017/125] fix: append() accepted vectors of incompatible
 dimensions

---
 include/vif/utility/bits/generic-rearrange.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index c85693f..a8c75c3 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -171,8 +171,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot append dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
-- 
2.43.0


From d8b51e2cf6eda0c45a71fba471ce9b540e54847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 018/125] fix: prepend() accepted vectors of incompatible
 dimensions

---
 include/vif/utility/bits/generic-rearrange.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a8c75c3..7df5d33 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -196,8 +196,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot prepend dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
-- 
2.43.0


From e5488992339ced4ad4dda7c1d8689eea5bbf1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:07 +0000
Subject: [PATCH 019/125] fix: percentile(s) returned NaN for the highest
 percentile of data with NaNs

---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd1f59d..ff513cf 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -213,7 +213,7 @@ namespace vif {
 
         uint_t nwrong = impl::count_nans_(v);
         if (nwrong == v.size()) return dnan;
-        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
     }
 
     template<std::size_t Dim, typename Type, typename U, typename enable = typename std::enable_if<
@@ -231,7 +231,7 @@ namespace vif {
         void percentiles_(vec<1,meta::rtype_t<Type>>& r, uint_t i, vec<Dim,Type>& v, uint_t nwrong,
             const U& u, const Args& ... args) {
 
-            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
             ++i;
 
             percentiles_(r, i, v, nwrong, args...);
-- 
2.43.0


From 1d4103959ec7861f446e6066eefaf4692af9cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:35 +0000
Subject: [PATCH 020/125] fix: the weighted histogram of a 2D vector was
 ambiguous and did not compile

---
 include/vif/math/histogram.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 731d2a1..36e9186 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -264,7 +264,8 @@ namespace vif {
         }
     }
 
-    template<std::size_t Dim, typename Type, typename TypeB, typename TypeF>
+    template<std::size_t Dim, typename Type, typename TypeB, typename TypeF,
+        typename enable = typename std::enable_if<!meta::is_vec<TypeF>::value>::type>
     void histogram(const vec<Dim,Type>& x, const vec<2,TypeB>& bins, TypeF&& func) {
         using iterator = vec1u::const_iterator;
         vec1u tids;
-- 
2.43.0


From ab38a69b66806848281bc5e0ecf047b9555eb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:35 +0000
Subject: [PATCH 021/125] fix: cumul_reverse() only summed two consecutive
 values

---
 include/vif/math/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 36e9186..3f04ba9 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -380,7 +380,7 @@ namespace vif {
         vec<1,meta::rtype_t<TypeY>> dr(y.dims);
         for (uint_t i : range(y)) {
             uint_t ri = y.size()-1-i;
-            if (i != 0) dr.safe[ri] = y.safe[ri+1];
+            if (i != 0) dr.safe[ri] = dr.safe[ri+1];
             dr.safe[ri] += y.safe[ri];
         }
 
-- 
2.43.0


From e5b484c7c625f8b9a855bb2d4193c8d087714875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:39 +0000
Subject: [PATCH 022/125] fix: integrate() of binned data over a range used the
 wrong value for the first partial bin

---
 include/vif/math/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index ff513cf..12946cc 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -785,7 +785,7 @@ namespace vif {
                 r += y.safe[i]*(x.safe[i+x.dims[1]]-x.safe[i]);
             }
 
-            r += y.safe[i0]*(x.safe[i0] - x0);
+            r += y.safe[i0-1]*(x.safe[i0] - x0);
             r += y.safe[i1]*(x1 - x.safe[i1]);
 
             return r;
-- 
2.43.0


From 3fb16c26d349931848e6ff68ad1497246a4ecdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:39 +0000
Subject: [PATCH 023/125] fix: integrate() over a range starting at the last
 point read out of bounds

---
 include/vif/math/reduce.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 12946cc..99946b8 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -736,6 +736,11 @@ namespace vif {
         uint_t i0 = upper_bound(x, x0);
         uint_t i1 = lower_bound(x, x1);
 
+        if (i0 == npos) {
+            // x0 is the last value of the x array
+            i0 = x.size()-1;
+        }
+
         if (i0 > i1) {
             double y0 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x0);
             double y1 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x1);
@@ -810,6 +815,7 @@ namespace vif {
             // No hint provided, look for solution the best way we can
             i0 = upper_bound(x, x0);
             if (i0 == npos) {
+                i0 = x.size()-1;
                 i1 = x.size()-1;
             } else {
                 i1 = i0-1;
-- 
2.43.0


From b0ceac1f9f971464f9a04fb391571a0d2bcb1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:39 +0000
Subject: [PATCH 024/125] fix: cubic spline interpolation on an irregular grid
 was not smooth

---
 include/vif/math/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 8469068..16c3a2c 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -285,7 +285,7 @@ namespace vif {
             vec1d al(n);
             for (uint_t i : range(1, n)) {
                 al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i];
+                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
-- 
2.43.0


From 55756a14de73cdf3cbc34371696305c22d7eb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:36 +0000
Subject: [PATCH 025/125] fix: integrate() and cumul() of empty data read out
 of bounds

---
 include/vif/math/reduce.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 99946b8..14410b3 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -694,6 +694,8 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
+        if (x.empty()) return r;
+
         for (uint_t i : range(1, x.size())) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
         }
@@ -876,6 +878,8 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
+        if (x.empty()) return dr;
+
         for (uint_t i : range(1, x.size())) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
             dr.safe[i] = r;
-- 
2.43.0


From 53a0b15ce0f2683f3a8b2749395c5f5275eeb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:10 +0000
Subject: [PATCH 026/125] fix: cut() dropped the last, shorter piece of the
 string

---
 include/vif/utility/bits/string-split.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 10f75fa..37b5581 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -38,7 +38,7 @@ namespace vif {
     }
 
     inline vec1s cut(const std::string& ts, uint_t size) {
-        uint_t ncut = floor(ts.size()/float(size));
+        uint_t ncut = (ts.size() + size - 1)/size;
         vec1s res(ncut);
         for (uint_t i = 0; i < ncut; ++i) {
             res.safe[i] = ts.substr(i*size, std::min(size, ts.size() - i*size));
-- 
2.43.0


From 3eefc7dea34751dd017ca674ba289f4bce0c7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:10 +0000
Subject: [PATCH 027/125] fix: get_word() returned an empty string when the
 string is a single word

---
 include/vif/utility/bits/string-find-replace.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 2aaad86..5be673b 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -129,8 +129,7 @@ namespace vif {
                 ++nw;
             }
 
-            p2 = (p2 == str.npos ? str.npos : p2-1);
-            return str.substr(p1, p2-p1+1);
+            return str.substr(p1, p2 == str.npos ? str.npos : p2-p1);
         }
     }
 
-- 
2.43.0


From 17dfc442e3958367049be17cf448704d145d50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:10 +0000
Subject: [PATCH 028/125] fix: replace_blocks() looked for separators beyond
 the end of the block

---
 include/vif/utility/bits/string-find-replace.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 5be673b..c19ab46 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -176,16 +176,16 @@ namespace vif {
 
             vec1s b;
 
-            p0 = os.find(sep, p);
-            while (p0 != npos) {
-                b.push_back(os.substr(p, p0-p));
-                p0 += sep.size();
-                p = p0;
+            uint_t ps = os.find(sep, p);
+            p0 = os.find(end, p);
+            while (ps != npos && ps <= p0) {
+                b.push_back(os.substr(p, ps-p));
+                p = ps + sep.size();
 
-                p0 = os.find(sep, p);
+                ps = os.find(sep, p);
+                p0 = os.find(end, p);
             }
 
-            p0 = os.find(end, p);
             vif_check(p0 != npos, "ill formed "+begin+"..."+end+" command");
 
             b.push_back(os.substr(p, p0-p));
-- 
2.43.0


From 76c23864caf76531646c24c59325c570bf9a3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:31 +0000
Subject: [PATCH 029/125] fix: regex_replace() failed on groups that are
 optional, and groups were miscounted

---
 include/vif/utility/bits/string-regex.hpp | 24 +++++++----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 34c4f3d..2922974 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -36,20 +36,6 @@ namespace vif {
         inline bool regex_match_(const std::string& ts, regex_t& re) {
             return regexec(&re, ts.c_str(), std::size_t(0), nullptr, 0) == 0;
         }
-
-        inline uint_t regex_find_nmatch_(const std::string& regex) {
-            uint_t nmatch = 0;
-            uint_t p = regex.find_first_of('(');
-            while (p != npos) {
-                if (p == 0 || regex[p-1] != '\\') {
-                    ++nmatch;
-                }
-
-                p = regex.find_first_of('(', p+1);
-            }
-
-            return nmatch;
-        }
     }
     }
 
@@ -93,7 +79,7 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
         if (nmatch == 0) return ret;
 
         std::vector<regmatch_t> m(nmatch+1);
@@ -127,7 +113,7 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
@@ -139,7 +125,11 @@ namespace vif {
             vec1s ext;
             ext.reserve(nmatch);
             for (uint_t i : range(nmatch)) {
-                ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                if (m[i+1].rm_eo > m[i+1].rm_so) {
+                    ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                } else {
+                    ext.push_back("");
+                }
             }
 
             s += func(std::move(ext));
-- 
2.43.0


From 6f4b45f26554a15ec6f08caeeef32271dd0f8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:50 +0000
Subject: [PATCH 030/125] fix: regex_extract() and regex_replace() never
 returned after an empty match, and '^' matched after each match

---
 include/vif/utility/bits/string-regex.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 2922974..f81f945 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -100,7 +100,13 @@ namespace vif {
             append<0>(ret, reform(std::move(tret), 1, nmatch));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            if (m[0].rm_eo == m[0].rm_so) {
+                // Empty match: move on to the next character
+                if (offset >= ts.size()) break;
+                ++offset;
+            }
+
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
         return ret;
@@ -135,7 +141,14 @@ namespace vif {
             s += func(std::move(ext));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            if (m[0].rm_eo == m[0].rm_so) {
+                // Empty match: move on to the next character
+                if (offset >= ts.size()) break;
+                s += ts[offset];
+                ++offset;
+            }
+
+            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
         s += ts.substr(offset);
-- 
2.43.0


From 0e8631dde8e250e74443874a1d485422d46537b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:50 +0000
Subject: [PATCH 031/125] fix: regex_extract() and regex_replace() leaked the
 compiled regex

---
 include/vif/utility/bits/string-regex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index f81f945..7202eae 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -80,7 +80,10 @@ namespace vif {
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
         uint_t nmatch = re.re_nsub;
-        if (nmatch == 0) return ret;
+        if (nmatch == 0) {
+            regfree(&re);
+            return ret;
+        }
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
@@ -109,6 +112,7 @@ namespace vif {
             status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
+        regfree(&re);
         return ret;
     }
 
@@ -151,6 +155,7 @@ namespace vif {
             status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), REG_NOTBOL);
         }
 
+        regfree(&re);
         s += ts.substr(offset);
 
         return s;
-- 
2.43.0


From d362429ac408ef38400af7925b5335c761ec874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:12 +0000
Subject: [PATCH 032/125] fix: read empty first fields of lines with
 single-delimiter tables

---
 include/vif/io/ascii.hpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index b5897e4..f635ebc 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -86,18 +86,12 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         pos = p1;
                     } else {
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
@@ -112,10 +106,6 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         sub = line.substr(pos);
@@ -124,8 +114,6 @@ namespace impl {
                         sub = line.substr(pos, p1-pos);
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
-- 
2.43.0


From e8d4abefd72dac668884e5018064fdaa8350436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:12 +0000
Subject: [PATCH 033/125] fix: skip more lines than there are in a table
 without underflow

---
 include/vif/io/ascii.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index f635ebc..fcf2a80 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -331,7 +331,7 @@ namespace ascii {
                     ++n;
                 }
 
-                n -= opts.skip_first;
+                n -= std::min(n, opts.skip_first);
             }
 
             // Resize all vectors
-- 
2.43.0


From e464cce7ed5a1e9d27f5b422360add65f5493b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:12 +0000
Subject: [PATCH 034/125] fix: detect columns of different sizes when the first
 one is empty

---
 include/vif/io/ascii.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index fcf2a80..dca6c4c 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -457,7 +457,7 @@ namespace impl {
 
             static_assert(Dim <= 2, "cannot write vectors of more than two dimensions");
 
-            if (r == 0) {
+            if (c == 0) {
                 r = v.dims[0];
             }
 
-- 
2.43.0


From 9357a862048fe3d944a284c9270b9b34a3b33dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:28 +0000
Subject: [PATCH 035/125] fix: do not let remove_hdu() delete the primary HDU,
 and leave the value alone when a keyword is missing

---
 include/vif/io/fits/base.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 7e64ae3..3c4a9c2 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -516,9 +516,11 @@ namespace impl {
                 char content[80];
                 int status = 0;
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
+                if (status != 0) return false;
+
                 value = content;
                 value = trim(value, " '");
-                return status == 0;
+                return true;
             }
 
             template <typename T>
@@ -765,6 +767,8 @@ namespace impl {
             void remove_hdu() {
                 check_is_open_();
 
+                vif_check_fits(current_hdu() != 0, "the primary HDU cannot be removed");
+
                 fits_delete_hdu(fptr_, nullptr, &status_);
                 fits::vif_check_cfitsio(status_, "could not remove the current HDU");
 
-- 
2.43.0


From 9647f8510b97bdd9ce73bddda8a3fe120bcc5733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:28 +0000
Subject: [PATCH 036/125] fix: FITS handles can be opened again after a failed
 open(), and keep their table format when moved

---
 include/vif/io/fits/base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 3c4a9c2..5d77d97 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -382,7 +382,7 @@ namespace impl {
             }
 
             file_base(file_base&& in) noexcept : type_(in.type_), rights_(in.rights_),
-                filename_(in.filename_), fptr_(in.fptr_), status_(in.status_) {
+                filename_(in.filename_), fptr_(in.fptr_), status_(in.status_), format_(in.format_) {
                 in.fptr_ = nullptr;
             }
 
@@ -392,6 +392,7 @@ namespace impl {
 
             void open(const std::string& filename) {
                 close();
+                status_ = 0;
 
                 if (rights_ == write_only || (rights_ == read_write && !file::exists(filename))) {
                     fits_create_file(&fptr_, ("!"+filename).c_str(), &status_);
-- 
2.43.0


From 58116e11570125ecaf89c91f5efeda3b6f97a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:28 +0000
Subject: [PATCH 037/125] fix: reach_hdu() adds missing HDUs at the end of the
 file

---
 include/vif/io/fits/base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 5d77d97..34be7c4 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -597,6 +597,12 @@ namespace impl {
                         "FITS file (", hdu, " vs. ", nhdu, ")");
                 } else {
                     if (hdu >= nhdu) {
+                        // Go to the last HDU, because new HDUs are inserted after the current one
+                        if (nhdu != 0) {
+                            fits_movabs_hdu(fptr_, nhdu, nullptr, &status_);
+                            fits::vif_check_cfitsio(status_, "could not reach HDU "+to_string(nhdu-1));
+                        }
+
                         // Create missing HDUs to be able to reach the one requested
                         long naxes = 0;
                         for (uint_t i = nhdu; i <= hdu; ++i) {
-- 
2.43.0


From 9757e86eadc6ff85b2ced3e5a11a9822146e6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:02 +0000
Subject: [PATCH 038/125] fix: read infinities from FITS images and tables, not
 NaN

---
 include/vif/io/fits/base.hpp  | 16 ++++++++++++++++
 include/vif/io/fits/image.hpp | 27 ++++++++++++++-------------
 include/vif/io/fits/table.hpp |  8 ++++----
 3 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 34be7c4..ae20912 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -656,6 +656,22 @@ namespace impl {
 
         protected :
 
+            // Value to give CFITSIO to replace undefined values in data of the given type
+            // NB: there is nothing to replace in floating point data, and CFITSIO would also
+            // replace infinities
+            template<typename T>
+            static T* null_value_(int type, T& def) {
+                return type == TFLOAT || type == TDOUBLE ? nullptr : &def;
+            }
+
+            template<typename T>
+            T* column_null_value_(int cid, T& def) const {
+                int type = 0;
+                long repeat = 0, width = 0;
+                fits_get_coltype(fptr_, cid, &type, &repeat, &width, &status_);
+                return null_value_(type, def);
+            }
+
             const file_type type_ = generic_file;
             const access_right rights_ = read_write;
 
diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index 98f98fb..cbf76b3 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -23,7 +23,8 @@ namespace fits {
 
     protected:
         template<typename Type>
-        void read_prep_(uint_t rdims, int& naxis, std::vector<long>& naxes, int& type) const {
+        void read_prep_(uint_t rdims, int& naxis, std::vector<long>& naxes, int& type,
+            int& file_type) const {
             fits_get_img_dim(fptr_, &naxis, &status_);
             fits::vif_check_cfitsio(status_, "could not read dimensions of HDU");
             vif_check_fits(naxis == int(rdims), "FITS file has wrong number of dimensions "
@@ -34,9 +35,9 @@ namespace fits {
             fits_get_img_param(fptr_, naxis, &bitpix, &naxis, naxes.data(), &status_);
             fits::vif_check_cfitsio(status_, "could not read image parameters of HDU");
 
-            type = impl::fits_impl::bitpix_to_type(bitpix);
-            vif_check_fits(impl::fits_impl::traits<Type>::is_convertible(type), "wrong image type "
-                "(expected "+pretty_type_t(Type)+", got "+impl::fits_impl::type_to_string_(type)+")");
+            file_type = impl::fits_impl::bitpix_to_type(bitpix);
+            vif_check_fits(impl::fits_impl::traits<Type>::is_convertible(file_type), "wrong image type "
+                "(expected "+pretty_type_t(Type)+", got "+impl::fits_impl::type_to_string_(file_type)+")");
 
             type = impl::fits_impl::traits<Type>::ttype;
         }
@@ -116,9 +117,9 @@ namespace fits {
         void read(vec<Dim,Type>& v) const {
             check_is_open_();
 
-            int naxis, type;
+            int naxis, type, file_type;
             std::vector<long> naxes;
-            read_prep_<Type>(Dim, naxis, naxes, type);
+            read_prep_<Type>(Dim, naxis, naxes, type, file_type);
 
             for (uint_t i : range(naxis)) {
                 v.dims[i] = naxes[naxis-1-i];
@@ -128,7 +129,7 @@ namespace fits {
 
             Type def = impl::fits_impl::traits<Type>::def();
             int anynul;
-            fits_read_img(fptr_, type, 1, v.size(), &def, v.raw_data(), &anynul, &status_);
+            fits_read_img(fptr_, type, 1, v.size(), null_value_(file_type, def), v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read image from HDU");
         }
 
@@ -138,9 +139,9 @@ namespace fits {
 
             check_is_open_();
 
-            int naxis, type;
+            int naxis, type, file_type;
             std::vector<long> naxes;
-            read_prep_<Type>(Dim, naxis, naxes, type);
+            read_prep_<Type>(Dim, naxis, naxes, type, file_type);
 
             std::vector<long> fpixel(Dim), lpixel(Dim);
             make_indices_(0, naxes, fpixel, lpixel, args...);
@@ -155,7 +156,7 @@ namespace fits {
             int anynul;
             std::vector<long> inc(Dim, 1);
             fits_read_subset(fptr_, type, fpixel.data(), lpixel.data(), inc.data(),
-                &def, v.raw_data(), &anynul, &status_);
+                null_value_(file_type, def), v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read subset image from HDU");
         }
 
@@ -163,9 +164,9 @@ namespace fits {
         Type read_pixel(vec1u p) const {
             check_is_open_();
 
-            int naxis, type;
+            int naxis, type, file_type;
             std::vector<long> naxes;
-            read_prep_<Type>(p.size(), naxis, naxes, type);
+            read_prep_<Type>(p.size(), naxis, naxes, type, file_type);
 
             uint_t ppos = 1;
             uint_t pitch = 1;
@@ -189,7 +190,7 @@ namespace fits {
             Type val;
             Type def = impl::fits_impl::traits<Type>::def();
             int anynul;
-            fits_read_img(fptr_, type, ppos, 1, &def, &val, &anynul, &status_);
+            fits_read_img(fptr_, type, ppos, 1, null_value_(file_type, def), &val, &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not pixel from HDU");
 
             return val;
diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 419557e..71dc9bb 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -384,7 +384,7 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, nelem, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, nelem, column_null_value_(cid, def),
                 v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
@@ -397,7 +397,7 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, 1, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, 1, column_null_value_(cid, def),
                 reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
@@ -903,7 +903,7 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, nelem, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, nelem, column_null_value_(cid, def),
                 v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read elements from column '"+cname+"'");
@@ -916,7 +916,7 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, 1, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, 1, column_null_value_(cid, def),
                 reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read element from column '"+cname+"'");
-- 
2.43.0


From aacd782f29d2d916749f643bdb8e53ade3c9211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 039/125] fix: check the lower bound of open-ended ranges in
 read_subset()

---
 include/vif/io/fits/image.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index cbf76b3..e10cb6b 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -76,6 +76,10 @@ namespace fits {
             std::vector<long>& fpixel, std::vector<long>& lpixel,
             impl::range_impl::right_range_t r, const Args& ... args) const {
 
+            vif_check_fits(r.first < uint_t(naxes[naxes.size()-1-idim]), "image subset goes outside of "
+                "the image boundaries (axis "+to_string(idim)+": "+to_string(r.first)+" vs. "+
+                to_string(naxes[naxes.size()-1-idim]));
+
             fpixel[naxes.size()-1-idim] = r.first+1;
             lpixel[naxes.size()-1-idim] = naxes[naxes.size()-1-idim];
 
-- 
2.43.0


From 99c9a25d9aecb5cb77d0f12049614fe166bad18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:32 +0000
Subject: [PATCH 040/125] fix: reach_hdu() throws when the HDU does not exist,
 as documented

---
 include/vif/io/fits/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index ae20912..0923439 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -593,8 +593,8 @@ namespace impl {
 
                 uint_t nhdu = hdu_count();
                 if (rights_ == read_only) {
-                    vif_check(hdu < nhdu, "requested HDU does not exists in this "
-                        "FITS file (", hdu, " vs. ", nhdu, ")");
+                    vif_check_fits(hdu < nhdu, "requested HDU does not exists in this "
+                        "FITS file ("+to_string(hdu)+" vs. "+to_string(nhdu)+")");
                 } else {
                     if (hdu >= nhdu) {
                         // Go to the last HDU, because new HDUs are inserted after the current one
-- 
2.43.0


From 1b29650a6fd04fbd4e5eeeaa7dfc145bf3afb721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:06 +0000
Subject: [PATCH 041/125] fix: axis_count() and image_dims() report no axis for
 FITS tables, as documented

---
 include/vif/io/fits/base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 0923439..a5b6471 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -631,6 +631,11 @@ namespace impl {
 
                 int naxis;
                 fits_get_img_dim(fptr_, &naxis, &status_);
+                if (status_ == NOT_IMAGE) {
+                    status_ = 0;
+                    return 0;
+                }
+
                 fits::vif_check_cfitsio(status_, "could not get the number of axis in HDU");
                 return naxis;
             }
-- 
2.43.0


From bb0b53401e23e905ccc4b2e3275a6ac1df709fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:51 +0000
Subject: [PATCH 042/125] fix: read_keyword() leaves the value alone when the
 keyword cannot be converted

---
 include/vif/io/fits/base.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index a5b6471..8cb9c23 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -538,7 +538,11 @@ namespace impl {
                     content = "0";
                 }
 
-                return from_string(content, value);
+                // Only modify the output if the conversion is successful
+                T tmp;
+                if (!from_string(content, tmp)) return false;
+                value = tmp;
+                return true;
             }
 
             uint_t hdu_count() const {
-- 
2.43.0


From dab8e344d6f1283551b8b2d0eea274c337e3a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:46 +0000
Subject: [PATCH 043/125] fix: set_format() works in HDUs which do not contain
 a table yet

---
 include/vif/io/fits/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 71dc9bb..b160308 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1031,7 +1031,7 @@ namespace fits {
                 // File is already open.
                 // Check if data already exists, in which case we cannot change format
                 uint_t nhdu = hdu_count();
-                if (nhdu != 0) {
+                if (nhdu != 0 && hdu_type() == fits::table_hdu) {
                     int ncols = 0;
                     fits_get_num_cols(fptr_, &ncols, &status_);
                     fits::vif_check_cfitsio(status_, "could not get number of columns in HDU");
-- 
2.43.0


From 015983f0627ac2d3df40d638b54484cf52c0f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:23 +0000
Subject: [PATCH 044/125] fix: remove_hdu() removes tables whose rows have just
 been written

---
 include/vif/io/fits/base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 8cb9c23..f031198 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -801,6 +801,8 @@ namespace impl {
 
                 vif_check_fits(current_hdu() != 0, "the primary HDU cannot be removed");
 
+                // Make sure CFITSIO knows the actual extent of the HDU
+                fits_set_hdustruc(fptr_, &status_);
                 fits_delete_hdu(fptr_, nullptr, &status_);
                 fits::vif_check_cfitsio(status_, "could not remove the current HDU");
 
-- 
2.43.0


From 0786bd86ec915d3b618cfcf8c6b5c47f9d8db3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:43 +0000
Subject: [PATCH 045/125] fix: dimensions and element access of columns holding
 one value per row in row-oriented tables

---
 include/vif/io/fits/table.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index b160308..f9b61a1 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -260,6 +260,10 @@ namespace fits {
             if (format_ == table_format::row_oriented) {
                 uint_t nrow = 0;
                 read_keyword("NAXIS2", nrow);
+                if (naxis == 1 && ci.dims.back() == 1) {
+                    // One value per row
+                    ci.dims.clear();
+                }
                 ci.dims.push_back(nrow);
             }
 
-- 
2.43.0


From 21ed60ee21cf546581e1ab527e6f65ad6dec34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:47 +0000
Subject: [PATCH 046/125] fix: describe empty byte columns, and access elements
 of byte columns whatever their values

---
 include/vif/io/fits/table.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index f9b61a1..24598d2 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -179,20 +179,25 @@ namespace fits {
                 break;
             }
             case 'B' : {
-                vec<1,char> v(repeat);
-                char def = impl::fits_impl::traits<char>::def();
-                int null;
-                fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
-                    &def, v.raw_data(), &null, &status_);
-                fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
-
-                if (min(v) == 0 && max(v) <= 1) {
+                long nrow = 0;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+
+                vec<1,char> v(nrow == 0 ? 0 : repeat);
+                if (!v.empty()) {
+                    char def = impl::fits_impl::traits<char>::def();
+                    int null;
+                    fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
+                        &def, v.raw_data(), &null, &status_);
+                    fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
+                }
+
+                if (!v.empty() && min(v) == 0 && max(v) <= 1) {
                     ci.type = column_info::boolean;
-                    ci.cfitsio_type = TLOGICAL;
                 } else {
                     ci.type = column_info::byte;
-                    ci.cfitsio_type = TBYTE;
                 }
+
+                ci.cfitsio_type = TBYTE;
                 break;
             }
             case 'S' : {
-- 
2.43.0


From 52e1d9443f0485428df7754678a0eaf7d48a8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:47 +0000
Subject: [PATCH 047/125] fix: read back row-oriented columns which have just
 been written with the same handle

---
 include/vif/io/fits/table.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 24598d2..c488eff 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -263,8 +263,9 @@ namespace fits {
 
             // Handle row-oriented tables
             if (format_ == table_format::row_oriented) {
-                uint_t nrow = 0;
-                read_keyword("NAXIS2", nrow);
+                long nrow = 0;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
                 if (naxis == 1 && ci.dims.back() == 1) {
                     // One value per row
                     ci.dims.clear();
@@ -642,9 +643,10 @@ namespace fits {
             }
 
             // Support loading row-oriented FITS tables (and ASCII)
-            uint_t nrow = 1;
+            long nrow = 1;
             if (format_ == table_format::row_oriented) {
-                read_keyword("NAXIS2", nrow);
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
                 if (naxis == 1 && axes[naxis-1] == 1 && type != TSTRING) {
                     axes[naxis-1] = nrow;
                 } else {
-- 
2.43.0


From 0995e1263213060210fd562f83ffc27aa8acd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:47 +0000
Subject: [PATCH 048/125] fix: a new first column of a FITS table does not
 inherit the rows of removed columns

---
 include/vif/io/fits/table.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index c488eff..eb8b3ea 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1315,6 +1315,18 @@ namespace fits {
             );
             fits::vif_check_cfitsio(status_, "could not create column '"+tcolname+"'");
 
+            // First column: discard the rows of columns that have been removed
+            if (cid == 1) {
+                long nrow, nkeep = (format_ == table_format::column_oriented ? 1 : 0);
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                if (nrow > nkeep) {
+                    fits_delete_rows(fptr_, nkeep+1, nrow-nkeep, &status_);
+                } else if (nrow < nkeep) {
+                    fits_insert_rows(fptr_, nrow, nkeep-nrow, &status_);
+                }
+                fits::vif_check_cfitsio(status_, "could not set the number of rows in HDU");
+            }
+
             // Set TDIM keyword (if needed)
             write_column_write_tdim_(tcolname, cid, dims);
         }
-- 
2.43.0


From 591ce28edf39709f68f2f3f44ad4ac920d888055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:09 +0000
Subject: [PATCH 049/125] fix: read_keyword() gives back quotes inside string
 keywords as they were written

---
 include/vif/io/fits/base.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index f031198..f80f2e0 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -519,8 +519,12 @@ namespace impl {
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
                 if (status != 0) return false;
 
-                value = content;
-                value = trim(value, " '");
+                value = trim(content);
+                if (value.size() > 1 && value.front() == '\'' && value.back() == '\'') {
+                    // String: remove the enclosing quotes, quotes inside are doubled
+                    value = trim(replace(value.substr(1, value.size()-2), "''", "'"));
+                }
+
                 return true;
             }
 
-- 
2.43.0


From f65867325f5ec78f88e51cf944adf972fe3b596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:50 +0000
Subject: [PATCH 050/125] fix: also reset the rows of FITS tables whose new
 first column has no element

---
 include/vif/io/fits/table.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index eb8b3ea..95312eb 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1306,6 +1306,17 @@ namespace fits {
                     "of rows in '", tcolname, "' (expected ", nrow, ", got ", ndrow, ")");
             }
 
+            // First column: discard the rows of columns that have been removed
+            if (cid == 1) {
+                long nrow, nstart = (format_ == table_format::column_oriented ? 1 : 0);
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                if (nrow != nstart) {
+                    fits_update_key(fptr_, TLONG, "NAXIS2", &nstart, nullptr, &status_);
+                    fits_set_hdustruc(fptr_, &status_);
+                }
+                fits::vif_check_cfitsio(status_, "could not set the number of rows in HDU");
+            }
+
             // Create empty column
             std::string colname = to_upper(tcolname);
             std::string tform = write_column_make_tform_(meta::type_list<vtype>{}, dims);
@@ -1315,18 +1326,6 @@ namespace fits {
             );
             fits::vif_check_cfitsio(status_, "could not create column '"+tcolname+"'");
 
-            // First column: discard the rows of columns that have been removed
-            if (cid == 1) {
-                long nrow, nkeep = (format_ == table_format::column_oriented ? 1 : 0);
-                fits_get_num_rows(fptr_, &nrow, &status_);
-                if (nrow > nkeep) {
-                    fits_delete_rows(fptr_, nkeep+1, nrow-nkeep, &status_);
-                } else if (nrow < nkeep) {
-                    fits_insert_rows(fptr_, nrow, nkeep-nrow, &status_);
-                }
-                fits::vif_check_cfitsio(status_, "could not set the number of rows in HDU");
-            }
-
             // Set TDIM keyword (if needed)
             write_column_write_tdim_(tcolname, cid, dims);
         }
-- 
2.43.0


From a86c4b92f749df72369d946e9b51371221f65031 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 051/125] fix: file::explorer::close() left a dangling
 directory handle (double closedir, use after close)

---
 include/vif/io/filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..05c3c80 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -105,7 +105,8 @@ namespace file {
 
             if (dirfd) {
                 closedir(dirfd);
-            };
+                dirfd = nullptr;
+            }
         }
 
         bool open(const std::string& dir, const std::string& p = "") {
-- 
2.43.0


From 90e6436a95a8134add4d0028bd2b14c65544cec3 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 052/125] fix: file::mkdir() reported success when a regular
 file has the requested name

---
 include/vif/io/filesystem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 05c3c80..fab1ceb 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -275,8 +275,11 @@ namespace file {
             if (d.empty()) continue;
             if (!tmp.empty() || begins_with(path, "/")) tmp += "/";
             tmp += d;
-            bool res = (::mkdir(tmp.c_str(), 0775) == 0) || (errno == EEXIST);
-            if (!res) return false;
+            if (::mkdir(tmp.c_str(), 0775) != 0) {
+                // Not an error if the directory was already there
+                struct stat st;
+                if (::stat(tmp.c_str(), &st) != 0 || !S_ISDIR(st.st_mode)) return false;
+            }
         }
         return true;
     }
-- 
2.43.0


From 6fd8b27162863329320bff6800e45069eac803f0 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 053/125] fix: file::copy() erased a file copied onto itself,
 and reported success when writing failed

---
 include/vif/io/filesystem.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fab1ceb..3a4304b 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -42,10 +42,20 @@ namespace file {
     inline bool copy(const std::string& file_from, const std::string& file_to) {
         std::ifstream src(file_from, std::ios::binary);
         if (!src.is_open()) return false;
+
+        // Opening the destination erases it, so a file cannot be copied onto itself
+        struct stat st1, st2;
+        if (::stat(file_from.c_str(), &st1) == 0 && ::stat(file_to.c_str(), &st2) == 0 &&
+            st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) return false;
+
         std::ofstream dst(file_to,   std::ios::binary);
         if (!dst.is_open()) return false;
-        dst << src.rdbuf();
-        return true;
+        if (src.peek() != std::ifstream::traits_type::eof()) {
+            // (inserting zero characters would be flagged as an error)
+            dst << src.rdbuf();
+        }
+        dst.close();
+        return dst.good();
     }
 
     inline bool remove(const std::string& path) {
-- 
2.43.0


From 75b9917879e10b2382e3e4a1d70aae0e9612f5aa Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 054/125] fix: file::remove() reported success without removing
 a file that cannot be read

---
 include/vif/io/filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 3a4304b..784fe95 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -6,6 +6,7 @@
 #include <fnmatch.h>
 #include <cstring>
 #include <cstdio>
+#include <cerrno>
 #include <sys/stat.h>
 #include <fstream>
 #include <sstream>
@@ -59,7 +60,7 @@ namespace file {
     }
 
     inline bool remove(const std::string& path) {
-        return !file::exists(path) || ::remove(path.c_str()) == 0;
+        return ::remove(path.c_str()) == 0 || errno == ENOENT || errno == ENOTDIR;
     }
 
     inline bool move(const std::string& from, const std::string& to) {
-- 
2.43.0


From bd8e780fb0d3029504492f67369398bae4a0339f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 055/125] fix: get_basename()/get_directory() of paths with
 trailing slashes ("foo/", "a//")

---
 include/vif/io/filesystem.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 784fe95..bce39e6 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -221,16 +221,17 @@ namespace file {
         if (pos == path.npos) {
             return path;
         } else {
-            auto lpos = path.find_last_not_of(' ');
-            if (pos == lpos) {
-                if (pos == 0) {
+            if (pos == path.find_last_not_of(' ')) {
+                // Ignore trailing slashes
+                auto lpos = path.find_last_not_of('/', pos);
+                if (lpos == path.npos) {
                     return "/";
                 } else {
-                    pos = path.find_last_of('/', pos-1);
+                    pos = path.find_last_of('/', lpos);
                     if (pos == path.npos) {
-                        return path.substr(lpos);
+                        return path.substr(0, lpos+1);
                     } else {
-                        return path.substr(pos+1, lpos-pos-1);
+                        return path.substr(pos+1, lpos-pos);
                     }
                 }
             } else {
@@ -263,10 +264,12 @@ namespace file {
         if (pos == path.npos) {
             return "./";
         } else if (pos == path.find_last_not_of(' ')) {
-            if (pos == 0) {
+            // Ignore trailing slashes
+            pos = path.find_last_not_of('/', pos);
+            if (pos == path.npos) {
                 return "/";
             } else {
-                pos = path.find_last_of('/', pos-1);
+                pos = path.find_last_of('/', pos);
                 if (pos == path.npos) {
                     return "./";
                 } else {
-- 
2.43.0


From 79a0580213eb8d88dbcb13a3075b488d02be2f80 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 056/125] fix: read_args() modified variables whose argument
 could not be converted

---
 include/vif/utility/argv.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 2ce9ebc..b625d83 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -26,7 +26,11 @@ namespace vif {
         template<typename T,
             typename enable = typename std::enable_if<!std::is_same<T, vec<1,std::string>>::value>::type>
         bool read_args_n2T_(T& t, const std::string& s) {
-            return from_string(s, t);
+            // The variable must not be modified if the conversion fails
+            T tmp;
+            if (!from_string(s, tmp)) return false;
+            t = tmp;
+            return true;
         }
 
         template<typename U>
-- 
2.43.0


From ec7e667269b00409da1e4f59219d699aa55880bb Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 057/125] fix: support program arguments written as
 "--name=value" and "--name", as documented

---
 include/vif/utility/argv.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index b625d83..4264833 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -56,22 +56,25 @@ namespace vif {
             return true;
         }
 
+        // Number of dashes at the beginning of an argument: "name", "-name" or "--name"
+        inline uint_t read_args_dashes_(const std::string& arg) {
+            uint_t n = 0;
+            while (n < 2 && n < arg.size() && arg[n] == '-') ++n;
+            return n;
+        }
+
         template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, T& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
@@ -89,18 +92,14 @@ namespace vif {
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, vec<1,T>& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
-- 
2.43.0


From a7519715a133c80f22ceb190d66b7ab763d414e8 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 058/125] fix: an invalid program argument hid those of
 variables whose name is part of its text

---
 include/vif/utility/argv.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 4264833..3096fa5 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -121,7 +121,7 @@ namespace vif {
                             bool v = read_args_n2T_(tmp, trim(trim(s), "'\""));
                             if (!v) {
                                 valid = false;
-                                return false;
+                                return true;
                             } else {
                                 tmpv.push_back(tmp);
                             }
@@ -177,10 +177,10 @@ namespace vif {
             for (auto& i : idm) {
                 if (read_args_impl_(argv[i], read[i], valid[i], tname, t)) {
                     found = true;
-                }
-                if (!valid[i]) {
-                    warning("could not convert '", tname, "' argument to type ", pretty_type_t(T));
-                    break;
+                    if (!valid[i]) {
+                        warning("could not convert '", tname, "' argument to type ", pretty_type_t(T));
+                        break;
+                    }
                 }
             }
 
@@ -212,10 +212,10 @@ namespace vif {
             for (auto& i : idm) {
                 if (read_args_impl_(argv[i], read[i], valid[i], t.name, t.obj)) {
                     found = true;
-                }
-                if (!valid[i]) {
-                    warning("could not convert '", t.name, "' argument to type ", pretty_type_t(T));
-                    break;
+                    if (!valid[i]) {
+                        warning("could not convert '", t.name, "' argument to type ", pretty_type_t(T));
+                        break;
+                    }
                 }
             }
 
-- 
2.43.0


From fadb996e925d19861e3cc1082966483ebca43572 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 059/125] fix: program_arguments::write() read the variables
 listed after a named one

---
 include/vif/utility/argv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 3096fa5..0ee3de3 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -270,7 +270,7 @@ namespace vif {
             valid.push_back(true);
 
             if (pos != names.npos && pos != names.size()) {
-                read_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
+                write_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
             }
         }
     }
-- 
2.43.0


From df698f26bff5e67a3530dd75132d64aecadb2f10 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:37:05 +0000
Subject: [PATCH 060/125] fix: setkey() split the last entry of the header if
 it contains "END" (e.g., EXTEND)

---
 include/vif/io/fits/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index f80f2e0..1069bd0 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -885,8 +885,8 @@ namespace fits {
         // Insertion point
         std::size_t ipos = hdr.npos;
         if (hdr.size() >= 80) {
-            ipos = hdr.substr(hdr.size() - 80, 80).find("END");
-            if (ipos != hdr.npos) ipos += hdr.size() - 80;
+            // Before the END entry, if there is one
+            if (trim(hdr.substr(hdr.size() - 80, 80)) == "END") ipos = hdr.size() - 80;
         }
 
         // Look for existing entry in header
-- 
2.43.0


From bbe6e52609b347cd5e5355b0da844800189c97e8 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:37:05 +0000
Subject: [PATCH 061/125] fix: getkey()/setkey() took '/' and quotes inside
 string values for the end of the value

---
 include/vif/io/fits/base.hpp | 37 +++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 1069bd0..f6ba975 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -816,6 +816,32 @@ namespace impl {
     }
 }
 
+namespace impl {
+namespace fits_impl {
+    // Position of the quote that ends the string which starts at position 'p' (quotes inside
+    // strings are doubled)
+    inline std::size_t header_string_end(const std::string& entry, std::size_t p) {
+        p = entry.find_first_of('\'', p+1);
+        while (p != entry.npos && p+1 < entry.size() && entry[p+1] == '\'') {
+            p = entry.find_first_of('\'', p+2);
+        }
+
+        return p;
+    }
+
+    // Position of the '/' that starts the comment of a header entry, 'eqpos' being the position
+    // of the equal sign
+    inline std::size_t header_comment_pos(const std::string& entry, std::size_t eqpos) {
+        std::size_t p = entry.find_first_not_of(' ', eqpos+1);
+        if (p != entry.npos && entry[p] == '\'') {
+            p = header_string_end(entry, p);
+        }
+
+        return p == entry.npos ? p : entry.find_first_of('/', p);
+    }
+}
+}
+
 namespace fits {
     // Header keyword manipulation
     template<typename T>
@@ -825,7 +851,7 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::header_comment_pos(entry, eqpos);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
@@ -844,14 +870,15 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::header_comment_pos(entry, eqpos);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
             if (nam == key) {
                 std::string value = trim(entry.substr(eqpos+1, cpos-eqpos-1));
-                if (value.find_first_of("'") == 0) {
-                    value = trim(value, "'");
+                if (value.size() > 1 && value.front() == '\'' && value.back() == '\'') {
+                    // String: remove the enclosing quotes, quotes inside are doubled
+                    value = replace(value.substr(1, value.size()-2), "''", "'");
                 }
                 v = value;
                 return true;
@@ -900,7 +927,7 @@ namespace fits {
             // Extract entry's name
             std::string nam = trim(tentry.substr(0, eqpos));
             // Look for comments
-            std::size_t cpos = tentry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::header_comment_pos(tentry, eqpos);
 
             if (nam == key) {
                 // The entry already exists
-- 
2.43.0


From ad9b30488431b20966cd1ea011f46a00d2770713 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:37:05 +0000
Subject: [PATCH 062/125] fix: parse_header() on quotes and blanks inside
 (continued) strings, empty strings, and COMMENT entries

---
 include/vif/io/fits/base.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index f6ba975..eb1f328 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -975,33 +975,30 @@ namespace fits {
         vec1s lines = cut(hdr, 80);
         keys.reserve(lines.size());
         for (uint_t i : range(lines)) {
-            if (lines[i].find("HISTORY ") == 0) {
+            if (lines[i].find("HISTORY ") == 0 || lines[i].find("COMMENT ") == 0) {
                 keys.push_back(header_keyword{});
                 auto& k = keys.back();
                 k.key = trim(lines[i]);
-            } else if (lines[i].find("CONTINUE ") == 0) {
+            } else if (lines[i].find("CONTINUE ") == 0 && !keys.empty()) {
                 auto& k = keys.back();
                 std::string right = trim(lines[i].substr(10));
                 if (!right.empty() && right[0] == '\'') {
-                    auto p2 = right.find_first_of('\'', 1);
+                    auto p2 = impl::fits_impl::header_string_end(right, 0);
                     std::string val;
                     if (p2 != std::string::npos) {
-                        val = trim(right.substr(1, p2-1));
+                        val = right.substr(1, p2-1);
                         k.comment = trim(right.substr(p2+1));
                     } else {
-                        val = trim(right);
+                        val = right.substr(1);
                     }
 
-
-                    if (!k.value.empty() && k.value[0] == '\'') {
+                    if (k.value.size() > 1 && k.value[0] == '\'') {
                         k.value = k.value.substr(1, k.value.size()-2);
                     }
 
-                    if (k.value.back() == '&') {
-                        k.value = k.value.substr(0, k.value.size()-1);
-                    }
-                    if (val.back() == '&') {
-                        val = val.substr(0, val.size()-1);
+                    // The '&' at the end is only dropped when the string is continued
+                    if (!k.value.empty() && k.value.back() == '&') {
+                        k.value.pop_back();
                     }
 
                     k.value = '\''+k.value+val+'\'';
@@ -1025,7 +1022,7 @@ namespace fits {
                     std::string right = trim(lines[i].substr(p+1));
                     if (!right.empty()) {
                         if (right[0] == '\'') {
-                            auto p2 = right.find_first_of('\'', 1);
+                            auto p2 = impl::fits_impl::header_string_end(right, 0);
                             if (p2 != std::string::npos) {
                                 ++p2;
 
-- 
2.43.0


From f96ea2124f0168b3a2fce7a3b534cc3159fd1685 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Wed, 18 Nov 2026 12:37:05 +0000
Subject: [PATCH 063/125] fix: filter_wcs() duplicated the entries that match
 several of its keywords

---
 include/vif/astro/wcs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 55290f3..02e9d30 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -223,6 +223,7 @@ namespace astro {
             for (auto& wk : keywords) {
                 if (begins_with(k, wk)) {
                     nkeys.push_back(k);
+                    break;
                 }
             }
         }
-- 
2.43.0


From bb0b5b82089f8854b3f4a7dca26d609dc688ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:35 +0000
Subject: [PATCH 064/125] fix: qxmatch() returned the same neighbor several
 times when nth > 1

---
 include/vif/astro/qxmatch.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 88b0bca..26f834b 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -115,15 +115,23 @@ namespace impl {
                     }
                 }
 
-                // We have (+x,+y), fill the other 3 quadrants:
-                // (-x,+y), (-x,-y), (-x,+y)
-                vec1u idnew = indgen<uint_t>(depth.bx.size());
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, depth.by[idnew]);
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
-                append(depth.bx, depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
+                // We have (+x,+y), fill the other 3 quadrants: (-x,+y), (-x,-y), (+x,-y).
+                // Make sure not to visit twice the buckets that lie on the axes.
+                for (uint_t i : range(depth.bx.size())) {
+                    int_t x = depth.bx.safe[i], y = depth.by.safe[i];
+                    if (x != 0) {
+                        depth.bx.push_back(-x);
+                        depth.by.push_back(y);
+                    }
+                    if (x != 0 && y != 0) {
+                        depth.bx.push_back(-x);
+                        depth.by.push_back(-y);
+                    }
+                    if (y != 0) {
+                        depth.bx.push_back(x);
+                        depth.by.push_back(-y);
+                    }
+                }
             }
         };
     }
-- 
2.43.0


From c650a798d507d03d4e2eec8fce9a4dc975219836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:35 +0000
Subject: [PATCH 065/125] fix: qxmatch() with more threads than sources read
 out of bounds

---
 include/vif/astro/qxmatch.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 26f834b..3e9c04a 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -484,12 +484,14 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg1[t]-_-(tend1[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    if (tend1[t] > tbeg1[t]) {
+                        auto ids = tbeg1[t]-_-(tend1[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
-                    if (!params.no_mirror) {
-                        ids = tbeg2[t]-_-(tend2[t]-1);
+                    if (!params.no_mirror && tend2[t] > tbeg2[t]) {
+                        auto ids = tbeg2[t]-_-(tend2[t]-1);
                         res.rid.safe[ids] = vres[t].rid.safe[ids];
                         res.rd.safe[ids] = vres[t].rd.safe[ids];
                     }
@@ -593,9 +595,11 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg[t]-_-(tend[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    if (tend[t] > tbeg[t]) {
+                        auto ids = tbeg[t]-_-(tend[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
                     if (!params.no_mirror) {
                         if (t == 0) {
-- 
2.43.0


From 917c387f030be74bbb4fbce08f36403ea5c92f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:35 +0000
Subject: [PATCH 066/125] fix: qxmatch() meant to use brute force for small
 catalogs

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 3e9c04a..7729928 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -232,7 +232,7 @@ namespace astro {
         if (!params.brute_force && ra2.size() < 10) {
             // The bucket algorithm was requested, but there are too few objects to
             // cross match to. The brute force algorithm is likely to be the fastest.
-            params.brute_force = false;
+            params.brute_force = true;
         }
 
         if (!params.brute_force) {
-- 
2.43.0


From 0d9877f4801ba5e3dc7b85c2a846184b2ca6e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:58 +0000
Subject: [PATCH 067/125] fix: qxmatch() missed the nearest neighbors across
 RA=0, near the poles and in wide fields, and failed on fields of zero or very
 different area

---
 include/vif/astro/qxmatch.hpp | 134 +++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 52 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 7729928..82748e9 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -188,15 +188,6 @@ namespace astro {
             dcdec2 = cos(ddec2);
         }
 
-        auto true_distance = [&](double x1, double y1, double x2, double y2) {
-            // Function to provide the distance between two points.
-            if (params.linear) {
-                return sqrt(sqr(x2 - x1) + sqr(y2 - y1));
-            } else {
-                return angdist(x1, y1, x2, y2);
-            }
-        };
-
         auto distance_proxy = [&](uint_t i, uint_t j) {
             // Function to provide a distance *indicator*.
             // Note that this is not the 'true' distance, but this it is sufficient
@@ -211,15 +202,6 @@ namespace astro {
             }
         };
 
-        auto true_to_proxy = vectorize_lambda([&](double dist) {
-            // Function to convert a "true" distance into the "proxy" distance
-            // used by "distance_proxy".
-            if (params.linear) {
-                return sqr(dist);
-            } else {
-                return sqr(sin(dist/(3600.0*(180.0/dpi)*2)));
-            }
-        });
         auto proxy_to_true = vectorize_lambda([&](double dist) {
             // Function to convert a "proxy" distance into the "true" distance.
             if (params.linear) {
@@ -236,34 +218,64 @@ namespace astro {
         }
 
         if (!params.brute_force) {
+            // RA coordinate used to locate the sources in the buckets.
+            // RA is periodic, so pick the interval ([0,360[ or [-180,180[) in which the field is
+            // the most compact.
+            vec1d bra1 = ra1, bra2 = ra2;
+            if (!params.linear) {
+                auto wrap = [](const vec1d& ra, double ra0) {
+                    return vec1d(ra - 360.0*floor((ra - ra0)/360.0));
+                };
+                auto extent = [](const vec1d& x1, const vec1d& x2) {
+                    return std::max(max(x1), max(x2)) - std::min(min(x1), min(x2));
+                };
+
+                bra1 = wrap(ra1, 0.0);
+                bra2 = wrap(ra2, 0.0);
+                vec1d wra1 = wrap(ra1, -180.0), wra2 = wrap(ra2, -180.0);
+                if (extent(wra1, wra2) < extent(bra1, bra2)) {
+                    bra1 = wra1;
+                    bra2 = wra2;
+                }
+            }
+
             // Get bounds of the fields
-            vec1d rra1  = {min(ra1),  max(ra1)};
-            vec1d rra2  = {min(ra2),  max(ra2)};
+            vec1d rra1  = {min(bra1), max(bra1)};
+            vec1d rra2  = {min(bra2), max(bra2)};
             vec1d rdec1 = {min(dec1), max(dec1)};
             vec1d rdec2 = {min(dec2), max(dec2)};
 
             vec1d rra  = {std::min(rra1[0],  rra2[0]),  std::max(rra1[1],  rra2[1])};
             vec1d rdec = {std::min(rdec1[0], rdec2[0]), std::max(rdec1[1], rdec2[1])};
 
-            // Choose a bucket size (arcsec)
+            // Size of a unit of coordinate on the bucket grid (arcsec, if not linear).
+            // Be careful that RA and Dec are spherical coordinates.
+            const double sdec = params.linear ? 1.0 : 3600.0;
+            const double sra = params.linear ? 1.0 :
+                3600.0*std::max(0.01, abs(cos(mean(rdec2)*dpi/180.0)));
+
+            // Choose a bucket size from the density of sources
             const double overgrowth = 10.0;
             uint_t nc2 = ceil(0.5*sqrt(dpi*ra2.size()/nth/overgrowth));
-            vec1d hx = vec1d{rra2[0],  rra2[0],  rra2[1],  rra2[1]};
-            vec1d hy = vec1d{rdec2[0], rdec2[1], rdec2[0], rdec2[1]};
-
-            double cell_size = params.linear ? sqrt((rra2[1] - rra2[0])*(rdec2[1] - rdec2[0])) :
-                std::max(3600.0*sqrt(field_area_hull(hx, hy))/nc2, 1.0);
+            double cell_size = sqrt(sra*(rra2[1] - rra2[0])*sdec*(rdec2[1] - rdec2[0]))/nc2;
+            if (!params.linear) {
+                cell_size = std::max(cell_size, 1.0);
+            }
 
-            // Be careful that RA and Dec are spherical coordinates
-            double dra, ddec;
-            if (params.linear) {
-                dra = cell_size;
-                ddec = cell_size;
-            } else {
-                dra = cell_size/abs(cos(mean(rdec2)*dpi/180.0))/3600.0;
-                ddec = cell_size/3600.0;
+            // Keep a reasonable number of buckets, also if the second catalog covers no area or
+            // is much smaller than the first one
+            const double max_bucket = std::max(1e6, 4.0*(n1 + n2));
+            const double wra = sra*(rra[1] - rra[0]), wdec = sdec*(rdec[1] - rdec[0]);
+            cell_size = std::max(cell_size, std::max(sqrt(wra*wdec/max_bucket),
+                std::max(wra, wdec)/(n1 + n2)));
+            if (cell_size <= 0.0) {
+                // All the sources are at the same position
+                cell_size = 1.0;
             }
 
+            const double dra = cell_size/sra;
+            const double ddec = cell_size/sdec;
+
             // Add some padding to prevent border issues
             rra[0]  -= dra;
             rra[1]  += dra;
@@ -283,13 +295,13 @@ namespace astro {
             vec<2,bucket_t> buckets(nra, ndec);
 
             // Fill the buckets
-            vec1u idx1 = floor((ra1 - rra[0])/dra);
+            vec1u idx1 = floor((bra1 - rra[0])/dra);
             vec1u idy1 = floor((dec1 - rdec[0])/ddec);
             for (uint_t i : range(ra1)) {
                 buckets(idx1[i],idy1[i]).ids1.push_back(i);
             }
 
-            vec1u idx2 = floor((ra2 - rra[0])/dra);
+            vec1u idx2 = floor((bra2 - rra[0])/dra);
             vec1u idy2 = floor((dec2 - rdec[0])/ddec);
             for (uint_t j : range(ra2)) {
                 buckets(idx2[j],idy2[j]).ids2.push_back(j);
@@ -298,17 +310,39 @@ namespace astro {
             // Precompute generic bucket geometry
             impl::qxmatch_impl::depth_cache depths(nra, ndec, cell_size);
 
+            // Function to provide the size (on the bucket grid, from the center of the source's
+            // bucket) of the region in which there can be a source closer than 'dist' (given as
+            // distance indicator). It is infinite if all the buckets have to be searched.
+            auto search_radius = [&](double ra, double dec, double dist, const vec1d& range_ra) {
+                double fx = (ra - rra[0])/dra, fy = (dec - rdec[0])/ddec;
+                double offset = cell_size*sqrt(sqr(fx - floor(fx) - 0.5) + sqr(fy - floor(fy) - 0.5));
+
+                if (params.linear) {
+                    return sqrt(dist) + offset;
+                }
+
+                if (!(dist < 1.0)) return dinf;
+
+                // Extent of the circle in Dec and RA
+                const double d2r = dpi/180.0;
+                double rd = 2.0*asin(sqrt(dist));
+                if (rd + abs(dec)*d2r > 0.499*dpi) return dinf;
+                double rr = asin(sin(rd)/cos(dec*d2r))/d2r;
+                rd /= d2r;
+
+                // See if the circle reaches the other end of the RA interval
+                if (ra - rr + 360.0 <= range_ra[1] || ra + rr - 360.0 >= range_ra[0]) return dinf;
+
+                return sqrt(sqr(sdec*rd) + sqr(sra*rr)) + offset;
+            };
+
             auto work1 = [&] (uint_t i, impl::qxmatch_impl::depth_cache& tdepths, qxmatch_res& tres) {
                 int_t x0 = idx1[i];
                 int_t y0 = idy1[i];
 
-                // Compute the distance of this source from the bucket center
-                double cell_dist = true_distance(ra1[i], dec1[i],
-                    rra[0] + (x0+0.5)*dra, rdec[0] + (y0+0.5)*ddec);
-
                 // Scan the buckets around this source until all neighbors are found
                 uint_t d = 0;
-                double reached_distance = 0.0;
+                double max_dist = 0.0;
 
                 do {
                     auto& depth = tdepths[d];
@@ -341,24 +375,20 @@ namespace astro {
                         }
                     }
 
-                    reached_distance = true_to_proxy(
-                        std::max(0.0, tdepths[d].max_dist - 1.1*cell_dist - 0.1*cell_size));
+                    max_dist = depth.max_dist;
 
                     ++d;
-                } while (tres.d.safe(nth-1,i) > reached_distance && d < tdepths.size());
+                } while (d < tdepths.size() && 1.001*search_radius(
+                    bra1.safe[i], dec1.safe[i], tres.d.safe(nth-1,i), rra2) > max_dist);
             };
 
             auto work2 = [&] (uint_t j, impl::qxmatch_impl::depth_cache& tdepths, qxmatch_res& tres) {
                 int_t x0 = idx2[j];
                 int_t y0 = idy2[j];
 
-                // Compute the distance of this source from the bucket center
-                double cell_dist = true_distance(ra2[j], dec2[j],
-                    rra[0] + (x0+0.5)*dra, rdec[0] + (y0+0.5)*ddec);
-
                 // Scan the buckets around this source until all neighbors are found
                 uint_t d = 0;
-                double reached_distance = 0.0;
+                double max_dist = 0.0;
 
                 do {
                     auto& depth = tdepths[d];
@@ -380,11 +410,11 @@ namespace astro {
                         }
                     }
 
-                    reached_distance = true_to_proxy(
-                        std::max(0.0, tdepths[d].max_dist - 1.1*cell_dist - 0.1*cell_size));
+                    max_dist = depth.max_dist;
 
                     ++d;
-                } while (tres.rd[j] > reached_distance && d < tdepths.size());
+                } while (d < tdepths.size() && 1.001*search_radius(
+                    bra2.safe[j], dec2.safe[j], tres.rd.safe[j], rra1) > max_dist);
             };
 
             if (params.thread <= 1) {
-- 
2.43.0


From 2af8b3e05895c1d542d5dbfbbf585e39a78dc5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:17 +0000
Subject: [PATCH 068/125] fix: qxmatch() did not compile with single precision
 coordinates

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 82748e9..c5b1f70 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -188,7 +188,7 @@ namespace astro {
             dcdec2 = cos(ddec2);
         }
 
-        auto distance_proxy = [&](uint_t i, uint_t j) {
+        auto distance_proxy = [&](uint_t i, uint_t j) -> double {
             // Function to provide a distance *indicator*.
             // Note that this is not the 'true' distance, but this it is sufficient
             // to find the nearest neighbors as long as this indicator is related to the
-- 
2.43.0


From 860a7f63ba43f781543a36cc26fa47736ac7676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:16 +0000
Subject: [PATCH 069/125] fix: xmatch_clean_best() failed when the second
 catalog is empty

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index c5b1f70..1023ee4 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -689,7 +689,7 @@ namespace astro {
         c.lost.data.reserve(ngal/6);
 
         for (uint_t i = 0; i < ngal; ++i) {
-            if (r.rid[r.id[i]] == i) {
+            if (r.id[i] != npos && r.rid[r.id[i]] == i) {
                 c.id1.data.push_back(i);
                 c.id2.data.push_back(r.id[i]);
             } else {
-- 
2.43.0


From acf7c6e6dc8d652e20bc79b04ce4d4cc2c312ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:05 +0000
Subject: [PATCH 070/125] fix: qxmatch() did not reach the sources in the
 opposite corner of the field, and could overflow its bucket grid

---
 include/vif/astro/qxmatch.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 1023ee4..19ab166 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -53,7 +53,7 @@ namespace impl {
             std::size_t          max_depth;
 
             depth_cache(uint_t nx, uint_t ny, double cs) : csize(cs),
-                max_depth(std::max(nx, ny)) {
+                max_depth(ceil(sqrt(double(nx)*nx + double(ny)*ny))) {
 
                 visited = vec2b(nx, ny);
                 depths.reserve(20);
@@ -67,7 +67,7 @@ namespace impl {
                 visited(0,0) = true;
 
                 // Generate a few in advance
-                for (uint_t d : range(std::min(uint_t{9}, std::max(nx, ny)-1))) {
+                for (uint_t d : range(std::min(uint_t{9}, max_depth-1))) {
                     grow();
                 }
             }
@@ -87,8 +87,7 @@ namespace impl {
             }
 
             void grow() {
-                vif_check(depths.size() < visited.dims[0] ||
-                    depths.size() < visited.dims[1], "cannot grow past the size of the "
+                vif_check(depths.size() < max_depth, "cannot grow past the size of the "
                     "bucket field (", visited.dims, "; trying to reach ", depths.size(), ")");
 
                 depths.push_back(depth_t{});
@@ -283,8 +282,8 @@ namespace astro {
             rdec[1] += ddec;
 
             // Final number of buckets
-            uint_t nra  = (rra[1]  - rra[0])/dra;
-            uint_t ndec = (rdec[1] - rdec[0])/ddec;
+            uint_t nra  = (rra[1]  - rra[0])/dra + 1;
+            uint_t ndec = (rdec[1] - rdec[0])/ddec + 1;
 
             // Build the buckets
             struct bucket_t {
-- 
2.43.0


From 29e5fd8a4c80345809c4bdf61e5651ac5903c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:30 +0000
Subject: [PATCH 071/125] fix: normalize_coordinates() left declinations beyond
 270 degrees out of range

---
 include/vif/astro/astro.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6ba3596..8692650 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -136,6 +136,8 @@ namespace astro {
     template<typename T, typename U, typename enable = typename std::enable_if<
         !meta::is_vec<T>::value && !meta::is_vec<U>::value>::type>
     void normalize_coordinates(T& ra, U& dec) {
+        dec -= 360.0*floor((dec + 180.0)/360.0);
+
         while (dec > 90.0) {
             dec = 180.0 - dec;
             ra += 180.0;
-- 
2.43.0


From 293bdeb8b920d887f68b694f1b435fc276504c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:30 +0000
Subject: [PATCH 072/125] fix: vernal_angle() had the wrong sign for RA > 180,
 and was NaN on the RA = 0 and 180 meridians

---
 include/vif/astro/astro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 8692650..e84bd2f 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -174,9 +174,9 @@ namespace astro {
         dec *= dpi/180;
 
         double p = sqr(sin(dec/2)) + cos(dec)*sqr(sin(ra/2));
-        double e = (180/dpi)*asin(sin(dec)/(2*(sqrt(p-p*p))));
+        double e = (180/dpi)*asin(clamp(sin(dec)/(2*(sqrt(p-p*p))), -1.0, 1.0));
 
-        if (ra > 180.0) e = -e;
+        if (sin(ra) < 0) e = -e;
 
         return e;
     }
-- 
2.43.0


From 19c313454c95be5b62dcd425105565f6caf602e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:30 +0000
Subject: [PATCH 073/125] fix: mag2lsun() did not compile

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index e84bd2f..f4aeed3 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -474,7 +474,7 @@ namespace astro {
     // Absolute magnitude [AB] to absolute luminosity [Lsun] using rest-frame wavelength
     // 'lam' [um]
     template<typename T, typename U>
-    auto mag2lsun(const T& lam, const T& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
+    auto mag2lsun(const T& lam, const U& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
         const double Mpc = 3.0856e22; // [m/Mpc]
         const double Lsol = 3.839e26; // [W/Lsol]
         const double uJy = 1.0e32;    // [uJy/(W.m-2.Hz-1)]
-- 
2.43.0


From a2304fbd1616d29a9738397ca7e989582b48e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:30 +0000
Subject: [PATCH 074/125] fix: sex2deg() and deg2sex() lost the sign of values
 between -1 and 0, and deg2sex() could write 60 seconds

---
 include/vif/astro/astro.hpp | 70 ++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index f4aeed3..3c04e23 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1049,8 +1049,9 @@ namespace astro {
             return false;
         }
 
-        double signr = sign(rah);
-        double signd = sign(dech);
+        // NB: get the sign from the string, to not lose it if the first number is '-0'
+        double signr = starr1[0].find('-') != std::string::npos ? -1.0 : 1.0;
+        double signd = starr2[0].find('-') != std::string::npos ? -1.0 : 1.0;
 
         ra = (rah + ram*signr/60.0 + ras*signr/3600.0)*15.0;
         dec = dech + decm*signd/60.0 + decs*signd/3600.0;
@@ -1078,40 +1079,43 @@ namespace astro {
 
     // Convert a set of degree coordinates into sexagesimal format ('hh:mm:ss.ms')
     inline void deg2sex(double ra, double dec, std::string& sra, std::string& sdec) {
-        double signr = sign(ra);
-        ra /= 15.0*signr;
-        int_t  rah = ra;
-        int_t  ram = (ra - rah)*60.0;
-        double ras = ((ra - rah)*60 - ram)*60;
-        rah *= signr;
-
-        double signd = sign(dec);
-        dec *= signd;
-        int_t  dech = dec;
-        int_t  decm = (dec - dech)*60.0;
-        double decs = ((dec - dech)*60 - decm)*60;
-        dech *= signd;
-
-        auto format_sec = [](double sec) {
-            std::string s = to_string(sec);
-            auto p = s.find_first_of('.');
-            if (p == s.npos) {
-                if (s.size() != 2) {
-                    return "0" + s + ".0";
-                } else {
-                    return s + ".0";
-                }
-            } else {
-                if (p != 2u) {
-                    return "0" + s;
-                } else {
-                    return s;
-                }
+        auto format = [](double val) {
+            std::string sgn = (val < 0 ? "-" : "");
+            val = abs(val);
+
+            int_t  h = val;
+            int_t  m = (val - h)*60.0;
+            double s = ((val - h)*60 - m)*60;
+
+            // Seconds are written with 6 significant digits, make sure they do not end up as '60'
+            // and are not written in scientific notation.
+            s = round(s*1e6)/1e6;
+            if (s >= 59.99995) {
+                s = 0;
+                ++m;
+            } else if (s < 1e-4) {
+                s = 0;
+            }
+            if (m == 60) {
+                m = 0;
+                ++h;
             }
+
+            std::string ss = to_string(s);
+            auto p = ss.find_first_of('.');
+            if (p == ss.npos) {
+                p = ss.size();
+                ss += ".0";
+            }
+            if (p != 2u) {
+                ss = "0" + ss;
+            }
+
+            return sgn+to_string(h)+':'+align_right(to_string(m),2,'0')+':'+ss;
         };
 
-        sra = to_string(rah)+':'+align_right(to_string(ram),2,'0')+':'+format_sec(ras);
-        sdec = to_string(dech)+':'+align_right(to_string(decm),2,'0')+':'+format_sec(decs);
+        sra = format(ra/15.0);
+        sdec = format(dec);
     }
 
     template<std::size_t Dim = 1, typename TSR = double, typename TSD = double,
-- 
2.43.0


From d40ff99f31cb2b435dc29fd08edc184dcef6356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 075/125] fix: shift() and translate_integer() crashed on empty
 images, and translate_integer() wrapped shifts larger than the image

---
 include/vif/astro/image.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..a3c7b00 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -260,6 +260,8 @@ namespace astro {
 
     template<typename T>
     void inplace_shift(vec<2,T>& v, int_t tsx, int_t tsy) {
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
         if (tsx < 0) tsx = int_t(v.dims[0])+tsx;
@@ -290,8 +292,8 @@ namespace astro {
     void inplace_translate_integer(vec<2,T>& v, int_t tsx, int_t tsy, T def = 0) {
         static_assert(!std::is_pointer<T>::value, "this algorithm cannot work with views");
 
-        tsx = (-tsx) % int_t(v.dims[0]);
-        tsy = (-tsy) % int_t(v.dims[1]);
+        tsx = clamp(-tsx, -int_t(v.dims[0]), int_t(v.dims[0]));
+        tsy = clamp(-tsy, -int_t(v.dims[1]), int_t(v.dims[1]));
 
         if (tsy > 0) {
             for (uint_t ix : range(v.dims[0])) {
-- 
2.43.0


From e852b4296835baff66fcc740d077c5f66676c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 076/125] fix: circular_mask() wrote out of bounds for empty
 images and missed pixels of the first row and column

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index a3c7b00..d3a97ed 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -363,7 +363,7 @@ namespace astro {
         vif_check(radius >= 0, "radius must be a positive number");
 
         // Identify the needed region
-        if (x+radius > 0 && y+radius > 0) {
+        if (!m.empty() && x+radius >= -0.5 && y+radius >= -0.5) {
             uint_t x0 = floor(x - radius) > 0         ? floor(x - radius) : 0;
             uint_t y0 = floor(y - radius) > 0         ? floor(y - radius) : 0;
             uint_t x1 = ceil(x + radius)  < dims[0]-1 ? ceil(x + radius)  : dims[0]-1;
-- 
2.43.0


From acffd0e545ee671c52dbcc06db95c45df5726b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 077/125] fix: radial_profile() gave its arguments to
 circular_mask() in the wrong order

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index d3a97ed..9a72373 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -396,8 +396,8 @@ namespace astro {
         uint_t hsy = img.dims[1]/2;
         res[0] = img(hsx,hsy);
         for (uint_t i : range(1u, npix)) {
-            vec2d mask = circular_mask(img.dims, double(hsx), double(hsy), i)*
-                (1.0 - circular_mask(img.dims, double(hsx), double(hsy), i-1));
+            vec2d mask = circular_mask(img.dims, i, double(hsx), double(hsy))*
+                (1.0 - circular_mask(img.dims, i-1, double(hsx), double(hsy)));
             res.safe[i] = total(mask*img)/total(mask);
         }
 
-- 
2.43.0


From 5de3d174465a6c442d7ff8f1d8aac573f50de8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 078/125] fix: convolve2d() ignored the last row and column of
 the kernel, and convolve2d_naive() overflowed for large kernels

---
 include/vif/astro/image.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 9a72373..8a81c9a 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -445,9 +445,9 @@ namespace astro {
             if (kw == 0.0) continue;
 
             uint_t x0 = (kx >= hxsize ? 0 : hxsize-kx);
-            uint_t xn = map.dims[0] - (kx >= hxsize ? kx-hxsize : 0);
+            uint_t xn = map.dims[0] - (kx >= hxsize ? std::min(kx-hxsize, map.dims[0]) : 0);
             uint_t y0 = (ky >= hysize ? 0 : hysize-ky);
-            uint_t yn = map.dims[1] - (ky >= hysize ? ky-hysize : 0);
+            uint_t yn = map.dims[1] - (ky >= hysize ? std::min(ky-hysize, map.dims[1]) : 0);
 
             for (uint_t x = x0; x < xn; ++x)
             for (uint_t y = y0; y < yn; ++y) {
@@ -523,13 +523,13 @@ namespace astro {
         vec2d tkernel(tmap.dims);
 
         // TODO: optimize this and catch case where kernel is larger than image
-        vec1u px1 = hsx + indgen<uint_t>(hsx);
-        vec1u py1 = hsy + indgen<uint_t>(hsy);
+        vec1u px1 = hsx + indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u py1 = hsy + indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u px2 = hsx - 1 - indgen<uint_t>(hsx);
         vec1u py2 = hsy - 1 - indgen<uint_t>(hsy);
 
-        vec1u ix1 = indgen<uint_t>(hsx);
-        vec1u iy1 = indgen<uint_t>(hsy);
+        vec1u ix1 = indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u iy1 = indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u ix2 = tmap.dims[0] - 1 - indgen<uint_t>(hsx);
         vec1u iy2 = tmap.dims[1] - 1 - indgen<uint_t>(hsy);
 
-- 
2.43.0


From 3180cc4253ef2a95dd8944545c47f88ae1d58a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 079/125] fix: convolver2d wrote out of bounds or left garbage
 in the padding of non-square images, and did not normalize cyclic
 convolutions

---
 include/vif/astro/image.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 8a81c9a..2010b2f 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -675,10 +675,10 @@ namespace astro {
 
                 // Pad image to prevent issues with cyclic borders
                 for (uint_t ix : range(hsx)) {
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(ix,iy) = 0;
                     }
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(tmap.dims[0]-hsx+ix,iy) = 0;
                     }
                 }
@@ -703,6 +703,7 @@ namespace astro {
             if (cyclic) {
                 // Copy image data
                 map = std::move(tmap);
+                map /= cimg.size();
             } else {
                 // Copy image data and shrink back to original dimensions
                 for (uint_t ix : range(map.dims[0]))
-- 
2.43.0


From a1caecd4340aa313677db56369041fe3ba413ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 080/125] fix: boxcar() read out of bounds when the box is
 larger than the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 2010b2f..e7caad3 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -759,9 +759,9 @@ namespace astro {
         for (uint_t x = 0; x < img.dims[0]; ++x)
         for (uint_t y = 0; y < img.dims[1]; ++y) {
             uint_t x0 = x >= hsize ? x - hsize : 0;
-            uint_t x1 = x < img.dims[0]-hsize ? x + hsize : img.dims[0]-1;
+            uint_t x1 = x + hsize < img.dims[0] ? x + hsize : img.dims[0]-1;
             uint_t y0 = y >= hsize ? y - hsize : 0;
-            uint_t y1 = y < img.dims[1]-hsize ? y + hsize : img.dims[1]-1;
+            uint_t y1 = y + hsize < img.dims[1] ? y + hsize : img.dims[1]-1;
 
             vec<1,meta::rtype_t<T>> tmp;
             tmp.reserve((x1-x0)*(y1-y0));
-- 
2.43.0


From 8123f38b2adae38c02893a10476416ce3c09c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 081/125] fix: foreach_segment(), segment() and
 segment_deblend() counted some pixels several times

---
 include/vif/astro/image.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index e7caad3..7923da3 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -865,6 +865,7 @@ namespace astro {
             vec1u tmid = mult_ids(seg, mids[s]);
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
+            visited[mids[s]] = curseg;
 
             while (!ox.empty()) {
                 vec1u tox = std::move(ox), toy = std::move(oy);
@@ -938,6 +939,9 @@ namespace astro {
                         out.px.back() += ttx;
                         out.py.back() += tty;
 
+                        // Set to zero now to avoid adding it again
+                        map.safe(tty,ttx) = 0;
+
                         oy.push_back(tty);
                         ox.push_back(ttx);
                     }
@@ -1158,6 +1162,7 @@ namespace astro {
                 oy.clear(); ox.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 while (!ox.empty()) {
                     vec1u tox = std::move(ox), toy = std::move(oy);
@@ -1214,6 +1219,7 @@ namespace astro {
                 ox.clear(); oy.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 vec1u sids;
                 sids.reserve(out.area[s]);
-- 
2.43.0


From dcaaa432f00862e8de50b472cdc0af3aafb832da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 082/125] fix: segment_distance() could attribute a pixel to
 another segment than the nearest one it found

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 7923da3..3f2d839 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1369,7 +1369,7 @@ namespace astro {
                         double nd = sqr(double(tty) - oy) + sqr(double(ttx) - ox);
 
                         if (dmap.safe(tty,ttx) > nd) {
-                            map.safe(tty,ttx) = state.id;
+                            map.safe(tty,ttx) = map.safe(ty,tx);
                             imap.safe(tty,ttx) = imap.safe(ty,tx);
                             dmap.safe(tty,ttx) = nd;
                             state.oy.push_back(tty);
-- 
2.43.0


From 75359e47eff4362362c770b2f0ba0edc8d2af7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 083/125] fix: matrix::solve() solved the transposed system
 when using LAPACK

---
 include/vif/math/bits/matrix-functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 341c1b2..958fc65 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -712,6 +712,9 @@ namespace matrix {
         int info;
         vec<1,int> ipiv(n);
 
+        // FORTRAN is column-oriented
+        alpha.base = vif::transpose(alpha.base);
+
         lapack::dgesv_(&n, &nrhs, alpha.raw_data(), &lda, ipiv.raw_data(), beta.raw_data(),
             &ldb, &info);
         if (info != 0) {
-- 
2.43.0


From f5bce350780b75056bce6870e8e66064442ec0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 084/125] fix: decompose_lu::invert() was wrong when 'no_pivot'
 is set

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 958fc65..956a2a3 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -246,7 +246,7 @@ namespace matrix {
 
                         r.safe[k] = (i1 == k);
                     } else {
-                        r.safe[k] = 1.0;
+                        r.safe[k] = (k == c);
                     }
 
                     for (uint_t i : range(k)) {
-- 
2.43.0


From 6712f3b73f56cefa8425187e26589fc1d4041f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 085/125] fix: decompose_cholesky::decompose() did nothing
 without LAPACK

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 956a2a3..9dfbfdc 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -307,7 +307,7 @@ namespace matrix {
             l = std::move(alpha);
 
         #ifdef NO_LAPACK
-            const uint_t n = alpha.dims[0];
+            const uint_t n = l.dims[0];
             for (uint_t i : range(n)) {
                 for (uint_t j : range(i+1)) {
                     double s = 0.0;
-- 
2.43.0


From a5b4973927613a98c6044b5f402a70c6adcb3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 086/125] fix: matrix::determinant() did not compile with
 as_matrix()

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 9dfbfdc..0e218c2 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -565,7 +565,7 @@ namespace matrix {
             v.dims, ")");
 
         decompose_lu d;
-        if (!d.decompose(v)) {
+        if (!d.decompose(mat<meta::data_type_t<Type>>(v.base))) {
             return 0.0;
         }
 
-- 
2.43.0


From 494867dcec9670c9c71d359e939f63589f8db6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 087/125] fix: division of a matrix by a scalar did not compile

---
 include/vif/math/bits/matrix-types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-types.hpp b/include/vif/math/bits/matrix-types.hpp
index d140138..a26376d 100644
--- a/include/vif/math/bits/matrix-types.hpp
+++ b/include/vif/math/bits/matrix-types.hpp
@@ -550,7 +550,7 @@ namespace matrix {
         meta::is_matrix<TypeA>::value && std::is_arithmetic<typename std::decay<TypeB>::type>::value
     >::type>
     auto operator / (const TypeA& a, const TypeB& b) -> mat<decltype(a(0,0)/b)> {
-        return mat<decltype(a(0,0)/b)>(std::forward<TypeA>(a).base/b);
+        return mat<decltype(a(0,0)/b)>(a.base/b);
     }
 
     // matrix + matrix
-- 
2.43.0


From befc5e8a8d4070311af2ee4946bb31f4e26276b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 088/125] fix: linfit_nn() never reported success, and returned
 NaN for models that do not contribute

---
 include/vif/math/linfit.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index a61d1d4..8b4ca65 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -147,6 +147,9 @@ namespace vif {
                         av += alpha.safe(m0,m1)*fr.params.safe[m1];
                     }
 
+                    // Coefficients that reached zero stay there
+                    if (fr.params.safe[m0] == 0.0) continue;
+
                     // Update coeff
                     double old = fr.params.safe[m0];
                     fr.params.safe[m0] *= beta.safe[m0]/av;
@@ -158,9 +161,7 @@ namespace vif {
                 ++titer;
             } while (ta/tb > fit_tftol && titer < titermax);
 
-            if (titer == titermax) {
-                fr.success = false;
-            }
+            fr.success = titer < titermax;
 
             vec1d model(nm);
             for (uint_t m : range(nm)) {
-- 
2.43.0


From e490ffe3dc90b474d1ee7fc39cecddb2cc6ce062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 089/125] fix: linfit_pack_batch() and
 linfit_batch_t::update_model() did not check the dimensions of the models

---
 include/vif/math/linfit.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index 8b4ca65..1c55086 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -348,6 +348,8 @@ namespace vif {
             uint_t nm = cache.dims[1];
 
             vif_check(i < np, "index goes beyond available models (", i, " vs. ", np, ")");
+            vif_check(x.size() == nm, "incompatible dimensions between X and YE arrays (",
+                meta::dims(x), " vs. ", meta::dims(ye), ")");
 
             for (uint_t j : range(nm)) {
                 cache.safe(i,j) = x.safe[j]/ye.safe[j];
@@ -374,6 +376,9 @@ namespace vif {
             uint_t np = x.dims[0];
             uint_t nm = meta::size(ye);
 
+            vif_check(x.size() == np*nm, "incompatible dimensions between X and YE arrays (",
+                meta::dims(x), " vs. ", meta::dims(ye), ")");
+
             cache.resize(np,nm);
             for (uint_t i : range(np))
             for (uint_t j : range(nm)) {
-- 
2.43.0


From 897e37e1c6b52277a753b177bf21d3a4a736b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:56 +0000
Subject: [PATCH 090/125] fix: mpfit() did not move parameters away from their
 limits or when both limits are set

---
 include/vif/math/mpfit.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index dea5498..87fb41b 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -540,9 +540,7 @@ namespace vif {
 
         vec1d llim = options.lower_limit[ifree];
         vec1d ulim = options.upper_limit[ifree];
-        vec1u ilow = where(!is_nan(llim));
-        vec1u iup = where(!is_nan(ulim));
-        bool anylim = !ilow.empty() || !iup.empty();
+        bool anylim = count(!is_nan(llim)) != 0 || count(!is_nan(ulim)) != 0;
 
         vec1d mastep = options.max_step[ifree];
         vec1u imima = where(mastep != 0.0);
@@ -573,14 +571,16 @@ namespace vif {
         while (true) {
             fjac = mpfit_fdjac2(deviate, xall, ifree, x, fvec, options);
 
-            // Set derivatives of frozen parameters to zero
-            for (uint_t p : range(n)) {
-                if (!is_nan(llim[p]) && total(fvec*fjac(p,_)) > 0.0) {
-                    fjac(p,_) = 0.0;
-                }
-                if (!is_nan(ulim[p]) && total(fvec*fjac(p,_)) < 0.0) {
-                    fjac(p,_) = 0.0;
-                }
+            // Find the parameters that are pegged at their limits (limits are NaN if not set)
+            vec1u ilow = where(x == llim);
+            vec1u iup = where(x == ulim);
+
+            // Set derivatives of pegged parameters to zero if they would go beyond the limits
+            for (uint_t p : ilow) {
+                if (total(fvec*fjac(p,_)) > 0.0) fjac(p,_) = 0.0;
+            }
+            for (uint_t p : iup) {
+                if (total(fvec*fjac(p,_)) < 0.0) fjac(p,_) = 0.0;
             }
 
             // Compute QR factorization of the Jacobian
-- 
2.43.0


From 84d1b071e8934c1bb33fee5a9b82069dac53f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:56 +0000
Subject: [PATCH 091/125] fix: functions of mpfit.hpp were defined several
 times when used in several source files

---
 include/vif/math/mpfit.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index 87fb41b..2ae536c 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -88,7 +88,7 @@ namespace vif {
     };
 
     // Numerically stable sqrt(total(sqr(v)))
-    double mpfit_enorm(const vec1d& v) {
+    inline double mpfit_enorm(const vec1d& v) {
         const double dwarf = sqrt(std::numeric_limits<double>::min()*1.5)*10.0;
         const double giant = sqrt(std::numeric_limits<double>::max())*0.1;
 
@@ -176,7 +176,7 @@ namespace vif {
     }
 
     // Compute QR factorization of a matrix such that a(ipiv,_) = q*r
-    void mpfit_qrfac(vec2d& a, vec1u& ipiv, vec1d& rdiag, vec1d& acnorm) {
+    inline void mpfit_qrfac(vec2d& a, vec1u& ipiv, vec1d& rdiag, vec1d& acnorm) {
         const double eps = std::numeric_limits<double>::epsilon();
 
         const uint_t n = a.dims[0];
@@ -245,7 +245,7 @@ namespace vif {
     }
 
     // Solve the linear system (Q*R)*x = B
-    void mpfit_qrsolv(vec2d& r, const vec1u& ipiv, const vec1d& diag, const vec1d& qtf,
+    inline void mpfit_qrsolv(vec2d& r, const vec1u& ipiv, const vec1d& diag, const vec1d& qtf,
         vec1d& x, vec1d& sdiag) {
 
         const uint_t n = r.dims[0];
@@ -334,7 +334,7 @@ namespace vif {
     }
 
     // Determine the levenberg-marquardt parameter
-    void mpfit_lmpar(vec2d& r, const vec1u& ipiv, const vec1d& diag, const vec1d& qtf,
+    inline void mpfit_lmpar(vec2d& r, const vec1u& ipiv, const vec1d& diag, const vec1d& qtf,
         double delta, vec1d& x, vec1d& sdiag, double& par) {
 
         const double dwarf = sqrt(std::numeric_limits<double>::min()*1.5)*10.0;
@@ -460,7 +460,7 @@ namespace vif {
     }
 
     // Compute convariance matrix from Jacobian
-    vec2d mpfit_covar(vec2d r, const vec1u& ipiv) {
+    inline vec2d mpfit_covar(vec2d r, const vec1u& ipiv) {
         vif_check(r.dims[0] == r.dims[1], "matrix must be squared (got ", r.dims, ")");
         const uint_t n = r.dims[0];
 
-- 
2.43.0


From 741e9c1f5d5ff21279c0f0168d5d71c1e2e0e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:13 +0000
Subject: [PATCH 092/125] fix: convex hulls of integer points had truncated
 face vectors (wrong distances)

---
 include/vif/math/convex_hull.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 6851971..61e3c04 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -96,9 +96,11 @@ namespace vif {
         mutable int_t orient = 0;       // orientation of the hull, 1: ccw, -1: cw
 
         mutable bool vectors_built = false; // flag if segment data has been computed
-        mutable vec<1,T> ux, uy;            // unit vector
-        mutable vec<1,T> nx, ny;            // normal vector
-        mutable vec<1,T> length;            // vector length
+        // (integers cannot hold unit vectors)
+        using ftype = typename std::conditional<std::is_floating_point<T>::value, T, double>::type;
+        mutable vec<1,ftype> ux, uy;        // unit vector
+        mutable vec<1,ftype> nx, ny;        // normal vector
+        mutable vec<1,ftype> length;        // vector length
     };
 
     // Build the convex hull of a set of points, returning the indices of the points that form the hull
-- 
2.43.0


From 3b0f9fa757fc3d43fbe5d6c22d7266c2f5919353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:13 +0000
Subject: [PATCH 093/125] fix: closed convex hulls of integer vertices were
 never considered as closed

---
 include/vif/math/convex_hull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 61e3c04..b1399f2 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -48,8 +48,8 @@ namespace vif {
 
                 const auto eps = std::numeric_limits<T>::epsilon();
                 const uint_t hend = size()-1;
-                closed = (abs(x.safe[0] - x.safe[hend]) < eps &&
-                     abs(y.safe[0] - y.safe[hend]) < eps);
+                closed = (abs(x.safe[0] - x.safe[hend]) <= eps &&
+                     abs(y.safe[0] - y.safe[hend]) <= eps);
 
                 orient = ((x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[1]) -
                          (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[1]) > 0) ? 1 : -1;
-- 
2.43.0


From 6ddac01c4dfd992d5dd739bd7253330260d421b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:13 +0000
Subject: [PATCH 094/125] fix: wrong orientation of convex hulls whose first
 three vertices are aligned

---
 include/vif/math/convex_hull.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index b1399f2..13ac7ee 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -51,8 +51,15 @@ namespace vif {
                 closed = (abs(x.safe[0] - x.safe[hend]) <= eps &&
                      abs(y.safe[0] - y.safe[hend]) <= eps);
 
-                orient = ((x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[1]) -
-                         (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[1]) > 0) ? 1 : -1;
+                // Sign of the (double) area, since any three vertices may be aligned
+                auto area = (x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[0]) -
+                            (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[0]);
+                for (uint_t i : range(3, size())) {
+                    area += (x.safe[i-1] - x.safe[0])*(y.safe[i] - y.safe[0]) -
+                            (y.safe[i-1] - y.safe[0])*(x.safe[i] - x.safe[0]);
+                }
+
+                orient = area > 0 ? 1 : -1;
 
                 validated = true;
             }
-- 
2.43.0


From c74854a8200aa01e5ecf8b7d5470f13e1f874b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:13 +0000
Subject: [PATCH 095/125] fix: build_convex_hull() wrote out of bounds when
 there is no point

---
 include/vif/math/convex_hull.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 13ac7ee..32c52da 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -142,7 +142,7 @@ namespace vif {
         }
 
         uint_t t = k+1;
-        for (uint_t i = npt-2; i != npos; --i) {
+        for (uint_t i = (npt == 0 ? npos : npt-2); i != npos; --i) {
             while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i]) <= 0) --k;
             res.safe[k] = ids.safe[i];
             ++k;
-- 
2.43.0


From 1c3683bf7d8a192979473467c72f1df98b02347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:13 +0000
Subject: [PATCH 096/125] fix: field_area_hull() read out of bounds for less
 than two points

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 3c04e23..6a536a3 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -533,7 +533,7 @@ namespace astro {
         auto d2r = dpi/180.0;
         auto hx = hull.x*d2r;
         auto hy = hull.y*d2r;
-        for (uint_t i : range(2, hull.size())) {
+        for (uint_t i = 2; i < hull.size(); ++i) {
             double e1 = angdistr(hx.safe[0],   hy.safe[0],   hx.safe[i-1], hy.safe[i-1]);
             double e2 = angdistr(hx.safe[i-1], hy.safe[i-1], hx.safe[i],   hy.safe[i]);
             double e3 = angdistr(hx.safe[i],   hy.safe[i],   hx.safe[0],   hy.safe[0]);
-- 
2.43.0


From e48c79bbadb0d9079331d1d9a0b16bccfbadf43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:13 +0000
Subject: [PATCH 097/125] fix: field_area_hull() returned NaN when rounding
 errors make a triangle degenerate

---
 include/vif/astro/astro.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6a536a3..91439a3 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -538,7 +538,9 @@ namespace astro {
             double e2 = angdistr(hx.safe[i-1], hy.safe[i-1], hx.safe[i],   hy.safe[i]);
             double e3 = angdistr(hx.safe[i],   hy.safe[i],   hx.safe[0],   hy.safe[0]);
             double p = 0.5*(e1 + e2 + e3);
-            area += sqrt(p*(p-e1)*(p-e2)*(p-e3));
+            double a2 = p*(p-e1)*(p-e2)*(p-e3);
+            // (can be slightly negative for flat triangles, because of rounding errors)
+            if (a2 > 0) area += sqrt(a2);
         }
 
         area /= sqr(d2r);
-- 
2.43.0


From 99020a0ab803db3736d9d69c30713922ff8be6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:43 +0000
Subject: [PATCH 098/125] fix: field_area_h2d() crashed when all the sources
 have the same RA or Dec

---
 include/vif/astro/astro.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 91439a3..92cba8b 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -577,6 +577,11 @@ namespace astro {
         double rough_area = (angdist(min_ra, min_dec, max_ra, min_dec)/3600.0)*
                             (angdist(min_ra, min_dec, min_ra, max_dec)/3600.0);
 
+        if (rough_area == 0.0) {
+            // All sources are aligned, the field has no extent
+            return 0.0;
+        }
+
         double dr = sqrt(optinum)*sqrt(rough_area/ra.size());
 
         // Now define the grid
-- 
2.43.0


From 84cbe473f9d6861d3b71c64f97876f289ecefb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:43 +0000
Subject: [PATCH 099/125] fix: ds9 regions written in physical coordinates were
 offset by one pixel when read back

---
 include/vif/astro/ds9.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 7b46bf1..66abb39 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -308,11 +308,15 @@ namespace ds9 {
     inline void write_region(std::ofstream& out, const std::string& ss,
         const vif::astro::ds9::region& r) {
 
+        // Add 1 to X and Y to go from C++ convention to FITS convention
+        const double x0 = r.params[0] + (r.physical ? 1.0 : 0.0);
+        const double y0 = r.params[1] + (r.physical ? 1.0 : 0.0);
+
         if (r.type == "circle") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << x0 << ", " << y0 << ", " <<
                 r.params[2] << ss << ")\n";
         } else if (r.type == "box") {
-            out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
+            out << r.type << "(" << x0 << ", " << y0 << ", " <<
                 r.params[2] << ss << ", " <<
                 r.params[3] << ss << ", " << r.params[4] << ")\n";
         } else {
-- 
2.43.0


From bb4ec229b175f94152159f27d2c5aa08e446f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:43 +0000
Subject: [PATCH 100/125] fix: read_regions() stayed in physical coordinates
 when the file switches back to another system

---
 include/vif/astro/ds9.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 66abb39..4600388 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -40,7 +40,7 @@ namespace ds9 {
 
             auto spos = line.find_first_of('(');
             if (spos == line.npos) {
-                if (trim(line) == "physical") physical = true;
+                physical = trim(line) == "physical";
                 continue;
             }
 
-- 
2.43.0


From 12789ff47e987abae0ff657a5e451e95ad622de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:16 +0000
Subject: [PATCH 101/125] fix: write_regions_wcs() wrote unreadable regions
 when the sky is not along the last axes of a cube

---
 include/vif/astro/ds9.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 4600388..ca01a99 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -339,8 +339,10 @@ namespace ds9 {
             "source=1\n";
 
         bool wcs_radec = false;
-        if (w.type[0] == axis_type::spatial) {
-            wcs_radec = true;
+        for (auto t : w.type) {
+            if (t == axis_type::spatial) {
+                wcs_radec = true;
+            }
         }
 
         std::string size_suffix;
-- 
2.43.0


From c2ca3e4d8e7917fa21b3544e0e015636a6336be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:16 +0000
Subject: [PATCH 102/125] fix: ad2xy() and xy2ad() converted the second
 coordinate to the type of the first one

---
 include/vif/astro/wcs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 02e9d30..753adcb 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -793,7 +793,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tra  = replicate(ra,  1);
-        vec<1,T> tdec = replicate(dec, 1);
+        vec<1,U> tdec = replicate(dec, 1);
         vec<1,V> tx;
         vec<1,W> ty;
 
@@ -813,7 +813,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tx = replicate(x, 1);
-        vec<1,T> ty = replicate(y, 1);
+        vec<1,U> ty = replicate(y, 1);
         vec<1,V> tra;
         vec<1,W> tdec;
 
-- 
2.43.0


From 86517b09feff18b9a13a79dbce039202fd45f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:16 +0000
Subject: [PATCH 103/125] fix: headers with a RA axis and no Dec axis corrupted
 the axes of wcs

---
 include/vif/astro/wcs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 753adcb..a768819 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -449,7 +449,7 @@ namespace astro {
             // Identify RA and Dec axis
             uint_t tx = find_axis("RA");
             uint_t ty = find_axis("DEC");
-            if (tx != npos && tx != npos) {
+            if (tx != npos && ty != npos) {
                 ra_axis = x_axis = tx;
                 dec_axis = y_axis = ty;
 
-- 
2.43.0


From 8bf3519ab0826f65110a27ee0e919fe1850d70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:16 +0000
Subject: [PATCH 104/125] fix: moving wcs objects lost their state

---
 include/vif/astro/wcs.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index a768819..33c9153 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -546,6 +546,7 @@ namespace astro {
         wcs(wcs&& tw) noexcept {
             std::swap(w, tw.w);
             std::swap(nwcs, tw.nwcs);
+            std::swap(isset, tw.isset);
             std::swap(dims, tw.dims);
             std::swap(has_unit, tw.has_unit);
             std::swap(type, tw.type);
@@ -556,12 +557,17 @@ namespace astro {
         }
 
         wcs& operator = (wcs&& tw) noexcept {
+            if (&tw == this) {
+                return *this;
+            }
+
             if (w) {
                 wcsvfree(&nwcs, &w);
             }
 
             w = tw.w; tw.w = nullptr;
             nwcs = tw.nwcs; tw.nwcs = 0;
+            isset = tw.isset; tw.isset = false;
             dims = tw.dims; tw.dims.clear();
             has_unit = tw.has_unit; tw.has_unit.clear();
             type = tw.type; tw.type.clear();
-- 
2.43.0


From 9f4938f9b2694191947840565352c7f8afbe2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 105/125] fix: regrid_interpolate() used the axes of the source
 image for the size of the result

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 3f2d839..22a4b92 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1889,8 +1889,8 @@ namespace astro {
 
         res = replicate(dnan, astrod.dims[astrod.y_axis], astrod.dims[astrod.x_axis]);
 
-        uint_t nx = astrod.dims[astros.x_axis];
-        uint_t ny = astrod.dims[astros.y_axis];
+        uint_t nx = astrod.dims[astrod.x_axis];
+        uint_t ny = astrod.dims[astrod.y_axis];
 
         // Precompute the projection of the new pixel grid on the old
         // Note: for the horizontal pixel 'i' of line 'j' (x_i,y_j), the grid is:
-- 
2.43.0


From 8d887ec98350f1b49cb297c66d4eccd9f1c80b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 106/125] fix: regrid_interpolate() exchanged source and
 destination for integer translations

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 22a4b92..fe429a1 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1933,7 +1933,7 @@ namespace astro {
                 int_t wy2 = ny-1 - wy1;
 
                 vec1u ids, idd;
-                subregion(res, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, idd, ids);
+                subregion(imgs, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, ids, idd);
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-- 
2.43.0


From be3928bb5b2cbd0115600150e805570e4d194538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 107/125] fix: regrid_interpolate() ignored the first row and
 column of the image with nearest neighbor

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index fe429a1..21fb69e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1814,7 +1814,7 @@ namespace impl {
         template<typename T, typename U>
         bool regrid_nearest(const vec<2,T>& imgs, double xps, double yps, U& flx) {
             int_t mx = round(xps), my = round(yps);
-            if (mx > 0 && uint_t(mx) < imgs.dims[1] && my > 0 && uint_t(my) < imgs.dims[0]) {
+            if (mx >= 0 && uint_t(mx) < imgs.dims[1] && my >= 0 && uint_t(my) < imgs.dims[0]) {
                 flx = imgs.safe(uint_t(my), uint_t(mx));
                 return true;
             } else {
-- 
2.43.0


From 971352dfc9c56d43e7c22db9bd2fa129cb2f6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 108/125] fix: regrid_drizzle() gave full weight to pixels that
 are partly outside of the destination image

---
 include/vif/astro/image.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 21fb69e..5b7b236 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1733,7 +1733,9 @@ namespace impl {
 
             uint_t ymax = tymax, xmax = txmax;
 
-            if (xmax == xmin && ymax == ymin) {
+            if (xmax == xmin && ymax == ymin &&
+                min(xps) >= xmin-0.5 && max(xps) <= xmin+0.5 &&
+                min(yps) >= ymin-0.5 && max(yps) <= ymin+0.5) {
                 // Original pixel is fully contained within destination pixel
                 add_flux(imgs, ix, iy, flux_frac, res, xmin, ymin);
                 wei.safe(ymin,xmin) += pixel_area;
-- 
2.43.0


From 293780820fa42ff700d0761a3fa02e392bab1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 109/125] fix: regrid_drizzle() did not account for the
 shrinking of pixels with a linearized projection

---
 include/vif/astro/image.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 5b7b236..0b75aac 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -2110,10 +2110,12 @@ namespace astro {
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-                wei[idd] = 1.0;
+                wei[idd] = sqr(opts.pixfrac);
 
                 return res;
             }
+
+            pixel_area *= sqr(opts.pixfrac);
         }
 
         auto s2d = [&](double sx, double sy, double& dx, double& dy) {
-- 
2.43.0


From df17a32fc3a570496bb0e8525650e0ce366d66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 110/125] fix: cutout_extractor returned a stale header, or an
 empty one for sources that are not covered

---
 include/vif/astro/image.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 0b75aac..b1bf3d5 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1475,6 +1475,7 @@ namespace astro {
             double ra, double dec, double size, Type def) const {
 
             cut.clear();
+            hdr.clear();
 
             double ira = ra, idec = dec;
             if (dist) {
@@ -1550,6 +1551,12 @@ namespace astro {
                 }
             }
 
+            bool covered = !cut.empty();
+            if (!covered) {
+                // Source not covered, just use placeholder data
+                cut = replicate(def, 2*hs+1, 2*hs+1);
+            }
+
             if (gethdr) {
                 if (hdr.empty() && gethdr) {
                     // Source not covered, just use the first WCS header
@@ -1565,13 +1572,7 @@ namespace astro {
                 }
             }
 
-            if (cut.empty()) {
-                // Source not covered, just use placeholder data
-                cut = replicate(def, 2*hs+1, 2*hs+1);
-                return false;
-            }
-
-            return true;
+            return covered;
         }
 
     public:
-- 
2.43.0


From cb03b3b41b64ebb4ab257b0c7d36f1f7802d2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 111/125] fix: cutout_extractor::get_cutout() could not be
 called with a default value of another type

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index b1bf3d5..d2cffe1 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1580,13 +1580,13 @@ namespace astro {
         bool get_cutout(vec<2,Type>& cut, double ra, double dec, double size,
             TypeD def = impl::astro_impl::extract_default_value<Type>::value) const {
             fits::header hdr;
-            return get_cutout_(cut, hdr, false, ra, dec, size, def);
+            return get_cutout_(cut, hdr, false, ra, dec, size, static_cast<Type>(def));
         }
 
         template<typename Type, typename TypeD = Type>
         bool get_cutout(vec<2,Type>& cut, fits::header& hdr, double ra, double dec, double size,
             TypeD def = impl::astro_impl::extract_default_value<Type>::value) const {
-            return get_cutout_(cut, hdr, true, ra, dec, size, def);
+            return get_cutout_(cut, hdr, true, ra, dec, size, static_cast<Type>(def));
         }
     };
 #else
-- 
2.43.0


From 32a151db21b643acaa706e9666e022abac9f6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 112/125] fix: qstack() mixed the pixels of sources that are
 partly outside of the image

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 4f6ab3f..7472791 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -156,7 +156,7 @@ namespace astro {
                     long p0b[2] = {max(1, p0[0]),         max(1, p0[1])};
                     long p1b[2] = {min(img.width, p1[0]), min(img.height, p1[1])};
 
-                    vec<2,Type> subcut(p1b[0]-p0b[0]+1, p1b[1]-p0b[1]+1);
+                    vec<2,Type> subcut(p1b[1]-p0b[1]+1, p1b[0]-p0b[0]+1);
 
                     Type null = fnan;
                     int anynul = 0;
-- 
2.43.0


From a7037478cd1fa9f94dd7ee6418a897c912451976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 113/125] fix: qstack() ignored the last row and column of the
 image

---
 include/vif/astro/qstack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 7472791..5d3db5f 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -142,13 +142,13 @@ namespace astro {
                 long p1[2] = {long(round(img.x[i]+hsize)), long(round(img.y[i]+hsize))};
 
                 // Discard any source that falls out of the boundaries of the image
-                if (p1[0] < 1 || p0[0] >= img.width || p1[1] < 1 || p0[1] >= img.height) {
+                if (p1[0] < 1 || p0[0] > img.width || p1[1] < 1 || p0[1] > img.height) {
                     continue;
                 }
 
                 vec<2,Type> cut(2*hsize+1, 2*hsize+1);
 
-                if (p0[0] < 1 || p1[0] >= img.width || p0[1] < 1 || p1[1] >= img.height) {
+                if (p0[0] < 1 || p1[0] > img.width || p0[1] < 1 || p1[1] > img.height) {
                     // The source is overlapping with the edges of the map
                     // Extract what we can
                     cut[_] = fnan;
@@ -314,7 +314,7 @@ namespace astro {
             long p1[2] = {long(round(x[i]+hsize)), long(round(y[i]+hsize))};
 
             // Discard any source that falls out of the boundaries of the image
-            if (p0[0] < 1 || p1[0] >= width || p0[1] < 1 || p1[1] >= height) {
+            if (p0[0] < 1 || p1[0] > width || p0[1] < 1 || p1[1] > height) {
                 continue;
             }
 
-- 
2.43.0


From 01b0f588cb350ac709d09fccd9537a718d43fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 114/125] fix: qstack() lost offsets and sections when stacking
 sectioned images with weights

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 5d3db5f..af1383e 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -231,7 +231,7 @@ namespace astro {
 
         if (ends_with(ffile, ".sectfits") || ends_with(wfile, ".sectfits")) {
             uint_t norig = ids.size();
-            qstack(ra, dec, ffile, hsize, cube, ids, params);
+            out = qstack(ra, dec, ffile, hsize, cube, ids, params);
             uint_t nsci = ids.size() - norig;
 
             vec1u tids; // trash weight IDs: they are already collected in 'ids'
-- 
2.43.0


From 367abfb347856f2903d4351d9884b344fdc96e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 115/125] fix: moving a qstack image lost the positions of the
 sources

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index af1383e..5001dca 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -62,7 +62,7 @@ namespace impl {
 
             image_workspace(image_workspace&& i) : status(i.status), fptr(i.fptr),
                 width(i.width), height(i.height), astro(std::move(i.astro)),
-                x(std::move(x)), y(std::move(y)) {
+                x(std::move(i.x)), y(std::move(i.y)) {
                 i.fptr = nullptr;
             }
 
-- 
2.43.0


From bc8123a22bc04bf0d2fc6bf3c040f6a735f64400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:22 +0000
Subject: [PATCH 116/125] fix: default constructed wcs objects were allocated
 with new and released with free()

---
 include/vif/astro/wcs.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 33c9153..8179498 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -1,6 +1,7 @@
 #ifndef VIF_IO_ASTRO_WCS_HPP
 #define VIF_IO_ASTRO_WCS_HPP
 
+#include <cstdlib>
 #include "vif/core/error.hpp"
 #include "vif/utility/thread.hpp"
 #include "vif/io/fits.hpp"
@@ -361,7 +362,10 @@ namespace astro {
         uint_t ra_axis = 1, dec_axis = 0;
         uint_t x_axis = 1, y_axis = 0;
 
-        explicit wcs(uint_t naxis = 2) : w(new wcsprm), nwcs(1) {
+        explicit wcs(uint_t naxis = 2) :
+            // Released by wcsvfree(), which uses free()
+            w(static_cast<wcsprm*>(std::calloc(1, sizeof(wcsprm)))), nwcs(1) {
+
             w->flag = -1;
             wcsini(true, naxis, w);
 
-- 
2.43.0


From 022a03118478930ea4727db25b383d2f36143d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:27 +0000
Subject: [PATCH 117/125] fix: randomi() never drew the lowest value if
 negative, and overflowed for large ranges

---
 include/vif/math/random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 340be64..4942906 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -60,7 +60,8 @@ namespace vif {
         vec<meta::dim_total<Args...>::value,decltype(mi+ma)> {
         auto v = randomu(seed, std::forward<Args>(args)...);
         using rtype = decltype(mi + ma);
-        return vec<meta::dim_total<Args...>::value,rtype>(v*(ma + 1 - mi) + mi);
+        return vec<meta::dim_total<Args...>::value,rtype>(
+            floor(v*(static_cast<double>(ma) + 1.0 - static_cast<double>(mi)) + mi));
     }
 
     template<typename T, typename TypeX = double, typename TypeY = double, typename ... Args>
-- 
2.43.0


From dc1f83f7ac6c447b768dd0666c5d55bf439cd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:27 +0000
Subject: [PATCH 118/125] fix: shuffle() modified its argument when called on a
 view

---
 include/vif/math/random.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 4942906..68e9718 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -141,9 +141,10 @@ namespace vif {
     }
 
     template<std::size_t Dim, typename Type, typename T>
-    vec<Dim,Type> shuffle(T& seed, vec<Dim,Type> v) {
-        inplace_shuffle(seed, v);
-        return v;
+    vec<Dim,meta::rtype_t<Type>> shuffle(T& seed, const vec<Dim,Type>& v) {
+        vec<Dim,meta::rtype_t<Type>> r = v;
+        inplace_shuffle(seed, r);
+        return r;
     }
 }
 
-- 
2.43.0


From c79714019ce2fb538bebfa9d3e4888a042e95ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:27 +0000
Subject: [PATCH 119/125] fix: random_pdf() did not check that its arguments
 have the same size

---
 include/vif/math/random.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 68e9718..cc899d5 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -66,6 +66,9 @@ namespace vif {
 
     template<typename T, typename TypeX = double, typename TypeY = double, typename ... Args>
     meta::rtype_t<TypeX> random_pdf(T& seed, const vec<1,TypeX>& px, const vec<1,TypeY>& py) {
+        vif_check(px.dims == py.dims, "incompatible dimensions between X and Y arrays (",
+            px.dims, " vs. ", py.dims, ")");
+
         using rtype = meta::rtype_t<TypeX>;
         std::piecewise_linear_distribution<rtype> distribution(px.begin(), px.end(), py.begin());
         return distribution(seed);
@@ -75,6 +78,9 @@ namespace vif {
     vec<meta::dim_total<Args...>::value,meta::rtype_t<TypeX>> random_pdf(T& seed, const vec<1,TypeX>& px,
         const vec<1,TypeY>& py, Args&& ... args) {
 
+        vif_check(px.dims == py.dims, "incompatible dimensions between X and Y arrays (",
+            px.dims, " vs. ", py.dims, ")");
+
         using rtype = meta::rtype_t<TypeX>;
         vec<meta::dim_total<Args...>::value,rtype> v(std::forward<Args>(args)...);
         std::piecewise_linear_distribution<rtype> distribution(px.begin(), px.end(), py.begin());
-- 
2.43.0


From 6d71740458a8d05267ba211660fa08eb28be50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 120/125] fix: hash() depended on whether its arguments are
 temporaries

---
 include/vif/utility/bits/string-hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-hash.hpp b/include/vif/utility/bits/string-hash.hpp
index 7f50758..be26d13 100644
--- a/include/vif/utility/bits/string-hash.hpp
+++ b/include/vif/utility/bits/string-hash.hpp
@@ -158,7 +158,7 @@ namespace vif {
 
         template<typename T, typename ... Args>
         std::string hash_(std::string s, T&& t, Args&& ... args) {
-            return hash_(s+pretty_type(t)+to_string(t), std::forward<Args>(args)...);
+            return hash_(s+typeid(typename std::decay<T>::type).name()+to_string(t), std::forward<Args>(args)...);
         }
     }
     }
-- 
2.43.0


From 61f587aa326ff5dd88f4303865e03b792a7693d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 121/125] fix: hash() gave the same result for different
 numbers, shapes or lists of strings

---
 include/vif/utility/bits/string-hash.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-hash.hpp b/include/vif/utility/bits/string-hash.hpp
index be26d13..30abc89 100644
--- a/include/vif/utility/bits/string-hash.hpp
+++ b/include/vif/utility/bits/string-hash.hpp
@@ -156,9 +156,28 @@ namespace vif {
             return out;
         }
 
+        // Text which is different for different values
+        template<typename T>
+        std::string key_(const T& t) {
+            std::ostringstream ss;
+            ss << std::setprecision(std::numeric_limits<long double>::max_digits10) << t;
+            return ss.str();
+        }
+
+        template<std::size_t Dim, typename T>
+        std::string key_(const vec<Dim,T>& v) {
+            std::string k = to_string(v.dims);
+            for (uint_t i : range(v)) {
+                std::string e = key_(v.safe[i]);
+                k += to_string(e.size())+":"+e;
+            }
+
+            return k;
+        }
+
         template<typename T, typename ... Args>
         std::string hash_(std::string s, T&& t, Args&& ... args) {
-            return hash_(s+typeid(typename std::decay<T>::type).name()+to_string(t), std::forward<Args>(args)...);
+            return hash_(s+typeid(typename std::decay<T>::type).name()+key_(t), std::forward<Args>(args)...);
         }
     }
     }
-- 
2.43.0


From b728786a4c88b63ff45eacad350c21d165c17efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:46 +0000
Subject: [PATCH 122/125] fix: describe logical columns of FITS tables, which
 can be read, instead of skipping them

---
 include/vif/io/fits/table.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 95312eb..b56f670 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -178,6 +178,11 @@ namespace fits {
                 ci.cfitsio_type = TSTRING;
                 break;
             }
+            case 'L' : {
+                ci.type = column_info::boolean;
+                ci.cfitsio_type = TLOGICAL;
+                break;
+            }
             case 'B' : {
                 long nrow = 0;
                 fits_get_num_rows(fptr_, &nrow, &status_);
-- 
2.43.0


From 0f39c0248e6772ac50846567393f04300a6a5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:02 +0000
Subject: [PATCH 123/125] fix: read whole strings, not their first character,
 from FITS tables in text form with a single row

---
 include/vif/io/fits/table.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index b56f670..31522bd 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -644,6 +644,7 @@ namespace fits {
                 std::string tform;
                 if (read_keyword("TFORM"+to_string(cid), tform) && tform[0] == 'A') {
                     from_string(erase_begin(tform, "A"), axes[0]);
+                    repeat = axes[0];
                 }
             }
 
-- 
2.43.0


From 147474796f8e8456171decaa6a7678d596d97530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:43 +0000
Subject: [PATCH 124/125] fix: describe FITS byte columns with values above 127
 instead of failing to read them as signed

---
 include/vif/io/fits/table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 31522bd..6ec84d7 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -187,11 +187,11 @@ namespace fits {
                 long nrow = 0;
                 fits_get_num_rows(fptr_, &nrow, &status_);
 
-                vec<1,char> v(nrow == 0 ? 0 : repeat);
+                vec<1,short> v(nrow == 0 ? 0 : repeat);
                 if (!v.empty()) {
-                    char def = impl::fits_impl::traits<char>::def();
+                    short def = 0;
                     int null;
-                    fits_read_col(fptr_, impl::fits_impl::traits<char>::ttype, c, 1, 1, repeat,
+                    fits_read_col(fptr_, TSHORT, c, 1, 1, repeat,
                         &def, v.raw_data(), &null, &status_);
                     fits::vif_check_cfitsio(status_, "could not read column '"+std::string(name)+"'");
                 }
-- 
2.43.0


From e5cb21270e0b6960e67aca408dcaaa0e18f2f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 125/125] fix: qstack() read out of bounds for images with
 degenerate axes

---
 include/vif/astro/qstack.hpp | 48 ++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 5001dca..f94cdc1 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -9,6 +9,32 @@
 namespace vif {
 namespace impl {
     namespace qstack_impl {
+        // Read a region of a 2D image, which can have additional (degenerate) axes
+        template<typename Type>
+        void read_cutout(fitsfile* fptr, const long (&p0)[2], const long (&p1)[2],
+            vec<2,Type>& cut, int& status) {
+
+            int naxis = 0;
+            fits_get_img_dim(fptr, &naxis, &status);
+            vec<1,long> naxes(naxis);
+            fits_get_img_size(fptr, naxis, naxes.raw_data(), &status);
+
+            vec<1,long> first = replicate(1L, naxis), last = first, inc = first;
+            uint_t found = 0;
+            for (uint_t i : range(naxis)) {
+                if ((naxis == 2 || naxes[i] > 1) && found < 2) {
+                    first[i] = p0[found];
+                    last[i] = p1[found];
+                    ++found;
+                }
+            }
+
+            Type null = fnan;
+            int anynul = 0;
+            fits_read_subset(fptr, impl::fits_impl::traits<Type>::ttype, first.raw_data(),
+                last.raw_data(), inc.raw_data(), &null, cut.raw_data(), &anynul, &status);
+        }
+
         struct image_workspace {
             int status = 0;
             fitsfile* fptr = nullptr;
@@ -158,11 +184,7 @@ namespace astro {
 
                     vec<2,Type> subcut(p1b[1]-p0b[1]+1, p1b[0]-p0b[0]+1);
 
-                    Type null = fnan;
-                    int anynul = 0;
-                    long inc[2] = {1, 1};
-                    fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0b, p1b, inc, &null,
-                        subcut.raw_data(), &anynul, &img.status);
+                    impl::qstack_impl::read_cutout(img.fptr, p0b, p1b, subcut, img.status);
 
                     long x0 = p0b[0]-p0[0];
                     long x1 = p1b[0]-p0[0];
@@ -171,11 +193,7 @@ namespace astro {
                     cut(y0-_-y1,x0-_-x1) = subcut;
                 } else {
                     // The source is fully covered, easy
-                    Type null = fnan;
-                    int anynul = 0;
-                    long inc[2] = {1, 1};
-                    fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                        cut.raw_data(), &anynul, &img.status);
+                    impl::qstack_impl::read_cutout(img.fptr, p0, p1, cut, img.status);
                 }
 
                 // Discard any source that contains a bad pixel (either infinite or NaN)
@@ -321,14 +339,8 @@ namespace astro {
             vec<2,Type> cut(2*hsize+1, 2*hsize+1);
             vec<2,Type> wcut(2*hsize+1, 2*hsize+1);
 
-            Type null = fnan;
-            int anynul = 0;
-            long inc[2] = {1, 1};
-
-            fits_read_subset(fptr,  impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                cut.raw_data(),  &anynul, &status);
-            fits_read_subset(wfptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                wcut.raw_data(), &anynul, &status);
+            impl::qstack_impl::read_cutout(fptr,  p0, p1, cut,  status);
+            impl::qstack_impl::read_cutout(wfptr, p0, p1, wcut, status);
 
             // Discard any source that contains a bad pixel (either infinite or NaN)
             if (!params.keep_nan && count(!is_finite(cut) || !is_finite(wcut)) != 0) {
-- 
2.43.0

