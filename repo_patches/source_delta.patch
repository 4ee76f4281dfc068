From 60d816555c27dbf5497aedac1a7bec64d87345fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 01/28] fix: soa_grid::swap() exchanges all dimensions and
 extents, not just those along X

---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From bf3654b125afc125620ecdc0387dffb64ec4d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 02/28] fix: soa_grid's copy c-tor copies extents and can
 handle empty (default constructed) grids

---
 include/libflatarray/soa_grid.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..cb62101 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,6 +88,10 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
@@ -97,9 +101,18 @@ public:
         my_dim_x(other.my_dim_x),
         my_dim_y(other.my_dim_y),
         my_dim_z(other.my_dim_z),
-        my_byte_size(other.byte_size()),
-        my_data(ALLOCATOR().allocate(other.byte_size()))
+        my_extent_x(other.my_extent_x),
+        my_extent_y(other.my_extent_y),
+        my_extent_z(other.my_extent_z),
+        my_byte_size(other.my_byte_size),
+        my_data(0)
     {
+        // default constructed grids don't own any memory:
+        if (other.my_data == 0) {
+            return;
+        }
+
+        my_data = ALLOCATOR().allocate(byte_size());
         init();
         copy_in(other);
     }
-- 
2.43.0


From e7fbb75427685d66eb9e579df33b40f21aab3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 03/28] fix: soa_grid::resize() leaves a valid grid behind if
 the size is rejected (or zero, or allocation fails)

---
 include/libflatarray/soa_grid.hpp | 48 +++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index cb62101..21fcf23 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -155,19 +155,42 @@ public:
             return;
         }
 
+        // an all-zero size denotes an empty grid (see default c-tor),
+        // which doesn't own any memory:
+        bool new_grid_empty = (new_dim_x == 0) && (new_dim_y == 0) && (new_dim_z == 0);
+        std::size_t new_extent_x = 0;
+        std::size_t new_extent_y = 0;
+        std::size_t new_extent_z = 0;
+        std::size_t new_byte_size = 0;
+
+        // we need select_sizes to round up our grid size. This will
+        // throw if the size is not supported, so we have to do this
+        // before giving up the current content:
+        if (!new_grid_empty) {
+            detail::flat_array::set_byte_size_functor<value_type> functor(
+                &new_byte_size,
+                &new_extent_x,
+                &new_extent_y,
+                &new_extent_z);
+            api_traits::select_sizes<value_type>()(my_data, functor, new_dim_x, new_dim_y, new_dim_z);
+        }
+
         destroy_and_deallocate();
 
+        if (!new_grid_empty) {
+            my_data = ALLOCATOR().allocate(new_byte_size);
+        }
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
-        init();
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
+
+        if (!new_grid_empty) {
+            init();
+        }
     }
 
     template<typename FUNCTOR>
@@ -476,6 +499,15 @@ private:
 
         callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
         ALLOCATOR().deallocate(my_data, byte_size());
+
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
+        my_byte_size = 0;
+        my_data = 0;
     }
 
     void copy_in(const soa_grid& other)
-- 
2.43.0


From a0cebce9fda23589ff0d37be37f5866325734d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 04/28] fix: soa_vector::reserve() must not shrink below the
 current size

---
 include/libflatarray/soa_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..c3ab7d0 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -112,6 +112,11 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        // never shrink, as that could drop elements:
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
-- 
2.43.0


From 065e7438610a8cff12206193c9896fe566b4dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 05/28] fix: soa_vector::push_back() must not write to elements
 which were never constructed

---
 include/libflatarray/soa_vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index c3ab7d0..0f6915c 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -147,9 +147,14 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
+        if (count == capacity()) {
+            // only elements within the grid's dimensions have been
+            // constructed, so we can't make use of the padding
+            // without growing the grid first.
+            //
             // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+            using std::max;
+            reserve(max(count + 1, static_cast<std::size_t>(count * 1.2)));
         }
         set(count, element);
         ++count;
-- 
2.43.0


From 48fb90c861a8ddc021fdcee61bd644308f614679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 06/28] fix: soa_array's c-tor must not write beyond its
 capacity

---
 include/libflatarray/soa_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..7fa6a9d 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,6 +62,11 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
+#ifndef __CUDA_ARCH__
+        if (elements > SIZE) {
+            throw std::out_of_range("capacity exceeded");
+        }
+#endif
         construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
-- 
2.43.0


From d1852a9c2d0cbb7ef640f17d9f58483cdfe71cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 07/28] fix: copying soa_arrays of same size must copy members
 instead of raw bytes

---
 include/libflatarray/soa_array.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 7fa6a9d..d830190 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -73,6 +73,16 @@ public:
         }
     }
 
+    // template c-tors are never copy c-tors, so we need to spell this
+    // one out. The implicit one would duplicate the members' raw bytes.
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        construct_all_instances();
+        copy_in(other);
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -102,6 +112,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
-- 
2.43.0


From 4109c07e9eb4b42715c01fef4cce085f5a0c5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 08/28] fix: swapping soa_arrays must swap members instead of
 raw bytes

---
 include/libflatarray/soa_array.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index d830190..e0d0b0c 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -326,8 +326,17 @@ template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
     using std::swap;
+    using std::max;
+    // members may be arbitrary C++ objects, so we can't just swap the
+    // raw bytes:
+    int max_elements = int(max(a.elements, b.elements));
+    for (int i = 0; i < max_elements; ++i) {
+        value_type cell_a = a[i];
+        value_type cell_b = b[i];
+        a[i] = cell_b;
+        b[i] = cell_a;
+    }
     swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
 }
 
 }
-- 
2.43.0


From 931ff9ac81c3cab95482ad5e7eebd351d96f909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 09/28] fix: loop peelers must not run beyond the end of short,
 unaligned loops

---
 include/libflatarray/loop_peeler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..9060061 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,6 +85,9 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        if (next_stop > COUNTER_TYPE(END_X)) {                          \
+            next_stop = COUNTER_TYPE(END_X);                            \
+        }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
@@ -109,6 +112,9 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
+    if (next_stop > end) {
+        next_stop = end;
+    }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
     lambda(lfa_local_scalar(),    counter, next_stop);
-- 
2.43.0


From 0d7e09d67b9fd60ca05ab54e82d40fdd6d71bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 10/28] fix: aligned_allocator must reserve space for its
 header for tiny alignments, too

---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..67fb444 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -76,7 +76,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From 2e3c67f2bf9d974bb55cc4f70300d5fe5b14d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 11/28] fix: assigning an empty soa_grid must yield an empty
 grid instead of throwing

---
 include/libflatarray/soa_grid.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 21fcf23..5165a52 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -512,6 +512,11 @@ private:
 
     void copy_in(const soa_grid& other)
     {
+        // nothing to copy for empty (e.g. default constructed) grids:
+        if (other.my_data == 0) {
+            return;
+        }
+
         other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
     }
 
-- 
2.43.0


From bf8bbbf2a0eac9a07d022230a19f009cf1481548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 12/28] fix: soa_array's converting c-tors must check sizes
 before constructing members

The d-tor won't run if the c-tor throws, so members constructed before
the check would never be destroyed.
---
 include/libflatarray/soa_array.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index e0d0b0c..5ef22e6 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -88,6 +88,7 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
+        assert_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -98,6 +99,7 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
+        assert_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -303,14 +305,21 @@ private:
         }
     }
 
-    template<int OTHER_SIZE>
     inline
     __host__ __device__
-    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    void assert_capacity(std::size_t new_elements) const
     {
-        if (other.size() > SIZE) {
+        if (new_elements > SIZE) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+    }
+
+    template<int OTHER_SIZE>
+    inline
+    __host__ __device__
+    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    {
+        assert_capacity(other.size());
 
         at(0).copy_members(other[0], other.size());
         elements = other.size();
-- 
2.43.0


From f7eb37dbd300721c247988f8c43efc4b78f4fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 13/28] fix: aligned_allocator must reject sizes which would
 overflow instead of returning tiny chunks

---
 include/libflatarray/aligned_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 67fb444..487fab3 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <memory>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -69,6 +70,10 @@ public:
         // desired offset. Since we need the original address for the
         // deallocation, we store it directly in front of the aligned
         // array's start. Ugly, but it works.
+        if (n > max_size()) {
+            throw std::bad_alloc();
+        }
+
         char *chunk = std::allocator<char>().allocate(upsize(n));
         if (chunk == 0) {
             return reinterpret_cast<pointer>(chunk);
-- 
2.43.0


From cd28871202a36c0d30a1566efbcfea3a4cfcf561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:57 +0000
Subject: [PATCH 14/28] fix: operator/= of vectorized short_vec<int> must
 truncate like operator/ and scalars do

---
 .../detail/short_vec_avx512_int_16.hpp           |  2 +-
 .../detail/short_vec_avx512_int_32.hpp           |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_16.hpp |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_32.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_avx_int_8.hpp  |  2 +-
 .../libflatarray/detail/short_vec_sse_int_16.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_sse_int_32.hpp | 16 ++++++++--------
 .../libflatarray/detail/short_vec_sse_int_4.hpp  |  2 +-
 8 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..abee972 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,7 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
+        val = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
                                                 _mm512_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..7f48fec 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,9 +138,9 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
                                                 _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
                                                 _mm512_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..90f3b28 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,9 +140,9 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..5213944 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,13 +158,13 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
                                                 _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
                                                 _mm256_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..b801ee5 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,7 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
+        val = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
                                                 _mm256_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..29139e8 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,13 +236,13 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..cdf2c56 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,21 +336,21 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
+        val[ 4] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
                                           _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
+        val[ 5] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
                                           _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
+        val[ 6] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
                                           _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
+        val[ 7] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
                                           _mm_cvtepi32_ps(other.val[ 7])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..879818b 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,7 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
+        val = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
                                           _mm_cvtepi32_ps(other.val)));
     }
 
-- 
2.43.0


From fc44a7b8f46c02f94af82bc66db39d504790cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:57 +0000
Subject: [PATCH 15/28] fix: sqrt() of vectorized short_vec<int> must truncate
 like scalars do

---
 .../detail/short_vec_avx512_int_16.hpp        |  4 +--
 .../detail/short_vec_avx512_int_32.hpp        |  8 ++---
 .../detail/short_vec_avx_int_16.hpp           |  8 ++---
 .../detail/short_vec_avx_int_32.hpp           | 16 +++++-----
 .../detail/short_vec_avx_int_8.hpp            |  4 +--
 .../detail/short_vec_sse_int_16.hpp           | 16 +++++-----
 .../detail/short_vec_sse_int_32.hpp           | 32 +++++++++----------
 .../detail/short_vec_sse_int_4.hpp            |  4 +--
 .../detail/short_vec_sse_int_8.hpp            |  8 ++---
 9 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index abee972..4b17f3c 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -152,7 +152,7 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm512_cvtps_epi32(
+            _mm512_cvttps_epi32(
                 _mm512_sqrt_ps(_mm512_cvtepi32_ps(val))));
     }
 
@@ -235,7 +235,7 @@ private:
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
     val(
-        _mm512_cvtps_epi32(
+        _mm512_cvttps_epi32(
             _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val))))
 {}
 
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index 7f48fec..e54d78b 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -164,9 +164,9 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm512_cvtps_epi32(
+            _mm512_cvttps_epi32(
                 _mm512_sqrt_ps(_mm512_cvtepi32_ps(val[ 0]))),
-            _mm512_cvtps_epi32(
+            _mm512_cvttps_epi32(
                 _mm512_sqrt_ps(_mm512_cvtepi32_ps(val[ 1]))));
     }
 
@@ -258,9 +258,9 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm512_cvtps_epi32(
+        _mm512_cvttps_epi32(
             _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm512_cvtps_epi32(
+        _mm512_cvttps_epi32(
             _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val[ 1])))
             }
 {}
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index 90f3b28..699972a 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -168,9 +168,9 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 0]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 1]))));
     }
 
@@ -273,9 +273,9 @@ private:
 
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
-    val{_mm256_cvtps_epi32(
+    val{_mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 1])))}
 {}
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 5213944..e073f5f 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -196,13 +196,13 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 0]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 1]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 2]))),
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 3]))));
     }
 
@@ -336,13 +336,13 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 3])))}
 {}
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index b801ee5..e89d0a8 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -155,7 +155,7 @@ public:
     short_vec<int, 8> sqrt() const
     {
         return short_vec<int, 8>(
-            _mm256_cvtps_epi32(
+            _mm256_cvttps_epi32(
                 _mm256_sqrt_ps(_mm256_cvtepi32_ps(val))));
     }
 
@@ -244,7 +244,7 @@ private:
 inline
 short_vec<int, 8>::short_vec(const sqrt_reference<int, 8>& other) :
     val(
-        _mm256_cvtps_epi32(
+        _mm256_cvttps_epi32(
             _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val))))
 {}
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 29139e8..5259c95 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -274,13 +274,13 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 2]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 3]))));
     }
 
@@ -474,13 +474,13 @@ private:
 
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
-    val{_mm_cvtps_epi32(
+    val{_mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 3])))
         }
 {}
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index cdf2c56..d81aeeb 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -394,21 +394,21 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 2]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 3]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 4]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 5]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 6]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 7]))));
     }
 
@@ -715,21 +715,21 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 3]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 4]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 5]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 6]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 7])))
             }
 {}
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 879818b..0319a63 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -188,7 +188,7 @@ public:
     short_vec<int, 4> sqrt() const
     {
         return short_vec<int, 4>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val))));
     }
 
@@ -299,7 +299,7 @@ private:
 inline
 short_vec<int, 4>::short_vec(const sqrt_reference<int, 4>& other) :
     val(
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val))))
 {}
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_8.hpp b/include/libflatarray/detail/short_vec_sse_int_8.hpp
index 392ac1b..3f65a30 100644
--- a/include/libflatarray/detail/short_vec_sse_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_8.hpp
@@ -216,9 +216,9 @@ public:
     short_vec<int, 8> sqrt() const
     {
         return short_vec<int, 8>(
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
+            _mm_cvttps_epi32(
                 _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))));
     }
 
@@ -356,9 +356,9 @@ private:
 
 inline
 short_vec<int, 8>::short_vec(const sqrt_reference<int, 8>& other) :
-    val{_mm_cvtps_epi32(
+    val{_mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
+        _mm_cvttps_epi32(
             _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1])))}
 {}
 
-- 
2.43.0


From b739f549814311bf721fc4746f4d4cc7deabe262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 16/28] fix: neighbors must be accessible through const
 soa_accessors, too

---
 include/libflatarray/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..859fdad 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -217,10 +217,10 @@
         template<long X, long Y, long Z>                                \
         inline                                                          \
         __host__ __device__                                             \
-        const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[]( \
+        const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[](  \
             coord<X, Y, Z>) const                                       \
         {                                                               \
-            return const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS>( \
+            return const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS>(  \
                 my_data, my_index);                                     \
         }                                                               \
                                                                         \
-- 
2.43.0


From ec1bd78a519c27574016d421d07e1db732d551b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:26 +0000
Subject: [PATCH 17/28] fix: soa_vector::push_back() must not fail if just the
 spare capacity exceeds the supported sizes

---
 include/libflatarray/soa_vector.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 0f6915c..fd6a3ad 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -154,7 +154,17 @@ public:
             //
             // fixme: make this configurable
             using std::max;
-            reserve(max(count + 1, static_cast<std::size_t>(count * 1.2)));
+            std::size_t new_count = max(count + 1, static_cast<std::size_t>(count * 1.2));
+#ifdef __CUDA_ARCH__
+            reserve(new_count);
+#else
+            try {
+                reserve(new_count);
+            } catch (const std::out_of_range&) {
+                // spare capacity is optional, only one more element is needed:
+                reserve(count + 1);
+            }
+#endif
         }
         set(count, element);
         ++count;
-- 
2.43.0


From 074e4d8cbb1888fe2a83ced2e6f5a9f7133d7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:26 +0000
Subject: [PATCH 18/28] fix: assigning soa_vectors must leave a valid vector
 behind if memory is exhausted

---
 include/libflatarray/soa_vector.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index fd6a3ad..2eb5431 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -59,6 +59,26 @@ public:
         grid.broadcast(0, 0, 0, value, count);
     }
 
+    inline
+    __host__ __device__
+    soa_vector(const soa_vector& other) :
+        grid(other.grid),
+        count(other.count)
+    {}
+
+    inline
+    __host__ __device__
+    soa_vector& operator=(const soa_vector& other)
+    {
+        // count would no longer match our grid if assigning the grid
+        // failed half-way:
+        soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(other.grid);
+        swap(new_grid, grid);
+        count = other.count;
+
+        return *this;
+    }
+
     /**
      * Copies an element to the given index. We're intentionally not
      * using at() or operator[] to avoid mismatched expectations here:
-- 
2.43.0


From 916e1e4ea434c2df0c2a08c1f3daffb21a4649a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:24 +0000
Subject: [PATCH 19/28] fix: soa_vector::reserve() must preserve elements if
 T's sizes don't include 1 for Y and Z

---
 include/libflatarray/soa_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 2eb5431..6f8fb4c 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -145,7 +145,9 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        new_grid.load(iter + 0, iter + 1, grid.data(), grid.extent_x());
+        // extents along Y and Z may exceed 1, depending on the sizes
+        // which are supported by T:
+        new_grid.load(iter + 0, iter + 1, grid.data(), grid.extent_x() * grid.extent_y() * grid.extent_z());
         swap(new_grid, grid);
     }
 
-- 
2.43.0


From bc0757c95ffe238a26c0dfb4e71547f572f5cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:51 +0000
Subject: [PATCH 20/28] fix: aligned_allocator's converting c-tor must be
 usable (type of alignment didn't match)

---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 487fab3..e41b7c8 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -47,7 +47,7 @@ public:
     inline aligned_allocator()
     {}
 
-    template<typename OTHER, int OTHER_ALIGNMENT>
+    template<typename OTHER, std::size_t OTHER_ALIGNMENT>
     inline explicit aligned_allocator(const aligned_allocator<OTHER, OTHER_ALIGNMENT>& /* other */)
     {}
 
-- 
2.43.0


From 3653b0550c4c9860a96415854633f179fe490f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:29 +0000
Subject: [PATCH 21/28] fix: gather() of float vectors must honor negative
 offsets (SSE4.1, AVX)

---
 include/libflatarray/detail/short_vec_helpers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..6d1db84 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <cassert>
+#include <cstddef>
 
 // uintptr_t is only available through C++11
 #ifdef LIBFLATARRAY_WITH_CPP14
@@ -93,7 +94,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<std::ptrdiff_t>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -112,7 +113,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<std::ptrdiff_t>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From df1b615ff717424fee4767f9834e016afdf24e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:14 +0000
Subject: [PATCH 22/28] fix: broadcast() on CUDA grids wrote to the first cell
 only

With a source stride of 0 all threads of set_kernel computed offset 0, so
only the first of the count target cells was ever written.
---
 include/libflatarray/detail/set_instance_functor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/set_instance_functor.hpp b/include/libflatarray/detail/set_instance_functor.hpp
index 4f07681..1a34785 100644
--- a/include/libflatarray/detail/set_instance_functor.hpp
+++ b/include/libflatarray/detail/set_instance_functor.hpp
@@ -79,7 +79,7 @@ template<typename CELL, long SOURCE_STRIDE, long DIM_X, long DIM_Y, long DIM_Z,
 __global__
 void set_kernel(const CELL *source, char *target, long count, long x, long y, long z)
 {
-    long offset = (blockDim.x * blockIdx.x + threadIdx.x) * SOURCE_STRIDE;
+    long offset = blockDim.x * blockIdx.x + threadIdx.x;
     if (offset >= count) {
         return;
     }
@@ -89,7 +89,7 @@ void set_kernel(const CELL *source, char *target, long count, long x, long y, lo
     long index = accessor_type::gen_index(x + offset, y, z);
     accessor_type accessor(target, index);
 
-    accessor << source[offset];
+    accessor << source[offset * SOURCE_STRIDE];
 }
 
 /**
-- 
2.43.0


From fc1027cf4ed2ccc1b164639985edc6a2fefef8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 23/28] fix: comparisons == and <= of short_vec<float, 4> on
 NEON used the wrong predicates

---
 include/libflatarray/detail/short_vec_neon_float_4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_4.hpp b/include/libflatarray/detail/short_vec_neon_float_4.hpp
index 39c6887..dfd220c 100644
--- a/include/libflatarray/detail/short_vec_neon_float_4.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_4.hpp
@@ -169,13 +169,13 @@ public:
     inline
     uint32x4_t operator<=(const short_vec<float, 4>& other) const
     {
-        return vcaleq_f32(val, other.val);
+        return vcleq_f32(val, other.val);
     }
 
     inline
     uint32x4_t operator==(const short_vec<float, 4>& other) const
     {
-        return  vcltq_f32(val, other.val);
+        return vceqq_f32(val, other.val);
     }
 
     inline
-- 
2.43.0


From 4b2ad0c69c4adf770d9bc23429a56fbb78d60e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 24/28] fix: aligned accesses on NEON must accept any chunk
 with the advertised alignment

---
 include/libflatarray/detail/short_vec_neon_float_16.hpp | 4 ++--
 include/libflatarray/detail/short_vec_neon_float_32.hpp | 4 ++--
 include/libflatarray/detail/short_vec_neon_float_8.hpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_16.hpp b/include/libflatarray/detail/short_vec_neon_float_16.hpp
index 0623e81..6f789ca 100644
--- a/include/libflatarray/detail/short_vec_neon_float_16.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_16.hpp
@@ -280,7 +280,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 64);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -296,7 +296,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 64);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
diff --git a/include/libflatarray/detail/short_vec_neon_float_32.hpp b/include/libflatarray/detail/short_vec_neon_float_32.hpp
index 00edd5f..87bd0ce 100644
--- a/include/libflatarray/detail/short_vec_neon_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_32.hpp
@@ -372,7 +372,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 128);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -392,7 +392,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 128);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
diff --git a/include/libflatarray/detail/short_vec_neon_float_8.hpp b/include/libflatarray/detail/short_vec_neon_float_8.hpp
index bd525d9..08ef7ce 100644
--- a/include/libflatarray/detail/short_vec_neon_float_8.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_8.hpp
@@ -229,7 +229,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 32);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -243,7 +243,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 32);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
-- 
2.43.0


From 93ddc851e6458c06121326680784e2378f3af78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 25/28] fix: ilp_to_arity must know the vector width on MIC

---
 include/libflatarray/ilp_to_arity.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/ilp_to_arity.hpp b/include/libflatarray/ilp_to_arity.hpp
index 34d5df9..e3f33f1 100644
--- a/include/libflatarray/ilp_to_arity.hpp
+++ b/include/libflatarray/ilp_to_arity.hpp
@@ -40,6 +40,11 @@ public:
     static const int BIT_WIDTH = 128;
 #  endif
 
+    // Dito for Intel MIC:
+#  ifdef __MIC__
+    static const int BIT_WIDTH = 512;
+#  endif
+
     // Only the case of the IBM PC is complicated. No thanks to you,
     // history!
 #  if !defined(__CUDA_ARCH__) && !defined(__ARM_NEON__) && !defined(__MIC__)
-- 
2.43.0


From e3ac49bfa0085f7adfea41f105f539649e3f51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 26/28] fix: aligned accesses on MIC require 64-byte alignment

---
 include/libflatarray/short_vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/short_vec.hpp b/include/libflatarray/short_vec.hpp
index dfd69f9..9fdcd79 100644
--- a/include/libflatarray/short_vec.hpp
+++ b/include/libflatarray/short_vec.hpp
@@ -253,7 +253,7 @@ public:
         class alignment
         {
         public:
-            const static int ALIGNMENT = 32;
+            const static int ALIGNMENT = 64;
         };
     };
 
-- 
2.43.0


From 8acbe6d8a80c3d50f4bbb1be5885d210be7f2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:13 +0000
Subject: [PATCH 27/28] fix: soa_grids must be usable by multiple threads
 concurrently (calls shared a staging buffer)

---
 .../libflatarray/detail/staging_buffer.hpp    | 11 +++
 include/libflatarray/soa_grid.hpp             | 71 +++++++++++--------
 2 files changed, 51 insertions(+), 31 deletions(-)

diff --git a/include/libflatarray/detail/staging_buffer.hpp b/include/libflatarray/detail/staging_buffer.hpp
index 4407fcf..eb0d99c 100644
--- a/include/libflatarray/detail/staging_buffer.hpp
+++ b/include/libflatarray/detail/staging_buffer.hpp
@@ -26,6 +26,14 @@ template<typename CELL, bool ENABLE_CUDA = false>
 class staging_buffer
 {
 public:
+    // Nothing is buffered here, so each call may use a copy of its own. This
+    // way grids can be accessed by multiple threads concurrently.
+    typedef staging_buffer handle_type;
+
+    staging_buffer() :
+        data_pointer(0)
+    {}
+
     void resize(std::size_t /* unused */)
     {
         // intentionally left blank
@@ -65,6 +73,9 @@ template<typename CELL>
 class staging_buffer<CELL, true>
 {
 public:
+    // device memory is costly to allocate, hence it's being reused:
+    typedef staging_buffer& handle_type;
+
    void resize(std::size_t n)
     {
         delegate.resize(n);
diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 5165a52..bdb782e 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -222,11 +222,12 @@ public:
     LIBFLATARRAY_INLINE
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type& cell)
     {
-        cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        typename cell_staging_buffer_type::handle_type buffer = cell_staging_buffer;
+        buffer.resize(1);
+        buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
@@ -235,11 +236,12 @@ public:
 
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type *cells, std::size_t count)
     {
-        cell_staging_buffer.resize(count);
-        cell_staging_buffer.load(cells);
+        typename cell_staging_buffer_type::handle_type buffer = cell_staging_buffer;
+        buffer.resize(count);
+        buffer.load(cells);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
@@ -250,33 +252,35 @@ public:
     value_type get(std::size_t x, std::size_t y, std::size_t z) const
     {
         value_type cell;
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        typename cell_staging_buffer_type::handle_type buffer = const_cast<cell_staging_buffer_type&>(cell_staging_buffer);
+        buffer.resize(1);
+        buffer.prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
                      1));
 
-        cell_staging_buffer.save(&cell);
+        buffer.save(&cell);
         return cell;
     }
 
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        typename cell_staging_buffer_type::handle_type buffer = const_cast<cell_staging_buffer_type&>(cell_staging_buffer);
+        buffer.resize(count);
+        buffer.prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
                      count));
 
-        cell_staging_buffer.save(cells);
+        buffer.save(cells);
     }
 
     /**
@@ -284,11 +288,12 @@ public:
      */
     void broadcast(std::size_t x, std::size_t y, std::size_t z, const value_type& cell, std::size_t count)
     {
-        cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        typename cell_staging_buffer_type::handle_type buffer = cell_staging_buffer;
+        buffer.resize(1);
+        buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 0, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
@@ -307,13 +312,14 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        typename char_staging_buffer_type::handle_type buffer = raw_staging_buffer;
+        buffer.resize(count * aggregated_member_size<value_type>::VALUE);
+        buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     raw_staging_buffer.data(),
+                     buffer.data(),
                      count));
     }
 
@@ -324,13 +330,14 @@ public:
         const char *source,
         std::size_t count)
     {
-        raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        typename char_staging_buffer_type::handle_type buffer = raw_staging_buffer;
+        buffer.resize(count * aggregated_member_size<value_type>::VALUE);
+        buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     raw_staging_buffer.data(),
+                     buffer.data(),
                      count));
     }
 
@@ -346,18 +353,19 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
+        typename char_staging_buffer_type::handle_type buffer = const_cast<char_staging_buffer_type&>(raw_staging_buffer);
+        buffer.resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        buffer.save(target);
     }
 
     template<typename ITERATOR>
@@ -367,18 +375,19 @@ public:
         char *target,
         std::size_t count) const
     {
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
+        typename char_staging_buffer_type::handle_type buffer = const_cast<char_staging_buffer_type&>(raw_staging_buffer);
+        buffer.resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        buffer.save(target);
     }
 
     std::size_t byte_size() const
-- 
2.43.0


From fa7adb2348b77298c2f57e27e964a2395510f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:32 +0000
Subject: [PATCH 28/28] fix: cpu_benchmark::device() must cope with blank
 lines, tabs and missing values, and close its pipe

---
 .../libflatarray/testbed/cpu_benchmark.hpp    | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index eccee90..2084fe8 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -19,8 +19,11 @@
 #endif
 
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 #include <iostream>
+#include <sstream>
+#include <stdexcept>
 
 namespace LibFlatArray {
 
@@ -51,18 +54,23 @@ private:
     static std::string parse_proc_cpu()
     {
         std::ifstream file("/proc/cpuinfo");
-        const std::size_t bufferSize = 1 << 12;
-        char buffer[bufferSize];
+        std::string line;
 
-        while (file.getline(&buffer[0], bufferSize)) {
-            std::vector<std::string> tokens = tokenize(buffer, ':');
-            std::vector<std::string> fields = tokenize(tokens[0], '\t');
+        while (std::getline(file, line)) {
+            std::vector<std::string> tokens = tokenize(line, ':');
+            // blank lines separate CPUs, and not every key has a value:
+            if ((tokens.size() < 2) || tokens[1].empty()) {
+                continue;
+            }
+
+            // keys may be followed by more than one tab
+            std::string key(tokens[0], 0, tokens[0].find('\t'));
 
-            if ((fields.size() == 1) && (fields[0] == "cpu")) {
+            if (key == "cpu") {
                 return tokens[1];
             }
 
-            if ((fields.size() == 1) && (fields[0] == "model name")) {
+            if (key == "model name") {
                 tokens = tokenize(tokens[1], ' ');
                 std::string buf = join(tokens, " ");
                 if (buf[buf.size() - 1] == 0) {
@@ -92,17 +100,25 @@ private:
         std::string cpu_name;
 
         while (fgets(&read_buffer[0], read_buffer.size(), file) != NULL) {
-            std::vector<std::string> tokens = tokenize(read_buffer, ',');
-            for (std::vector<std::string>::iterator i = tokens.begin(); i != tokens.end(); ++i) {
-                if (i->find("CPU type") != std::string::npos) {
-                    cpu_type = *(++i);
+            // cuts string at line end, whatever the buffer contained before
+            std::string line(read_buffer, 0, std::strcspn(read_buffer.c_str(), "\r\n"));
+            std::vector<std::string> tokens = tokenize(line, ',');
+            for (std::size_t i = 1; i < tokens.size(); ++i) {
+                if (tokens[i - 1].find("CPU type") != std::string::npos) {
+                    cpu_type = tokens[i];
                 }
-                if (i->find("CPU name") != std::string::npos) {
-                    cpu_name = *(++i);
+                if (tokens[i - 1].find("CPU name") != std::string::npos) {
+                    cpu_name = tokens[i];
                 }
             }
         }
 
+#ifdef _WIN32
+        _pclose(file);
+#else
+        pclose(file);
+#endif
+
         if (cpu_type.empty() || cpu_name.empty()) {
             throw std::runtime_error("failed to parse likwid-topology");
         }
-- 
2.43.0

