From 60347713a584b517874df2698a6f4963197e09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 01/20] fix: soa_grid::swap() exchanges all dimensions and
 extents

It swapped the x dimension and x extent three times and left y and z
of both grids unchanged.
---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From ff008013a669bd35ac129e6729485d240f71405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 02/20] fix: soa_grid copy constructor copies the extents

They were left uninitialized.
---
 include/libflatarray/soa_grid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..05b5b26 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -97,6 +97,9 @@ public:
         my_dim_x(other.my_dim_x),
         my_dim_y(other.my_dim_y),
         my_dim_z(other.my_dim_z),
+        my_extent_x(other.my_extent_x),
+        my_extent_y(other.my_extent_y),
+        my_extent_z(other.my_extent_z),
         my_byte_size(other.byte_size()),
         my_data(ALLOCATOR().allocate(other.byte_size()))
     {
-- 
2.43.0


From 50aa74d12c15a3bc279e41695f83ba47cf3edb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 03/20] fix: initialize extents and byte size of an empty
 soa_grid

For dimensions (0, 0, 0) resize() returns early, so that byte_size() and
extent_[x-z]() were indeterminate and copying such a grid allocated an
arbitrary amount of memory.
---
 include/libflatarray/soa_grid.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 05b5b26..c0323fe 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,6 +88,10 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
-- 
2.43.0


From 17a781b187800c3d6492f77dc1ba931d358badd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 04/20] fix: soa_grid::resize() to unsupported dimensions
 leaves the grid intact

The old data was destroyed and released before size selection threw, so
that the grid kept a dangling pointer which its destructor (or the next
resize) used again.
---
 include/libflatarray/soa_grid.hpp | 36 ++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index c0323fe..0db12dc 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -149,18 +149,38 @@ public:
             return;
         }
 
-        destroy_and_deallocate();
+        std::size_t new_byte_size = 0;
+        std::size_t new_extent_x = 0;
+        std::size_t new_extent_y = 0;
+        std::size_t new_extent_z = 0;
+        // we need select_sizes to round up our grid size. This throws
+        // if the new dimensions are too large, so it needs to be done
+        // before we touch the current data.
+        detail::flat_array::set_byte_size_functor<value_type> functor(
+            &new_byte_size,
+            &new_extent_x,
+            &new_extent_y,
+            &new_extent_z);
+        api_traits::select_sizes<value_type>()(my_data, functor, new_dim_x, new_dim_y, new_dim_z);
 
+        destroy_and_deallocate();
+        my_data = 0;
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
+        my_byte_size = 0;
+
+        my_data = ALLOCATOR().allocate(new_byte_size);
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
         init();
     }
 
-- 
2.43.0


From bf8b495c78a46049579a3c015768b2e91a22302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 05/20] fix: soa_vector::reserve() never shrinks the vector

For a new capacity below size() it copied all elements into a grid which
was too small for them.
---
 include/libflatarray/soa_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..01bbcfd 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -112,6 +112,10 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
-- 
2.43.0


From 00e3a1d54acab949cad899357c1ad59b7d62e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 06/20] fix: soa_vector::push_back() grows whenever its
 capacity is used up

It compared to the extent of the grid rather than its dimension, thus
assigning to members which were never constructed, and for less than
five elements the new capacity equalled the old one, so that the new
element was written out of bounds.
---
 include/libflatarray/soa_vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 01bbcfd..2ba115f 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -19,6 +19,7 @@
 #pragma warning( disable : 4514 )
 #endif
 
+#include <algorithm>
 #include <stdexcept>
 
 #ifdef _MSC_BUILD
@@ -146,9 +147,9 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
+        if (count >= capacity()) {
             // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+            reserve((std::max)(count + 1, static_cast<std::size_t>(count * 1.2)));
         }
         set(count, element);
         ++count;
-- 
2.43.0


From 14d0b115c16d03193046d29ad0d6194eade9f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 07/20] fix: soa_array constructor rejects more elements than
 its capacity

The surplus elements were written out of bounds.
---
 include/libflatarray/soa_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..7fa6a9d 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,6 +62,11 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
+#ifndef __CUDA_ARCH__
+        if (elements > SIZE) {
+            throw std::out_of_range("capacity exceeded");
+        }
+#endif
         construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
-- 
2.43.0


From 43304e606068c33897f3acafc7d4332696600695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 08/20] fix: soa_array copies non-trivial members properly

Copying from a const soa_array of the same size used the implicit, byte-wise
copy constructor and assignment operator, so that two arrays owned the same
member objects.
---
 include/libflatarray/soa_array.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 7fa6a9d..d74faac 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -73,6 +73,16 @@ public:
         }
     }
 
+    // a template is never a copy constructor and the implicit one
+    // would merely copy the bytes of the members:
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        construct_all_instances();
+        copy_in(other);
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -102,6 +112,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
-- 
2.43.0


From 744b9a07435a4984944a88e10ddcdba2db129c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:18 +0000
Subject: [PATCH 09/20] fix: loop peeler does not run past the end of short
 loops

If start and end lay within the same vector-sized chunk, the scalar head
of the loop ran up to the end of that chunk.
---
 include/libflatarray/loop_peeler.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..2f87f90 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -87,6 +87,13 @@
             (X);                                                        \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
+        /* X and END_X may lie within the same chunk: */                \
+        if (next_stop > COUNTER_TYPE(END_X)) {                          \
+            next_stop = (END_X);                                        \
+        }                                                               \
+        if (last_stop < next_stop) {                                    \
+            last_stop = next_stop;                                      \
+        }                                                               \
                                                                         \
         FUNCTION<lfa_local_scalar   >(X, next_stop, __VA_ARGS__);       \
         FUNCTION<lfa_local_short_vec>(X, last_stop, __VA_ARGS__);       \
@@ -110,6 +117,13 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
+    // *counter and end may lie within the same chunk:
+    if (next_stop > end) {
+        next_stop = end;
+    }
+    if (last_stop < next_stop) {
+        last_stop = next_stop;
+    }
 
     lambda(lfa_local_scalar(),    counter, next_stop);
     lambda(lfa_local_short_vec(), counter, last_stop);
-- 
2.43.0


From 98763aefe8d3f8be2028efb97b2258a0dd3947ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:18 +0000
Subject: [PATCH 10/20] fix: swap() of two soa_arrays works for non-trivial
 members

Exchanging the raw bytes breaks members which aren't trivially
relocatable, e.g. short strings.
---
 include/libflatarray/soa_array.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index d74faac..fb36255 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -325,9 +325,10 @@ private:
 template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
-    using std::swap;
-    swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
+    // members may be non-trivial, so swapping bytes won't do:
+    soa_array<value_type, size> temp(a);
+    a = b;
+    b = temp;
 }
 
 }
-- 
2.43.0


From 6cefee8260f7bd726035e1c1cfb4e8f2642855cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:57 +0000
Subject: [PATCH 11/20] fix: copying and assigning empty grids of default-sized
 cell types

---
 include/libflatarray/macros.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..9b1cfe1 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -1071,11 +1071,11 @@
         const std::size_t dim_y = 1,                                    \
         const std::size_t dim_z = 1)                                    \
     {                                                                   \
-        if (dim_y != 1) {                                               \
-            throw std::out_of_range("expected 1D grid, but y != 1");    \
+        if (dim_y > 1) {                                                \
+            throw std::out_of_range("expected 1D grid, but y > 1");     \
         }                                                               \
-        if (dim_z != 1) {                                               \
-            throw std::out_of_range("expected 1D grid, but z != 1");    \
+        if (dim_z > 1) {                                                \
+            throw std::out_of_range("expected 1D grid, but z > 1");     \
         }                                                               \
         std::size_t maxDim = dim_x;                                     \
                                                                         \
@@ -1095,11 +1095,11 @@
         const std::size_t dim_y = 1,                                    \
         const std::size_t dim_z = 1)                                    \
     {                                                                   \
-        if (dim_y != 1) {                                               \
-            throw std::out_of_range("expected 1D grid, but y != 1");    \
+        if (dim_y > 1) {                                                \
+            throw std::out_of_range("expected 1D grid, but y > 1");     \
         }                                                               \
-        if (dim_z != 1) {                                               \
-            throw std::out_of_range("expected 1D grid, but z != 1");    \
+        if (dim_z > 1) {                                                \
+            throw std::out_of_range("expected 1D grid, but z > 1");     \
         }                                                               \
         using std::max;                                                 \
         std::size_t maxDim = max(dim_x, dim_z);                         \
@@ -1123,8 +1123,8 @@
         const std::size_t dim_y = 1,                                    \
         const std::size_t dim_z = 1)                                    \
     {                                                                   \
-        if (dim_z != 1) {                                               \
-            throw std::out_of_range("expected 2D grid, but z != 1");    \
+        if (dim_z > 1) {                                                \
+            throw std::out_of_range("expected 2D grid, but z > 1");     \
         }                                                               \
         using std::max;                                                 \
         std::size_t maxDim = max(dim_x, dim_y);                         \
@@ -1145,8 +1145,8 @@
         const std::size_t dim_y = 1,                                    \
         const std::size_t dim_z = 1)                                    \
     {                                                                   \
-        if (dim_z != 1) {                                               \
-            throw std::out_of_range("expected 2D grid, but z != 1");    \
+        if (dim_z > 1) {                                                \
+            throw std::out_of_range("expected 2D grid, but z > 1");     \
         }                                                               \
         using std::max;                                                 \
         std::size_t maxDim = max(dim_x, dim_y);                         \
-- 
2.43.0


From a71f87707eadacc02999085365cbfd94e252b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:27 +0000
Subject: [PATCH 12/20] fix: aligned_allocator keeps its bookkeeping inside the
 chunk for small alignments

---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..67fb444 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -76,7 +76,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From 57baee20ddb9eeaf0b4ccd45359c17ecc7595153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:37 +0000
Subject: [PATCH 13/20] fix: aligned_allocator rejects sizes which are not
 representable

---
 include/libflatarray/aligned_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 67fb444..76a826a 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <memory>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -62,6 +63,11 @@ public:
 
     pointer allocate(std::size_t n, const void* = 0)
     {
+        // the size in bytes needs to be representable, too:
+        if (n > ((std::size_t(-1) - graceOffset()) / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+
         // This code would have been a piece of cake if it would have
         // worked with posix_memalign -- which it didn't. Instead
         // we allocate a larger chunk of memory in which we can
-- 
2.43.0


From fe7b1a834ec2adb8025ca699b0ae9674728b6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:26 +0000
Subject: [PATCH 14/20] fix: integer short_vec operator/= truncates like
 operator/ and scalar division

The compound assignment rounded to nearest (cvtps) in all SSE, AVX and AVX512
flavours but sse_int_8, e.g. 7 /= 4 gave 2.
---
 .../detail/short_vec_avx512_int_16.hpp           |  2 +-
 .../detail/short_vec_avx512_int_32.hpp           |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_16.hpp |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_32.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_avx_int_8.hpp  |  2 +-
 .../libflatarray/detail/short_vec_sse_int_16.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_sse_int_32.hpp | 16 ++++++++--------
 .../libflatarray/detail/short_vec_sse_int_4.hpp  |  2 +-
 8 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..abee972 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,7 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
+        val = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
                                                 _mm512_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..7f48fec 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,9 +138,9 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
                                                 _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
                                                 _mm512_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..90f3b28 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,9 +140,9 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..5213944 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,13 +158,13 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
                                                 _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
                                                 _mm256_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..b801ee5 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,7 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
+        val = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
                                                 _mm256_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..29139e8 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,13 +236,13 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..cdf2c56 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,21 +336,21 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
+        val[ 4] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
                                           _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
+        val[ 5] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
                                           _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
+        val[ 6] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
                                           _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
+        val[ 7] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
                                           _mm_cvtepi32_ps(other.val[ 7])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..879818b 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,7 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
+        val = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
                                           _mm_cvtepi32_ps(other.val)));
     }
 
-- 
2.43.0


From 7331a2f62631be5ddcf453d48fb229e0b144ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:41 +0000
Subject: [PATCH 15/20] fix: sign extend gather offsets before addressing
 memory with them

SHORTVEC_INSERT_PS named a 32 bit operand as a 64 bit register; the upper half
is unspecified, and zero for negative offsets in practice: float gathers with
negative offsets read from a wrong address.
---
 include/libflatarray/detail/short_vec_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..34a1186 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -93,7 +93,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -112,7 +112,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From 8f7265dc6d44d83dd18e00acf5c36cd802d9a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:41 +0000
Subject: [PATCH 16/20] fix: AVX512 float gather and scatter accept offsets of
 any alignment

All other flavours do, callers can not know that just these insist on 64 byte
alignment (and fault in release builds).
---
 .../libflatarray/detail/short_vec_avx512_float_16.hpp  |  6 ++----
 .../libflatarray/detail/short_vec_avx512_float_32.hpp  | 10 ++++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_float_16.hpp b/include/libflatarray/detail/short_vec_avx512_float_16.hpp
index 8013d89..f9c562a 100644
--- a/include/libflatarray/detail/short_vec_avx512_float_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_float_16.hpp
@@ -265,8 +265,7 @@ public:
     void gather(const float *ptr, const int *offsets)
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         val    = _mm512_i32gather_ps(indices, ptr, 4);
     }
 
@@ -274,8 +273,7 @@ public:
     void scatter(float *ptr, const int *offsets) const
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         _mm512_i32scatter_ps(ptr, indices, val, 4);
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx512_float_32.hpp b/include/libflatarray/detail/short_vec_avx512_float_32.hpp
index 5f53060..951be8b 100644
--- a/include/libflatarray/detail/short_vec_avx512_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_float_32.hpp
@@ -291,10 +291,9 @@ public:
     void gather(const float *ptr, const int *offsets)
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         val[ 0]    = _mm512_i32gather_ps(indices, ptr, 4);
-        indices = _mm512_load_epi32(offsets + 16);
+        indices = _mm512_loadu_si512(offsets + 16);
         val[ 1]    = _mm512_i32gather_ps(indices, ptr, 4);
     }
 
@@ -302,10 +301,9 @@ public:
     void scatter(float *ptr, const int *offsets) const
     {
         __m512i indices;
-        SHORTVEC_ASSERT_ALIGNED(offsets, 64);
-        indices = _mm512_load_epi32(offsets);
+        indices = _mm512_loadu_si512(offsets);
         _mm512_i32scatter_ps(ptr, indices, val[ 0], 4);
-        indices = _mm512_load_epi32(offsets + 16);
+        indices = _mm512_loadu_si512(offsets + 16);
         _mm512_i32scatter_ps(ptr, indices, val[ 1], 4);
     }
 
-- 
2.43.0


From 7dba37c73f03e4457b0e3fcfac34e7ffcca1c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:01 +0000
Subject: [PATCH 17/20] fix: soa_array::load accepts counts whose sum with the
 offset overflows

---
 include/libflatarray/soa_array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index fb36255..bf15363 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -209,10 +209,11 @@ public:
     void load(const soa_accessor<value_type, OTHER_SIZE, 1, 1, 0>& accessor, std::size_t num, std::size_t offset)
     {
         using std::max;
-        std::size_t new_elements = max(elements, num + offset);
-        if (new_elements > SIZE) {
+        // not num + offset > SIZE, as the sum may overflow:
+        if ((offset > SIZE) || (num > (SIZE - offset))) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+        std::size_t new_elements = max(elements, num + offset);
 
         at(offset).load(accessor.data(), num, std::size_t(accessor.index()), std::size_t(OTHER_SIZE));
         elements = new_elements;
-- 
2.43.0


From 80ce3828c86e111976b2728bf5105a7012714eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 18/20] fix: soa_array converts from larger arrays without
 leaking members

The members were constructed before the constructor raised its
exception, hence never destroyed.
---
 include/libflatarray/soa_array.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index bf15363..cdcffb4 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -88,6 +88,8 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
+        // the destructor won't run if we throw later on:
+        assert_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -98,6 +100,8 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
+        // the destructor won't run if we throw later on:
+        assert_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -304,14 +308,21 @@ private:
         }
     }
 
-    template<int OTHER_SIZE>
     inline
     __host__ __device__
-    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    void assert_capacity(std::size_t num) const
     {
-        if (other.size() > SIZE) {
+        if (num > SIZE) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+    }
+
+    template<int OTHER_SIZE>
+    inline
+    __host__ __device__
+    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    {
+        assert_capacity(other.size());
 
         at(0).copy_members(other[0], other.size());
         elements = other.size();
-- 
2.43.0


From 5b15f1ba3f99077829f0345e5aa94f2b55e47ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 19/20] fix: loop peeler handles negative indices

% yields negative remainders for negative operands, so loops with a
negative end ran past it and negative starts missed whole vectors.
---
 include/libflatarray/loop_peeler.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 2f87f90..b5d4165 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -80,13 +80,16 @@
             sibling_short_vec_switch<SHORT_VEC_TYPE, 1>::VALUE          \
             lfa_local_scalar;                                           \
                                                                         \
-        COUNTER_TYPE remainder = (X) %                                  \
-            COUNTER_TYPE(lfa_local_short_vec::ARITY);                   \
+        const COUNTER_TYPE lfa_local_arity(lfa_local_short_vec::ARITY); \
+        /* % yields negative remainders for negative indices: */        \
+        COUNTER_TYPE remainder = ((X) % lfa_local_arity +               \
+            lfa_local_arity) % lfa_local_arity;                         \
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
         COUNTER_TYPE last_stop = (END_X) -                              \
-            (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
+            ((END_X) % lfa_local_arity +                                \
+             lfa_local_arity) % lfa_local_arity;                        \
         /* X and END_X may lie within the same chunk: */                \
         if (next_stop > COUNTER_TYPE(END_X)) {                          \
             next_stop = (END_X);                                        \
@@ -112,11 +115,13 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
         sibling_short_vec_switch<SHORT_VEC_TYPE, 1>::VALUE
         lfa_local_scalar;
 
-    COUNTER_TYPE2 remainder = (*counter) % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
+    const COUNTER_TYPE2 arity(lfa_local_short_vec::ARITY);
+    // % yields negative remainders for negative indices:
+    COUNTER_TYPE2 remainder = ((*counter) % arity + arity) % arity;
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
-    COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
+    COUNTER_TYPE2 last_stop = end - (end % arity + arity) % arity;
     // *counter and end may lie within the same chunk:
     if (next_stop > end) {
         next_stop = end;
-- 
2.43.0


From 33dcf6642b7b619feeab68c3d664b287dc263a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 20/20] fix: grid accesses share no staging state

---
 .../libflatarray/detail/staging_buffer.hpp    | 38 +++++--------------
 include/libflatarray/soa_grid.hpp             | 36 +++++++++---------
 2 files changed, 27 insertions(+), 47 deletions(-)

diff --git a/include/libflatarray/detail/staging_buffer.hpp b/include/libflatarray/detail/staging_buffer.hpp
index 4407fcf..48d7bc9 100644
--- a/include/libflatarray/detail/staging_buffer.hpp
+++ b/include/libflatarray/detail/staging_buffer.hpp
@@ -20,7 +20,8 @@ namespace flat_array {
  * Dummy class which presents the same interface as cuda_array,
  * but won't actually buffer the data. Instead the pointers are
  * forwarded directly so no additional copies of the data need to
- * be made.
+ * be made. It holds no state, so that accesses to different cells of
+ * a grid (and all read accesses) may run concurrently.
  */
 template<typename CELL, bool ENABLE_CUDA = false>
 class staging_buffer
@@ -31,9 +32,9 @@ public:
         // intentionally left blank
     }
 
-    void load(const CELL *new_data)
+    const CELL *load(const CELL *new_data) const
     {
-        data_pointer = const_cast<CELL*>(new_data);
+        return new_data;
     }
 
     void save(CELL* /* new_data */) const
@@ -41,22 +42,10 @@ public:
         // intentionally left blank
     }
 
-    const CELL *data() const
+    CELL *prep(CELL *new_data) const
     {
-        return data_pointer;
+        return new_data;
     }
-
-    CELL *data()
-    {
-        return data_pointer;
-    }
-
-    void prep(CELL *new_data)
-    {
-        data_pointer = new_data;
-    }
-private:
-    CELL *data_pointer;
 };
 
 #ifdef __CUDACC__
@@ -70,9 +59,10 @@ public:
         delegate.resize(n);
     }
 
-    void load(const CELL *new_data)
+    const CELL *load(const CELL *new_data)
     {
         delegate.load(new_data);
+        return delegate.data();
     }
 
     void save(CELL *new_data) const
@@ -80,21 +70,11 @@ public:
         delegate.save(new_data);
     }
 
-    const CELL *data() const
+    CELL *prep(CELL* /* new_data */)
     {
         return delegate.data();
     }
 
-    CELL *data()
-    {
-        return delegate.data();
-    }
-
-    void prep(CELL* /* new_data */)
-    {
-        // intentionally left blank
-    }
-
 private:
     cuda_array<CELL> delegate;
 };
diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 0db12dc..01fc8a7 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -214,10 +214,10 @@ public:
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type& cell)
     {
         cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        const value_type *staged_cells = cell_staging_buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     staged_cells,
                      x,
                      y,
                      z,
@@ -227,10 +227,10 @@ public:
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type *cells, std::size_t count)
     {
         cell_staging_buffer.resize(count);
-        cell_staging_buffer.load(cells);
+        const value_type *staged_cells = cell_staging_buffer.load(cells);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     staged_cells,
                      x,
                      y,
                      z,
@@ -242,10 +242,10 @@ public:
     {
         value_type cell;
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        value_type *staged_cells = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     staged_cells,
                      x,
                      y,
                      z,
@@ -258,10 +258,10 @@ public:
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        value_type *staged_cells = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     staged_cells,
                      x,
                      y,
                      z,
@@ -276,10 +276,10 @@ public:
     void broadcast(std::size_t x, std::size_t y, std::size_t z, const value_type& cell, std::size_t count)
     {
         cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        const value_type *staged_cells = cell_staging_buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 0, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     staged_cells,
                      x,
                      y,
                      z,
@@ -299,12 +299,12 @@ public:
         };
 
         raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        const char *staged_source = raw_staging_buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     raw_staging_buffer.data(),
+                     staged_source,
                      count));
     }
 
@@ -316,12 +316,12 @@ public:
         std::size_t count)
     {
         raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        const char *staged_source = raw_staging_buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     raw_staging_buffer.data(),
+                     staged_source,
                      count));
     }
 
@@ -340,12 +340,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *staged_target = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     staged_target,
                      count));
 
         raw_staging_buffer.save(target);
@@ -361,12 +361,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *staged_target = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     staged_target,
                      count));
 
         raw_staging_buffer.save(target);
-- 
2.43.0

