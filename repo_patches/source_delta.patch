From 2fa2c14d7d7966be1aef7069fd736b5939a73725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 01/74] fix: align the SIMD part of vectors whose storage
 doesn't start at a register boundary

---
 vector/src/simd_extensions/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index fabe613..9499569 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -194,7 +194,10 @@ macro_rules! simd_generic_impl {
             fn calc_data_alignment_reqs(array: &[$data_type]) -> SimdPartition<$data_type> {
                 let data_length = array.len();
                 let addr = array.as_ptr();
-                let left = get_alignment_offset(addr as usize, mem::size_of::<Self>());
+                let reg_size = mem::size_of::<Self>();
+                let offset = get_alignment_offset(addr as usize, reg_size);
+                // Number of bytes until the next aligned address
+                let left = (reg_size - offset) % reg_size;
                 assert!(left % mem::size_of::<$data_type>() == 0);
                 let left = left / mem::size_of::<$data_type>();
                 if left + Self::LEN > data_length {
-- 
2.43.0


From 0b782525a98ff25767064a19b554d5f914805424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 02/74] fix: don't run out of bounds when iterating over the
 edges of an empty vector

---
 vector/src/simd_extensions/simd_partition.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vector/src/simd_extensions/simd_partition.rs b/vector/src/simd_extensions/simd_partition.rs
index a28b391..2dba9e5 100644
--- a/vector/src/simd_extensions/simd_partition.rs
+++ b/vector/src/simd_extensions/simd_partition.rs
@@ -15,8 +15,10 @@ pub struct SimdPartition<T> {
 /// Iterator around the left and right side of a vector.
 pub struct EdgeIteratorMut<'a, T: 'a> {
     pos: *mut T,
+    /// End of the left part (exclusive)
     left: *mut T,
     right: *mut T,
+    /// End of the slice (exclusive)
     end: *mut T,
     _marker: PhantomData<&'a mut T>,
 }
@@ -30,9 +32,9 @@ impl<'a, T> EdgeIteratorMut<'a, T> {
         unsafe {
             EdgeIteratorMut {
                 pos: start,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -45,11 +47,11 @@ impl<'a, T> Iterator for EdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<&'a mut T> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
@@ -64,9 +66,11 @@ impl<'a, T> Iterator for EdgeIteratorMut<'a, T> {
 pub struct IndexedEdgeIteratorMut<'a, T: 'a> {
     pos: *mut T,
     idx: isize,
+    /// End of the left part (exclusive)
     left: *mut T,
     right_idx: isize,
     right: *mut T,
+    /// End of the slice (exclusive)
     end: *mut T,
     _marker: PhantomData<&'a mut T>,
 }
@@ -81,10 +85,10 @@ impl<'a, T> IndexedEdgeIteratorMut<'a, T> {
             IndexedEdgeIteratorMut {
                 pos: start,
                 idx: 0,
-                left: start.offset(left - 1),
+                left: start.offset(left),
                 right_idx: len - right,
                 right: start.offset(len - right),
-                end: start.offset(len - 1),
+                end: start.offset(len),
                 _marker: PhantomData,
             }
         }
@@ -97,12 +101,12 @@ impl<'a, T> Iterator for IndexedEdgeIteratorMut<'a, T> {
     fn next(&mut self) -> Option<(isize, &'a mut T)> {
         unsafe {
             // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
+            if self.pos >= self.left && self.pos < self.right {
                 self.pos = self.right;
                 self.idx = self.right_idx;
             }
 
-            if self.pos > self.end {
+            if self.pos >= self.end {
                 None
             } else {
                 let value = &mut *self.pos;
-- 
2.43.0


From 096a629953b18b43e9f8bebe5ac70124f04ba169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 03/74] fix: process complex vectors without SIMD if registers
 would split a complex number

---
 vector/src/simd_extensions/mod.rs                  | 12 ++++++++++++
 vector/src/vector_types/complex/complex_to_real.rs |  2 +-
 vector/src/vector_types/general/dot_products.rs    |  4 ++--
 vector/src/vector_types/general/elementary.rs      |  2 +-
 vector/src/vector_types/general/statistics.rs      |  4 ++--
 vector/src/vector_types/mod.rs                     |  4 ++--
 6 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index 9499569..c6d2ee1 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -102,6 +102,18 @@ where
     /// Center will contain most of the data.
     fn calc_data_alignment_reqs(array: &[T]) -> SimdPartition<T>;
 
+    /// Same as `calc_data_alignment_reqs` for interleaved complex numbers. A register must never
+    /// start with the imaginary part of a number, if the memory alignment of the array doesn't allow
+    /// to ensure that then all of the data must be processed without SIMD registers.
+    fn calc_complex_data_alignment_reqs(array: &[T]) -> SimdPartition<T> {
+        let partition = Self::calc_data_alignment_reqs(array);
+        if partition.left % 2 == 0 {
+            partition
+        } else {
+            SimdPartition::new_all_scalar(array.len())
+        }
+    }
+
     /// Converts a real valued array which has exactly the size of a SIMD register
     /// into a SIMD register.
     fn from_array(array: Self::Array) -> Self;
diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 8bd65c0..20d18ca 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -544,7 +544,7 @@ where
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
         let array = &self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(array);
+        let partition = Reg::calc_complex_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
             &self.multicore_settings,
diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index a929468..547a4fb 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -131,7 +131,7 @@ where
 
         let data_length = self.len();
         let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
             Complexity::Small,
@@ -229,7 +229,7 @@ where
 
         let data_length = self.len();
         let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
             Complexity::Small,
diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index aa23f61..0701537 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -428,7 +428,7 @@ macro_rules! impl_binary_complex_vector_operation {
 
                 let data_length = self.len();
                 let array = self.data.to_slice_mut();
-                let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+                let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
                 let other = $arg_name.data(..);
                 Chunk::from_src_to_dest(
                     Complexity::Small, &self.multicore_settings,
diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4cd739d..ea2ed65 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -501,7 +501,7 @@ where
     fn sum_complex<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> Complex<T> {
         let data_length = self.len();
         let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
         let sum = {
             let chunks = Chunk::get_chunked_results(
                 Complexity::Small,
@@ -532,7 +532,7 @@ where
     fn sum_sq_complex<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> Complex<T> {
         let data_length = self.len();
         let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
         let sum = {
             let chunks = Chunk::get_chunked_results(
                 Complexity::Small,
diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 55b78cc..1344cfd 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -370,7 +370,7 @@ where
         {
             let data_length = self.valid_len;
             let array = self.data.to_slice_mut();
-            let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+            let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
             Chunk::execute_partial(
                 complexity,
                 &self.multicore_settings,
@@ -472,7 +472,7 @@ where
         {
             let array = self.data.to_slice_mut();
             let temp = result.to_slice_mut();
-            let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+            let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
             Chunk::from_src_to_dest(
                 complexity,
                 &self.multicore_settings,
-- 
2.43.0


From c7dd14bc1a093fafea46e42c4b397542071fd269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 04/74] fix: complex operations on storages with an odd number
 of elements

---
 vector/src/vector_types/general/dot_products.rs | 4 ++--
 vector/src/vector_types/general/elementary.rs   | 2 +-
 vector/src/vector_types/general/statistics.rs   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index 547a4fb..31e3af9 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -153,7 +153,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
@@ -251,7 +251,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index 0701537..83b413c 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -444,7 +444,7 @@ macro_rules! impl_binary_complex_vector_operation {
                         }
                 });
 
-                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(array)).zip(partition.cedge_iter(array_to_complex(other))) {
+                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(&mut array[0..data_length])).zip(partition.cedge_iter(array_to_complex(other))) {
                     *n = n.$scal_op(*o);
                 }
             }
diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index ea2ed65..4963b73 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -525,7 +525,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x)
     }
 
@@ -556,7 +556,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x * *x)
     }
 }
-- 
2.43.0


From 102dc2333e533f34cb48fa715db1ec535af13bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 05/74] fix: zero interleave and diff on storages with an odd
 number of elements

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 vector/src/vector_types/general/diff_sum.rs            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f5f60ae..dff837c 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -372,7 +372,7 @@ where
 
         if is_complex {
             let data = self.data.to_slice_mut();
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 {
                 let i = len / 2 - 1 - j;
                 if i % factor == 0 {
diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 7181d46..c3a313e 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -70,7 +70,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 - 1 {
                 data[j] = data[j + 1] - data[j];
             }
@@ -91,7 +91,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             let mut temp = data[0];
             for n in &mut data[1..len / 2] {
                 let diff = *n - temp;
-- 
2.43.0


From 15a3f563e971ebaec72223e3f0cd4c3869e6ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 06/74] fix: diff of an empty vector

---
 vector/src/vector_types/general/diff_sum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index c3a313e..c2b3bec 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -66,6 +66,10 @@ where
         let is_complex = self.is_complex();
         let step = if is_complex { 2 } else { 1 };
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         self.valid_len -= step;
         let data = self.data.to_slice_mut();
 
-- 
2.43.0


From 62ba9a53195f33bf321b0c25aea94ee87a2765ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 07/74] fix: split arrays into chunks correctly if they are
 empty or processed as symmetric pairs

---
 vector/src/multicore_support/no_threading.rs | 32 ++++-----
 vector/src/multicore_support/threading.rs    | 68 +++++++++++---------
 2 files changed, 51 insertions(+), 49 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index b726787..a5c218e 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -5,7 +5,6 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use std::iter::Iterator;
 use std::ops::Range;
-use std::slice::ChunksMut;
 
 /// Empty struct since multicore support is disabled
 #[derive(Debug, Copy, Clone)]
@@ -142,19 +141,22 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let mut chunks = Chunk::partition_mut(array, step_size, 2);
-        let mut chunks1 = chunks.next().unwrap();
-        let len1 = chunks1.len();
-        let mut chunks2 = chunks.next().unwrap();
+        if array_length == 0 {
+            return;
+        }
+
+        // The first half is never shorter than the second one
+        let center = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let (mut chunk1, mut chunk2) = array.split_at_mut(center);
         function(
-            &mut chunks1,
+            &mut chunk1,
             &Range {
                 start: 0,
-                end: len1,
+                end: center,
             },
-            &mut chunks2,
+            &mut chunk2,
             &Range {
-                start: len1,
+                start: center,
                 end: array_length,
             },
             arguments,
@@ -258,15 +260,6 @@ impl Chunk {
         );
     }
 
-    #[inline]
-    fn partition_mut<T>(array: &mut [T], step_size: usize, number_of_chunks: usize) -> ChunksMut<T>
-    where
-        T: Copy + Clone + Send,
-    {
-        let chunk_size = Chunk::calc_chunk_size(array.len(), step_size, number_of_chunks);
-        array.chunks_mut(chunk_size)
-    }
-
     #[inline]
     fn calc_chunk_size(array_length: usize, step_size: usize, number_of_chunks: usize) -> usize {
         let mut chunk_size = (array_length as f64 / number_of_chunks as f64).ceil() as usize;
@@ -275,7 +268,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // An empty array still needs a valid chunk size
+        chunk_size.max(step_size)
     }
 }
 
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index f16919e..c4a795c 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -320,6 +320,8 @@ impl Chunk {
     ) -> usize {
         if settings.core_limit == 1 {
             settings.core_limit
+        } else if array_length == 0 {
+            1
         } else if complexity == Complexity::Small {
             // Recent tests seem to indicate that even for large arrays it never makes
             // sense to spawn threads for trivial instructions. A single CPU core with SIMD
@@ -374,7 +376,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // An empty array still needs a valid chunk size
+        chunk_size.max(step_size)
     }
 
     /// This function returns the ranges which correspond to the chunks generated by
@@ -562,48 +565,53 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
+        if array_length == 0 {
+            return;
+        }
+
         let number_of_chunks =
-            2 * Chunk::determine_number_of_chunks(array_length, complexity, settings);
-        if number_of_chunks > 2 {
-            let chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let ranges = Chunk::partition_in_ranges(array_length, step_size, chunks.len());
-            let mut i = 0;
-            let (mut chunks1, mut chunks2): (Vec<_>, Vec<_>) = chunks.partition(|_c| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            i = 0;
-            let (ranges1, ranges2): (Vec<_>, Vec<_>) = ranges.iter().partition(|_r| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            let chunks2 = chunks2.iter_mut().rev();
-            let ranges2 = ranges2.iter().rev();
-            let zipped1 = chunks1.iter_mut().zip(ranges1);
-            let zipped2 = chunks2.zip(ranges2);
+            Chunk::determine_number_of_chunks(array_length, complexity, settings);
+        // The first half is never shorter than the second one
+        let center = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let (half1, half2) = array.split_at_mut(center);
+        if number_of_chunks > 1 {
+            // Pair each chunk of the first half with its mirror image in the second half
+            let chunk_size = Chunk::calc_chunk_size(center, step_size, number_of_chunks);
+            let chunks1 = half1.chunks_mut(chunk_size);
+            let mut chunks2 = half2.rchunks_mut(chunk_size);
             crossbeam::scope(|scope| {
-                for chunk in zipped1.zip(zipped2) {
+                let mut start1 = 0;
+                let mut end2 = array_length;
+                for mut chunk1 in chunks1 {
+                    let mut chunk2 = chunks2.next().unwrap_or(&mut []);
+                    let range1 = Range {
+                        start: start1,
+                        end: start1 + chunk1.len(),
+                    };
+                    let range2 = Range {
+                        start: end2 - chunk2.len(),
+                        end: end2,
+                    };
+                    start1 = range1.end;
+                    end2 = range2.start;
                     scope.spawn(move |_| {
-                        let (pair1, pair2) = chunk;
-                        function(pair1.0, pair1.1, pair2.0, pair2.1, arguments);
+                        function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
                     });
                 }
             })
             .expect("Failed to spawn thread");
         } else {
-            let mut chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let mut chunks1 = chunks.next().unwrap();
-            let len1 = chunks1.len();
-            let mut chunks2 = chunks.next().unwrap();
+            let mut chunk1 = half1;
+            let mut chunk2 = half2;
             function(
-                &mut chunks1,
+                &mut chunk1,
                 &Range {
                     start: 0,
-                    end: len1,
+                    end: center,
                 },
-                &mut chunks2,
+                &mut chunk2,
                 &Range {
-                    start: len1,
+                    start: center,
                     end: array_length,
                 },
                 arguments,
-- 
2.43.0


From bde4b06b0f4e3ecde1fb37aedd99cfb0a289aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 08/74] fix: absolute value of very large and very small
 numbers

---
 vector/src/vector_types/real/real_ops.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index 640ad8e..204969a 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -242,12 +242,8 @@ where
 {
     fn abs(&mut self) {
         assert_real!(self);
-        sel_reg!(self.simd_real_operation::<T>(
-            |x, _arg| (x * x).sqrt(),
-            |x, _arg| x.abs(),
-            (),
-            Complexity::Small
-        ));
+        // Without SIMD since `(x * x).sqrt()` would over- and underflow for large and small values
+        self.pure_real_operation(|x, _arg| x.abs(), (), Complexity::Small);
     }
 }
 
-- 
2.43.0


From d1bfc69bd1a8301a91ddd7e86b8e4962cb2b810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 09/74] fix: constant of the approximated logarithm

---
 vector/src/simd_extensions/approximations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/approximations.rs b/vector/src/simd_extensions/approximations.rs
index 8c4b441..1c9fe47 100644
--- a/vector/src/simd_extensions/approximations.rs
+++ b/vector/src/simd_extensions/approximations.rs
@@ -69,7 +69,7 @@ macro_rules! simd_approx_impl {
                 let one = $regf::splat(1.0);
                 let onef_as_uint: $regu = unsafe { mem::transmute(one) };
                 let half = $regf::splat(0.5);
-                let sqrthf = $regf::splat(2.0.sqrt());
+                let sqrthf = $regf::splat(0.707106781186547524);
                 let log_p0 = $regf::splat(7.0376836292E-2);
                 let log_p1 = $regf::splat(-1.1514610310E-1);
                 let log_p2 = $regf::splat(1.1676998740E-1);
-- 
2.43.0


From 43779e2e72caf4af390207c35d579d7de793aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 10/74] fix: center vectors which are padded on both sides in
 place by an even number of points

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index dff837c..62add04 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -326,7 +326,7 @@ where
             }
             PaddingOption::Surround => {
                 let diff = (len - len_before) / step;
-                let mut right = (diff - 1) / 2;
+                let mut right = diff / 2;
                 let mut left = diff - right;
                 if is_complex {
                     right *= 2;
-- 
2.43.0


From 43af30c2ad9bac99fb1bd23e9e4f1d10ac31d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 11/74] fix: zero pad the center completely if a buffer is used

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 62add04..8f263e7 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -453,7 +453,7 @@ where
 
                     target[len - right..len].copy_from_slice(&data[len_before - right..len_before]);
                     target[0..left].copy_from_slice(&data[0..left]);
-                    memzero(target, left..len - len_before);
+                    memzero(target, left..len - right);
                 }
             }
         }
-- 
2.43.0


From 8344272fe090f0c0958de5d9ada7fb33a9e076e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 12/74] fix: interleave empty vectors with zeros

---
 vector/src/vector_types/general/data_reorganization.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 8f263e7..0c5ca4b 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -275,9 +275,8 @@ macro_rules! zero_interleave {
                 (),
                 move |original, range, target, _arg| {
                     // Zero target
-                    let ptr = &mut target[0] as *mut T;
-                    unsafe {
-                        ptr::write_bytes(ptr, 0, new_len);
+                    for value in target.iter_mut() {
+                        *value = T::zero();
                     }
                     let skip = step * $tuple;
                     let mut i = 0;
-- 
2.43.0


From 4194eb8f68f84cb48ad353eea0f3b0e3116e785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 13/74] fix: split and merge the valid points only and refuse
 to split complex numbers

---
 vector/src/vector_types/general/data_reorganization.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 0c5ca4b..68e5b00 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -483,7 +483,7 @@ where
     fn split_into(&self, targets: &mut [&mut Self]) -> VoidResult {
         let num_targets = targets.len();
         let data_length = self.len();
-        if num_targets == 0 || data_length % num_targets != 0 {
+        if num_targets == 0 || self.points() % num_targets != 0 {
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
@@ -500,7 +500,7 @@ where
                 target[2 * pos + 1] = data[2 * i + 1];
             }
         } else {
-            for (i, d) in data.iter().enumerate() {
+            for (i, d) in data[0..data_length].iter().enumerate() {
                 let target = targets[i % num_targets].data.to_slice_mut();
                 let pos = i / num_targets;
                 target[pos] = *d;
@@ -544,7 +544,7 @@ where
                     data[2 * i + 1] = source[2 * pos + 1];
                 }
             } else {
-                for (i, d) in data.iter_mut().enumerate() {
+                for (i, d) in data[0..data_length].iter_mut().enumerate() {
                     let source = sources[i % num_sources].data.to_slice();
                     let pos = i / num_sources;
                     *d = source[pos];
-- 
2.43.0


From f4aa65e145890d3f545583a9bfd36df42b5799de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 14/74] fix: get real data into a destination of exactly the
 right size and from the valid points only

---
 .../src/vector_types/complex/complex_to_real.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 20d18ca..0952357 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -543,7 +543,7 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
-        let array = &self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_complex_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
@@ -608,9 +608,6 @@ where
 {
     fn get_real(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.re,
@@ -621,9 +618,6 @@ where
 
     fn get_imag(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.im,
@@ -634,9 +628,6 @@ where
 
     fn get_magnitude(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs(),
@@ -647,9 +638,6 @@ where
 
     fn get_magnitude_squared(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs_squared(),
@@ -660,9 +648,6 @@ where
 
     fn get_phase(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.arg(),
-- 
2.43.0


From c68cdd046fb20835e04f68b84b28d0cc0c132d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 15/74] fix: set the delta of both targets of get_real_imag and
 get_mag_phase

---
 vector/src/vector_types/complex/complex_to_real.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 0952357..da084ef 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -663,6 +663,8 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         imag.resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        real.set_delta(self.delta);
+        imag.set_delta(self.delta);
         let real = real.data_mut(0..data_length / 2);
         let imag = imag.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
@@ -683,6 +685,8 @@ where
         phase
             .resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        mag.set_delta(self.delta);
+        phase.set_delta(self.delta);
         let mag = mag.data_mut(0..data_length / 2);
         let phase = phase.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
-- 
2.43.0


From ac75780179eed50f7a5d96b02bd10bd6459ee47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 16/74] fix: refuse to set the parts of a vector which isn't
 complex

---
 vector/src/vector_types/complex/complex_to_real.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index da084ef..1229d33 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -714,6 +714,11 @@ where
 {
     fn set_real_imag(&mut self, real: &O, imag: &O) -> VoidResult {
         {
+            if !self.is_complex() || real.is_complex() || imag.is_complex() {
+                self.mark_vector_as_invalid();
+                return Err(ErrorReason::InputMustBeComplex);
+            }
+
             if real.len() != imag.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
             }
@@ -737,6 +742,11 @@ where
 
     fn set_mag_phase(&mut self, mag: &O, phase: &O) -> VoidResult {
         {
+            if !self.is_complex() || mag.is_complex() || phase.is_complex() {
+                self.mark_vector_as_invalid();
+                return Err(ErrorReason::InputMustBeComplex);
+            }
+
             if mag.len() != phase.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
             }
-- 
2.43.0


From a5d9b54acd73af31b258105ebc1b0fc420b55242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 17/74] fix: unwrap signals which don't grow with every sample

---
 vector/src/vector_types/real/real_ops.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index 204969a..6ba5616 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -268,13 +268,13 @@ where
         let half = divisor / T::from(2.0).unwrap();
         while j < data_length {
             let mut diff = data[j] - data[i];
-            if diff > half {
+            if diff > half || diff < -half {
                 diff = diff % divisor;
-                diff = diff - divisor;
-                data[j] = data[i] + diff;
-            } else if diff < -half {
-                diff = diff % divisor;
-                diff = diff + divisor;
+                if diff > half {
+                    diff = diff - divisor;
+                } else if diff < -half {
+                    diff = diff + divisor;
+                }
                 data[j] = data[i] + diff;
             }
 
-- 
2.43.0


From cdeb34f8c68b4e6f3441409a4fd2f4f3a867ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 18/74] fix: store the magnitudes of both complex numbers of an
 AVX register (f64)

---
 vector/src/simd_extensions/avx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/avx.rs b/vector/src/simd_extensions/avx.rs
index dc478bd..d1c4bb4 100644
--- a/vector/src/simd_extensions/avx.rs
+++ b/vector/src/simd_extensions/avx.rs
@@ -333,7 +333,7 @@ impl Simd<f64> for f64x4 {
     #[inline]
     fn store_half(self, target: &mut [f64], index: usize) {
         target[index] = self.extract(0);
-        target[index + 1] = self.extract(1);
+        target[index + 1] = self.extract(2);
     }
 
     #[inline]
-- 
2.43.0


From fc9b6416c057531f6e8603378498d4d24acce05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 19/74] fix: refuse dot products of vectors with different
 sizes or meta data

---
 .../src/vector_types/general/dot_products.rs  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index 31e3af9..8dda21c 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -78,6 +78,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -129,6 +137,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
@@ -177,6 +189,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -227,6 +247,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_complex_data_alignment_reqs(&array[0..data_length]);
-- 
2.43.0


From 12cddf322770b9423e9267f9a498e7a8b22e4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 20/74] fix: sum up all parts of a precise dot product
 precisely

---
 .../src/vector_types/general/dot_products.rs  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index 8dda21c..d692cc4 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -220,10 +220,12 @@ where
             },
         );
 
-        let sum = partition
-            .edge_iter(array)
-            .zip(partition.edge_iter(other))
-            .fold(T::zero(), |sum, (a, b)| sum + *a * *b);
+        let sum = kahan_sum(
+            partition
+                .edge_iter(array)
+                .zip(partition.edge_iter(other))
+                .map(|(a, b)| *a * *b),
+        );
 
         let chunk_sum: T = (&chunks[..]).iter().fold(T::zero(), |a, b| a + *b);
         Ok(chunk_sum + sum)
@@ -274,10 +276,12 @@ where
             },
         );
 
-        let sum = partition
-            .cedge_iter(array_to_complex(&array[0..data_length]))
-            .zip(partition.cedge_iter(array_to_complex(other)))
-            .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
+        let sum = kahan_sum(
+            partition
+                .cedge_iter(array_to_complex(&array[0..data_length]))
+                .zip(partition.cedge_iter(array_to_complex(other)))
+                .map(|(a, b)| *a * *b),
+        );
 
         let chunk_sum: Complex<T> = (&chunks[..])
             .iter()
-- 
2.43.0


From a4911923920387cae2629ef5694c59ec1f4729d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 21/74] fix: don't share the compensation between the parts of
 precise split statistics

---
 .../src/vector_types/general/precise_stats.rs  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index a3e7202..9911e1f 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -259,11 +259,12 @@ where
             |array, range, len| {
                 let mut results = Statistics::empty_vec(len);
                 let mut j = range.start;
-                let mut sumc = 0.0;
-                let mut rmsc = 0.0;
+                let mut sumc = [0.0; STATS_VEC_CAPACTIY];
+                let mut rmsc = [0.0; STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stats = &mut results[j % len];
-                    stats.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let col = j % len;
+                    let stats = &mut results[col];
+                    stats.add_prec(*num, j / len, &mut sumc[col], &mut rmsc[col]);
                     j += 1;
                 }
 
@@ -507,11 +508,12 @@ where
                 let mut results = Statistics::<Complex<f64>>::empty_vec(len);
                 let mut j = range.start / 2;
                 let array = array_to_complex(array);
-                let mut sumc = Complex64::zero();
-                let mut rmsc = Complex64::zero();
+                let mut sumc = [Complex64::zero(); STATS_VEC_CAPACTIY];
+                let mut rmsc = [Complex64::zero(); STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stat = &mut results[j % len];
-                    stat.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let col = j % len;
+                    let stat = &mut results[col];
+                    stat.add_prec(*num, j / len, &mut sumc[col], &mut rmsc[col]);
                     j += 1;
                 }
 
-- 
2.43.0


From 01d83c30c34264b6d15f40ae7b77bea95428b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 22/74] fix: merge statistics which hold the minimum and the
 maximum

---
 vector/src/vector_types/general/statistics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4963b73..7270d91 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -227,7 +227,8 @@ where
             if stat.max > max {
                 max = stat.max;
                 max_index = stat.max_index;
-            } else if stat.min < min {
+            }
+            if stat.min < min {
                 min = stat.min;
                 min_index = stat.min_index;
             }
@@ -316,7 +317,8 @@ where
                 max = stat.max;
                 max_norm = max.norm();
                 max_index = stat.max_index;
-            } else if stat.min.norm() < min_norm {
+            }
+            if stat.min.norm() < min_norm {
                 min = stat.min;
                 min_norm = min.norm();
                 min_index = stat.min_index;
-- 
2.43.0


From b3bf7ea70cc316255041319521900bcb49cdc710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 23/74] fix: map and aggregate the valid points only

---
 vector/src/vector_types/general/mapping.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index 112fb07..15a9af0 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -1,6 +1,6 @@
 use super::super::{
     ComplexNumberSpace, Domain, DspVec, ErrorReason, MetaData, RealNumberSpace, ScalarResult,
-    ToSlice, ToSliceMut,
+    ToSlice, ToSliceMut, Vector,
 };
 use crate::inline_vector::InlineVector;
 use crate::multicore_support::*;
@@ -60,8 +60,8 @@ where
             return;
         }
 
+        let length = self.len();
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -106,7 +106,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.len();
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,8 +170,8 @@ where
             return;
         }
 
+        let length = self.len();
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -217,7 +217,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.len();
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From d600d8c005c9ac9e3c033c672431f40821a356df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 24/74] fix: inverse transforms of run-time typed vectors give
 time domain vectors

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index a101059..ad1e82b 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -142,7 +142,7 @@ where
         if self.domain() != DataDomain::Frequency {
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
-            self.domain.to_freq();
+            self.domain.to_time();
             return Self::TimeResult::rededicate_from_force(self);
         }
 
@@ -153,7 +153,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         Self::TimeResult::rededicate_from_force(self)
     }
 
@@ -193,8 +193,8 @@ where
     {
         if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeInFrequencyDomain,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -203,8 +203,8 @@ where
 
         if self.points() > 0 && self.data(1).abs() > T::from(1e-10).unwrap() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeConjSymmetric,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -215,8 +215,9 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
+        self.number_space.to_real();
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
 
-- 
2.43.0


From f8d80239d0909ae73a3b1e6d2bafeabe327f19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 25/74] fix: transform and mirror empty vectors

---
 vector/src/vector_types/time_freq/freq.rs | 4 ++++
 vector/src/vector_types/time_freq/mod.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index f83b017..e2d6b4a 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -59,6 +59,10 @@ where
         }
 
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         let step = 2;
         let temp_len = 2 * len - step;
         let mut temp = buffer.borrow(temp_len);
diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f439466..1b913f6 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -44,6 +44,10 @@ where
     let use_rust_fft = has_no_gpu_support || has_small_size || is_unsupported_gpu_fft_len;
     if use_rust_fft {
         let points = len / 2; // By two since vector is always complex
+        if points == 0 {
+            return;
+        }
+
         let fft = {
             let mut planner = FftPlanner::new();
             planner.plan_fft(points, direction)
-- 
2.43.0


From d26eb079b3b974ab8b9093333ee86593aa0436a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 26/74] fix: symmetric transforms of half a spectrum which
 starts at 0 Hz

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 15 +++++++++------
 vector/src/vector_types/time_freq/time_to_freq.rs | 15 ++++-----------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index ad1e82b..73b9720 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -225,12 +225,15 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        let points = self.points();
-        self.scale(Complex::<T>::new(
-            T::one() / T::from(points).unwrap(),
-            T::zero(),
-        ));
-        self.ifft_shift();
+        if self.points() > 0 {
+            // Number of points of the mirrored spectrum
+            let points = 2 * self.points() - 1;
+            self.scale(Complex::<T>::new(
+                T::one() / T::from(points).unwrap(),
+                T::zero(),
+            ));
+        }
+
         self.plain_sifft(buffer)
     }
 
diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 029494e..ffa47db 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -177,10 +177,9 @@ where
 
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
-        let len = $points;
-        let len = len / 2 + 1;
+        let points = $points / 2 + 1;
         $self_
-            .resize(len)
+            .resize(2 * points)
             .expect("Shrinking a vector should always succeed");
     };
 }
@@ -219,8 +218,6 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
@@ -251,10 +248,8 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
@@ -287,11 +282,9 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         self.apply_window(window);
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
-- 
2.43.0


From 7ce0c121e6bf86f751f416a17c5d39b7d56d6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 27/74] fix: documented error for symmetric transforms of
 complex vectors

---
 .../vector_types/time_freq/time_to_freq.rs    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index ffa47db..964e8df 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -199,11 +199,16 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Time || self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeReal
+            } else {
+                ErrorReason::InputMustBeInTimeDomain
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
             return Err((
-                ErrorReason::InputMustBeInTimeDomain,
+                reason,
                 Self::FreqResult::rededicate_from_force(self),
             ));
         }
@@ -229,11 +234,16 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Time || self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeReal
+            } else {
+                ErrorReason::InputMustBeInTimeDomain
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
             return Err((
-                ErrorReason::InputMustBeInTimeDomain,
+                reason,
                 Self::FreqResult::rededicate_from_force(self),
             ));
         }
@@ -263,11 +273,16 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Time || self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeReal
+            } else {
+                ErrorReason::InputMustBeInTimeDomain
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
             return Err((
-                ErrorReason::InputMustBeInTimeDomain,
+                reason,
                 Self::FreqResult::rededicate_from_force(self),
             ));
         }
-- 
2.43.0


From 13a33713e7d6219d412842f98e88dd473f4f02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 28/74] fix: refuse windows outside of time domain and shifts
 and mirrors outside of frequency domain

---
 vector/src/vector_types/time_freq/freq.rs         | 12 +++++++++++-
 vector/src/vector_types/time_freq/freq_to_time.rs |  2 +-
 vector/src/vector_types/time_freq/time.rs         | 12 +++++++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index e2d6b4a..8ed3ae8 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -53,7 +53,7 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Frequency && !self.is_complex() {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
             return;
         }
@@ -87,10 +87,20 @@ where
     }
 
     fn fft_shift(&mut self) {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         self.swap_halves_priv(true)
     }
 
     fn ifft_shift(&mut self) {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         self.swap_halves_priv(false)
     }
 }
diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index 73b9720..9d3c7ac 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -163,7 +163,7 @@ where
     {
         let points = self.points();
         self.scale(T::one() / T::from(points).unwrap());
-        self.ifft_shift();
+        self.swap_halves_priv(false);
         self.plain_ifft(buffer)
     }
 
diff --git a/vector/src/vector_types/time_freq/time.rs b/vector/src/vector_types/time_freq/time.rs
index 7d40746..54dafd0 100644
--- a/vector/src/vector_types/time_freq/time.rs
+++ b/vector/src/vector_types/time_freq/time.rs
@@ -1,5 +1,5 @@
 use super::super::{
-    DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain, ToFreqResult, ToSliceMut,
+    DataDomain, DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain, ToFreqResult, ToSliceMut,
 };
 use crate::array_to_complex_mut;
 use crate::numbers::*;
@@ -30,6 +30,11 @@ where
     D: TimeDomain,
 {
     fn apply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
@@ -48,6 +53,11 @@ where
     }
 
     fn unapply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
-- 
2.43.0


From e25f9255153ff353d2cf257dec7094dbd2f7b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 29/74] fix: rededicate vectors of another number space or
 domain as empty ones

---
 vector/src/vector_types/rededicate_and_relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/rededicate_and_relations.rs b/vector/src/vector_types/rededicate_and_relations.rs
index 2c5e7ed..acef40b 100644
--- a/vector/src/vector_types/rededicate_and_relations.rs
+++ b/vector/src/vector_types/rededicate_and_relations.rs
@@ -337,7 +337,7 @@ where
         let is_complex = origin.is_complex();
         let domain = origin.domain();
         let mut result = Self::rededicate_from_force(origin);
-        if result.is_complex() != is_complex && result.domain() != domain {
+        if result.is_complex() != is_complex || result.domain() != domain {
             result
                 .resize(0)
                 .expect("Setting size to 0 should always succeed");
-- 
2.43.0


From 96ec7b76e4b31b21244ea9ec337280a344ceb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 30/74] fix: windows with a single point

---
 vector/src/window_functions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vector/src/window_functions.rs b/vector/src/window_functions.rs
index 1bc2a50..146a763 100644
--- a/vector/src/window_functions.rs
+++ b/vector/src/window_functions.rs
@@ -79,6 +79,10 @@ where
 
     fn window(&self, n: usize, length: usize) -> T {
         let one = T::one();
+        if length <= 1 {
+            return one;
+        }
+
         let two = T::from(2.0).unwrap();
         let pi = T::PI();
         let n = T::from(n).unwrap();
@@ -99,6 +103,10 @@ where
 
     fn window(&self, n: usize, length: usize) -> T {
         let one = T::one();
+        if length <= 1 {
+            return one;
+        }
+
         let two = T::from(2.0).unwrap();
         let four = T::from(4.0).unwrap();
         let six = T::from(6.0).unwrap();
-- 
2.43.0


From 717c43f24e2b3389b572e99ee30b206abe38c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 31/74] fix: shift spectra with a single point

---
 vector/src/vector_types/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 1344cfd..c3e1ff8 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -173,6 +173,10 @@ where
     T: Copy,
 {
     let len = data.len();
+    if len < 2 {
+        return;
+    }
+
     if len % 2 == 0 {
         let (lo, up) = data.split_at_mut(len / 2);
         for (lo, up) in lo.iter_mut().zip(up.iter_mut()) {
-- 
2.43.0


From c2e63e451f05a3069f1a097ee30bdcd90722b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 32/74] fix: exactly real 0 Hz of symmetric transforms, which
 their inverse demands

---
 .../vector_types/time_freq/time_to_freq.rs    | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 964e8df..da44f9f 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -176,12 +176,17 @@ where
 }
 
 macro_rules! unmirror {
-    ($self_: ident, $points: ident) => {
-        let points = $points / 2 + 1;
-        $self_
-            .resize(2 * points)
-            .expect("Shrinking a vector should always succeed");
-    };
+    ($self_: ident, $buffer: ident) => {{
+        let points = $self_.points() / 2 + 1;
+        $self_.zero_interleave_b($buffer, 2);
+        $self_.number_space.to_complex();
+        fft(&mut $self_, $buffer, FftDirection::Forward);
+        // The value at 0 Hz is real except for rounding errors
+        $self_.data.to_slice_mut()[1] = T::zero();
+        $self_.valid_len = 2 * points;
+        $self_.domain.to_freq();
+        Self::FreqResult::rededicate_from_force($self_)
+    }};
 }
 
 impl<S, T, N, D> SymmetricTimeToFrequencyDomainOperations<S, T> for DspVec<S, T, N, D>
@@ -223,10 +228,7 @@ where
             ));
         }
 
-        let points = self.points();
-        let mut result = self.plain_fft(buffer);
-        unmirror!(result, points);
-        Ok(result)
+        Ok(unmirror!(self, buffer))
     }
 
     fn sfft<B>(mut self, buffer: &mut B) -> TransRes<Self::FreqResult>
@@ -258,10 +260,7 @@ where
             ));
         }
 
-        let points = self.points();
-        let mut result = self.plain_fft(buffer);
-        unmirror!(result, points);
-        Ok(result)
+        Ok(unmirror!(self, buffer))
     }
 
     fn windowed_sfft<B>(
@@ -298,9 +297,6 @@ where
         }
 
         self.apply_window(window);
-        let points = self.points();
-        let mut result = self.plain_fft(buffer);
-        unmirror!(result, points);
-        Ok(result)
+        Ok(unmirror!(self, buffer))
     }
 }
-- 
2.43.0


From 0bc0a4b9828d4279f5c4c6e8806e9ce2c8d673c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 33/74] fix: convolve complex vectors without SIMD if registers
 would split a complex number

---
 vector/src/vector_types/time_freq/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 1b913f6..bd61f9e 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -572,14 +572,22 @@ where
             let scalar_len = conv_len + Reg::LEN;
             let conv_len = conv_len as isize;
 
-            let partition = Reg::calc_data_alignment_reqs(&data[0..len]);
-            let step = if self.is_complex() { 2 } else { 1 };
+            let (partition, step) = if self.is_complex() {
+                (Reg::calc_complex_data_alignment_reqs(&data[0..len]), 2)
+            } else {
+                (Reg::calc_data_alignment_reqs(&data[0..len]), 1)
+            };
             let scalar_left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            let (edge_left, edge_right) = if simd.is_empty() {
+                (points, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..points - scalar_len],
+                &mut dest[edge_left..points - edge_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
@@ -600,7 +608,7 @@ where
                     }
                 },
             );
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, edge_left, edge_right) {
                 *num = Self::convolve_iteration(
                     complex,
                     other_iter,
-- 
2.43.0


From 2628f369a6d9006003d645b194328417cee8d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 34/74] fix: impulse response functions of long vectors

---
 vector/src/vector_types/time_freq/convolution.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 2276539..0c4c495 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -157,12 +157,13 @@ where
                 multicore_settings: MultiCoreSettings::default(),
             };
 
+            let step = if self.is_complex() { 2 } else { 1 };
             let mut i = 0;
             let mut j = -(T::from(len).unwrap());
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value;
-                i += 2;
+                i += step;
                 j = j + T::one();
             }
 
@@ -218,11 +219,11 @@ where
         let points = calc_points(len, ratio, self.is_complex());
         if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
-                data: InlineVector::of_size(T::zero(), 2 * points),
+                data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
                 domain: self.domain.clone(),
                 number_space: self.number_space.clone(),
-                valid_len: self.valid_len,
+                valid_len: points,
                 multicore_settings: MultiCoreSettings::default(),
             };
 
@@ -231,9 +232,8 @@ where
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value.re;
+                *imp_resp.data_mut(i + 1) = value.im;
                 i += 2;
-                *imp_resp.data_mut(i) = value.im;
-                i += 1;
                 j = j + T::one();
             }
 
-- 
2.43.0


From 4b826b49080555ca1a801dc2acdedf21f6c793f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 35/74] fix: convolve with responses which don't fit into fixed
 inline vectors

---
 vector/src/vector_types/time_freq/convolution.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 0c4c495..9824875 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -496,7 +496,13 @@ where
         // For the SIMD operation we need to clone `vector` several
         // times and this only is worthwhile if `vector.len() << self.len()`
         // where `<<` means "significant smaller".
-        if self.len() > 1000 && impulse_response.len() <= 202 && impulse_response.len() > 11 {
+        // The shifted copies of the impulse response must fit into an inline vector, registers
+        // hold at least two elements.
+        if self.len() > 1000
+            && impulse_response.len() <= 202
+            && impulse_response.len() > 11
+            && can_use_simd::<T>(impulse_response.len() / 2 + 1)
+        {
             sel_reg!(self.convolve_signal_simd::<T>(buffer, impulse_response));
             return Ok(());
         }
@@ -532,6 +538,7 @@ where
             // Overlap-discard creates a lot of copies of the size of impulse_response
             // and that only seems to be worthwhile if the vector is long enough
             && self.len() > 10 * impulse_response.len() && self.is_complex()
+            && can_use_simd::<T>(impulse_response.points())
         {
             let fft_len = next_power_of_two(impulse_response.len());
             return self.overlap_discard(buffer, impulse_response, fft_len);
-- 
2.43.0


From 6c6fefab70cb8c534309e5057bbd682b4e584658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 36/74] fix: convolve in blocks with responses in storages of
 an odd size

---
 vector/src/vector_types/time_freq/convolution.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 9824875..295f546 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -361,7 +361,7 @@ where
             let (filter_response_padded, _) = filter_response_padded.getf();
 
             let signal_time = self.data.to_slice_mut();
-            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[..]);
+            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[0..2 * imp_len]);
             let filter_response_padded: &mut [Complex<T>] =
                 array_to_complex_mut(&mut filter_response_padded[0..2 * fft_len]);
             let signal_time: &mut [Complex<T>] = array_to_complex_mut(&mut signal_time[0..2 * x_len]);
-- 
2.43.0


From 5c8414702d7373b534d86bb434ff72fedf5141bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 37/74] fix: convolve all points if done in blocks

---
 vector/src/vector_types/time_freq/convolution.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 295f546..2a2c877 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -338,7 +338,13 @@ where
         let scratch_len = 2 * std::cmp::max(fft.get_inplace_scratch_len(), fft.get_outofplace_scratch_len()); // Times 2 as the fft is complex
         let signal_freq_len = 2 * fft_len;
         let tmp_len = 2 * fft_len;
-        let remainder_len = x_len - x_len % fft_len;
+        // Number of points at the end which the blocks don't cover
+        let mut blocks_end = step_size;
+        while blocks_end + fft_len < x_len {
+            blocks_end += step_size;
+        }
+        let tail_len = x_len - (blocks_end + imp_len / 2);
+        let remainder_len = std::cmp::max(x_len - x_len % fft_len, 2 * tail_len);
         let mut array =
             buffer.borrow(filter_response_padded_len + scratch_len + signal_freq_len + tmp_len + remainder_len);
         {
-- 
2.43.0


From d14185f28193940a47728e7242fc88acd626dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 38/74] fix: let inner transforms borrow as much memory as they
 need

---
 vector/src/vector_types/mod.rs                | 69 ++++++++++---------
 .../src/vector_types/time_freq/correlation.rs |  2 +-
 .../vector_types/time_freq/interpolation.rs   |  4 +-
 3 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index c3e1ff8..26aee0d 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -601,12 +601,18 @@ where
     }
 }
 
-/// Buffer borrow type for `NoTradeBufferBurrow`.
-pub struct NoTradeBufferBurrow<'a, T: RealNumber + 'a> {
-    data: &'a mut [T],
+/// Buffer borrow type for `NoTradeBuffer`.
+pub struct NoTradeBufferBurrow<B, S> {
+    data: B,
+    storage_type: std::marker::PhantomData<S>,
 }
 
-impl<'a, T: RealNumber + 'a> ToSlice<T> for NoTradeBufferBurrow<'a, T> {
+impl<B, S, T> ToSlice<T> for NoTradeBufferBurrow<B, S>
+where
+    B: BufferBorrow<S, T>,
+    S: ToSliceMut<T>,
+    T: RealNumber,
+{
     fn to_slice(&self) -> &[T] {
         self.data.to_slice()
     }
@@ -628,65 +634,62 @@ impl<'a, T: RealNumber + 'a> ToSlice<T> for NoTradeBufferBurrow<'a, T> {
     }
 }
 
-impl<'a, T: RealNumber + 'a> ToSliceMut<T> for NoTradeBufferBurrow<'a, T>  {
+impl<B, S, T> ToSliceMut<T> for NoTradeBufferBurrow<B, S>
+where
+    B: BufferBorrow<S, T>,
+    S: ToSliceMut<T>,
+    T: RealNumber,
+{
     fn to_slice_mut(&mut self) -> &mut [T] {
         self.data.to_slice_mut()
     }
 }
 
-impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for NoTradeBufferBurrow<'a, T> {
-    fn trade(self, _: &mut S) {
+impl<'b, B, S, T> BufferBorrow<&'b mut [T], T> for NoTradeBufferBurrow<B, S>
+where
+    B: BufferBorrow<S, T>,
+    S: ToSliceMut<T>,
+    T: RealNumber,
+{
+    fn trade(self, _: &mut &'b mut [T]) {
         // No trade
     }
 }
 
 /// For internal use only. A buffer which doesn't implement the `swap` routine. Swapping is a no-op in this
 /// implementation. This can be useful in cases where an implementation will do the swap step on its own.
-struct NoTradeBuffer<B, S, T>
-where
-    B: BufferBorrow<S, T>,
-    S: ToSliceMut<T>,
-    T: RealNumber,
-{
-    data: B,
+struct NoTradeBuffer<'b, B, S> {
+    buffer: &'b mut B,
     storage_type: std::marker::PhantomData<S>,
-    data_type: std::marker::PhantomData<T>,
 }
 
-impl<B, S, T> NoTradeBuffer<B, S, T>
-where
-    B: BufferBorrow<S, T>,
-    S: ToSliceMut<T>,
-    T: RealNumber,
-{
-    /// Creates a new buffer from a storage type. The buffer will internally hold
-    /// its storage for it's complete life time.
-    pub fn new(storage: B) -> NoTradeBuffer<B, S, T> {
+impl<'b, B, S> NoTradeBuffer<'b, B, S> {
+    /// Creates a new buffer which borrows all of its storage from another buffer.
+    pub fn new(buffer: &'b mut B) -> NoTradeBuffer<'b, B, S> {
         NoTradeBuffer {
-            data: storage,
+            buffer,
             storage_type: std::marker::PhantomData,
-            data_type: std::marker::PhantomData,
         }
     }
 }
 
-impl<'a, B, S, T> Buffer<'a, &mut [T], T> for NoTradeBuffer<B, S, T>
+impl<'a, 'b, 'c, B, S, T> Buffer<'a, &'c mut [T], T> for NoTradeBuffer<'b, B, S>
 where
-    B: BufferBorrow<S, T>,
+    B: Buffer<'a, S, T>,
     S: ToSliceMut<T>,
-    T: RealNumber + 'a,
+    T: RealNumber,
 {
-    type Borrow = NoTradeBufferBurrow<'a, T>;
+    type Borrow = NoTradeBufferBurrow<B::Borrow, S>;
 
     fn borrow(&'a mut self, len: usize) -> Self::Borrow {
-        self.data.try_resize(len).expect("NoTradeBuffer: Out of memory");
         NoTradeBufferBurrow {
-            data: &mut self.data.to_slice_mut()[0..len],
+            data: self.buffer.borrow(len),
+            storage_type: std::marker::PhantomData,
         }
     }
 
     fn alloc_len(&self) -> usize {
-        self.data.alloc_len()
+        self.buffer.alloc_len()
     }
 }
 
diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 3c73db3..a15753b 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -150,7 +150,7 @@ where
         self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::<B, S>::new(buffer);
         let mut complex = complex.plain_fft(&mut buffer);
         let mut other = (other.data(..)).to_complex_freq_vec();
         other.delta = complex.delta;
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c1cdfe0..b159548 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -509,7 +509,7 @@ where
         let len = self.len();
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::<B, S>::new(buffer);
         let mut complex = complex.plain_fft(&mut buffer);
         let interpolation_factorf = T::from(interpolation_factor).unwrap();
         complex.multiply_function_priv(
@@ -577,7 +577,7 @@ where
         complex
             .resize(complex_orig_len)
             .expect("Shrinking should always succeed");
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::<B, S>::new(buffer);
         let mut complex = complex.plain_fft(&mut buffer);
         // Add the delay, which is a linear phase in frequency domain
         if delay != T::zero() {
-- 
2.43.0


From 9c982d2784b12c11b83bd41734cc0642ce22fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 39/74] fix: correlate with arguments which need no padding

---
 vector/src/vector_types/time_freq/correlation.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index a15753b..d984fc0 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -107,10 +107,12 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
-            .expect(
-                "zero_pad_b shouldn't fail since the argument is always larger than the vector",
-            );
+        if points > 1 {
+            self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
+                .expect(
+                    "zero_pad_b shouldn't fail since the argument is always larger than the vector",
+                );
+        }
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
@@ -147,7 +149,9 @@ where
         }
 
         let points = other.points();
-        self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        if points != self.points() {
+            self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        }
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
         let mut buffer = NoTradeBuffer::<B, S>::new(buffer);
-- 
2.43.0


From 295ddf7009f867b17abdec0d9760b87d4bd3b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 40/74] fix: frequency responses of a single point

---
 vector/src/vector_types/time_freq/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index bd61f9e..5ad2d3c 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -69,7 +69,10 @@ where
 /// Transform a value on the x-axis the same way as a fft shift transforms the
 /// x axis of a spectrum.
 fn fft_swap_x<T: RealNumber>(is_fft_shifted: bool, x_value: T, x_max: T) -> T {
-    if !is_fft_shifted {
+    if x_max == T::zero() {
+        // A single point, which is at 0 Hz
+        T::zero()
+    } else if !is_fft_shifted {
         x_value / x_max
     } else if x_value <= T::zero() {
         let x_value = x_value / x_max;
-- 
2.43.0


From fc6806f99d0f507bce13af254a4b5ede299fa933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 41/74] fix: frequency responses of spectra which start at 0 Hz
 with an even number of points or symmetric functions

---
 vector/src/vector_types/time_freq/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 5ad2d3c..943409f 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -639,9 +639,11 @@ where
         TT: Zero + Mul<Output = TT> + Copy + Send + Sync + From<T>,
     {
         let two = T::one() + T::one();
-        if !is_symmetric {
+        let points = self.points();
+        // If the spectrum starts at 0 Hz and has an odd number of points then the values at
+        // positive and negative frequencies aren't symmetric around the center of the data.
+        if !is_symmetric || (is_fft_shifted && points % 2 != 0) {
             let len = self.len();
-            let points = self.points();
             let data = self.data.to_slice_mut();
             let converted = convert_mut(&mut data[0..len]);
             Chunk::execute_with_range(
@@ -657,8 +659,14 @@ where
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
+                        // `fft_swap_x` expects an odd number of points
+                        let x = if is_fft_shifted && offset == 0 && j > T::zero() {
+                            j + T::one()
+                        } else {
+                            j
+                        };
                         *num =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, x, max) * ratio);
                         j = j + T::one();
                     }
                 },
-- 
2.43.0


From 72a4f510b0434bac775cc854e2d5f580dfcbebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 42/74] fix: interpolate with SIMD only where its registers
 have all the data

---
 .../vector_types/time_freq/interpolation.rs   | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index b159548..20eff55 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -180,6 +180,19 @@ where
     imp_resp
 }
 
+/// Indicates whether the sampled functions fit into inline vectors.
+fn can_use_simd<T>(conv_len: usize, is_complex: bool, interpolation_factor: T) -> bool
+where
+    T: RealNumber,
+{
+    // No register holds more numbers than this
+    let max_shifts = 16;
+    let step = if is_complex { 2 } else { 1 };
+    let max_capacity = InlineVector::<T>::max_capacity();
+    step * (2 * conv_len + 1) <= max_capacity
+        && interpolation_factor.round() <= T::from(max_capacity / max_shifts).unwrap()
+}
+
 impl<S, T, N, D> DspVec<S, T, N, D>
 where
     S: ToSliceMut<T>,
@@ -233,22 +246,31 @@ where
             let temp = temp.to_slice_mut();
             let dest = convert_mut(&mut temp[0..new_len]);
             let len = dest.len();
-            let scalar_len = vectors[0].points() * interpolation_factor;
-
-            let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
+            let partition = if self.is_complex() {
+                Reg::calc_complex_data_alignment_reqs(&data[0..data_len])
+            } else {
+                Reg::calc_data_alignment_reqs(&data[0..data_len])
+            };
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // The points at the edges need data which is outside of the SIMD registers
+            let scalar_len = (vectors[0].points() + 2 * number_of_shifts) * interpolation_factor;
+            let (edge_left, edge_right) = if simd.is_empty() || len < 2 * scalar_len {
+                (len, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             // Length of a SIMD reg relative to the length of type T
             // which is 1 for real numbers or 2 for complex numbers
             let simd_len_in_t = Reg::LEN / step;
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..len - scalar_len],
+                &mut dest[edge_left..len - edge_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = range.start + scalar_len;
+                    let mut i = range.start + edge_left;
                     for num in dest_range {
                         let rounded = (i + interpolation_factor - 1) / interpolation_factor;
                         let end = rounded + conv_len - left_points;
@@ -275,7 +297,7 @@ where
             );
 
             let data = convert(&data[0..data_len]);
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, edge_left, edge_right) {
                 (*num) = Self::interpolate_priv_simd_step(
                     i as usize,
                     interpolation_factor,
@@ -411,6 +433,7 @@ where
         if conv_len <= 202
             && new_len >= 2000
             && (interpolation_factor.round() - interpolation_factor).abs() < T::from(1e-6).unwrap()
+            && can_use_simd::<T>(conv_len, is_complex, interpolation_factor)
         {
             let interpolation_factor = interpolation_factor.round().to_usize().unwrap();
             if self.is_complex() {
-- 
2.43.0


From c06ca56640a7448b7d97ce93f13ddb69071a7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 43/74] fix: interpolate with functions which aren't symmetric
 if done with SIMD

---
 .../vector_types/time_freq/interpolation.rs   | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 20eff55..7328ab1 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -136,6 +136,7 @@ fn function_to_vectors<T>(
     complex_result: bool,
     interpolation_factor: usize,
     delay: T,
+    is_mirrored: bool,
 ) -> InlineVector<GenDspVec<InlineVector<T>, T>>
 where
     T: RealNumber,
@@ -149,6 +150,7 @@ where
             complex_result,
             offset,
             delay,
+            is_mirrored,
         ));
     }
 
@@ -161,6 +163,7 @@ fn function_to_vector<T>(
     complex_result: bool,
     offset: T,
     delay: T,
+    is_mirrored: bool,
 ) -> GenDspVec<InlineVector<T>, T>
 where
     T: RealNumber,
@@ -172,7 +175,8 @@ where
     let mut i = 0;
     let mut j = -(T::from(conv_len).unwrap() - T::one()) + delay;
     while i < data_len {
-        let value = function.calc(j - offset);
+        let x = j - offset;
+        let value = function.calc(if is_mirrored { -x } else { x });
         *imp_resp.data_mut(i) = value;
         i += step;
         j = j + T::one();
@@ -233,9 +237,19 @@ where
                 self.is_complex(),
                 interpolation_factor,
                 delay,
+                false,
             );
-            let mut shifts = InlineVector::with_capacity(vectors.len() * number_of_shifts);
-            for vector in &vectors[..] {
+            // The SIMD part runs through the function in reverse order
+            let mirrored = function_to_vectors(
+                function,
+                conv_len,
+                self.is_complex(),
+                interpolation_factor,
+                delay,
+                true,
+            );
+            let mut shifts = InlineVector::with_capacity(mirrored.len() * number_of_shifts);
+            for vector in &mirrored[..] {
                 let shifted_copies = create_shifted_copies(vector);
                 for shift in shifted_copies.iter() {
                     shifts.push(shift.clone());
-- 
2.43.0


From 3c4ab0699cbdd3ec5cf5dd66ad1f15d70c37aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 44/74] fix: delay spectra with an odd number of points

---
 vector/src/vector_types/time_freq/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 7328ab1..c722fd0 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -356,7 +356,7 @@ where
         let pi = T::PI();
         let two = T::one() + T::one();
         let points = self.len() / 2;
-        let pos_points = points / 2;
+        let pos_points = points - points / 2;
         let neg_points = points - pos_points;
         let phase_inc = two * pi * delay / T::from(points).unwrap();
         {
-- 
2.43.0


From b87f61d67bccbede1b8626951cc29a0c0eff793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 45/74] fix: raised cosine function close to its removable
 singularities

---
 vector/src/conv_types.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 9a60f03..0e555c3 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -411,15 +411,16 @@ where
         let one = T::one();
         let two = T::from(2.0).unwrap();
         let pi = T::PI();
-        let four = two * two;
-        if x.abs() == one / (two * self.rolloff) {
-            let arg = pi / two / self.rolloff;
-            return (arg).sin() / arg * pi / four;
-        }
-
         let pi_x = pi * x;
-        let arg = two * self.rolloff * x;
-        pi_x.sin() * (pi_x * self.rolloff).cos() / pi_x / (one - (arg * arg))
+        let arg = (two * self.rolloff * x).abs();
+        // This is `cos(pi / 2 * arg) / (1 - arg)`, which is finite even if `arg` is close to one
+        let distance = pi / two * (one - arg);
+        let quotient = if distance == T::zero() {
+            pi / two
+        } else {
+            distance.sin() / (one - arg)
+        };
+        pi_x.sin() / pi_x * quotient / (one + arg)
     }
 }
 
-- 
2.43.0


From 0c42a63f486e5842b98af55f48636686313e34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 46/74] fix: linear and spline interpolation of any size with
 any factor and delay

---
 .../time_freq/real_interpolation.rs           | 143 +++++++-----------
 1 file changed, 53 insertions(+), 90 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 2b6626f..cd4d5dd 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -23,6 +23,35 @@ where
         B: for<'a> Buffer<'a, S, T>;
 }
 
+/// The number of points after an interpolation.
+fn interpolated_len<T: RealNumber>(data_len: usize, interpolation_factor: T) -> usize {
+    if data_len == 0 {
+        return 0;
+    }
+
+    (T::from(data_len - 1).unwrap() * interpolation_factor)
+        .round()
+        .to_usize()
+        .unwrap()
+        + 1
+}
+
+/// Gets a sample, the signal continues linearly outside of the data.
+fn extrapolated<T: RealNumber>(data: &[T], pos: isize) -> T {
+    let last = data.len() as isize - 1;
+    if last == 0 {
+        data[0]
+    } else if pos < 0 {
+        data[0] + (data[1] - data[0]) * T::from(pos).unwrap()
+    } else if pos > last {
+        let last_sample = data[last as usize];
+        let diff = last_sample - data[last as usize - 1];
+        last_sample + diff * T::from(pos - last).unwrap()
+    } else {
+        data[pos as usize]
+    }
+}
+
 impl<S, T, N, D> RealInterpolationOps<S, T> for DspVec<S, T, N, D>
 where
     S: ToSliceMut<T>,
@@ -34,39 +63,34 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         let data_len = self.len();
-        let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
-            .round()
-            .to_usize()
-            .unwrap()
-            + 1;
+        let dest_len = interpolated_len(data_len, interpolation_factor);
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
 
-            for num in &mut dest[0..dest_len - 1] {
+            for num in dest {
                 let rounded = i / interpolation_factor + delay;
                 let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let next = before + 1;
+                let before = beforef.to_isize().unwrap();
                 let x0 = beforef;
-                let y0 = data[before];
-                let y1 = data[next];
+                let y0 = extrapolated(data, before);
+                let y1 = extrapolated(data, before + 1);
                 let x = rounded;
                 (*num) = y0 + (y1 - y0) * (x - x0);
                 i = i + T::one();
             }
-            dest[dest_len - 1] = data[data_len - 1];
-            self.valid_len = dest_len;
         }
+        self.valid_len = dest_len;
         temp.trade(&mut self.data);
     }
 
@@ -74,95 +98,33 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         let data_len = self.len();
-        let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
-            .round()
-            .to_usize()
-            .unwrap()
-            + 1;
+        let dest_len = interpolated_len(data_len, interpolation_factor);
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             // Literature: http://paulbourke.net/miscellaneous/interpolation/
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
-            let start = ((T::one() - delay) * interpolation_factor)
-                .ceil()
-                .to_usize()
-                .unwrap();
-            let end = start + 1;
             let half = T::from(0.5).unwrap();
             let one_point_five = T::from(1.5).unwrap();
             let two = T::from(2.0).unwrap();
             let two_point_five = T::from(2.5).unwrap();
-            for num in &mut dest[0..start] {
+            for num in dest {
                 let rounded = i / interpolation_factor + delay;
                 let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert_eq!(before, 0);
-                let next = before + 1;
-                let next_next = next + 1;
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let y0 = y1 - (y2 - y1);
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[start..dest_len - end] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let before_before = before - 1;
-                let next = before + 1;
-                let next_next = next + 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[dest_len - end..dest_len] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert!(before + 2 >= data_len);
-                let before_before = before - 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = if before < data_len - 1 {
-                    data[before + 1]
-                } else {
-                    y1 + (y1 - y0)
-                };
-                let y3 = if before < data_len - 2 {
-                    data[before + 2]
-                } else {
-                    y2 + (y2 - y1)
-                };
+                let before = beforef.to_isize().unwrap();
+                let y0 = extrapolated(data, before - 1);
+                let y1 = extrapolated(data, before);
+                let y2 = extrapolated(data, before + 1);
+                let y3 = extrapolated(data, before + 2);
                 let x = rounded - beforef;
                 let x2 = x * x;
                 let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
@@ -178,6 +140,7 @@ where
         temp.trade(&mut self.data);
     }
 }
+
 #[cfg(test)]
 mod tests {
     use super::super::super::*;
-- 
2.43.0


From 9e70c80b13862e1157910073c5fb59e594ba8bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 47/74] fix: frequency responses at the bins of spectra with an
 odd number of points when interpolating

---
 vector/src/vector_types/time_freq/mod.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 943409f..85fef1c 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -654,19 +654,29 @@ where
                 (ratio, function_arg),
                 move |array, range, (ratio, arg)| {
                     let scale = TT::from(ratio);
+                    if is_fft_shifted {
+                        // Starts at 0 Hz, `nyquist` isn't at a bin if the number of points is odd
+                        let nyquist = T::from(points).unwrap() / two;
+                        let mut i = range.start;
+                        for num in array {
+                            let bin = if i <= points / 2 {
+                                T::from(i).unwrap()
+                            } else {
+                                -T::from(points - i).unwrap()
+                            };
+                            *num = (*num) * scale * fun(arg, bin * ratio / nyquist);
+                            i += 1;
+                        }
+                        return;
+                    }
+
                     let offset = if points % 2 != 0 { 1 } else { 0 };
                     let max = T::from(points - offset).unwrap() / two;
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
-                        // `fft_swap_x` expects an odd number of points
-                        let x = if is_fft_shifted && offset == 0 && j > T::zero() {
-                            j + T::one()
-                        } else {
-                            j
-                        };
                         *num =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, x, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j, max) * ratio);
                         j = j + T::one();
                     }
                 },
-- 
2.43.0


From e69ac98971ef9223569d61af3e6ad742a30fdc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 48/74] fix: lookup tables are zero left of the table

---
 vector/src/conv_types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 0e555c3..2c29837 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -166,6 +166,10 @@ macro_rules! add_linear_table_lookup_impl {
                         let center_float = center as $data_type;
                         let x = x / self.delta + center_float;
                         let round_float = x.round();
+                        if round_float < 0.0 {
+                            return $result_type::zero();
+                        }
+
                         let round = round_float as usize;
                         if round >= len {
                             return $result_type::zero();
-- 
2.43.0


From e8ab4b97d6ffc1384f892d7dc667f1c4169ebef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 49/74] fix: transform lookup tables of any size

---
 vector/src/conv_types.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 2c29837..192461d 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -8,6 +8,7 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use crate::vector_types::*;
 use num_complex::{Complex32, Complex64};
+use rustfft::{FftDirection, FftPlanner};
 use std::marker::PhantomData;
 use std::ops::*;
 
@@ -290,6 +291,22 @@ add_complex_linear_table_impl!(
     ComplexTimeLinearTableLookup, RealTimeLinearTableLookup, f32, f64;
     ComplexFrequencyLinearTableLookup, RealFrequencyLinearTableLookup, f32, f64);
 
+/// Creates a buffer which is large enough to transform and shift the given number of points.
+fn fft_buffer<T: RealNumber>(
+    points: usize,
+    direction: FftDirection,
+) -> FixedLenBuffer<InlineVector<T>, T> {
+    let scratch_points = if points == 0 {
+        0
+    } else {
+        FftPlanner::<T>::new()
+            .plan_fft(points, direction)
+            .get_inplace_scratch_len()
+    };
+    let len = 2 * std::cmp::max(points, scratch_points);
+    FixedLenBuffer::new(InlineVector::of_size(T::zero(), len))
+}
+
 macro_rules! add_complex_time_linear_table_impl {
     ($($data_type: ident),*) => {
         $(
@@ -304,7 +321,7 @@ macro_rules! add_complex_time_linear_table_impl {
                     }
                     let mut vector = interleaved.to_complex_time_vec();
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
+                    let mut buffer = fft_buffer(vector.points(), FftDirection::Forward);
                     let freq = vector.fft(&mut buffer);
                     let delta = freq.delta();
                     let freq = freq.datac(..);
@@ -336,7 +353,7 @@ macro_rules! add_real_time_linear_table_impl {
                     vector.resize(len).expect("shrinking should always succeed");
                     vector.data_mut(0.. len).copy_from_slice(&self.table[..]);
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), 2 * len));
+                    let mut buffer = fft_buffer(len, FftDirection::Forward);
                     let freq = vector.fft(&mut buffer);
                     let freq = freq.magnitude();
                     let is_symmetric = self.is_symmetric;
@@ -371,7 +388,7 @@ macro_rules! add_complex_frequency_linear_table_impl {
                     }
                     let mut vector = interleaved.to_complex_freq_vec();
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
+                    let mut buffer = fft_buffer(vector.points(), FftDirection::Inverse);
                     let time = vector.ifft(&mut buffer);
                     let delta = time.delta();
                     let time = time.datac(..);
-- 
2.43.0


From 8da5ca27afe239b5eb9875bb875ddee86d29c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 50/74] fix: documented errors of correlate

---
 vector/src/vector_types/time_freq/correlation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index d984fc0..4ad5c77 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -135,17 +135,22 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Time || !self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeInTimeDomain
+            } else {
+                ErrorReason::InputMustBeComplex
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
-            return Err(ErrorReason::InputMustBeInTimeDomain);
+            return Err(reason);
         }
 
         if other.domain() != DataDomain::Frequency || !other.is_complex() {
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
-            return Err(ErrorReason::InputMustBeInTimeDomain);
+            return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
         let points = other.points();
-- 
2.43.0


From 03ad617a2d5e5abf8ba10b763dbd67a1dfc3d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 51/74] fix: vectorized interpolatef used another window of
 points than the scalar one

---
 .../vector_types/time_freq/interpolation.rs   | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c722fd0..3db7532 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -173,10 +173,14 @@ where
     let mut imp_resp =
         InlineVector::of_size(T::zero(), data_len).to_gen_dsp_vec(complex_result, DataDomain::Time);
     let mut i = 0;
-    let mut j = -(T::from(conv_len).unwrap() - T::one()) + delay;
+    let mut j = -T::from(conv_len).unwrap() + delay;
     while i < data_len {
-        let x = j - offset;
-        let value = function.calc(if is_mirrored { -x } else { x });
+        let x = if is_mirrored {
+            -(j + offset)
+        } else {
+            j - offset
+        };
+        let value = function.calc(x);
         *imp_resp.data_mut(i) = value;
         i += step;
         j = j + T::one();
@@ -286,16 +290,11 @@ where
                 move |dest_range, range, simd| {
                     let mut i = range.start + edge_left;
                     for num in dest_range {
-                        let rounded = (i + interpolation_factor - 1) / interpolation_factor;
-                        let end = rounded + conv_len - left_points;
+                        let rounded = i / interpolation_factor;
+                        let end = rounded + conv_len + 1 - left_points;
                         let simd_end = (end + simd_len_in_t - 1) / simd_len_in_t;
                         let simd_shift = end % simd_len_in_t;
                         let factor_shift = i % interpolation_factor;
-                        // The reasoning for the next match is analog to the explanation in the
-                        // create_shifted_copies function.
-                        // We need the inverse of the mod unless we start with zero
-                        let factor_shift =
-                            (interpolation_factor - factor_shift) % interpolation_factor;
                         let selection = factor_shift * simd_len_in_t + simd_shift;
                         let shifted = &shifts[selection];
                         let mut sum = Reg::splat(T::zero());
@@ -338,7 +337,7 @@ where
     {
         let rounded = i / interpolation_factor;
         let iter =
-            WrappingIterator::new(data, rounded as isize - conv_len as isize, 2 * conv_len + 1);
+            WrappingIterator::new(data, rounded as isize - conv_len as isize - 1, 2 * conv_len + 1);
         let vector = &vectors[i % interpolation_factor];
         let step = if vector.is_complex() { 2 } else { 1 };
         let mut sum = TT::zero();
-- 
2.43.0


From 81871d941aa58ca87ec3ad5f759ef703bc4887c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 52/74] fix: statistics and sums of the wrong number space
 panicked or gave a wrong result

---
 .../src/vector_types/general/precise_stats.rs | 66 ++++++++++++++++++-
 vector/src/vector_types/general/statistics.rs | 36 +++++++++-
 2 files changed, 99 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index 9911e1f..f8c2d1e 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -1,5 +1,5 @@
 use super::super::{
-    ComplexNumberSpace, Domain, DspVec, ErrorReason, RealNumberSpace, ScalarResult, Statistics,
+    ComplexNumberSpace, Domain, DspVec, ErrorReason, MetaData, RealNumberSpace, ScalarResult, Statistics,
     Stats, StatsVec, ToSlice, Vector, STATS_VEC_CAPACTIY,
 };
 use super::{kahan_sum, kahan_sumb};
@@ -132,6 +132,10 @@ where
     type Result = Statistics<f64>;
 
     fn statistics_prec(&self) -> Statistics<f64> {
+        if self.is_complex() {
+            return Statistics::<f64>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -164,6 +168,10 @@ where
     type Result = StatsVec<Statistics<f64>>;
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<StatsVec<Statistics<f64>>> {
+        if self.is_complex() {
+            return Err(ErrorReason::InputMustBeReal);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -206,6 +214,10 @@ where
     type Result = Statistics<f64>;
 
     fn statistics_prec(&self) -> Statistics<f64> {
+        if self.is_complex() {
+            return Statistics::<f64>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -240,6 +252,10 @@ where
     type Result = StatsVec<Statistics<f64>>;
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<StatsVec<Statistics<f64>>> {
+        if self.is_complex() {
+            return Err(ErrorReason::InputMustBeReal);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -283,6 +299,10 @@ where
     D: Domain,
 {
     fn sum_prec(&self) -> f64 {
+        if self.is_complex() {
+            return f64::NAN;
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -303,6 +323,10 @@ where
     }
 
     fn sum_sq_prec(&self) -> f64 {
+        if self.is_complex() {
+            return f64::NAN;
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -331,6 +355,10 @@ where
     D: Domain,
 {
     fn sum_prec(&self) -> f64 {
+        if self.is_complex() {
+            return f64::NAN;
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -345,6 +373,10 @@ where
     }
 
     fn sum_sq_prec(&self) -> f64 {
+        if self.is_complex() {
+            return f64::NAN;
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -368,6 +400,10 @@ where
     type Result = Statistics<Complex<f64>>;
 
     fn statistics_prec(&self) -> Statistics<Complex<f64>> {
+        if !self.is_complex() {
+            return Statistics::<Complex<f64>>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -404,6 +440,10 @@ where
         &self,
         len: usize,
     ) -> ScalarResult<StatsVec<Statistics<Complex<f64>>>> {
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -450,6 +490,10 @@ where
     type Result = Statistics<Complex<f64>>;
 
     fn statistics_prec(&self) -> Statistics<Complex<f64>> {
+        if !self.is_complex() {
+            return Statistics::<Complex<f64>>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -488,6 +532,10 @@ where
         &self,
         len: usize,
     ) -> ScalarResult<StatsVec<Statistics<Complex<f64>>>> {
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -532,6 +580,10 @@ where
     D: Domain,
 {
     fn sum_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -553,6 +605,10 @@ where
     }
 
     fn sum_sq_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -582,6 +638,10 @@ where
     D: Domain,
 {
     fn sum_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -599,6 +659,10 @@ where
     }
 
     fn sum_sq_prec(&self) -> Complex<f64> {
+        if !self.is_complex() {
+            return Complex::new(f64::NAN, f64::NAN);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 7270d91..2f117ac 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -1,6 +1,6 @@
 use super::super::{
-    ComplexNumberSpace, Domain, DspVec, ErrorReason, NumberSpace, RealNumberSpace, ScalarResult,
-    ToSlice, Vector,
+    ComplexNumberSpace, Domain, DspVec, ErrorReason, MetaData, NumberSpace, RealNumberSpace,
+    ScalarResult, ToSlice, Vector,
 };
 use crate::array_to_complex;
 use crate::multicore_support::*;
@@ -365,6 +365,10 @@ where
     type Result = Statistics<T>;
 
     fn statistics(&self) -> Statistics<T> {
+        if self.is_complex() {
+            return Statistics::<T>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -398,6 +402,10 @@ where
     type Result = StatsVec<Statistics<T>>;
 
     fn statistics_split(&self, len: usize) -> ScalarResult<StatsVec<Statistics<T>>> {
+        if self.is_complex() {
+            return Err(ErrorReason::InputMustBeReal);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -571,10 +579,18 @@ where
     D: Domain,
 {
     fn sum(&self) -> T {
+        if self.is_complex() {
+            return T::nan();
+        }
+
         sel_reg!(self.sum_real::<T>())
     }
 
     fn sum_sq(&self) -> T {
+        if self.is_complex() {
+            return T::nan();
+        }
+
         sel_reg!(self.sum_sq_real::<T>())
     }
 }
@@ -589,6 +605,10 @@ where
     type Result = Statistics<Complex<T>>;
 
     fn statistics(&self) -> Statistics<Complex<T>> {
+        if !self.is_complex() {
+            return Statistics::<Complex<T>>::invalid();
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let chunks = Chunk::get_chunked_results(
@@ -623,6 +643,10 @@ where
     type Result = StatsVec<Statistics<Complex<T>>>;
 
     fn statistics_split(&self, len: usize) -> ScalarResult<StatsVec<Statistics<Complex<T>>>> {
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
         if len == 0 {
             return Ok(StatsVec::new());
         }
@@ -665,10 +689,18 @@ where
     D: Domain,
 {
     fn sum(&self) -> Complex<T> {
+        if !self.is_complex() {
+            return Complex::new(T::nan(), T::nan());
+        }
+
         sel_reg!(self.sum_complex::<T>())
     }
 
     fn sum_sq(&self) -> Complex<T> {
+        if !self.is_complex() {
+            return Complex::new(T::nan(), T::nan());
+        }
+
         sel_reg!(self.sum_sq_complex::<T>())
     }
 }
-- 
2.43.0


From 6da9ebbe8d870d645c48dafcb09a6a0a0bdd393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 53/74] fix: to_complex left vectors it refused or could not
 convert valid

---
 vector/src/vector_types/real/real_to_complex.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/real/real_to_complex.rs b/vector/src/vector_types/real/real_to_complex.rs
index 2589d8d..680090c 100644
--- a/vector/src/vector_types/real/real_to_complex.rs
+++ b/vector/src/vector_types/real/real_to_complex.rs
@@ -66,6 +66,7 @@ where
 {
     fn to_complex(mut self) -> TransRes<Self::ComplexResult> {
         if self.is_complex() {
+            self.mark_vector_as_invalid();
             self.number_space.to_complex();
             return Err((
                 ErrorReason::InputMustBeReal,
@@ -76,10 +77,14 @@ where
         let result = self.zero_interleave(2);
         let domain = self.domain();
         match result {
-            Err(reason) => Err((
-                reason,
-                Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
-            )),
+            Err(reason) => {
+                // The storage still holds real data
+                self.mark_vector_as_invalid();
+                Err((
+                    reason,
+                    Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
+                ))
+            }
             Ok(()) => Ok(Self::ComplexResult::rededicate_with_runtime_data(
                 self, true, domain,
             )),
-- 
2.43.0


From 30d97f4af8d8bfd0759dbf2fdcf1427b4ed014ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 54/74] fix: complex indexers return an empty array for vectors
 which aren't complex

---
 .../src/vector_types/vec_impl_and_indexers.rs | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/vector/src/vector_types/vec_impl_and_indexers.rs b/vector/src/vector_types/vec_impl_and_indexers.rs
index 05e880a..c5dbbdd 100644
--- a/vector/src/vector_types/vec_impl_and_indexers.rs
+++ b/vector/src/vector_types/vec_impl_and_indexers.rs
@@ -464,6 +464,23 @@ where
     }
 }
 
+impl<S, T, N, D> DspVec<S, T, N, D>
+where
+    S: ToSlice<T>,
+    T: RealNumber,
+    N: NumberSpace,
+    D: Domain,
+{
+    /// The number of valid elements which may be accessed as complex numbers.
+    fn complex_len(&self) -> usize {
+        if self.is_complex() {
+            self.valid_len
+        } else {
+            0
+        }
+    }
+}
+
 impl<S, T, N, D> ComplexIndex<usize> for DspVec<S, T, N, D>
 where
     S: ToSlice<T>,
@@ -474,7 +491,7 @@ where
     type Output = Complex<T>;
 
     fn datac(&self, index: usize) -> &Complex<T> {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -489,7 +506,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: usize) -> &mut Complex<T> {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -506,7 +523,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, _index: RangeFull) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         array_to_complex(&slice[0..len])
     }
@@ -520,7 +537,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, _index: RangeFull) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         array_to_complex_mut(&mut slice[0..len])
     }
@@ -536,7 +553,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: RangeFrom<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -551,7 +568,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: RangeFrom<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -568,7 +585,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: RangeTo<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -583,7 +600,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: RangeTo<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
@@ -600,7 +617,7 @@ where
     type Output = [Complex<T>];
 
     fn datac(&self, index: Range<usize>) -> &[Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice();
         let slice = array_to_complex(&slice[0..len]);
         &slice[index]
@@ -615,7 +632,7 @@ where
     D: Domain,
 {
     fn datac_mut(&mut self, index: Range<usize>) -> &mut [Complex<T>] {
-        let len = self.valid_len;
+        let len = self.complex_len();
         let slice = self.data.to_slice_mut();
         let slice = array_to_complex_mut(&mut slice[0..len]);
         &mut slice[index]
-- 
2.43.0


From 06b396edb10edf2ee1944a11e15fc7b491a80636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 55/74] fix: report an error if neither the storage nor the
 buffer can resize

---
 vector/src/vector_types/vec_impl_and_indexers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/vec_impl_and_indexers.rs b/vector/src/vector_types/vec_impl_and_indexers.rs
index c5dbbdd..067c056 100644
--- a/vector/src/vector_types/vec_impl_and_indexers.rs
+++ b/vector/src/vector_types/vec_impl_and_indexers.rs
@@ -242,6 +242,10 @@ where
                 let mut temp = buffer.borrow(len);
                 temp.to_slice_mut()[0..orig_len].clone_from_slice(self.data(..));
                 temp.trade(&mut self.data);
+                if self.data.len() < len {
+                    return Err(ErrorReason::TypeCanNotResize);
+                }
+
                 self.valid_len = len;
                 Ok(())
             }
-- 
2.43.0


From a65a3f9d60e40ae7e2eb640777d05ebb136b6901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 56/74] fix: complex vectors created from storages with an odd
 length are empty

---
 vector/src/vector_types/support_core.rs            | 5 ++++-
 vector/src/vector_types/to_from_vec_conversions.rs | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index f291ab3..6b8377d 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -516,7 +516,10 @@ where
     T: RealNumber,
 {
     fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
-        let len = self.len();
+        let mut len = self.len();
+        if len % 2 != 0 && is_complex {
+            len = 0;
+        }
         GenDspVec {
             data: self,
             delta: T::one(),
diff --git a/vector/src/vector_types/to_from_vec_conversions.rs b/vector/src/vector_types/to_from_vec_conversions.rs
index a2f3db3..eaa2638 100644
--- a/vector/src/vector_types/to_from_vec_conversions.rs
+++ b/vector/src/vector_types/to_from_vec_conversions.rs
@@ -255,7 +255,7 @@ where
             delta: T::one(),
             domain: meta::Time,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
@@ -296,7 +296,7 @@ where
             delta: T::one(),
             domain: meta::Freq,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
-- 
2.43.0


From c9c642d5d7139169c69b696f629dae2038727ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 57/74] fix: convert storages which are empty, have an odd size
 or capacity to spare to and from complex numbers

---
 vector/src/vector_types/support_core.rs |  6 ++++--
 vector/src/vector_types/support_std.rs  | 21 +++++++++------------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index 6b8377d..1c27c51 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -784,7 +784,8 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex(self.data), len)
+        let storage_len = self.data.len() / 2 * 2;
+        (array_to_complex(&self.data[0..storage_len]), len)
     }
 }
 
@@ -797,6 +798,7 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex_mut(self.data), len)
+        let storage_len = self.data.len() / 2 * 2;
+        (array_to_complex_mut(&mut self.data[0..storage_len]), len)
     }
 }
diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8a1c3cd..454a9ca 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -598,8 +598,9 @@ where
 {
     type Output = Vec<Complex<T>>;
 
-    fn get(self) -> (Self::Output, usize) {
+    fn get(mut self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
+        expand_to_full_capacity(&mut self.data);
         (interleaved_vec_to_complex_vec(self.data), len)
     }
 }
@@ -647,10 +648,8 @@ where
     let boxed = vec.into_boxed_slice();
     let len = boxed.len();
     unsafe {
-        let mut trans: Box<[T]> = mem::transmute(boxed);
-        let vec = Vec::<T>::from_raw_parts(&mut trans[0] as *mut T, len * 2, len * 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
+        let ptr = Box::into_raw(boxed) as *mut T;
+        Vec::<T>::from_raw_parts(ptr, len * 2, len * 2)
     }
 }
 
@@ -658,15 +657,13 @@ fn interleaved_vec_to_complex_vec<T>(mut vec: Vec<T>) -> Vec<Complex<T>>
 where
     T: RealNumber,
 {
-    expand_to_full_capacity(&mut vec);
+    // A storage with an odd number of elements holds half a complex number at its end
+    let len = vec.len() / 2;
+    vec.truncate(2 * len);
     let boxed = vec.into_boxed_slice();
-    let len = boxed.len();
     unsafe {
-        let mut trans: Box<[Complex<T>]> = mem::transmute(boxed);
-        let vec =
-            Vec::<Complex<T>>::from_raw_parts(&mut trans[0] as *mut Complex<T>, len / 2, len / 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
+        let ptr = Box::into_raw(boxed) as *mut Complex<T>;
+        Vec::<Complex<T>>::from_raw_parts(ptr, len, len)
     }
 }
 
-- 
2.43.0


From 89a17e2f7555f58d9a54f8c6bef81fb4d4e7fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 58/74] fix: refuse to repeat empty arguments

---
 vector/src/vector_types/general/elementary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index 83b413c..c9e1da0 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -460,7 +460,7 @@ macro_rules! impl_binary_smaller_vector_operation {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -490,7 +490,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -610,7 +610,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % factor.len() != 0,
+            factor.is_empty() || len % factor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, factor);
@@ -626,7 +626,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % divisor.len() != 0,
+            divisor.is_empty() || len % divisor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, divisor);
-- 
2.43.0


From 27bac6865fef33d341e7466e3447c6ff8e2f3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 59/74] fix: merge columns of any number of statistics

---
 vector/src/vector_types/general/statistics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 2f117ac..133dda2 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -3,6 +3,7 @@ use super::super::{
     ScalarResult, ToSlice, Vector,
 };
 use crate::array_to_complex;
+use crate::inline_vector::InlineVector;
 use crate::multicore_support::*;
 use crate::numbers::*;
 use crate::simd_extensions::*;
@@ -157,12 +158,12 @@ macro_rules! impl_common_stats {
             let len = stats[0].len();
             let mut results = StatsVec::new();
             for i in 0..len {
-                let mut reordered = StatsVec::new();
+                let mut reordered = InlineVector::with_capacity(stats.len());
                 for s in stats.iter() {
                     reordered.push(s[i]);
                 }
 
-                let merged = Statistics::merge(&reordered);
+                let merged = Statistics::merge(&reordered[..]);
                 results.push(merged);
             }
             results
-- 
2.43.0


From 1684be0469ce995eeb79ac84fa359ffe12baf5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 60/74] fix: fixed buffers use the room which storages can grow
 into

---
 vector/src/vector_types/support_core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index 1c27c51..eac3a16 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -47,6 +47,11 @@ impl<'a, T: RealNumber + 'a> ToSliceMut<T> for FixedLenBufferBurrow<'a, T>  {
 
 impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for FixedLenBufferBurrow<'a, T> {
     fn trade(self, storage: &mut S) {
+        if storage.len() < self.data.len() {
+            // Storages which can't grow take as much as fits
+            let _ = storage.try_resize(self.data.len());
+        }
+
         let len = std::cmp::min(storage.len(), self.data.len());
         let storage = storage.to_slice_mut();
         storage[0..len]
-- 
2.43.0


From 3b19be240c9273d7f3e8a0554604bd324e72f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 61/74] fix: report an error if a padded vector fits neither
 into its storage nor into the buffer

---
 vector/src/vector_types/general/data_reorganization.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 68e5b00..3e39073 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -418,7 +418,6 @@ where
         {
             let data = self.data.to_slice();
             let target = target.to_slice_mut();
-            self.valid_len = len;
             match option {
                 PaddingOption::End => {
                     // Zero target
@@ -458,6 +457,11 @@ where
         }
 
         target.trade(&mut self.data);
+        if self.data.len() < len {
+            return Err(ErrorReason::TypeCanNotResize);
+        }
+
+        self.valid_len = len;
         Ok(())
     }
 
-- 
2.43.0


From e0ddbf04e146e0d1274c3258b1b8d108a498bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 62/74] fix: matrix getters for magnitude, squared magnitude
 and phase

---
 matrix/src/complex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index b2495e0..2a4fbe4 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -134,19 +134,19 @@ macro_rules! add_mat_impl {
 
 				fn get_magnitude(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude(o);
 					}
 				}
 
 				fn get_magnitude_squared(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude_squared(o);
 					}
 				}
 
 				fn get_phase(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_phase(o);
 					}
 				}
 
-- 
2.43.0


From 87c65d35a08fa888f33fe03b9f5fdec36c721d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 63/74] fix: diff_with_start and cum_sum of matrices

---
 matrix/src/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index e9e8aaa..7b94333 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -213,13 +213,13 @@ macro_rules! add_mat_impl {
 
 				fn diff_with_start(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.diff_with_start()
 					}
 				}
 
 				fn cum_sum(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.cum_sum()
 					}
 				}
 			}
-- 
2.43.0


From 12d01ba6144919df2abdfef93029ff5a9bee2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 64/74] fix: sums of matrices with 3 and 4 rows

---
 matrix/src/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 49a628c..4a24251 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -187,7 +187,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix3xN<V, S, T>
 where
     V: SumOps<T>,
 {
@@ -212,7 +212,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix4xN<V, S, T>
 where
     V: SumOps<T>,
 {
-- 
2.43.0


From 487321f1fd970c25e076bc121ad07c6014d8e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 65/74] fix: statistics of matrices required vectors which
 don't exist

---
 matrix/src/general/statistics.rs | 76 ++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 4a24251..696fba3 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -3,7 +3,7 @@ use crate::IntoFixedLength;
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for MatrixMxN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = Vec<Statistics<T>>;
 
@@ -20,7 +20,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for MatrixMxN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = Vec<StatsVec<Statistics<T>>>;
 
@@ -37,7 +37,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix2xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 2];
 
@@ -54,7 +54,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix2xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 2];
 
@@ -71,7 +71,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix3xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 3];
 
@@ -88,7 +88,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix3xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 3];
 
@@ -105,7 +105,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix4xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 4];
 
@@ -122,7 +122,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix4xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 4];
 
@@ -237,13 +237,14 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for MatrixMxN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsOps<O>
+    for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = Vec<Statistics<T>>;
+    type Result = Vec<Statistics<O>>;
 
-    fn statistics_prec(&self) -> Vec<Statistics<T>> {
+    fn statistics_prec(&self) -> Vec<Statistics<O>> {
         let mut result = Vec::with_capacity(self.col_len());
         for v in self.rows() {
             let res = v.statistics_prec();
@@ -254,13 +255,14 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for MatrixMxN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsSplitOps<O>
+    for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = Vec<StatsVec<Statistics<T>>>;
+    type Result = Vec<StatsVec<Statistics<O>>>;
 
-    fn statistics_split_prec(&self, len: usize) -> ScalarResult<Vec<StatsVec<Statistics<T>>>> {
+    fn statistics_split_prec(&self, len: usize) -> ScalarResult<Vec<StatsVec<Statistics<O>>>> {
         let mut result = Vec::with_capacity(self.col_len());
         for v in self.rows() {
             let res = v.statistics_split_prec(len)?;
@@ -271,11 +273,12 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsOps<O>
+    for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 2];
+    type Result = [Statistics<O>; 2];
 
     fn statistics_prec(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -288,11 +291,12 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsSplitOps<O>
+    for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 2];
+    type Result = [StatsVec<Statistics<O>>; 2];
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
@@ -305,11 +309,12 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix3xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsOps<O>
+    for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 3];
+    type Result = [Statistics<O>; 3];
 
     fn statistics_prec(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -322,11 +327,12 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix3xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsSplitOps<O>
+    for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 3];
+    type Result = [StatsVec<Statistics<O>>; 3];
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
@@ -339,11 +345,12 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix4xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsOps<O>
+    for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<O, Result = Statistics<O>>,
 {
-    type Result = [Statistics<T>; 4];
+    type Result = [Statistics<O>; 4];
 
     fn statistics_prec(&self) -> Self::Result {
         let mut result = Vec::with_capacity(self.col_len());
@@ -356,11 +363,12 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix4xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber, O: RealNumber> PreciseStatisticsSplitOps<O>
+    for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<O, Result = StatsVec<Statistics<O>>>,
 {
-    type Result = [StatsVec<Statistics<T>>; 4];
+    type Result = [StatsVec<Statistics<O>>; 4];
 
     fn statistics_split_prec(&self, len: usize) -> ScalarResult<Self::Result> {
         let mut result = Vec::with_capacity(self.col_len());
-- 
2.43.0


From a04cc1190a14540baac5e4abaea0a9959a34a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 66/74] fix: convolution of complex matrices used only as many
 points as the response has

---
 vector/src/vector_types/time_freq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 85fef1c..a2968af 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -422,7 +422,7 @@ where
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
-                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
+                .map(|o| array_to_complex(&o[0..len]))
                 .collect();
             let dest = array_to_complex_mut(&mut target[0..len]);
             let conv_len = conv_len as isize;
-- 
2.43.0


From c7268f948cd18e9a05c0c022aa67aa573dad875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 67/74] fix: convolution of matrices reports invalid responses
 instead of using stale memory or parts of them

---
 matrix/src/time_freq.rs                  |  4 +++
 vector/src/vector_types/time_freq/mod.rs | 40 ++++++++++++++----------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index 4aef619..5ba9f5a 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -440,6 +440,10 @@ macro_rules! convolve_signal {
     ($self_: expr, $buffer: ident, $impulse_response: ident) => {{
         let col_len = $self_.col_len();
         let row_len = $self_.row_len();
+        if $impulse_response.len() != col_len {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
+
         let mut target = $buffer.borrow(row_len * col_len);
         {
             let rows: Vec<&DspVec<S, T, N, D>> = $self_.rows().iter().collect();
diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index a2968af..2868742 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -394,20 +394,29 @@ where
             }
         }
 
+        for v in matrix.iter().chain(impulse_response.iter()) {
+            let delta_ratio = matrix[0].delta() / v.delta();
+            if v.is_complex() != matrix[0].is_complex()
+                || v.domain() != matrix[0].domain()
+                || delta_ratio > T::from(1.1).unwrap()
+                || delta_ratio < T::from(0.9).unwrap()
+            {
+                return Err(ErrorReason::InputMetaDataMustAgree);
+            }
+        }
+
+        if matrix[0].domain() != super::DataDomain::Time {
+            return Err(ErrorReason::InputMustBeInTimeDomain);
+        }
+
         let points = matrix[0].points();
         let other_points = impulse_response[0].points();
-        let (other_start, other_end, full_conv_len, conv_len) = if other_points > points {
-            let center = other_points / 2;
-            let conv_len = points / 2;
-            (center - conv_len, center + conv_len, points, conv_len)
-        } else {
-            (
-                0,
-                other_points,
-                other_points,
-                other_points - other_points / 2,
-            )
-        };
+        if other_points > points {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
+
+        let conv_len = other_points - other_points / 2;
+        let full_conv_len = other_points;
         if matrix[0].is_complex() {
             let len = matrix[0].len();
             let others: InlineVector<&[T]> =
@@ -415,10 +424,7 @@ where
             let data_vecs: InlineVector<&[T]> = matrix.iter().map(|v| v.data.to_slice()).collect();
             let others: InlineVector<&[Complex<T>]> = others
                 .iter()
-                .map(|o| {
-                    let c = array_to_complex(&o[0..impulse_response[0].len()]);
-                    &c[other_start..other_end]
-                })
+                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
@@ -441,7 +447,7 @@ where
                 impulse_response.iter().map(|v| v.data.to_slice()).collect();
             let data_vecs: InlineVector<&[T]> = matrix.iter().map(|v| v.data.to_slice()).collect();
             let others: InlineVector<&[T]> =
-                others.iter().map(|o| &o[other_start..other_end]).collect();
+                others.iter().map(|o| &o[0..other_points]).collect();
             let data_vecs: InlineVector<&[T]> = data_vecs.iter().map(|o| &o[0..len]).collect();
             let dest = &mut target[0..len];
             let conv_len = conv_len as isize;
-- 
2.43.0


From 758fb5aeca158594d86e3985e619f10f39265808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 68/74] fix: to_complex_freq_mat wasn't available for any type

---
 matrix/src/to_from_mat_conversions.rs | 48 +++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/matrix/src/to_from_mat_conversions.rs b/matrix/src/to_from_mat_conversions.rs
index 6f60379..c0020b1 100644
--- a/matrix/src/to_from_mat_conversions.rs
+++ b/matrix/src/to_from_mat_conversions.rs
@@ -426,6 +426,54 @@ where
     }
 }
 
+impl<T, S> ToComplexFreqMatrix<ComplexFreqVec<S, T>, T> for Vec<S>
+where
+    T: RealNumber,
+    S: ToComplexVector<S, T> + ToSlice<T>,
+{
+    type Output = MatrixMxN<ComplexFreqVec<S, T>, S, T>;
+
+    fn to_complex_freq_mat(self) -> Self::Output {
+        to_mat_mxn(self, |v| v.to_complex_freq_vec())
+    }
+}
+
+impl<T, S> ToComplexFreqMatrix<ComplexFreqVec<S, T>, T> for [S; 2]
+where
+    T: RealNumber,
+    S: ToComplexVector<S, T> + ToSlice<T>,
+{
+    type Output = Matrix2xN<ComplexFreqVec<S, T>, S, T>;
+
+    fn to_complex_freq_mat(self) -> Self::Output {
+        to_mat_2xn(self, |v| v.to_complex_freq_vec())
+    }
+}
+
+impl<T, S> ToComplexFreqMatrix<ComplexFreqVec<S, T>, T> for [S; 3]
+where
+    T: RealNumber,
+    S: ToComplexVector<S, T> + ToSlice<T>,
+{
+    type Output = Matrix3xN<ComplexFreqVec<S, T>, S, T>;
+
+    fn to_complex_freq_mat(self) -> Self::Output {
+        to_mat_3xn(self, |v| v.to_complex_freq_vec())
+    }
+}
+
+impl<T, S> ToComplexFreqMatrix<ComplexFreqVec<S, T>, T> for [S; 4]
+where
+    T: RealNumber,
+    S: ToComplexVector<S, T> + ToSlice<T>,
+{
+    type Output = Matrix4xN<ComplexFreqVec<S, T>, S, T>;
+
+    fn to_complex_freq_mat(self) -> Self::Output {
+        to_mat_4xn(self, |v| v.to_complex_freq_vec())
+    }
+}
+
 impl<V, S, T> FromMatrix<T> for MatrixMxN<V, S, T>
 where
     T: RealNumber,
-- 
2.43.0


From a31a1762835eaab20220ec2657e4ee4287d9e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 69/74] fix: atan32 and atan64 calculated the tangent

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 61f890d..79549e8 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -446,7 +446,7 @@ pub extern "C" fn acos32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b54d5aa..a89aa12 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -447,7 +447,7 @@ pub extern "C" fn acos64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
-- 
2.43.0


From dd0be561fe9d51648292795cd9ecdea39bc1b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 70/74] fix: interop getters and split_into reported code 9 in
 case of success

---
 interop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 0f8b45d..47f7867 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -99,7 +99,7 @@ where
 
 pub fn convert_void(result: VoidResult) -> i32 {
     match result {
-        Ok(()) => 9,
+        Ok(()) => 0,
         Err(err) => translate_error(err),
     }
 }
-- 
2.43.0


From 773bb0f9000944c839d616487ece0d56921f5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 71/74] fix: overwrite_data32 and overwrite_data64 couldn't
 overwrite all data

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 79549e8..3a08d23 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -830,7 +830,7 @@ pub extern "C" fn overwrite_data32(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index a89aa12..97bd3fd 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -831,7 +831,7 @@ pub extern "C" fn overwrite_data64(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
-- 
2.43.0


From 58ebeb37679c6a052288c5f187adb36e91e9fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 72/74] fix: fft_shift and ifft_shift weren't exported by the
 interop crate

---
 interop/src/facade32.rs | 2 ++
 interop/src/facade64.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 3a08d23..dee61f1 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -960,10 +960,12 @@ pub extern "C" fn mirror32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 97bd3fd..b7e82d3 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -961,10 +961,12 @@ pub extern "C" fn mirror64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
-- 
2.43.0


From 2b4a84fa66eca67f3f404675e32f0784d68deffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 73/74] fix: sub32 and sub64 expected a pointer to a pointer as
 operand

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index dee61f1..666c220 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -175,7 +175,7 @@ pub extern "C" fn add32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b7e82d3..93c6361 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -176,7 +176,7 @@ pub extern "C" fn add64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
-- 
2.43.0


From 57e00c74f152f71282071a30a5fd4620e1690ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 74/74] fix: clone and the getters of the interop crate deleted
 the vector

---
 interop/src/facade32.rs | 16 ++++++++--------
 interop/src/facade64.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 666c220..0cdb943 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -561,12 +561,12 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -649,12 +649,12 @@ pub extern "C" fn map_aggregate_complex32(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -664,7 +664,7 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -684,7 +684,7 @@ pub extern "C" fn plain_ifft32(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone32(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone32(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -766,7 +766,7 @@ pub extern "C" fn mul_smaller_vector32(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -775,7 +775,7 @@ pub extern "C" fn get_real_imag32(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 93c6361..859e6a9 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -562,12 +562,12 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -650,12 +650,12 @@ pub extern "C" fn map_aggregate_complex64(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -665,7 +665,7 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -685,7 +685,7 @@ pub extern "C" fn plain_ifft64(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone64(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone64(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -767,7 +767,7 @@ pub extern "C" fn mul_smaller_vector64(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -776,7 +776,7 @@ pub extern "C" fn get_real_imag64(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-- 
2.43.0

