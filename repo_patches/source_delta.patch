From 5a96322954cce61d835da5463325cc18536f8977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 01/19] fix: insert by value at the element's byte offset, not
 at its index

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From a8825f0a76e225164e341662e12b5aa3e3b4c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 02/19] fix: record where each element ends when unsizing a
 vector of sized elements

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..13c8428 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -656,7 +656,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         // SAFETY: same as above
         let byte_capacity = unsafe { ValidSize::new_unchecked(byte_capacity) };
 
-        let elems_info = (0..len_elems)
+        let elems_info = (1..=len_elems)
             .map(|index| ElementInfo {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..2cd413f 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1047,7 +1047,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: same as above
         let byte_capacity = unsafe { ValidSizeUnaligned::new_unchecked(byte_capacity) };
 
-        let elems_info = (0..len_elems)
+        let elems_info = (1..=len_elems)
             .map(|index| ElementInfo {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
-- 
2.43.0


From 20ec5d5f3c5e8d8e9402532a93d40e45b0da968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 03/19] fix: iterators advanced from the front find the right
 element in nth(0), last and next_back

---
 src/inner/aligned.rs   | 4 ++--
 src/inner/unaligned.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 13c8428..f3dfb04 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -734,7 +734,7 @@ macro_rules! iter_ref {
                     .checked_sub(1)
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 let ElementInfo {
                     metadata,
@@ -776,7 +776,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 2cd413f..77a62aa 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1130,7 +1130,7 @@ macro_rules! iter_ref {
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
@@ -1179,7 +1179,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From 54bd404f47479faa5608bdceaf8f2cbbd24a5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 04/19] fix: record the new alignment when re-aligning a vector
 without byte capacity

---
 src/inner/unaligned.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 77a62aa..452d8b3 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -470,6 +470,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                // All existing elements are zero-sized, no need to realign them.
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From da19377e45dcec9924d8959efb22ba3b13f73000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 05/19] fix: don't underflow when inserting or removing at the
 padded end of a vector

---
 src/inner/unaligned.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 452d8b3..e550bdf 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -693,10 +693,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
@@ -829,10 +829,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        let aligned_len = self.aligned_byte_len();
 
         // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From 8d0aa2bd7d3de360953ad81c2e6e62cc5750479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 06/19] fix: keep the byte capacity a multiple of the alignment
 when shrinking

---
 src/inner/unaligned.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index e550bdf..d3a5e47 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -509,6 +509,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                     min_byte_capacity,
                     old_byte_capacity.get(),
                 ))
+                // Old capacity is a multiple of old align, and so of new one too.
+                .unchecked_pad_to(new_align)
             },
             new_aligned_byte_len,
         );
-- 
2.43.0


From f10ca59df35a865bbda6491ba8c808537609fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 07/19] fix: move elements to the right place when lowering the
 alignment of a vector

---
 src/inner/unaligned.rs | 56 +++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index d3a5e47..6983bd4 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -256,49 +256,39 @@ impl<T: ?Sized> UnalignedVecInner<T> {
         //
         // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
 
-        let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
+        let mut elems = self.elems_info.iter_mut();
 
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
+        // The first element is already in the right place, its offset is 0.
+        let mut old_prev_end_offset = elems
+            .next()
+            .map_or(ValidSizeUnaligned::ZERO, |first| first.end_offset);
+        let mut new_prev_end_offset = old_prev_end_offset;
 
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
+        for ElementInfo { end_offset, .. } in elems {
+            // SAFETY: See comments inside block
+            unsafe {
+                // SAFETY: can't overflow, or else old offsets would be invalid
+                let old_start_offset = old_prev_end_offset.unchecked_pad_to(old_align);
 
-            // SAFETY: End offset >= start offset
-            let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
+                // SAFETY: can't overflow, as `new_align < old_align`
+                let new_start_offset = new_prev_end_offset.unchecked_pad_to(new_align);
 
-            // SAFETY: moving element to new correct position, as computed above
-            unsafe {
+                // SAFETY: End offset >= start offset
+                let size_of_val = end_offset.unchecked_sub(old_start_offset);
+
+                // SAFETY: moving element to new correct position, as computed above
                 ptr::copy(
                     self.ptr.as_ptr().cast::<u8>().add(old_start_offset.get()),
                     self.ptr.as_ptr().cast::<u8>().add(new_start_offset.get()),
                     size_of_val.get(),
                 );
-            }
 
-            // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
-            // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
-            shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
-            };
+                old_prev_end_offset = *end_offset;
+
+                // SAFETY: new offset can't be larger than old one
+                new_prev_end_offset = new_start_offset.unchecked_add(size_of_val);
+                *end_offset = new_prev_end_offset;
+            }
         }
     }
 }
-- 
2.43.0


From e4b9492e2fd9cc69fbd678cd7eebdb1f60d18373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 08/19] fix: reserve and shrink bytes of vectors of sized
 elements in units of the element size

---
 src/inner/sized.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..f286ce1 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -69,12 +69,15 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        if mem::size_of::<T>() == 0 {
+            // Zero-sized elements never need any bytes.
+            return Ok(());
+        }
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        let needed = additional_bytes.div_ceil(mem::size_of::<T>());
+        Ok(self.try_reserve_exact(free.saturating_add(needed))?)
     }
 
     #[inline]
@@ -86,7 +89,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     ) {
         let min_capacity = cmp::max(
             min_capacity,
-            min_byte_capacity.div_ceil(mem::size_of::<T>()),
+            // Zero-sized elements never need any bytes.
+            match mem::size_of::<T>() {
+                0 => 0,
+                size => min_byte_capacity.div_ceil(size),
+            },
         );
         self.shrink_to(min_capacity);
     }
-- 
2.43.0


From 4b77aff0b6a5634dce5a633266355f77a9cc19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 09/19] fix: amortize growth when inserting emplacables into a
 vector of sized elements

---
 src/inner/sized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index f286ce1..423b9b5 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -146,7 +146,7 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
 
         let emplacer_closure =
             &mut move |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
-                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve_exact(self, 1);
+                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve(self, 1);
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: by precondition of function
-- 
2.43.0


From 1d948c3b07166b153b08f1312bd7c28aa335736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 10/19] fix: only check the reserved capacity after a
 successful reservation

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 203b052..bf0a87c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,7 +582,10 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
+        // Zero-sized elements never need any bytes.
+        debug_assert!(
+            result.is_err() || self.unused_byte_cap() >= additional_bytes || self.byte_capacity() == 0
+        );
 
         result
     }
-- 
2.43.0


From e8aff68b91f224d5a709a670ab61a51ec0a434b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 11/19] fix: exact reservations count unused capacity and don't
 over-allocate

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf0a87c..5bb233a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -663,11 +663,12 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
 
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
@@ -1429,7 +1430,7 @@ where
             vec: &mut UnsizedVec<T>,
             iter: I,
         ) {
-            vec.reserve_exact(iter.size_hint().0);
+            vec.reserve(iter.size_hint().0);
             for emplacable in iter {
                 vec.push_with(emplacable);
             }
-- 
2.43.0


From 4b694f64d064e3b5d66eb4d463d627ba04c640dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 12/19] fix: count unused byte capacity and amortize growth
 when adding emplacables

---
 src/inner.rs           | 46 ++++++++++++++++++++++++++++++++++++++++++
 src/inner/aligned.rs   | 12 +++++------
 src/inner/unaligned.rs |  4 ++--
 src/lib.rs             | 43 +++------------------------------------
 4 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 4257f49..9fccdfd 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -3,6 +3,7 @@
 //! implement.
 
 use core::{
+    cmp,
     hash::Hash,
     iter::FusedIterator,
     marker::Unsize,
@@ -123,6 +124,12 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
     #[must_use]
     fn byte_capacity(&self) -> usize;
 
+    #[must_use]
+    fn unused_byte_cap(&self) -> usize {
+        // SAFETY: len <= cap
+        unsafe { self.byte_capacity().unchecked_sub(self.byte_len()) }
+    }
+
     #[must_use]
     fn align(&self) -> usize;
 
@@ -138,6 +145,45 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Try to reserve byte or align capacity, counting existing unused
+    /// byte capacity. May overallocate.
+    fn try_reserve_additional_bytes_align_amortized(
+        &mut self,
+        additional_bytes: usize,
+        align: Self::Align,
+    ) -> Result<(), TryReserveError> {
+        let byte_cap = self.byte_capacity();
+
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+
+        let optimist_bytes = if needed_bytes > 0 {
+            cmp::max(needed_bytes, byte_cap)
+        } else {
+            0
+        };
+
+        // First we try to double capacities.
+        // if that fails, we try again with only what we really need.
+        if optimist_bytes > needed_bytes {
+            let result = self.try_reserve_additional_bytes_align(optimist_bytes, align);
+
+            if result.is_ok() {
+                return result;
+            }
+        }
+
+        let result = self.try_reserve_additional_bytes_align(needed_bytes, align);
+
+        // Zero-sized elements never need any bytes.
+        debug_assert!(
+            result.is_err()
+                || self.unused_byte_cap() >= additional_bytes
+                || self.byte_capacity() == 0
+        );
+
+        result
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index f3dfb04..9cb960a 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -317,9 +317,9 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve(1).and_then(|()| {
+                    self.try_reserve_additional_bytes_align_amortized(layout.size(), ())
+                });
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: precondition of function
@@ -503,9 +503,9 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve(1).and_then(|()| {
+                    self.try_reserve_additional_bytes_align_amortized(layout.size(), ())
+                });
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 6983bd4..f68adf2 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -668,7 +668,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
+                    self.try_reserve_additional_bytes_align_amortized(
                         unaligned_size_of_val.get(),
                         align_of_val,
                     )
@@ -874,7 +874,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 let (size_of_val, align_of_val) = decompose(layout);
 
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
+                    self.try_reserve_additional_bytes_align_amortized(layout.size(), align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
diff --git a/src/lib.rs b/src/lib.rs
index 5bb233a..448a26f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -556,38 +556,8 @@ impl<T: ?Sized> UnsizedVec<T> {
 
         let align = to_align::<T>(align);
 
-        let byte_cap = self.byte_capacity();
-
-        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
-
-        let optimist_bytes = if needed_bytes > 0 {
-            cmp::max(needed_bytes, byte_cap)
-        } else {
-            0
-        };
-
-        // First we try to double capacities.
-        // if that fails, we try again with only what we really need.
-        if optimist_bytes > needed_bytes {
-            let result = self
-                .inner
-                .try_reserve_additional_bytes_align(optimist_bytes, align);
-
-            if result.is_ok() {
-                return result;
-            }
-        }
-
-        let result = self
-            .inner
-            .try_reserve_additional_bytes_align(needed_bytes, align);
-
-        // Zero-sized elements never need any bytes.
-        debug_assert!(
-            result.is_err() || self.unused_byte_cap() >= additional_bytes || self.byte_capacity() == 0
-        );
-
-        result
+        self.inner
+            .try_reserve_additional_bytes_align_amortized(additional_bytes, align)
     }
 
     /// Reserves capacity for at least `additional` more elements to be inserted
@@ -665,7 +635,7 @@ impl<T: ?Sized> UnsizedVec<T> {
     ) -> Result<(), TryReserveError> {
         self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
-        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+        let needed_bytes = additional_bytes.saturating_sub(self.inner.unused_byte_cap());
 
         self.inner
             .try_reserve_additional_bytes_align(needed_bytes, align)
@@ -1168,13 +1138,6 @@ impl<T: ?Sized> UnsizedVec<T> {
             inner: <U as UnsizedVecImpl>::Impl::from_sized(self.inner),
         }
     }
-
-    #[must_use]
-    #[inline]
-    fn unused_byte_cap(&self) -> usize {
-        // SAFETY: len <= cap
-        unsafe { self.byte_capacity().unchecked_sub(self.byte_len()) }
-    }
 }
 
 impl<T> Default for UnsizedVec<T>
-- 
2.43.0


From 0516c8bb9bdb96123adcfe26428f2b15ceb8f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 13/19] fix: let shrink_to shrink vectors of sized elements

---
 src/inner.rs           | 4 ++++
 src/inner/aligned.rs   | 5 +++++
 src/inner/sized.rs     | 5 +++++
 src/inner/unaligned.rs | 5 +++++
 src/lib.rs             | 6 +-----
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 9fccdfd..99d99db 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -184,6 +184,10 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         result
     }
 
+    /// Shrinks only the elementwise capacity (which for `T: Sized` is
+    /// the same thing as the byte capacity).
+    fn shrink_elems_to(&mut self, min_capacity: usize);
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9cb960a..301a860 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -204,6 +204,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_elems_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 423b9b5..1529c3c 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -80,6 +80,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         Ok(self.try_reserve_exact(free.saturating_add(needed))?)
     }
 
+    #[inline]
+    fn shrink_elems_to(&mut self, min_capacity: usize) {
+        self.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index f68adf2..b57a16a 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -467,6 +467,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_elems_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/lib.rs b/src/lib.rs
index 448a26f..d7c6865 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -661,11 +661,7 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// [`shrink_capacity_bytes_to`]: UnsizedVec::shrink_capacity_bytes_to
     #[inline]
     pub fn shrink_to(&mut self, min_capacity: usize) {
-        self.inner.shrink_capacity_bytes_align_to(
-            min_capacity,
-            usize::MAX,
-            to_align::<T>(1 << (usize::BITS - 1)),
-        );
+        self.inner.shrink_elems_to(min_capacity);
     }
 
     /// Shrinks the elementwise and byte capacities of the vector with
-- 
2.43.0


From 030e5d7980f77e0981bd6e86bf8d0563db5e6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 14/19] fix: use the alignment of CStr, not of a reference to
 one

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0


From 633d33fe1765fb376fb6658132d943cc53a72966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 15/19] fix: remember the length of slices of zero-sized
 elements

---
 src/helper.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 626647a..4ab91a7 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -1,7 +1,7 @@
 pub(crate) mod valid_align;
 pub(crate) mod valid_size;
 
-use core::{alloc::Layout, hash::Hash, mem, ptr::Pointee};
+use core::{alloc::Layout, hash::Hash, ptr::Pointee};
 
 use crate::marker::Aligned;
 
@@ -17,12 +17,8 @@ impl<T> MetadataFromSize for T {
     fn from_size(_: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {}
 }
 
-impl<T> MetadataFromSize for [T] {
-    fn from_size(size: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {
-        debug_assert!(size.get() != 0 || size == ValidSizeUnaligned::ZERO);
-        size.get().checked_div(mem::size_of::<T>()).unwrap_or(0)
-    }
-}
+// Not implemented for `[T]`: the length of a slice of zero-sized elements
+// can't be derived from its size.
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub(crate) struct FullMetadataRemainder<T: Copy + Send + Sync + Ord + Hash + Unpin>(T);
-- 
2.43.0


From 1006b3eb8c14fda46910ba7dacdde7664b62c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 16/19] fix: take a removed element out of the vector even if
 its destructor or the emplacer panics

---
 src/inner/aligned.rs   | 99 +++++++++++++++++++++++++++++-------------
 src/inner/sized.rs     | 61 ++++++++++++++++----------
 src/inner/unaligned.rs | 99 +++++++++++++++++++++++++++++-------------
 3 files changed, 175 insertions(+), 84 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 301a860..dda21d7 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -386,12 +386,65 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to take the element out of the vec once it has been moved out
+        /// or dropped, even if that panics.
+        struct ElementRemover<'a, T: ?Sized + Aligned> {
+            vec: &'a mut AlignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSize<T>,
+            size_of_val: ValidSize<T>,
+            taken: bool,
+        }
+
+        impl<T: ?Sized + Aligned> Drop for ElementRemover<'_, T> {
+            fn drop(&mut self) {
+                if !self.taken {
+                    return;
+                }
+
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.size_of_val);
+                    }
+                }
+
+                let byte_len = self.vec.byte_len();
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move = unsafe { byte_len.unchecked_sub(self.start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let ptr_to_elem = self
+                        .vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get());
+
+                    ptr::copy(
+                        ptr_to_elem.add(self.size_of_val.get()),
+                        ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
         // so we can't leave vec metadata in an invalid state.
         // SAFETY: by precondition of function
-        let removed_elem_metadata = unsafe { self.elems_info.get_unchecked(index) };
+        let removed_elem_metadata = unsafe { *self.elems_info.get_unchecked(index) };
 
         let ElementInfo {
             metadata,
@@ -416,14 +469,22 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 .add(start_offset.get())
         };
 
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            start_offset,
+            size_of_val,
+            taken: false,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
-        // The emplacer can choose never to run the inner closure at all! In this case, the removed value
-        // is simply forgotten.
         emplacer_closure(size_of_val.as_layout(), metadata, &mut |out_ptr| {
+            remover.taken = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -438,38 +499,14 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 let wide_ptr: *mut T =
                     ptr::from_raw_parts_mut(thin_ptr_to_elem.cast_mut(), metadata);
 
-                // SAFETY: We forget the element right after by copying over it and adjusting vec metadata
+                // SAFETY: `remover` forgets the element by copying over it and adjusting vec metadata
                 unsafe { wide_ptr.drop_in_place() }
             }
         });
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(size_of_val);
-            }
-        }
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { self.byte_len().unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(size_of_val.get()),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        // The emplacer can choose never to run the inner closure at all! In this case, the removed value
+        // is simply forgotten.
+        remover.taken = true;
     }
 
     unsafe fn push_unchecked(&mut self, value: T, size_of_val: ValidSize<T>) {
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 1529c3c..8357534 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -187,22 +187,44 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
-        debug_assert!(index < self.len());
-
-        // SAFETY: precondition of function
-        let new_len = unsafe { self.len().unchecked_sub(1) };
+        /// Helper to take the element out of the vec once it has been moved out
+        /// or dropped, even if that panics.
+        struct ElementRemover<'a, T> {
+            vec: &'a mut ::alloc::vec::Vec<T>,
+            index: usize,
+            taken: bool,
+        }
 
-        // Set new length of vector
+        impl<T> Drop for ElementRemover<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if self.taken {
+                    // SAFETY: index < old_len, so old_len - 1 == new_len >= index
+                    unsafe {
+                        let new_len = self.vec.len().unchecked_sub(1);
+                        let how_much_to_move = new_len.unchecked_sub(self.index);
+                        let ptr_to_elem = self.vec.as_mut_ptr().add(self.index);
+
+                        self.vec.set_len(new_len);
+
+                        // copy elements back where they belong
+                        ptr::copy(ptr_to_elem.add(1), ptr_to_elem, how_much_to_move);
+                    }
+                }
+            }
+        }
 
-        // SAFETY: new_len < old_len
-        unsafe { self.set_len(new_len) };
+        debug_assert!(index < self.len());
 
         // Get pointer to the element we are popping out of the vec
         // SAFETY: offset comes from vec
-        let thin_ptr_to_elem = unsafe { self.as_ptr().add(index) };
+        let thin_ptr_to_elem = unsafe { self.as_mut_ptr().add(index) };
 
-        // SAFETY: old_len > index, so old_len - 1 == new_len >= index
-        let how_much_to_move = unsafe { new_len.unchecked_sub(index) };
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            taken: false,
+        };
 
         // Copy element into the place
 
@@ -210,6 +232,8 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
         emplacer_closure(Layout::new::<T>(), (), &mut |out_ptr| {
+            remover.taken = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of::<T>()` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -217,22 +241,15 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
                     ptr::copy_nonoverlapping(thin_ptr_to_elem, out_ptr.cast(), 1);
                 }
             } else {
-                let typed_ptr_to_elem: *mut T = thin_ptr_to_elem.cast_mut().cast();
-
-                // SAFETY: we adusted vec metadata earlier, and copy elements back right after,
+                // SAFETY: `remover` takes the element out of the vec,
                 // so this won't be double-dropped
-                unsafe { typed_ptr_to_elem.drop_in_place() }
+                unsafe { thin_ptr_to_elem.drop_in_place() }
             }
         });
 
-        // SAFETY: copy elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(1),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move,
-            );
-        }
+        // The emplacer can choose never to run the inner closure at all! In this case, the removed value
+        // is simply forgotten.
+        remover.taken = true;
     }
 
     #[inline]
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index b57a16a..2c43c42 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -745,12 +745,65 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to take the element out of the vec once it has been moved out
+        /// or dropped, even if that panics.
+        struct ElementRemover<'a, T: ?Sized> {
+            vec: &'a mut UnalignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSizeUnaligned,
+            size_of_val: ValidSizeUnaligned,
+            taken: bool,
+        }
+
+        impl<T: ?Sized> Drop for ElementRemover<'_, T> {
+            fn drop(&mut self) {
+                if !self.taken {
+                    return;
+                }
+
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.size_of_val);
+                    }
+                }
+
+                let byte_len = self.vec.aligned_byte_len();
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move = unsafe { byte_len.unchecked_sub(self.start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let ptr_to_elem = self
+                        .vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get());
+
+                    ptr::copy(
+                        ptr_to_elem.add(self.size_of_val.get()),
+                        ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
         // so we can't leave vec metadata in an invalid state.
         // SAFETY: by precondition of function
-        let removed_elem_metadata = unsafe { self.elems_info.get_unchecked(index) };
+        let removed_elem_metadata = unsafe { *self.elems_info.get_unchecked(index) };
 
         let ElementInfo {
             metadata,
@@ -783,6 +836,14 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: the element is still initialized at this point
         let align_of_val = ValidAlign::of_val(unsafe { &*wide_ptr_to_elem });
 
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            start_offset,
+            size_of_val: aligned_size_of_val,
+            taken: false,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -793,6 +854,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             unsafe { unaligned_size_of_val.as_layout_with_align_unchecked(align_of_val) },
             metadata,
             &mut |out_ptr| {
+                remover.taken = true;
+
                 if !out_ptr.is_null() {
                     // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                     // by the preconditions of `Emplacer::new`
@@ -804,41 +867,15 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                         );
                     }
                 } else {
-                    // SAFETY: we adjust vec metadata right after, so this won't be double-dropped
+                    // SAFETY: `remover` adjusts vec metadata, so this won't be double-dropped
                     unsafe { wide_ptr_to_elem.cast_mut().drop_in_place() }
                 }
             },
         );
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
-            }
-        }
-
-        let aligned_len = self.aligned_byte_len();
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                ptr_to_elem.add(aligned_size_of_val.get()),
-                ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        // The emplacer can choose never to run the inner closure at all! In this case, the removed value
+        // is simply forgotten.
+        remover.taken = true;
     }
 
     #[inline]
-- 
2.43.0


From 5a0d64727d850203883957613f066eafa2e8cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 17/19] fix: emplace the elements of a borrowed slice, not the
 reference to it

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..a6ffadd 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -774,7 +774,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From 786fdf1953061f3a2326b3b7123de441af8a4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 18/19] fix: emplace a vector's elements with the layout of its
 contents, not of its capacity

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a6ffadd..4705f79 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1090,7 +1090,7 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
 
             // SAFETY: we fulfill the preconditions
             let emplacer_closure = unsafe { emplacer.into_fn() };
-            emplacer_closure(layout, len, &mut |out_ptr| {
+            emplacer_closure(Layout::for_value::<[T]>(&vec), len, &mut |out_ptr| {
                 if !out_ptr.is_null() {
                     // SAFETY: checked for null, copying correct number of bytes.
                     // `Vec` is in a `ManuallyDrop`, so no double drop
-- 
2.43.0


From f42327077c05ed1e2895ff198470207e21170af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 19/19] fix: amortize growth when extending a Vec with
 emplacables

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index 4705f79..a80f2c5 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1516,7 +1516,7 @@ where
             vec: &mut Vec<T>,
             iter: I,
         ) {
-            vec.reserve_exact(iter.size_hint().0);
+            vec.reserve(iter.size_hint().0);
 
             for emplacable in iter {
                 vec.push(emplacable.get());
-- 
2.43.0

