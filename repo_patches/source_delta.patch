From 1801b6c9619fc9ce55db7894a6a0f793504a367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 01/14] fix: read the current value of the atomic counter with
 acquire ordering

The ticket hand-off of ConIterOfIter relies on the yielded counter being
read with acquire semantics by the next ticket holder; a relaxed load
leaves consecutive uses of the wrapped iterator unordered.
---
 src/iter/atomic_counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..5c7d984 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -27,7 +27,7 @@ impl AtomicCounter {
     /// Fetches and returns the current value of the counter.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From 275230bec53164bc691b9eabaf25cefb39b326a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 02/14] fix: saturate the atomic counter rather than wrapping
 around

A pull with a huge chunk size, or pulls following the early exit of
ConIterOfIter which stores usize::MAX, wrapped the counter around so that
already delivered positions were delivered again.
---
 src/iter/atomic_counter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 5c7d984..f51db35 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -13,15 +13,23 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    ///
+    /// The counter saturates at `usize::MAX`; it never wraps around and re-visits positions which are already fetched.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        let saturating_add = |current: usize| Some(current.saturating_add(len));
+        match self
+            .current
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, saturating_add)
+        {
+            Ok(current) | Err(current) => current,
+        }
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
-- 
2.43.0


From 2873168ca13b25c5b322f002e8c9593f39fff7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 03/14] fix: never advance the wrapped iterator after it
 reported its end

A chunk pull which observed the end of the wrapped iterator handed the
ticket over without (or before) marking the iteration as completed, and the
next ticket holder did not check the flag: an iterator which is not fused
was revived after the end was reported.
---
 src/iter/buffered/iter.rs     |  5 +++++
 src/iter/implementors/iter.rs | 24 +++++++++++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..5069f71 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -50,6 +50,11 @@ where
             }
         }
 
+        // the wrapped iterator has ended, it must not be advanced anymore
+        if i < self.chunk_size() {
+            iter.complete();
+        }
+
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
 
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..ad73798 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -62,6 +62,11 @@ where
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
     }
+
+    #[inline(always)]
+    pub(crate) fn complete(&self) {
+        self.completed.store(true, atomic::Ordering::SeqCst)
+    }
 }
 
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
@@ -89,8 +94,13 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
-                // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                // begin_idx==yielded_count => it is our job to provide the items, unless the end is already reached
+                Ordering::Equal => {
+                    return match self.completed.load(atomic::Ordering::Acquire) {
+                        true => None,
+                        false => Some(begin_idx),
+                    }
+                }
 
                 Ordering::Less => return None,
 
@@ -110,6 +120,10 @@ where
             match item_idx.cmp(&yielded_count) {
                 // item_idx==yielded_count => it is our job to provide the item
                 Ordering::Equal => {
+                    if self.completed.load(atomic::Ordering::Acquire) {
+                        return None;
+                    }
+
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
                     match next.is_some() {
@@ -144,9 +158,13 @@ where
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            // the wrapped iterator has ended, it must not be advanced anymore
+            if buffer.len() < n {
+                self.complete();
+            }
+
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
-- 
2.43.0


From aa5d66f89b25491008bf82b2e6b15a8f3e721368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 04/14] fix: zero and huge one-shot chunk sizes on
 ConIterOfIter

A chunk pull of size zero marked the iteration as completed, and
begin_idx + n overflowed (panic, or an empty chunk reported as the end)
for chunk sizes close to usize::MAX.
---
 src/iter/implementors/iter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index ad73798..5739a11 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -148,11 +148,15 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        // nothing to pull, the iterator must be left unchanged
+        if n == 0 {
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
-            let buffer = (begin_idx..end_idx)
+            let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
-- 
2.43.0


From 874d17bdf689aa9d6ca7fc9d10b70ab7e66c0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 05/14] fix: release waiting threads if the wrapped iterator
 panics

The thread which panics within the next call of the wrapped iterator never
served its ticket; pulls of all other threads were spinning forever.
---
 src/iter/buffered/iter.rs     |  4 ++++
 src/iter/implementors/iter.rs | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 5069f71..f4b7f4f 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -37,6 +37,8 @@ where
     ) -> Option<impl ExactSizeIterator<Item = T>> {
         let core_iter = unsafe { iter.mut_iter() };
 
+        let guard = iter.complete_on_unwind();
+
         let mut i = 0;
         loop {
             match core_iter.next() {
@@ -50,6 +52,8 @@ where
             }
         }
 
+        std::mem::forget(guard);
+
         // the wrapped iterator has ended, it must not be advanced anymore
         if i < self.chunk_size() {
             iter.complete();
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 5739a11..ca28135 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -63,12 +63,29 @@ where
         self.yielded_counter.fetch_and_add(num_yielded)
     }
 
+    /// Returns a guard which must be held while the wrapped iterator is advanced, and released by `std::mem::forget` afterwards.
+    ///
+    /// If the wrapped iterator panics, the guard marks the iteration as completed while unwinding.
+    /// Otherwise, the threads waiting for the ticket of the panicking thread to be served would wait forever.
+    #[inline(always)]
+    pub(crate) fn complete_on_unwind(&self) -> CompleteOnUnwind {
+        CompleteOnUnwind(&self.completed)
+    }
+
     #[inline(always)]
     pub(crate) fn complete(&self) {
         self.completed.store(true, atomic::Ordering::SeqCst)
     }
 }
 
+pub(crate) struct CompleteOnUnwind<'a>(&'a AtomicBool);
+
+impl<'a> Drop for CompleteOnUnwind<'a> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst)
+    }
+}
+
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
 where
     Iter: Iterator<Item = T>,
@@ -125,7 +142,10 @@ where
                     }
 
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
+                    let guard = self.complete_on_unwind();
                     let next = unsafe { self.mut_iter() }.next();
+                    std::mem::forget(guard);
+
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
@@ -156,11 +176,13 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
+            let guard = self.complete_on_unwind();
             let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
+            std::mem::forget(guard);
 
             // the wrapped iterator has ended, it must not be advanced anymore
             if buffer.len() < n {
-- 
2.43.0


From 59a2c3ef705ede65ed0d7362dff42e67e1942704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 06/14] fix: do not build chunks of consumed vectors and arrays
 with Vec::from_raw_parts

A capacity of zero violates the documented precondition length <= capacity
of Vec::from_raw_parts; debug builds with recent toolchains abort. Instead,
elements of the chunk are moved out as they are yielded; and those which are
not yielded are dropped with the chunk.
---
 src/iter/buffered/mod.rs         |  1 +
 src/iter/buffered/taken_chunk.rs | 55 ++++++++++++++++++++++++++++++++
 src/iter/implementors/array.rs   | 12 +++----
 src/iter/implementors/vec.rs     | 16 ++++------
 4 files changed, 67 insertions(+), 17 deletions(-)
 create mode 100644 src/iter/buffered/taken_chunk.rs

diff --git a/src/iter/buffered/mod.rs b/src/iter/buffered/mod.rs
index a8b5b1f..2e88dd2 100644
--- a/src/iter/buffered/mod.rs
+++ b/src/iter/buffered/mod.rs
@@ -6,6 +6,7 @@ pub mod copied_buffered_chunk;
 pub mod iter;
 pub mod range;
 pub mod slice;
+pub mod taken_chunk;
 pub mod vec;
 
 #[cfg(test)]
diff --git a/src/iter/buffered/taken_chunk.rs b/src/iter/buffered/taken_chunk.rs
new file mode 100644
index 0000000..43a5db1
--- /dev/null
+++ b/src/iter/buffered/taken_chunk.rs
@@ -0,0 +1,55 @@
+use std::ops::Range;
+
+/// Chunk of elements at consecutive positions `range` of a consumed collection, all of which are reserved by the owner of the chunk.
+///
+/// Elements are moved out of the collection by `take`, one by one as they are yielded.
+/// Those which are not yielded are dropped together with the chunk.
+pub struct TakenChunk<T, Take>
+where
+    Take: Fn(usize) -> T,
+{
+    range: Range<usize>,
+    take: Take,
+}
+
+impl<T, Take> TakenChunk<T, Take>
+where
+    Take: Fn(usize) -> T,
+{
+    /// # Safety
+    ///
+    /// It must be safe to call `take` with each position in the `range` exactly once.
+    pub(crate) unsafe fn new(range: Range<usize>, take: Take) -> Self {
+        Self { range, take }
+    }
+}
+
+impl<T, Take> Iterator for TakenChunk<T, Take>
+where
+    Take: Fn(usize) -> T,
+{
+    type Item = T;
+
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        self.range.next().map(&self.take)
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.range.size_hint()
+    }
+}
+
+impl<T, Take> ExactSizeIterator for TakenChunk<T, Take> where Take: Fn(usize) -> T {}
+
+impl<T, Take> Drop for TakenChunk<T, Take>
+where
+    Take: Fn(usize) -> T,
+{
+    fn drop(&mut self) {
+        for idx in self.range.by_ref() {
+            drop((self.take)(idx));
+        }
+    }
+}
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..97907ff 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -3,6 +3,7 @@ use crate::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
         buffered::{
             array::BufferedArray, buffered_chunk::BufferedChunk, buffered_iter::BufferedIter,
+            taken_chunk::TakenChunk,
         },
     },
     next::NextChunk,
@@ -54,14 +55,9 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
-        let len = end_idx - begin_idx;
-
-        let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
+        let end_idx = begin_idx.saturating_add(len).min(N);
+        TakenChunk::new(begin_idx..end_idx, |idx| self.take_one(idx))
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..1f5c3d6 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -1,7 +1,10 @@
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
-        buffered::{buffered_chunk::BufferedChunk, buffered_iter::BufferedIter, vec::BufferedVec},
+        buffered::{
+            buffered_chunk::BufferedChunk, buffered_iter::BufferedIter, taken_chunk::TakenChunk,
+            vec::BufferedVec,
+        },
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -54,14 +57,9 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
-        let len = end_idx - begin_idx;
-
-        let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
+        let end_idx = begin_idx.saturating_add(len).min(self.vec_len);
+        TakenChunk::new(begin_idx..end_idx, |idx| self.take_one(idx))
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-- 
2.43.0


From c1d2d95f5d14258011fd1f2318496726048ba617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 07/14] fix: do not create aliasing mutable references to the
 consumed storage

Threads moving out different elements created mutable references to the
same vector or array concurrently, which is a data race.
---
 src/iter/implementors/array.rs | 3 +--
 src/iter/implementors/vec.rs   | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 97907ff..ac21878 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -41,8 +41,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
     }
 
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let array = &mut *self.array.get();
-        let src_ptr = array.as_mut_ptr().add(item_idx);
+        let src_ptr = self.array.get().cast::<T>().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 1f5c3d6..941d035 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -43,8 +43,8 @@ impl<T: Send + Sync> ConIterOfVec<T> {
     }
 
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let vec = &mut *self.vec.get();
-        let src_ptr = vec.as_mut_ptr().add(item_idx);
+        let vec = &*self.vec.get();
+        let src_ptr = vec.as_ptr().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
-- 
2.43.0


From b5d10610a44524f9de7779d1b922e5a8b90e95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 08/14] fix: double drop of the elements of a consumed array

Splitting off the remaining elements dropped the elements on the left, which
are already moved out. Further, into_seq_iter moved the remaining elements
out without preventing Drop of the iterator from dropping them again.
---
 src/iter/implementors/array.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index ac21878..58de991 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -62,14 +62,9 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
         debug_assert!(left_len <= N);
 
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
-
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
-
-        *man_array = ManuallyDrop::new(array);
-        right_vec
+        // elements on the right are moved out, they must neither be yielded nor dropped again
+        self.counter.store(N);
+        (left_len..N).map(|idx| self.take_one(idx)).collect()
     }
 }
 
-- 
2.43.0


From 14371d6a78b81ac51f79a2cec4e0b36c59bb058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 09/14] fix: release the buffer of a consumed vector

The heap allocation of the vector was never released, neither when the
iterator is dropped nor when it is converted by into_seq_iter.
---
 src/iter/implementors/vec.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 941d035..dd2bac8 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -26,9 +26,8 @@ pub struct ConIterOfVec<T: Send + Sync> {
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
         let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let _remaining_vec_to_be_dropped =
+            unsafe { self.split_off_right(current.min(self.vec_len)) };
     }
 }
 
@@ -66,9 +65,11 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         debug_assert!(left_len <= self.vec_len);
 
         let man_vec = &mut *self.vec.get();
-        let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
-        let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
+        let mut left_vec: Vec<T> = std::mem::take(man_vec);
+        let right_vec = left_vec.split_off(left_len.min(left_vec.len()));
+
+        // elements on the left are already moved out, only the buffer needs to be released
+        left_vec.set_len(0);
         right_vec
     }
 }
-- 
2.43.0


From 395504e89b97ac958bc033bc5d7f9f0a8e187383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 10/14] fix: drop the elements skipped by skip_to_end of
 consuming iterators

Elements of the vector or array between the current position and the end
were neither yielded nor dropped.
---
 src/iter/implementors/array.rs | 3 ++-
 src/iter/implementors/vec.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 58de991..265d70f 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -115,7 +115,8 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        // reserve all of the remaining elements, and drop them
+        drop(self.fetch_n(N));
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index dd2bac8..9b1f1c3 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -120,7 +120,8 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        // reserve all of the remaining elements, and drop them
+        drop(self.fetch_n(self.vec_len));
     }
 }
 
-- 
2.43.0


From 4cefc4f9d5a99b5d9c6ff84401f34d768510824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 11/14] fix: unchecked arithmetic on positions and range values

Ranges with bounds, and chunk sizes, close to usize::MAX overflowed: pulls
panicked, or delivered wrapped-around values, or reported the end while there
were elements left. Further, early exit of a range stored its end value
rather than its length to the position counter.
---
 src/iter/buffered/range.rs     |  4 +++-
 src/iter/buffered/slice.rs     |  3 ++-
 src/iter/implementors/array.rs |  2 +-
 src/iter/implementors/range.rs | 11 +++++------
 src/iter/implementors/slice.rs |  5 ++++-
 src/iter/implementors/vec.rs   |  5 ++++-
 6 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..2bca5a5 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -41,7 +41,9 @@ where
         let begin_value = begin_idx + range.start.into();
         match begin_value.cmp(&range.end.into()) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let end_value = begin_value
+                    .saturating_add(self.chunk_size)
+                    .min(range.end.into());
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 265d70f..4d129a9 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -103,7 +103,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..d764ef4 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -119,7 +118,7 @@ where
             .unwrap_or(self.initial_len());
         let begin_value = begin_idx + self.range.start.into();
         let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
+            Ordering::Less => begin_value.saturating_add(n).min(self.range.end.into()),
             _ => begin_value,
         };
         let end_idx: usize = end_value - self.range.start.into();
@@ -134,7 +133,7 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.range.end.into())
+        self.counter().store(self.initial_len())
     }
 }
 
@@ -243,7 +242,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..039b02c 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,10 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 9b1f1c3..e4b47e7 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -108,7 +108,10 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From 338c9d8acc9125502154e5d6792f819798b332dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 12/14] fix: exact size_hint for chunks of BufferIter

ExactSizeIterator requires the size hint to be exact, it was (0, None).
---
 src/iter/buffered/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index f4b7f4f..57f59e2 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -100,6 +100,12 @@ impl<'a, T> Iterator for BufferedIter<'a, T> {
             None
         }
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.initial_len - self.current_idx;
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> ExactSizeIterator for BufferedIter<'a, T> {
-- 
2.43.0


From 224020f9460f9a361d08acc3725b6b4f561d44e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 13/14] fix: safe access to arbitrary positions of consuming
 iterators

AtomicIter::get moves the element out of the consumed collection; and
AtomicCounter::store allows to move the position back. Both were callable
from safe code, which could then obtain two owners of one element.
---
 src/iter/atomic_counter.rs     |  7 ++++++-
 src/iter/atomic_iter.rs        | 10 ++++++++--
 src/iter/cloned.rs             |  2 +-
 src/iter/copied.rs             |  2 +-
 src/iter/implementors/array.rs |  2 +-
 src/iter/implementors/iter.rs  |  5 +++--
 src/iter/implementors/range.rs |  5 +++--
 src/iter/implementors/slice.rs |  5 +++--
 src/iter/implementors/vec.rs   |  2 +-
 9 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index f51db35..3aad9e7 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -39,8 +39,13 @@ impl AtomicCounter {
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
+    ///
+    /// # Safety
+    ///
+    /// If the counter belongs to a concurrent iterator, it must not be decreased to a position which is already fetched.
+    /// Otherwise, elements of a consumed collection would be moved out more than once.
     #[inline(always)]
-    pub fn store(&self, new_value: usize) {
+    pub unsafe fn store(&self, new_value: usize) {
         self.current.store(new_value, Ordering::SeqCst)
     }
 }
diff --git a/src/iter/atomic_iter.rs b/src/iter/atomic_iter.rs
index 8ddef85..d33b03e 100644
--- a/src/iter/atomic_iter.rs
+++ b/src/iter/atomic_iter.rs
@@ -15,13 +15,19 @@ pub trait AtomicIter<T: Send + Sync>: Send + Sync {
     fn progress_and_get_begin_idx(&self, number_to_fetch: usize) -> Option<usize>;
 
     /// Returns the `item_idx`-th item that the iterator yields; returns None if the iterator completes before.
-    fn get(&self, item_idx: usize) -> Option<T>;
+    ///
+    /// # Safety
+    ///
+    /// `item_idx` must be reserved by the caller, by progressing the counter, and must be fetched only once.
+    /// Consuming iterators move the item out of its position; hence, fetching it again would lead to two owners of the item.
+    unsafe fn get(&self, item_idx: usize) -> Option<T>;
 
     /// Returns the next item that the iterator yields; returns None if the iteration has completed.
     #[inline(always)]
     fn fetch_one(&self) -> Option<Next<T>> {
         let idx = self.counter().fetch_and_increment();
-        self.get(idx).map(|value| Next { idx, value })
+        // SAFETY: `idx` is uniquely reserved by this call
+        unsafe { self.get(idx) }.map(|value| Next { idx, value })
     }
 
     /// Returns an iterator of the next `n` **consecutive items** that the iterator yields.
diff --git a/src/iter/cloned.rs b/src/iter/cloned.rs
index 4977889..73195c8 100644
--- a/src/iter/cloned.rs
+++ b/src/iter/cloned.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).cloned()
     }
 
diff --git a/src/iter/copied.rs b/src/iter/copied.rs
index 35f7841..95d0db5 100644
--- a/src/iter/copied.rs
+++ b/src/iter/copied.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).copied()
     }
 
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 4d129a9..120d533 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -90,7 +90,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&N) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index ca28135..1f700db 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -131,7 +131,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
@@ -206,7 +206,8 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(usize::MAX);
+        // SAFETY: the counter is not decreased
+        unsafe { self.counter().store(usize::MAX) };
         self.completed.store(true, atomic::Ordering::SeqCst);
     }
 }
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index d764ef4..a41e9d3 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -104,7 +104,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<Idx> {
+    unsafe fn get(&self, item_idx: usize) -> Option<Idx> {
         match item_idx.cmp(&self.initial_len()) {
             Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
@@ -133,7 +133,8 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.initial_len())
+        // SAFETY: all positions below the length which are already fetched remain fetched
+        unsafe { self.counter().store(self.initial_len()) }
     }
 }
 
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 039b02c..aa2da22 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -65,7 +65,7 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<&'a T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<&'a T> {
         self.slice.get(item_idx)
     }
 
@@ -89,7 +89,8 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.slice.len())
+        // SAFETY: all positions below the length which are already fetched remain fetched
+        unsafe { self.counter().store(self.slice.len()) }
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index e4b47e7..2239c2a 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -96,7 +96,7 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&self.vec_len) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
-- 
2.43.0


From 2fbf4ebda1591b54297d0eade486572124d1cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 14/14] fix: huge chunk sizes of buffered iterators on
 ConIterOfIter

The buffer was allocated up front for the requested chunk size, which panics with
a capacity overflow (or exhausts the memory) for huge chunk sizes. It now grows
only up to the number of pulled elements.
---
 src/iter/buffered/iter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 57f59e2..9a341b4 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -8,6 +8,7 @@ where
     T: Send + Sync,
     Iter: Iterator<Item = T>,
 {
+    chunk_size: usize,
     values: Vec<Option<T>>,
     phantom: PhantomData<Iter>,
 }
@@ -21,13 +22,14 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            chunk_size,
+            values: Vec::new(),
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -42,7 +44,11 @@ where
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(value) => *value = Some(x),
+                    // the buffer grows only up to the pulled number of elements, chunk size might be huge
+                    None => self.values.push(Some(x)),
+                },
                 None => break,
             }
 
-- 
2.43.0

