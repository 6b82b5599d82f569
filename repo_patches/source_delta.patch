From 3c291ec57ea509719f14cca93fe98d389c74467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 01/15] fix: make zero capacity ring buffers usable

RingBuffer::<A, 0>::new() failed a debug assertion, and in a release build
iterating or dropping such a buffer never ended, because raw indices were
reduced modulo a capacity of zero by repeated subtraction.
---
 src/ring_buffer/index.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 2190aae..856ccc5 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -46,7 +46,8 @@ impl<const N: usize> From<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn from(index: usize) -> Self {
-        debug_assert!(index < N);
+        // A buffer without capacity has nothing to index, only an origin at 0.
+        debug_assert!(index < N || (N == 0 && index == 0));
         RawIndex(index)
     }
 }
@@ -76,7 +77,7 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
         let mut result = self.0 + other;
-        while result >= N {
+        while N > 0 && result >= N {
             result -= N;
         }
         result.into()
@@ -87,7 +88,7 @@ impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
         self.0 += other;
-        while self.0 >= N {
+        while N > 0 && self.0 >= N {
             self.0 -= N;
         }
     }
-- 
2.43.0


From 02ed998fd15e59b83d7b402a3eaa40428919df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 02/15] fix: let io::Write into a ring buffer wrap around

RingBuffer::copy_from_slice handles a copy which wraps around the end of the
storage, but asserted that there isn't one, so writing bytes to a rotated
buffer panicked in debug builds.
---
 src/ring_buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..16880c2 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
+        debug_assert!(count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From da58099a54b4b4683bba67b6372555af17a86028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 03/15] fix: bound indexing of ring buffer slices by the slice

Indexing a Slice or SliceMut checked the index against the whole buffer only,
so an index past the end of the slice reached items outside of it, including
items belonging to the other half of a split mutable slice.
---
 src/ring_buffer/slice.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..95d458b 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -164,6 +164,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -442,6 +449,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "SliceMut::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -450,6 +464,13 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index >= self.len() {
+            panic!(
+                "SliceMut::index_mut: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index_mut(self.range.start + index)
     }
 }
-- 
2.43.0


From 50810fc75cc194cd1dfee3d5603cdc7076482f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 04/15] fix: refuse ring buffer slice ranges which overflow

The bounds of a requested range were computed with wrapping arithmetic in
release builds, so an impossible range such as ..=usize::MAX yielded an empty
slice there instead of the panic of a debug build.
---
 src/ring_buffer/mod.rs   |  2 +-
 src/ring_buffer/slice.rs | 58 +++++++++++++++++++---------------------
 2 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 16880c2..2d58d4b 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -351,7 +351,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index.saturating_add(1),
                 Bound::Excluded(index) => *index,
             },
         };
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 95d458b..010c400 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -73,24 +73,23 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
     /// clone it first: `my_slice.clone().slice(1..2)`.
     #[must_use]
     pub fn slice<R: RangeBounds<usize>>(self, range: R) -> Slice<'a, A, N> {
-        let new_range = Range {
-            start: match range.start_bound() {
-                Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
-                Bound::Excluded(_) => unimplemented!(),
-            },
-            end: match range.end_bound() {
-                Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
-            },
+        let start = match range.start_bound() {
+            Bound::Unbounded => 0,
+            Bound::Included(index) => *index,
+            Bound::Excluded(_) => unimplemented!(),
         };
-        if new_range.start < self.range.start
-            || new_range.end > self.range.end
-            || new_range.start > new_range.end
-        {
+        let end = match range.end_bound() {
+            Bound::Unbounded => self.len(),
+            Bound::Included(index) => index.saturating_add(1),
+            Bound::Excluded(index) => *index,
+        };
+        if end > self.len() || start > end {
             panic!("Slice::slice: index out of bounds");
         }
+        let new_range = Range {
+            start: self.range.start + start,
+            end: self.range.start + end,
+        };
         Slice {
             buffer: self.buffer,
             range: new_range,
@@ -361,24 +360,23 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
     /// `RingBuffer` at any one time, so that's just how it's got to be.
     #[must_use]
     pub fn slice<R: RangeBounds<usize>>(self, range: R) -> SliceMut<'a, A, N> {
-        let new_range = Range {
-            start: match range.start_bound() {
-                Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
-                Bound::Excluded(_) => unimplemented!(),
-            },
-            end: match range.end_bound() {
-                Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
-            },
+        let start = match range.start_bound() {
+            Bound::Unbounded => 0,
+            Bound::Included(index) => *index,
+            Bound::Excluded(_) => unimplemented!(),
         };
-        if new_range.start < self.range.start
-            || new_range.end > self.range.end
-            || new_range.start > new_range.end
-        {
+        let end = match range.end_bound() {
+            Bound::Unbounded => self.len(),
+            Bound::Included(index) => index.saturating_add(1),
+            Bound::Excluded(index) => *index,
+        };
+        if end > self.len() || start > end {
             panic!("Slice::slice: index out of bounds");
         }
+        let new_range = Range {
+            start: self.range.start + start,
+            end: self.range.start + end,
+        };
         SliceMut {
             buffer: self.buffer,
             range: new_range,
-- 
2.43.0


From 8540c1c30039aa91032fc94fb8608d9e042904f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 05/15] fix: don't drop items twice when a destructor panics

clear (Chunk, RingBuffer, InlineArray), drop_left and drop_right (Chunk,
RingBuffer) dropped the discarded items before giving them up, so a panicking
destructor left the container owning items which were already dropped, and
they were dropped again with the container.
---
 src/inline_array/mod.rs |  4 +++-
 src/ring_buffer/mod.rs  | 22 ++++++++++++++--------
 src/sized_chunk/mod.rs  | 12 +++++++++---
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..6b9935b 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -394,9 +394,11 @@ impl<A, T> InlineArray<A, T> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
+        // Give the items up first, so they aren't dropped again if a destructor panics.
+        let discarded: *mut [A] = &mut **self;
         unsafe {
-            self.drop_contents();
             *self.len_mut() = 0;
+            ptr::drop_in_place(discarded);
         }
     }
 
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 2d58d4b..169eb3d 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -467,11 +467,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            // Give the items up first, so they aren't dropped again if a destructor panics.
+            let discarded = self.range().take(index);
             self.origin += index;
             self.length -= index;
+            for i in discarded {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -487,10 +489,12 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        // Give the items up first, so they aren't dropped again if a destructor panics.
+        let discarded = self.range().skip(index);
+        self.length = index;
+        for i in discarded {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -750,11 +754,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        // Give the items up first, so they aren't dropped again if a destructor panics.
+        let discarded = self.range();
         self.origin = 0.into();
         self.length = 0;
+        for i in discarded {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..59c320e 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -406,8 +406,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            // Give the items up first, so they aren't dropped again if a destructor panics.
+            let discarded: *mut [A] = &mut self[..index];
             self.left += index;
+            unsafe { ptr::drop_in_place(discarded) }
         }
     }
 
@@ -418,8 +420,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            // Give the items up first, so they aren't dropped again if a destructor panics.
+            let discarded: *mut [A] = &mut self[index..];
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(discarded) }
         }
     }
 
@@ -673,9 +677,11 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        // Give the items up first, so they aren't dropped again if a destructor panics.
+        let discarded: *mut [A] = self.as_mut_slice();
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(discarded) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From 0f90a46a8dd239c9fc1c6c568794179b31bd3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 06/15] fix: ask an inserted iterator for its length only once

Chunk::insert_from made room for as many items as the iterator first reported,
but wrote as many as it reported when asked again. An iterator which changes
its answer could make it write past its storage or leave uninitialised items.
---
 src/sized_chunk/mod.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 59c320e..4a975cf 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -271,7 +271,7 @@ impl<A, const N: usize> Chunk<A, N> {
         }
     }
 
-    /// Write values from iterator into range starting at write_index.
+    /// Write `len` values from iterator into range starting at write_index.
     ///
     /// Will overwrite values at the relevant range without dropping even in case the values were
     /// already initialized (it is expected they are empty). Does not update the left or right
@@ -286,9 +286,9 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, len: usize, iter: I, chunk: &mut Self)
     where
-        I: ExactSizeIterator<Item = A>,
+        I: Iterator<Item = A>,
     {
         // Panic safety. We make the array conceptually empty, so we never ever drop anything that
         // is unitialized. We do so because we expect to be called when there's a potential "hole"
@@ -299,7 +299,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -619,14 +618,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.right += insert_size;
         } else {
@@ -634,7 +633,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From ca8d8f9d582ae37b0b21ae4d9919cf7c3db647d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 07/15] fix: refuse inserting iterators of any impossible
 length

The capacity check of insert_from in Chunk and RingBuffer added up lengths,
which wraps around in release builds when the iterator reports a huge length.
---
 src/ring_buffer/mod.rs | 2 +-
 src/sized_chunk/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 169eb3d..8e37123 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -656,7 +656,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 4a975cf..9001d7b 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -602,7 +602,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From c90e17cb11a038d4400ba21d08e59a55e6563773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 08/15] fix: check the item count of Chunk::from_front and
 from_back

Taking more items than the source has was only refused in debug builds; in
release builds it read past the source's items and corrupted its indices.
---
 src/sized_chunk/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 9001d7b..ac45be1 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -199,7 +199,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -213,7 +213,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From db5f897e5a41830fc4240964843ffa9adbf5fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 09/15] fix: hash Chunk and InlineArray like the slices they
 borrow as

Both implement Borrow<[A]>, which requires equal hashes, but left out the
length a slice hashes, so lookups by slice in hashed collections failed.
---
 src/inline_array/mod.rs | 5 ++---
 src/sized_chunk/mod.rs  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 6b9935b..0dee54f 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -525,9 +525,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Must agree with the hash of the slice, as we implement Borrow<[A]>.
+        self.deref().hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index ac45be1..7d5841e 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -747,9 +747,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Must agree with the hash of the slice, as we implement Borrow<[A]>.
+        self.as_slice().hash(hasher)
     }
 }
 
-- 
2.43.0


From 15f4c418dc8e51577b4f2da78d2dc2a5cd168c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 10/15] fix: allow inline arrays in hosts of exactly the
 header's size

Such a host holds the length and nothing else, which makes a valid array of
capacity zero (or unlimited for zero sized items), but constructing it panicked
for no documented reason.
---
 src/inline_array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 0dee54f..3a769c9 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -258,7 +258,7 @@ impl<A, T> InlineArray<A, T> {
     #[inline]
     #[must_use]
     pub fn new() -> Self {
-        assert!(Self::HOST_SIZE > Self::HEADER_SIZE);
+        assert!(Self::HOST_SIZE >= Self::HEADER_SIZE);
         assert!(
             (Self::CAPACITY == 0) || (mem::align_of::<Self>() % mem::align_of::<A>() == 0),
             "InlineArray can't satisfy alignment of {}",
-- 
2.43.0


From 25c8101d8855de6cfb66dd8f2699dc7bafeb3242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 11/15] fix: account for continuation bytes in Arbitrary size
 hints

Generating a container reads a byte before every item, which the upper bound
of the size hint left out, and computing the bound could overflow.
---
 src/arbitrary.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..c659205 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -11,6 +11,12 @@ use crate::{Chunk, InlineArray, SparseChunk};
 #[cfg(feature = "ringbuffer")]
 use crate::RingBuffer;
 
+/// The most input used for `capacity` items: every item comes after a byte
+/// which says whether there is one.
+fn upper_bound(item: Option<usize>, capacity: usize) -> Option<usize> {
+    item?.checked_add(1)?.checked_mul(capacity)
+}
+
 impl<'a, A, const N: usize> Arbitrary<'a> for Chunk<A, N>
 where
     A: Arbitrary<'a>,
@@ -27,7 +33,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -49,7 +55,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -71,7 +77,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -92,7 +98,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
-- 
2.43.0


From 32b12d0b64bc46497f7f516d122567903643608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 12/15] fix: don't alias the items a sparse chunk's mutable
 iterators yield

IterMut and OptionIterMut borrowed the whole storage again for every item, so
references they had yielded before were no longer exclusive.
---
 src/sparse_chunk/iter.rs | 34 ++++++++++++++++------------------
 src/sparse_chunk/mod.rs  | 10 ++++++++--
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/sparse_chunk/iter.rs b/src/sparse_chunk/iter.rs
index a9cb392..3315fd9 100644
--- a/src/sparse_chunk/iter.rs
+++ b/src/sparse_chunk/iter.rs
@@ -1,3 +1,6 @@
+use core::mem::MaybeUninit;
+use core::slice::IterMut as SliceIterMut;
+
 use bitmaps::{Bitmap, Bits, BitsImpl, Iter as BitmapIter};
 
 use super::SparseChunk;
@@ -32,7 +35,7 @@ where
     BitsImpl<N>: Bits,
 {
     pub(crate) bitmap: Bitmap<N>,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    pub(crate) slots: SliceIterMut<'a, MaybeUninit<A>>,
 }
 
 impl<'a, A, const N: usize> Iterator for IterMut<'a, A, N>
@@ -44,10 +47,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(index) = self.bitmap.first_index() {
             self.bitmap.set(index, false);
-            unsafe {
-                let p: *mut A = &mut self.chunk.values_mut()[index];
-                Some(&mut *p)
-            }
+            let passed = N - self.slots.len();
+            self.slots
+                .nth(index - passed)
+                .map(|slot| unsafe { &mut *slot.as_mut_ptr() })
         } else {
             None
         }
@@ -130,7 +133,8 @@ where
     BitsImpl<N>: Bits,
 {
     pub(crate) index: usize,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    pub(crate) bitmap: Bitmap<N>,
+    pub(crate) slots: SliceIterMut<'a, MaybeUninit<A>>,
 }
 
 impl<'a, A, const N: usize> Iterator for OptionIterMut<'a, A, N>
@@ -140,19 +144,13 @@ where
     type Item = Option<&'a mut A>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index < N {
-            let result = if self.chunk.map.get(self.index) {
-                unsafe {
-                    let p: *mut A = &mut self.chunk.values_mut()[self.index];
-                    Some(Some(&mut *p))
-                }
-            } else {
-                Some(None)
-            };
-            self.index += 1;
-            result
+        let slot = self.slots.next()?;
+        let inhabited = self.bitmap.get(self.index);
+        self.index += 1;
+        if inhabited {
+            Some(Some(unsafe { &mut *slot.as_mut_ptr() }))
         } else {
-            None
+            Some(None)
         }
     }
 
diff --git a/src/sparse_chunk/mod.rs b/src/sparse_chunk/mod.rs
index b0ac43b..96559c4 100644
--- a/src/sparse_chunk/mod.rs
+++ b/src/sparse_chunk/mod.rs
@@ -100,6 +100,11 @@ where
         unsafe { from_raw_parts_mut(&mut self.data as *mut _ as *mut A, N) }
     }
 
+    #[inline]
+    fn slots_mut(&mut self) -> &mut [MaybeUninit<A>] {
+        unsafe { from_raw_parts_mut(&mut self.data as *mut _ as *mut MaybeUninit<A>, N) }
+    }
+
     /// Copy the value at an index, discarding ownership of the copied value
     #[inline]
     unsafe fn force_read(index: usize, chunk: &Self) -> A {
@@ -256,7 +261,7 @@ where
     pub fn iter_mut(&mut self) -> IterMut<'_, A, N> {
         IterMut {
             bitmap: self.map,
-            chunk: self,
+            slots: self.slots_mut().iter_mut(),
         }
     }
 
@@ -288,7 +293,8 @@ where
     /// returning an `Option<&mut A>` for each index.
     pub fn option_iter_mut(&mut self) -> OptionIterMut<'_, A, N> {
         OptionIterMut {
-            chunk: self,
+            bitmap: self.map,
+            slots: self.slots_mut().iter_mut(),
             index: 0,
         }
     }
-- 
2.43.0


From 9086bf0eb5e13deb58a2bb63e06433cbe6acc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 13/15] fix: let io::Write into a ring buffer without capacity
 accept nothing

Writing to a RingBuffer<u8, 0> failed a debug assertion, where a full buffer
reports that it took no bytes.
---
 src/ring_buffer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 8e37123..dbf2907 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -190,6 +190,10 @@ impl<A, const N: usize> RingBuffer<A, N> {
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
         debug_assert!(count <= Self::CAPACITY);
+        if count == 0 {
+            // A buffer without capacity has no storage to point at.
+            return;
+        }
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 6fbca1095db6f495c1e9a4b951b72ae9b746b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:56 +0000
Subject: [PATCH 14/15] fix: keep Chunk's room checks from overflowing with
 zero-sized items and a huge capacity

---
 src/sized_chunk/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 7d5841e..e685316 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -457,10 +457,10 @@ impl<A, const N: usize> Chunk<A, N> {
     pub fn append(&mut self, other: &mut Self) {
         let self_len = self.len();
         let other_len = other.len();
-        if self_len + other_len > N {
+        if other_len > N - self_len {
             panic!("Chunk::append: chunk size overflow");
         }
-        if self.right + other_len > N {
+        if other_len > N - self.right {
             unsafe { Chunk::force_copy(self.left, 0, self_len, self) };
             self.right -= self.left;
             self.left = 0;
@@ -481,9 +481,9 @@ impl<A, const N: usize> Chunk<A, N> {
     pub fn drain_from_front(&mut self, other: &mut Self, count: usize) {
         let self_len = self.len();
         let other_len = other.len();
-        assert!(self_len + count <= N);
+        assert!(count <= N - self_len);
         assert!(other_len >= count);
-        if self.right + count > N {
+        if count > N - self.right {
             unsafe { Chunk::force_copy(self.left, 0, self_len, self) };
             self.right -= self.left;
             self.left = 0;
@@ -503,7 +503,7 @@ impl<A, const N: usize> Chunk<A, N> {
     pub fn drain_from_back(&mut self, other: &mut Self, count: usize) {
         let self_len = self.len();
         let other_len = other.len();
-        assert!(self_len + count <= N);
+        assert!(count <= N - self_len);
         assert!(other_len >= count);
         if self.left < count {
             unsafe { Chunk::force_copy(self.left, N - self_len, self_len, self) };
@@ -621,7 +621,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.left -= insert_size;
-        } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
+        } else if self.left == 0 || (insert_size <= Self::CAPACITY - self.right) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-- 
2.43.0


From 1dc623241e14345ae7dd49c790166d63d14bad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:56 +0000
Subject: [PATCH 15/15] fix: keep RingBuffer's index arithmetic from
 overflowing with zero-sized items and a huge capacity

---
 src/ring_buffer/index.rs | 32 ++++++++++++++++----------------
 src/ring_buffer/mod.rs   | 10 +++++-----
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 856ccc5..a2c31e7 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -76,21 +76,21 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
-        let mut result = self.0 + other;
-        while N > 0 && result >= N {
-            result -= N;
-        }
-        result.into()
+        let mut result = self;
+        result += other;
+        result
     }
 }
 
 impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
-    fn add_assign(&mut self, other: usize) {
-        self.0 += other;
-        while N > 0 && self.0 >= N {
-            self.0 -= N;
+    fn add_assign(&mut self, mut other: usize) {
+        // Wrap before adding: the sum could overflow if N is large.
+        while N > 0 && other >= N - self.0 {
+            other -= N - self.0;
+            self.0 = 0;
         }
+        self.0 += other;
     }
 }
 
@@ -108,19 +108,19 @@ impl<const N: usize> Sub<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn sub(self, other: usize) -> Self::Output {
-        let mut start = self.0;
-        while other > start {
-            start += N;
-        }
-        (start - other).into()
+        let mut result = self;
+        result -= other;
+        result
     }
 }
 
 impl<const N: usize> SubAssign<usize> for RawIndex<N> {
     #[inline]
-    fn sub_assign(&mut self, other: usize) {
+    fn sub_assign(&mut self, mut other: usize) {
+        // Wrap before subtracting: the index plus N could overflow if N is large.
         while other > self.0 {
-            self.0 += N;
+            other -= self.0 + 1;
+            self.0 = N - 1;
         }
         self.0 -= other;
     }
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index dbf2907..955da2d 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -164,18 +164,18 @@ impl<A, const N: usize> RingBuffer<A, N> {
             count: usize,
         ) {
             if count > 0 {
-                debug_assert!(from.to_usize() + count <= RingBuffer::<A, N>::CAPACITY);
-                debug_assert!(to.to_usize() + count <= RingBuffer::<A, N>::CAPACITY);
+                debug_assert!(count <= RingBuffer::<A, N>::CAPACITY - from.to_usize());
+                debug_assert!(count <= RingBuffer::<A, N>::CAPACITY - to.to_usize());
                 core::ptr::copy_nonoverlapping(source.mut_ptr(from), target.mut_ptr(to), count)
             }
         }
 
-        if from.to_usize() + count > Self::CAPACITY {
+        if count > Self::CAPACITY - from.to_usize() {
             let first_length = Self::CAPACITY - from.to_usize();
             let last_length = count - first_length;
             self.copy_from(source, from, to, first_length);
             self.copy_from(source, 0.into(), to + first_length, last_length);
-        } else if to.to_usize() + count > Self::CAPACITY {
+        } else if count > Self::CAPACITY - to.to_usize() {
             let first_length = Self::CAPACITY - to.to_usize();
             let last_length = count - first_length;
             force_copy_to(source, from, self, to, first_length);
@@ -194,7 +194,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             // A buffer without capacity has no storage to point at.
             return;
         }
-        if to.to_usize() + count > Self::CAPACITY {
+        if count > Self::CAPACITY - to.to_usize() {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
             let last_slice = &source[first_length..];
-- 
2.43.0

