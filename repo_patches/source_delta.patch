From dee75b665f1f2a10c32f6a8c58952c1f46ac6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 01/19] fix: remove, swap_remove and try_remove must refuse an
 index equal to the length

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc6e8ed..5c7962f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1114,7 +1114,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             remove_fail(index, self.len())
         }
 
@@ -1169,7 +1169,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             swap_remove_fail(index, self.len())
         }
 
@@ -1284,7 +1284,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     ///
     /// Guaranteed to not panic/abort/allocate
     pub fn try_remove(&mut self, index: usize) -> Option<T> {
-        if self.len() < index {
+        if self.len() <= index {
             None
         } else {
             // Safety
@@ -1520,7 +1520,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
         let len = self.len();
 
         debug_assert!(
-            index <= len,
+            index < len,
             "Tried to remove an element at index {} from a {} length vector! This is UB in release mode",
             index,
             len,
-- 
2.43.0


From 61d1d5734269c86303e12b61341281863ad9af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 02/19] fix: popping or removing an array needs exactly N
 elements, no fewer and no more

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c7962f..c7e491e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1268,7 +1268,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Guaranteed to not panic/abort/allocate
     #[cfg(any(doc, feature = "nightly"))]
     pub fn try_pop_array<const N: usize>(&mut self) -> Option<[T; N]> {
-        if self.is_empty() {
+        if self.len() < N {
             None
         } else {
             // Safety
@@ -1490,7 +1490,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         let len = self.len();
         debug_assert!(
-            len > N,
+            len >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
@@ -1561,7 +1561,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             len,
         );
         debug_assert!(
-            len.wrapping_sub(index) > N,
+            len.wrapping_sub(index) >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
-- 
2.43.0


From 7dc089c1d585c5a179483e81954aef7d45091c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 03/19] fix: Cursor::try_write_front must write only when there
 is an unfilled slot at the front

---
 src/iter/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/cursor.rs b/src/iter/cursor.rs
index 12e5385..77f658c 100644
--- a/src/iter/cursor.rs
+++ b/src/iter/cursor.rs
@@ -233,10 +233,10 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn try_write_front(&mut self, value: T) -> Result<(), T> {
         if self.is_write_front_empty() {
+            Err(value)
+        } else {
             unsafe { self.raw.write_front(value) }
             Ok(())
-        } else {
-            Err(value)
         }
     }
 
-- 
2.43.0


From 665fc6ab6bcb9971fdbcce0c8fe4d5e7fb73ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 04/19] fix: finishing a cursor more than once must not move
 the tail again

---
 src/iter/raw_cursor.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index aebccdf..285ede6 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -75,6 +75,7 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = self.old_vec_len.wrapping_sub(self.write_back as usize);
                 let len = front_len + back_len;
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             } else {
                 let start = self.vec.as_mut().as_mut_ptr();
                 let range = start..start.add(self.old_vec_len);
@@ -88,7 +89,13 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 }
 
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             }
+
+            // the gap is closed, so finishing again must not move anything
+            self.read_front = self.write_front;
+            self.read_back = self.write_front;
+            self.write_back = self.write_front;
         }
     }
 
@@ -676,6 +683,12 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = range.end.offset_from(self.write_back) as usize;
                 let len = front_len + back_len;
 
+                // after `finish` the vector owns all of its elements again,
+                // but it must not own the gap that is about to be opened
+                if self.vec.as_ref().len() > front_len {
+                    self.vec.as_mut().set_len_unchecked(front_len);
+                }
+
                 if len + space > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
-- 
2.43.0


From 274fb7baf8aaa28c7743d2d60811e958e07e7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/19] fix: a splice at the end of a non-empty vector must
 keep what it appends

---
 src/iter/raw_cursor.rs | 11 +++++++++--
 src/iter/splice.rs     |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 285ede6..c6f0478 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -108,8 +108,15 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
         }
     }
 
-    /// Get a mutable reference to the underlying vector
-    pub(crate) unsafe fn vec_mut(&mut self) -> &mut GenericVec<T, S> { unsafe { self.vec.as_mut() } }
+    /// Give up the vector, so that dropping this cursor leaves it alone
+    ///
+    /// # Safety
+    ///
+    /// The cursor must be finished, and must not be used afterwards
+    pub(crate) unsafe fn detach(&mut self) -> &mut GenericVec<T, S> {
+        self.old_vec_len = 0;
+        unsafe { self.vec.as_mut() }
+    }
 
     /// The number of remaining elements in range of this `RawCursor`
     ///
diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index 658764b..713dd75 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -37,8 +37,8 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
         }
 
         if raw.at_back_of_vec() {
-            self.raw.finish();
-            unsafe { self.raw.vec_mut().extend(replace_with) }
+            raw.finish();
+            unsafe { raw.detach().extend(replace_with) }
             return
         }
 
-- 
2.43.0


From 7e0e9abfa819af9e63fb7567623b863d7668b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 06/19] fix: heap storage must not allocate or release blocks
 of size zero

---
 src/raw/heap/nightly.rs | 7 ++++++-
 src/raw/heap/stable.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 01482e7..b76aba0 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -34,6 +34,11 @@ enum OnFailure {
 
 impl<T, A: ?Sized + Allocator> Drop for Heap<T, A> {
     fn drop(&mut self) {
+        // nothing was allocated without capacity or for zero-sized slots
+        if self.capacity == 0 || size_of::<T>() == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -155,7 +160,7 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
 
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::default()
         }
 
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index db7732b..6567f17 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -29,6 +29,11 @@ enum OnFailure {
 
 impl<T> Drop for Heap<T> {
     fn drop(&mut self) {
+        // nothing was allocated without capacity or for zero-sized slots
+        if self.capacity == 0 || size_of::<T>() == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -135,7 +140,7 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
 
 impl<T> Heap<T> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::new()
         }
 
-- 
2.43.0


From dd3f8cdaaee5c6def5becf847a96f00a682f04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 07/19] fix: try_reserve must return false for sizes no
 allocation can have

---
 src/raw/heap/nightly.rs | 21 ++++++++++++++++++---
 src/raw/heap/stable.rs  | 13 +++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index b76aba0..d602736 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -158,13 +158,24 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     }
 }
 
+/// The layout of `capacity` slots, if any allocation can be that large
+fn repeat<T>(capacity: usize) -> Option<Layout> {
+    let (layout, _) = Layout::new::<T>().repeat(capacity).ok()?;
+
+    if layout.size() > isize::MAX as usize - (layout.align() - 1) {
+        None
+    } else {
+        Some(layout)
+    }
+}
+
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
         if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::default()
         }
 
-        let layout = Layout::new::<T>().repeat(capacity).expect("Invalid layout").0;
+        let layout = repeat::<T>(capacity).expect("Invalid layout");
         let allocator = A::default();
 
         let ptr = unsafe { allocator.allocate(layout) };
@@ -196,9 +207,13 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = Layout::new::<T>().repeat(new_capacity).expect("Invalid layout").0;
+        let layout = match (repeat::<T>(new_capacity), &on_failure) {
+            (Some(layout), _) => layout,
+            (None, OnFailure::Abort) => panic!("Could not grow further"),
+            (None, OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             self.allocator.allocate(layout)
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 6567f17..7506a32 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -133,6 +133,11 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
     let padded_size = layout.size() + padding_needed_for(layout, layout.align());
     let alloc_size = padded_size.checked_mul(n).ok_or(())?;
 
+    // no allocation can be larger than this
+    if alloc_size > isize::MAX as usize - (layout.align() - 1) {
+        return Err(())
+    }
+
     // SAFETY: self.align is already known to be valid and alloc_size has been
     // padded already.
     unsafe { Ok(Layout::from_size_align_unchecked(alloc_size, layout.align())) }
@@ -174,9 +179,13 @@ impl<T> Heap<T> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = repeat(Layout::new::<T>(), new_capacity).expect("Invalid layout");
+        let layout = match (repeat(Layout::new::<T>(), new_capacity), &on_failure) {
+            (Ok(layout), _) => layout,
+            (Err(()), OnFailure::Abort) => panic!("Could not grow further"),
+            (Err(()), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             unsafe { alloc(layout) }
-- 
2.43.0


From ee5ce5a25edf56e2f28ff226ae5a8e4a3cb6d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 08/19] fix: converting a capacity between slot sizes must not
 truncate

---
 src/raw/capacity.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/raw/capacity.rs b/src/raw/capacity.rs
index b37f5d0..d9bc198 100644
--- a/src/raw/capacity.rs
+++ b/src/raw/capacity.rs
@@ -57,11 +57,13 @@ pub(in crate::raw) const fn capacity(old_capacity: usize, size_self: usize, size
         Round::Down => size,
     };
 
-    // this can't overflow pow2(n)
-    //
-    // size = 0..=(pow2(2 * n) - pow2(n) - 1)
-    // size / size_other = 0..=(pow2(2 * n) - pow2(n) - 1) / pow2(n)
-    //                   = 0..=(pow2(n) - 1 - 1 / pow2(n)) < pow2(n)
-    //
-    (size / (size_other as PointerNext)) as usize
+    let capacity = size / (size_other as PointerNext);
+
+    // this can overflow pow2(n) if size_self > size_other, saturate
+    // because a truncated capacity would promise room that isn't there
+    if capacity > usize::MAX as PointerNext {
+        usize::MAX
+    } else {
+        capacity as usize
+    }
 }
-- 
2.43.0


From ec6654bf10648f35f2317d42ed6833ca00ad166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 09/19] fix: heap storage made of zero-sized slots has no room
 for anything else

---
 src/raw/heap/nightly.rs | 14 +++++++++++++-
 src/raw/heap/stable.rs  | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index d602736..73c1b01 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -1,5 +1,5 @@
 use crate::raw::{
-    capacity::{capacity, Round},
+    capacity::{capacity, fixed_capacity_reserve_error, Round},
     Storage, StorageWithCapacity,
 };
 
@@ -142,6 +142,10 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
+        if size_of::<T>() == 0 && new_capacity > Storage::<U>::capacity(self) {
+            fixed_capacity_reserve_error(0, new_capacity)
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
@@ -149,6 +153,10 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
+        if size_of::<T>() == 0 && new_capacity > Storage::<U>::capacity(self) {
+            return false
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             self.reserve_slow(new_capacity, OnFailure::Error)
@@ -195,6 +203,10 @@ impl<T, A: Default + Allocator> Heap<T, A> {
 
 unsafe impl<T, U, A: Default + Allocator> StorageWithCapacity<U> for Heap<T, A> {
     fn with_capacity(cap: usize) -> Self {
+        if size_of::<T>() == 0 && size_of::<U>() != 0 && cap != 0 {
+            fixed_capacity_reserve_error(0, cap)
+        }
+
         Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
     }
 }
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 7506a32..47e5cf8 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -1,5 +1,5 @@
 use crate::raw::{
-    capacity::{capacity, Round},
+    capacity::{capacity, fixed_capacity_reserve_error, Round},
     Storage, StorageWithCapacity,
 };
 
@@ -83,6 +83,10 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
+        if size_of::<T>() == 0 && new_capacity > Storage::<U>::capacity(self) {
+            fixed_capacity_reserve_error(0, new_capacity)
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
@@ -90,6 +94,10 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
+        if size_of::<T>() == 0 && new_capacity > Storage::<U>::capacity(self) {
+            return false
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             self.reserve_slow(new_capacity, OnFailure::Error)
@@ -167,6 +175,10 @@ impl<T> Heap<T> {
 
 unsafe impl<T, U> StorageWithCapacity<U> for Heap<T> {
     fn with_capacity(cap: usize) -> Self {
+        if size_of::<T>() == 0 && size_of::<U>() != 0 && cap != 0 {
+            fixed_capacity_reserve_error(0, cap)
+        }
+
         Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
     }
 }
-- 
2.43.0


From c895f8bbed98cdece62b951d654e092edd716463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 10/19] fix: a slice of zero-sized slots has no room for
 anything else

---
 src/raw/slice.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw/slice.rs b/src/raw/slice.rs
index d58085c..7cfe2c0 100644
--- a/src/raw/slice.rs
+++ b/src/raw/slice.rs
@@ -54,9 +54,9 @@ unsafe impl<T, U> Storage<U> for UninitSlice<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.0.as_mut_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if new_capacity > self.0.len() {
-            fixed_capacity_reserve_error(self.0.len(), new_capacity)
+        let capacity = Storage::<U>::capacity(self);
+        if new_capacity > capacity {
+            fixed_capacity_reserve_error(capacity, new_capacity)
         }
     }
 
-- 
2.43.0


From 0ba5a45ab298814c96cf82352e74cdd0d7e25165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 11/19] fix: ArrayVec::from_array must hold the elements of the
 array

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7e491e..124c34d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -498,7 +498,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     /// Create a new full `ArrayVec`
     pub const fn from_array(array: [T; N]) -> Self {
         Self {
-            len: 0,
+            len: N,
             mark: PhantomData,
             storage: raw::UninitBuffer::new(array),
         }
-- 
2.43.0


From 9a00ff98d5956362252fb9f7e370876152851209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 12/19] fix: growing by plain data must append, not overwrite
 the front

---
 src/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 59d1598..562631a 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -98,7 +98,7 @@ where
         unsafe {
             self.set_len_unchecked(len.wrapping_add(additional));
         }
-        let mut ptr = self.storage.as_mut_ptr();
+        let mut ptr = unsafe { self.storage.as_mut_ptr().add(len) };
 
         for _ in 0..additional {
             unsafe {
-- 
2.43.0


From 84baf46ff911fdeff79b6cd8d7d072e5dcab0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 13/19] fix: from_raw_parts must refuse a storage that is not
 aligned for the element type

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 124c34d..2ddd4f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,6 +608,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     /// If the given storage cannot hold type `T`, then this method will panic
     #[cfg(not(feature = "nightly"))]
     pub unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
@@ -631,6 +632,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     ///
     /// If the given storage cannot hold type `T`, then this method will panic
     pub const unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
-- 
2.43.0


From a19c387987a4f6765446684a6384e82cdcfa835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 14/19] fix: reserving too much room in a cursor must panic,
 not overflow

---
 src/iter/raw_cursor.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index c6f0478..0b32d53 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -672,8 +672,8 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let write_space = (self.write_back as usize).wrapping_sub(self.write_front as usize);
 
                 if let Some(increase_by) = space.checked_sub(write_space) {
+                    self.old_vec_len = self.old_vec_len.checked_add(increase_by).expect("capacity overflow");
                     self.write_back = (self.write_back as usize).wrapping_add(increase_by) as _;
-                    self.old_vec_len += increase_by;
                 }
             } else {
                 let write_space = self.write_back.offset_from(self.write_front) as usize;
@@ -696,14 +696,16 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                     self.vec.as_mut().set_len_unchecked(front_len);
                 }
 
-                if len + space > capacity {
+                let new_len = len.checked_add(space).expect("capacity overflow");
+
+                if new_len > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
                     let rf = self.read_front.offset_from(range.start) as usize;
                     let rb = self.read_back.offset_from(range.start) as usize;
 
                     let vec = self.vec.as_mut();
-                    vec.storage.reserve(len + space);
+                    vec.storage.reserve(new_len);
 
                     let start = vec.as_mut_ptr();
                     self.write_front = start.add(wf);
-- 
2.43.0


From 704b5fbdd873fa4163673d5161d59e6028452d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 15/19] fix: a splice must not leak zero-sized replacements
 when the iterator panics

---
 src/iter/splice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index 713dd75..a9c3a9d 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -1,7 +1,5 @@
 use crate::{iter::RawCursor, Storage};
 
-use core::mem::ManuallyDrop;
-
 /// This struct is created by [`GenericVec::splice`](crate::GenericVec::splice).
 /// See its documentation for more.
 pub struct Splice<'a, T, S, I>
@@ -27,11 +25,12 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
 
         if let Some(storage) = crate::raw::ZeroSized::TRY_NEW {
             unsafe {
-                let mut vec = ManuallyDrop::new(crate::ZSVec::with_storage(storage));
+                let mut vec = crate::ZSVec::with_storage(storage);
                 vec.extend(replace_with);
                 let len = vec.len();
                 raw.reserve(len);
                 raw.write_slice_front(vec.as_slice());
+                core::mem::forget(vec);
                 return
             }
         }
-- 
2.43.0


From 783627d2fc9e5decadb80cf4a3539e454c4cb117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 16/19] fix: an array of zero-sized elements must never refuse
 an element

---
 src/raw/array.rs         | 10 ++++++++++
 src/raw/array/nightly.rs |  4 ++--
 src/raw/array/stable.rs  |  4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/raw/array.rs b/src/raw/array.rs
index 8bd12fa..9d3cbde 100644
--- a/src/raw/array.rs
+++ b/src/raw/array.rs
@@ -3,3 +3,13 @@ mod nightly;
 
 #[cfg(not(feature = "nightly"))]
 mod stable;
+
+/// The number of elements an array of length `len` can hold,
+/// an array of zero-sized elements is never full
+const fn slots<T>(len: usize) -> usize {
+    if core::mem::size_of::<T>() == 0 {
+        usize::MAX
+    } else {
+        len
+    }
+}
diff --git a/src/raw/array/nightly.rs b/src/raw/array/nightly.rs
index d26abef..5f38874 100644
--- a/src/raw/array/nightly.rs
+++ b/src/raw/array/nightly.rs
@@ -6,7 +6,7 @@ where
     Self: Default,
 {
     fn with_capacity(capacity: usize) -> Self {
-        if capacity > N {
+        if capacity > crate::raw::array::slots::<T>(N) {
             crate::raw::capacity::fixed_capacity_reserve_error(N, capacity)
         }
 
@@ -26,7 +26,7 @@ where
 
 unsafe impl<T: Copy, const N: usize> Storage<T> for [T; N] {
     #[doc(hidden)]
-    const CONST_CAPACITY: Option<usize> = Some(N);
+    const CONST_CAPACITY: Option<usize> = Some(crate::raw::array::slots::<T>(N));
     const IS_ALIGNED: bool = true;
 
     fn capacity(&self) -> usize { N }
diff --git a/src/raw/array/stable.rs b/src/raw/array/stable.rs
index 18daa4b..3adf81b 100644
--- a/src/raw/array/stable.rs
+++ b/src/raw/array/stable.rs
@@ -8,7 +8,7 @@ macro_rules! array {
             Self: Default,
         {
             fn with_capacity(capacity: usize) -> Self {
-                if capacity > $N {
+                if capacity > crate::raw::array::slots::<T>($N) {
                     crate::raw::capacity::fixed_capacity_reserve_error($N, capacity)
                 }
 
@@ -28,7 +28,7 @@ macro_rules! array {
 
         unsafe impl<T: Copy> Storage<T> for [T; $N] {
             #[doc(hidden)]
-            const CONST_CAPACITY: Option<usize> = Some($N);
+            const CONST_CAPACITY: Option<usize> = Some(crate::raw::array::slots::<T>($N));
             const IS_ALIGNED: bool = true;
 
             fn capacity(&self) -> usize { $N }
-- 
2.43.0


From 2fdc91457f0937b74b4e5d8f62719302211a2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 17/19] fix: into_array must accept exactly N zero-sized
 elements

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ddd4f2..02207f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     ///
     /// Panics if the the collection is not full
     pub fn into_array(self) -> [T; N] {
-        assert!(self.is_full());
+        assert!(self.len() == N);
         let this = core::mem::ManuallyDrop::new(self);
         unsafe { Storage::<[T; N]>::as_ptr(&this.storage).read() }
     }
-- 
2.43.0


From e200288878e1b338e38abf313332d2f5be943e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 18/19] fix: the length of a vector of zero-sized elements must
 not wrap around

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 02207f6..52b00a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -669,7 +669,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Returns the number of elements the vector can hold without reallocating or panicing.
     pub fn capacity(&self) -> usize {
         if core::mem::size_of::<T>() == 0 {
-            isize::MAX as usize
+            usize::MAX
         } else {
             self.storage.capacity()
         }
-- 
2.43.0


From dfbe6cbbd818e8410fe67f9256ccd6be067cc5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 19/19] fix: a splice must not trust the announced size of its
 replacement

---
 src/iter/splice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index a9c3a9d..202df27 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -76,12 +76,14 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
 
         #[cfg(feature = "alloc")]
         {
-            let mut temp: std::vec::Vec<T> = replace_with.collect();
+            // unlike collecting into a `std` vector, this does not rely on the announced size
+            let mut temp = crate::HeapVec::<T>::new();
+            temp.extend(replace_with);
 
             unsafe {
                 raw.reserve(temp.len());
                 raw.write_slice_front(&temp);
-                temp.set_len(0);
+                temp.set_len_unchecked(0);
             }
         }
     }
-- 
2.43.0

