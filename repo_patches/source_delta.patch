From ebd9e6b38f692b1e07b009841a1bc2c6a5d4c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 1/9] fix: reset_index forgets the availability remembered
 before the reset

The iterator kept handing out slots beyond its successor until the
remembered count ran out (C11).
---
 src/iterators/sync_iterators/cons_iter.rs | 2 ++
 src/iterators/sync_iterators/work_iter.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 350cb27..065b829 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -76,6 +76,8 @@ impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        // What was known to be available has been skipped.
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b1a04d4..aa0adbd 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -78,6 +78,8 @@ impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        // What was known to be available has been skipped.
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 }
\ No newline at end of file
-- 
2.43.0


From e9abc5ce35845a71e849d2c1e6c9b75c63f3970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 2/9] fix: go_back wraps to the right slot when 0 < index <
 count

The index was subtracted from, instead of added to, len - count (C12).
---
 src/iterators/async_iterators/detached.rs | 2 +-
 src/iterators/sync_iterators/detached.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 5109dca..193363f 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -56,7 +56,7 @@ impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
         
         self.inner.inner_mut().set_local_index(
             match idx < count {
-                true => buf_len.unchecked_sub(count).unchecked_sub(idx),
+                true => buf_len.unchecked_sub(count).unchecked_add(idx),
                 false => idx.unchecked_sub(count)
             }
         );
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index dcecf0b..f42f3e3 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -98,7 +98,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         
         self.inner.set_local_index(
             match idx < count {
-                true => self.inner.buf_len().unchecked_sub(count).unchecked_sub(idx),
+                true => self.inner.buf_len().unchecked_sub(count).unchecked_add(idx),
                 false => idx.unchecked_sub(count)
             }
         );
-- 
2.43.0


From fc37f341dbcb14072b4fa6c973b2c321ff9070c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 3/9] fix: Detached jumps forget the availability of the
 previous position

After set_index or reset_index, getters could grant slots beyond the
iterator ahead, using what was remembered before the jump (C12).
---
 src/iterators/sync_iterators/detached.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index f42f3e3..0f7b097 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -69,6 +69,8 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     #[inline]
     pub unsafe fn set_index(&mut self, index: usize) {
         self.inner.set_local_index(index);
+        // What was remembered refers to the previous position.
+        self.inner.set_cached_avail(0);
     }
 
     /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
@@ -77,6 +79,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     pub fn reset_index(&mut self) {
         let new_idx = self.inner.succ_index();
         self.inner.set_local_index(new_idx);
+        self.inner.set_cached_avail(0);
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
-- 
2.43.0


From ca0e9fecc7778211128c287f33224e1942d9d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 4/9] fix: iterators are Send only for concurrent buffers of
 Send items

Detached and AsyncDetached were Send whatever they wrapped, and no
iterator asked its item type to be Send (C16).
---
 src/iterators/async_iterators/cons_iter.rs | 2 +-
 src/iterators/async_iterators/detached.rs  | 2 +-
 src/iterators/async_iterators/prod_iter.rs | 2 +-
 src/iterators/async_iterators/work_iter.rs | 2 +-
 src/iterators/sync_iterators/cons_iter.rs  | 2 +-
 src/iterators/sync_iterators/detached.rs   | 2 +-
 src/iterators/sync_iterators/prod_iter.rs  | 2 +-
 src/iterators/sync_iterators/work_iter.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/iterators/async_iterators/cons_iter.rs b/src/iterators/async_iterators/cons_iter.rs
index 6b86a43..9d74780 100644
--- a/src/iterators/async_iterators/cons_iter.rs
+++ b/src/iterators/async_iterators/cons_iter.rs
@@ -15,7 +15,7 @@ pub struct AsyncConsIter<'buf, B: MutRB, const W: bool> {
     inner: ConsIter<'buf, B, W>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for AsyncConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for AsyncConsIter<'_, B, W> {}
 
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> AsyncIterator for AsyncConsIter<'buf, B, W> {
     type I = ConsIter<'buf, B, W>;
diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 193363f..8d8943a 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -15,7 +15,7 @@ pub struct AsyncDetached<I: AsyncIterator, B: MutRB> {
     phantom_data: PhantomData<B>
 }
 
-unsafe impl<I: AsyncIterator, B: MutRB> Send for AsyncDetached<I, B> {}
+unsafe impl<I: AsyncIterator + Send, B: MutRB> Send for AsyncDetached<I, B> {}
 
 impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
        
diff --git a/src/iterators/async_iterators/prod_iter.rs b/src/iterators/async_iterators/prod_iter.rs
index c213a5d..0e82641 100644
--- a/src/iterators/async_iterators/prod_iter.rs
+++ b/src/iterators/async_iterators/prod_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncProdIter<'buf, B: MutRB> {
     inner: ProdIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncProdIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncProdIter<'buf, B> {
     type I = ProdIter<'buf, B>;
diff --git a/src/iterators/async_iterators/work_iter.rs b/src/iterators/async_iterators/work_iter.rs
index 719df6a..0b19bbb 100644
--- a/src/iterators/async_iterators/work_iter.rs
+++ b/src/iterators/async_iterators/work_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncWorkIter<'buf, B: MutRB> {
     pub(crate) inner: WorkIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncWorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncWorkIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncWorkIter<'buf, B> {
     type I = WorkIter<'buf, B>;
diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 065b829..93ff80b 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -17,7 +17,7 @@ pub struct ConsIter<'buf, B: MutRB, const W: bool> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for ConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for ConsIter<'_, B, W> {}
 
 impl<B: MutRB + IterManager, const W: bool> Drop for ConsIter<'_, B, W> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index 0f7b097..621a6bb 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -30,7 +30,7 @@ pub struct Detached<I: MRBIterator> {
     inner: I,
 }
 
-unsafe impl<I: MRBIterator> Send for Detached<I> {}
+unsafe impl<I: MRBIterator + Send> Send for Detached<I> {}
 
 
 impl<T, I: MRBIterator<Item = T>> Detached<I> {
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index b3eeb7e..4454c5e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -60,7 +60,7 @@ pub struct ProdIter<'buf, B: MutRB> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for ProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for ProdIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for ProdIter<'_, B> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index aa0adbd..b0a1bac 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -24,7 +24,7 @@ pub struct WorkIter<'buf, B: MutRB> {
     pub(crate) buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for WorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for WorkIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for WorkIter<'_, B> {
     fn drop(&mut self) {
-- 
2.43.0


From f193871272f594544cb0abddee22cc91f2dead01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 5/9] fix: the last of several iterators dropped at once frees
 the buffer, once

'Am I the last one' was answered from two loads after the store of the own
flag: iterators dropped at once in different threads could both find
themselves last (double free), and whoever was not read flags of a buffer
that might already be gone. One read-modify-write decides it now (C07).
---
 src/ring_buffer/variants/concurrent_rb.rs     | 46 ++++++++++++-------
 src/ring_buffer/variants/local_rb.rs          |  9 ++--
 src/ring_buffer/variants/ring_buffer_trait.rs | 10 ++--
 src/ring_buffer/wrappers/buf_ref.rs           | 38 +++------------
 4 files changed, 48 insertions(+), 55 deletions(-)

diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 12d48a5..b825eb1 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,7 +1,7 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
-use core::sync::atomic::Ordering::{Acquire, Release};
-use core::sync::atomic::{AtomicBool, AtomicUsize};
+use core::sync::atomic::Ordering::{AcqRel, Acquire, Release};
+use core::sync::atomic::{AtomicU8, AtomicUsize};
 
 #[cfg(any(feature = "async", doc))]
 use crate::iterators::{
@@ -38,11 +38,14 @@ pub struct ConcurrentMutRingBuf<S: Storage> {
     work_idx: CachePadded<AtomicUsize>,
     cons_idx: CachePadded<AtomicUsize>,
 
-    prod_alive: AtomicBool,
-    work_alive: AtomicBool,
-    cons_alive: AtomicBool,
+    /// One bit per living iterator.
+    alive: AtomicU8,
 }
 
+const PROD: u8 = 1 << 0;
+const WORK: u8 = 1 << 1;
+const CONS: u8 = 1 << 2;
+
 impl<S: Storage<Item = T>, T> MutRB for ConcurrentMutRingBuf<S> {
     type Item = T;
 }
@@ -129,9 +132,18 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
             work_idx: CachePadded::new(0.into()),
             cons_idx: CachePadded::new(0.into()),
 
-            prod_alive: AtomicBool::default(),
-            work_alive: AtomicBool::default(),
-            cons_alive: AtomicBool::default()
+            alive: AtomicU8::default()
+        }
+    }
+}
+
+impl<S: Storage> ConcurrentMutRingBuf<S> {
+    fn set_alive(&self, iter: u8, alive: bool) -> bool {
+        if alive {
+            self.alive.fetch_or(iter, AcqRel);
+            false
+        } else {
+            self.alive.fetch_and(!iter, AcqRel) & !iter == 0
         }
     }
 }
@@ -168,27 +180,27 @@ impl<S: Storage> IterManager for ConcurrentMutRingBuf<S> {
     }
 
     fn prod_alive(&self) -> bool {
-        self.prod_alive.load(Acquire)
+        self.alive.load(Acquire) & PROD != 0
     }
 
     fn work_alive(&self) -> bool {
-        self.work_alive.load(Acquire)
+        self.alive.load(Acquire) & WORK != 0
     }
 
     fn cons_alive(&self) -> bool {
-        self.cons_alive.load(Acquire)
+        self.alive.load(Acquire) & CONS != 0
     }
 
-    fn set_prod_alive(&self, alive: bool) {
-        self.prod_alive.store(alive, Release);
+    fn set_prod_alive(&self, alive: bool) -> bool {
+        self.set_alive(PROD, alive)
     }
 
-    fn set_work_alive(&self, alive: bool) {
-        self.work_alive.store(alive, Release);
+    fn set_work_alive(&self, alive: bool) -> bool {
+        self.set_alive(WORK, alive)
     }
 
-    fn set_cons_alive(&self, alive: bool) {
-        self.cons_alive.store(alive, Release);
+    fn set_cons_alive(&self, alive: bool) -> bool {
+        self.set_alive(CONS, alive)
     }
 }
 
diff --git a/src/ring_buffer/variants/local_rb.rs b/src/ring_buffer/variants/local_rb.rs
index d94d5bb..9acc571 100644
--- a/src/ring_buffer/variants/local_rb.rs
+++ b/src/ring_buffer/variants/local_rb.rs
@@ -103,16 +103,19 @@ impl<S: Storage> IterManager for LocalMutRingBuf<S> {
         unsafe { *self.cons_alive.get() }
     }
 
-    fn set_prod_alive(&self, alive: bool) {
+    fn set_prod_alive(&self, alive: bool) -> bool {
         unsafe { *self.prod_alive.get() = alive; }
+        !(self.prod_alive() || self.work_alive() || self.cons_alive())
     }
 
-    fn set_work_alive(&self, alive: bool) {
+    fn set_work_alive(&self, alive: bool) -> bool {
         unsafe { *self.work_alive.get() = alive; }
+        !(self.prod_alive() || self.work_alive() || self.cons_alive())
     }
 
-    fn set_cons_alive(&self, alive: bool) {
+    fn set_cons_alive(&self, alive: bool) -> bool {
         unsafe { *self.cons_alive.get() = alive; }
+        !(self.prod_alive() || self.work_alive() || self.cons_alive())
     }
 }
 
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 2ef5e49..e8ef35b 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -21,9 +21,13 @@ pub trait IterManager {
     fn prod_alive(&self) -> bool;
     fn work_alive(&self) -> bool;
     fn cons_alive(&self) -> bool;
-    fn set_prod_alive(&self, alive: bool);
-    fn set_work_alive(&self, alive: bool);
-    fn set_cons_alive(&self, alive: bool);
+    /// Returns `true` if this left no iterator alive. This is decided in one step, so of several
+    /// iterators dropped at once exactly one gets `true`; who gets `false` must not touch the buffer any more.
+    fn set_prod_alive(&self, alive: bool) -> bool;
+    /// See [`Self::set_prod_alive`].
+    fn set_work_alive(&self, alive: bool) -> bool;
+    /// See [`Self::set_prod_alive`].
+    fn set_cons_alive(&self, alive: bool) -> bool;
 }
 
 /// Trait used to manage storage.
diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index bd08651..a06b70e 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -4,8 +4,6 @@ use alloc::boxed::Box;
 use core::marker::PhantomData;
 use core::ops::Deref;
 use core::ptr::NonNull;
-use core::sync::atomic::fence;
-use core::sync::atomic::Ordering::SeqCst;
 
 pub struct BufRef<'buf, B> {
     inner: NonNull<B>,
@@ -66,44 +64,20 @@ impl<B> Deref for BufRef<'_, B> {
 
 impl<B: IterManager> BufRef<'_, B> {
     pub(crate) fn set_prod_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_prod_alive(alive);
-
-            let cond = !self.inner.as_ref().work_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+        if unsafe { self.inner.as_ref().set_prod_alive(alive) } {
+            self.drop();
         }
     }
 
     pub(crate) fn set_work_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_work_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+        if unsafe { self.inner.as_ref().set_work_alive(alive) } {
+            self.drop();
         }
     }
 
     pub(crate) fn set_cons_alive(&mut self, alive: bool) {
-        unsafe {
-            fence(SeqCst);
-            self.inner.as_ref().set_cons_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().work_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+        if unsafe { self.inner.as_ref().set_cons_alive(alive) } {
+            self.drop();
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 8ff30440d192039008e4dde78fe2d77381a42fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 6/9] fix: splitting a stack buffer again continues from the
 published indices

New iterators started at 0 while the indices published by the previous
session stayed where they were, so the consumer was offered slots that
nobody had pushed, and availabilities did not sum to len - 1 (C18).
---
 src/iterators/sync_iterators/cons_iter.rs | 2 +-
 src/iterators/sync_iterators/prod_iter.rs | 2 +-
 src/iterators/sync_iterators/work_iter.rs | 2 +-
 src/ring_buffer/storage/mod.rs            | 3 +++
 src/ring_buffer/variants/concurrent_rb.rs | 6 ++++++
 5 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 93ff80b..bbe63bb 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -65,7 +65,7 @@ impl<B: MutRB<Item = T>, T, const W: bool> MRBIterator for ConsIter<'_, B, W> {
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            index: value.cons_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index 4454c5e..b6a3d6e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -103,7 +103,7 @@ impl<B: MutRB<Item = T>, T> MRBIterator for ProdIter<'_, B> {
 impl<'buf, B: MutRB<Item = T>, T> ProdIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            index: value.prod_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b0a1bac..34a4c96 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -67,7 +67,7 @@ impl<B: MutRB<Item = T>, T> MRBIterator for WorkIter<'_, B> {
 impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> WorkIter<'buf, B> {
         Self {
-            index: 0,
+            index: value.work_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/ring_buffer/storage/mod.rs b/src/ring_buffer/storage/mod.rs
index cd9d717..6c69590 100644
--- a/src/ring_buffer/storage/mod.rs
+++ b/src/ring_buffer/storage/mod.rs
@@ -63,6 +63,9 @@ pub(crate) mod impl_splits {
             }
 
             fn split_mut(&mut self) -> (ProdIter<$Struct<StackStorage<T, N>>>, WorkIter<$Struct<StackStorage<T, N>>>, ConsIter<$Struct<StackStorage<T, N>>, true>) {
+                // A previous session may have left the worker anywhere: put it behind every unconsumed item.
+                self.set_work_index(self.cons_index());
+
                 self.set_prod_alive(true);
                 self.set_work_alive(true);
                 self.set_cons_alive(true);
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index b825eb1..fa0eb15 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -61,6 +61,9 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
     /// - [`AsyncConsIter`].
     #[cfg(all(feature = "alloc", any(feature = "async", doc)))]
     pub fn split_mut_async<'buf>(self) -> (AsyncProdIter<'buf, ConcurrentMutRingBuf<S>>, AsyncWorkIter<'buf, ConcurrentMutRingBuf<S>>, AsyncConsIter<'buf, ConcurrentMutRingBuf<S>, true>) {
+        // A previous session may have left the worker anywhere: put it behind every unconsumed item.
+        self.set_work_index(self.cons_index());
+
         self.set_prod_alive(true);
         self.set_work_alive(true);
         self.set_cons_alive(true);
@@ -94,6 +97,9 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
     /// - [`AsyncConsIter`].
     #[cfg(all(not(feature = "alloc"), any(feature = "async", doc)))]
     pub fn split_mut_async(&mut self) -> (AsyncProdIter<ConcurrentMutRingBuf<S>>, AsyncWorkIter<ConcurrentMutRingBuf<S>>, AsyncConsIter<ConcurrentMutRingBuf<S>, true>) {
+        // A previous session may have left the worker anywhere: put it behind every unconsumed item.
+        self.set_work_index(self.cons_index());
+
         self.set_prod_alive(true);
         self.set_work_alive(true);
         self.set_cons_alive(true);
-- 
2.43.0


From 8340f8f9ef115650940cccca158cb570f896b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 7/9] fix: a task left pending by an async operation is woken
 again

Nothing in the crate ever woke it, so under an executor which polls on
wake-up only it was parked forever (C15).
---
 src/iterators/async_iterators/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index cb6ce4d..665c6f5 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -85,6 +85,9 @@ impl<I: AsyncIterator, P, O, const R: bool> Future for MRBFuture<'_, I, P, O, R>
             }
 
             if waker_registered {
+                // The operation may become possible because of an iterator which knows nothing of
+                // this task (e.g. a sync one), so nobody else is going to wake it.
+                cx.waker().wake_by_ref();
                 break Poll::Pending;
             }
             self.iter.register_waker(cx.waker());
-- 
2.43.0


From 7174ef88b0a85b5e78274ce4898f91a20e0b9799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 8/9] fix: vmem maps one memory object twice, keeps the items
 and drops them

The second view was a separate private mapping, so nothing was mirrored;
memcpy had source and destination swapped, which wiped the supplied items
without dropping them; and dropping the storage only unmapped it (C17).
---
 src/ring_buffer/storage/heap/mod.rs         | 11 ++--
 src/ring_buffer/storage/heap/vmem_helper.rs | 67 ++++++++++++++++-----
 2 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 4281335..977e7e3 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -20,7 +20,10 @@ impl <T> Drop for HeapStorage<T> {
     fn drop(&mut self) {
         unsafe {
             #[cfg(feature = "vmem")]
-            libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            {
+                core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
+                libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            }
 
             #[cfg(not(feature = "vmem"))]
             let _ = Box::from_raw(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
@@ -31,11 +34,11 @@ impl <T> Drop for HeapStorage<T> {
 impl<T> HeapStorage<T> {
     #[cfg(feature = "vmem")]
     fn new(value: Box<[UnsafeSyncCell<T>]>) -> Self {
-        let r = vmem_helper::new(&value);
+        let len = value.len();
 
         Self {
-            inner: r,
-            len: value.len(),
+            inner: vmem_helper::new(value),
+            len,
         }
     }
 
diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index dcc287e..5da58ea 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -3,6 +3,8 @@
 
 //! Utilities for `vmem` optimisation.
 
+use alloc::boxed::Box;
+use core::mem::ManuallyDrop;
 use core::ptr;
 use crate::UnsafeSyncCell;
 
@@ -21,32 +23,69 @@ pub fn get_page_size_mul(min_size: usize) -> usize {
     min_size.div_ceil(page_size) * page_size
 }
 
-pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
+/// Returns a descriptor of a new, empty and anonymous shared memory object.
+#[cfg(any(target_os = "linux", target_os = "android"))]
+unsafe fn new_shared_object() -> core::ffi::c_int {
+    libc::memfd_create(c"mutringbuf".as_ptr(), libc::MFD_CLOEXEC)
+}
+
+/// Returns a descriptor of a new, empty and anonymous shared memory object.
+#[cfg(all(unix, not(any(target_os = "linux", target_os = "android"))))]
+unsafe fn new_shared_object() -> core::ffi::c_int {
+    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
+    static COUNT: AtomicUsize = AtomicUsize::new(0);
+
+    let name = alloc::format!("/mutringbuf-{}-{}\0", libc::getpid(), COUNT.fetch_add(1, Relaxed));
+    let fd = libc::shm_open(name.as_ptr() as _, libc::O_RDWR | libc::O_CREAT | libc::O_EXCL, 0o600);
+    if fd >= 0 {
+        libc::shm_unlink(name.as_ptr() as _);
+    }
+    fd
+}
+
+/// Moves the items of `value` to a new region of memory, which is mapped twice, contiguously.
+pub(crate) fn new<T>(value: Box<[UnsafeSyncCell<T>]>) -> *mut UnsafeSyncCell<T> {
     let page_size = page_size();
     assert_eq!(value.len() % page_size, 0, "must be a multiple of page size, which is: {}.", page_size);
+
+    let size = size_of_val(&*value);
+    if size == 0 {
+        return ptr::NonNull::dangling().as_ptr();
+    }
     
     unsafe {
-        let size = size_of_val(value);
-        
+        let fd = new_shared_object();
+        assert!(fd >= 0, "cannot create a shared memory object.");
+        assert_eq!(libc::ftruncate(fd, size as libc::off_t), 0, "cannot resize the shared memory object.");
+
+        // Reserves a range of addresses large enough for both the views.
         let buffer = libc::mmap(
             ptr::null_mut(),
             2 * size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
+            libc::PROT_NONE,
             libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
             -1, 0
         );
-        
-        libc::mmap(
-            buffer.byte_add(size),
-            size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
-            -1, 0
-        );
+        assert_ne!(buffer, libc::MAP_FAILED, "cannot reserve memory.");
+
+        for view in [buffer, buffer.byte_add(size)] {
+            let r = libc::mmap(
+                view,
+                size as libc::size_t,
+                libc::PROT_READ | libc::PROT_WRITE,
+                libc::MAP_SHARED | libc::MAP_FIXED,
+                fd, 0
+            );
+            assert_eq!(r, view, "cannot map the shared memory object.");
+        }
+        libc::close(fd);
 
         let r = buffer as *mut UnsafeSyncCell<T>;
-        libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
+        ptr::copy_nonoverlapping(value.as_ptr(), r, value.len());
+
+        // The items have been moved: only the memory has to be freed.
+        drop(Box::from_raw(Box::into_raw(value) as *mut [ManuallyDrop<UnsafeSyncCell<T>>]));
         
         r
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From be6de8763012ac3ecb377bf6f9cfc6841b7d23c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 9/9] fix: reset_index of a detached producer stops one slot
 before the consumer

---
 src/iterators/sync_iterators/detached.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index 621a6bb..9712230 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -73,13 +73,13 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         self.inner.set_cached_avail(0);
     }
 
-    /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
+    /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor
+    /// (a producer stops one location before it, as it must never reach the consumer).
     /// To sync the atomic index, use [`Self::sync_index`].
     #[inline]
     pub fn reset_index(&mut self) {
-        let new_idx = self.inner.succ_index();
-        self.inner.set_local_index(new_idx);
-        self.inner.set_cached_avail(0);
+        let avail = self.inner._available();
+        unsafe { self.inner.advance_local(avail); }
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
-- 
2.43.0

