From 07d5e2660dc868238b2a0a13a41b6d750e0fd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 01/24] fix: do not queue a write for arrays of length zero

The write was addressed at the null index and made the next commit panic.
---
 crates/craballoc/src/value.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..1a7ad9b 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -424,20 +424,23 @@ impl<T> Clone for GpuArray<T> {
 impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
     pub fn new(mngr: &SlabAllocator<impl IsRuntime>, values: &[T]) -> Self {
         let array = mngr.allocate_array::<T>(values.len());
-        let update = {
+        let updates = if array.is_empty() {
+            // An empty array is null and occupies no slots, so there is nothing to write.
+            vec![]
+        } else {
             let mut elements = vec![0u32; T::SLAB_SIZE * array.len()];
             elements.write_indexed_slice(values, 0);
-            SlabUpdate {
+            vec![SlabUpdate {
                 array: array.into_u32_array(),
                 elements,
-            }
+            }]
         };
         let notifier_index = mngr.next_update_k();
         let g = GpuArray {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            updates: Arc::new(Mutex::new(updates)),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0


From 312b577cd47b0573c4f69d4f46d2d9b648c65edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 02/24] fix: ignore out of bounds GpuArray::set_item

The queued write was addressed at the null index and made the next commit panic.
---
 crates/craballoc/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 1a7ad9b..5ccdb0c 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -462,8 +462,14 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
         self.array().at(index)
     }
 
+    /// Queue an update of the item at `index`.
+    ///
+    /// Does nothing if `index` is out of bounds.
     pub fn set_item(&self, index: usize, value: &T) {
         let id = self.array.at(index);
+        if id.is_none() {
+            return;
+        }
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
         elements.write(0u32.into(), value);
-- 
2.43.0


From c7b9bbd477d834d3dafbff5925efa702f4d4db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 03/24] fix: reserve the requested capacity in
 Vec<u32>::reserve_capacity

Vec::reserve takes the additional elements past the length, so subtracting the
capacity reserved too little, and underflowed if enough was reserved already.
---
 crates/crabslab/src/slab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b31d1c1..7b0fd8e 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -296,7 +296,7 @@ impl GrowableSlab for Vec<u32> {
     }
 
     fn reserve_capacity(&mut self, capacity: usize) {
-        Vec::reserve(self, capacity - self.capacity());
+        Vec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     fn increment_len(&mut self, n: usize) -> usize {
-- 
2.43.0


From 5a9f1eda92080791cf243a794c6c725db12f097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 04/24] fix: keep Slab::write_array within the array

If `data` was longer than the array the write continued past the array's end.
---
 crates/crabslab/src/slab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index 7b0fd8e..7925afb 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -96,7 +96,7 @@ pub trait Slab {
         if array.len() > data.len() {
             return;
         }
-        let _ = self.write_indexed_slice(data, array.starting_index());
+        let _ = self.write_indexed_slice(&data[..array.len()], array.starting_index());
     }
 }
 
-- 
2.43.0


From d644888f2c302bc4629e11bc4df3cb1db6bc4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 05/24] fix: merge all connected ranges in
 RangeManager::add_range

Only the first match was merged, which left touching free ranges apart and
queued writes overlapping, so that an older write could be applied last.
---
 crates/craballoc/src/range.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..b8ba3fa 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -116,12 +116,17 @@ impl<R: IsRange> RangeManager<R> {
         self.ranges.is_empty()
     }
 
-    pub fn add_range(&mut self, input_range: R) {
-        for range in self.ranges.iter_mut() {
-            if range.should_merge_with(&input_range) {
-                range.union(input_range);
-                return;
-            }
+    pub fn add_range(&mut self, mut input_range: R) {
+        // The input may connect any number of the managed ranges, and each union may connect
+        // to more of them, so keep merging until nothing is left to merge with.
+        while let Some(i) = self
+            .ranges
+            .iter()
+            .position(|range| range.should_merge_with(&input_range))
+        {
+            let mut range = self.ranges.swap_remove(i);
+            range.union(input_range);
+            input_range = range;
         }
         self.ranges.push(input_range);
     }
-- 
2.43.0


From ed55ba6fa988b0de3c67dbd92105341349ea3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:23 +0000
Subject: [PATCH 06/24] fix: do not remove empty ranges from RangeManager

Removing zero elements from a range starting at 0 underflowed, and there is no
way to represent the empty result.
---
 crates/craballoc/src/range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index b8ba3fa..c991123 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -135,6 +135,9 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        if count == 0 {
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From 15eed4616c1a60e70a47f1a08f4a38d4722b3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 07/24] fix: a Range of one element is not empty

---
 crates/craballoc/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index c991123..0806d11 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -33,7 +33,7 @@ impl Range {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.last_index == self.first_index
+        self.len() == 0
     }
 
     pub fn intersects(&self, other: &Range) -> bool {
-- 
2.43.0


From a3faafaf3d6268471329f1f87dc7aa8f07939329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 08/24] fix: release slab buffers once nothing refers to them

The allocator's shared buffer cell held a SlabBuffer, which held the cell, so
neither the cell nor its last buffer was ever freed.
---
 crates/craballoc/src/slab.rs | 65 +++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4d09fb1..d2e5192 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -54,7 +54,26 @@ pub struct SlabBuffer<T> {
     // The buffer created at `buffer_creation_k`
     buffer: Arc<T>,
     // The buffer the source slab is currently working with
-    source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+    source_slab_buffer: Arc<RwLock<Option<SourceBuffer<T>>>>,
+}
+
+/// The buffer a slab is currently working with.
+///
+/// This must not hold a reference to the slab's shared state, otherwise the shared
+/// state would keep itself alive.
+struct SourceBuffer<T> {
+    // The slab's `invalidation_k` at the time of this buffer's creation.
+    creation_k: usize,
+    buffer: Arc<T>,
+}
+
+impl<T> Clone for SourceBuffer<T> {
+    fn clone(&self) -> Self {
+        Self {
+            creation_k: self.creation_k,
+            buffer: self.buffer.clone(),
+        }
+    }
 }
 
 impl<T> Clone for SlabBuffer<T> {
@@ -81,12 +100,12 @@ impl<T> SlabBuffer<T> {
     fn new(
         invalidation_k: Arc<AtomicUsize>,
         invocation_k: Arc<AtomicUsize>,
-        buffer: T,
-        source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+        source: SourceBuffer<T>,
+        source_slab_buffer: Arc<RwLock<Option<SourceBuffer<T>>>>,
     ) -> Self {
         SlabBuffer {
-            buffer: buffer.into(),
-            buffer_creation_k: invalidation_k.load(std::sync::atomic::Ordering::Relaxed),
+            buffer: source.buffer,
+            buffer_creation_k: source.creation_k,
             slab_invalidation_k: invalidation_k,
             slab_commit_invocation_k: invocation_k,
             source_slab_buffer,
@@ -197,12 +216,12 @@ impl<T> SlabBuffer<T> {
         if self.is_invalid() {
             // UNWRAP: Safe because it is an invariant of the system. Once the `SlabBuffer`
             // is created, source_slab_buffer will always be Some.
-            let updated_buffer = {
+            let source = {
                 let guard = self.source_slab_buffer.read().unwrap();
                 guard.as_ref().unwrap().clone()
             };
-            debug_assert!(updated_buffer.is_valid());
-            *self = updated_buffer;
+            self.buffer_creation_k = source.creation_k;
+            self.buffer = source.buffer;
             true
         } else {
             false
@@ -229,7 +248,7 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     len: Arc<AtomicUsize>,
     capacity: Arc<AtomicUsize>,
     needs_expansion: Arc<AtomicBool>,
-    buffer: Arc<RwLock<Option<SlabBuffer<Runtime::Buffer>>>>,
+    buffer: Arc<RwLock<Option<SourceBuffer<Runtime::Buffer>>>>,
     buffer_usages: Runtime::BufferUsages,
     // The value of invocation_k when the last buffer invalidation happened
     invalidation_k: Arc<AtomicUsize>,
@@ -394,7 +413,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
     /// Return the internal buffer used by this slab, if it has
     /// been created.
     pub fn get_buffer(&self) -> Option<SlabBuffer<R::Buffer>> {
-        self.buffer.read().unwrap().clone()
+        let source = self.buffer.read().unwrap().clone()?;
+        Some(self.slab_buffer(source))
+    }
+
+    fn slab_buffer(&self, source: SourceBuffer<R::Buffer>) -> SlabBuffer<R::Buffer> {
+        SlabBuffer::new(
+            self.invalidation_k.clone(),
+            self.invocation_k.clone(),
+            source,
+            self.buffer.clone(),
+        )
     }
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
@@ -408,16 +437,14 @@ impl<R: IsRuntime> SlabAllocator<R> {
         let mut guard = self.buffer.write().unwrap();
         if let Some(old_buffer) = guard.take() {
             self.runtime
-                .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
+                .buffer_copy(&old_buffer.buffer, &new_buffer, self.label.as_deref());
         }
-        let slab_buffer = SlabBuffer::new(
-            self.invalidation_k.clone(),
-            self.invocation_k.clone(),
-            new_buffer,
-            self.buffer.clone(),
-        );
-        *guard = Some(slab_buffer.clone());
-        slab_buffer
+        let source = SourceBuffer {
+            creation_k: self.invalidation_k.load(Ordering::Relaxed),
+            buffer: Arc::new(new_buffer),
+        };
+        *guard = Some(source.clone());
+        self.slab_buffer(source)
     }
 
     /// Stage a new value that lives on the GPU _and_ CPU.
-- 
2.43.0


From 86ef4ac0fadef6a3b035ee59e46550f11926234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:23 +0000
Subject: [PATCH 09/24] fix: insert update sources before notifying of them

A concurrent commit could consume the notification before the source was known,
which lost the initial write of a new value.
---
 crates/craballoc/src/slab.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index d2e5192..3c1ef99 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -322,9 +322,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn insert_update_source(&self, k: usize, source: WeakGpuRef) {
         log::trace!("slab insert_update_source {k}",);
-        let _ = self.notifier.0.try_send(k);
+        // Insert the source before notifying, otherwise a concurrent commit could consume the
+        // notification without finding the source.
+        //
         // UNWRAP: panic on purpose
         self.update_sources.write().unwrap().insert(k, source);
+        let _ = self.notifier.0.try_send(k);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From b4720a08b952a53b43175b78999d752196f7e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 10/24] fix: make expanding and claiming slab space one atomic
 step

Concurrent allocations could each find enough capacity and together exceed it,
after which a commit wrote past the end of the buffer and panicked.
---
 crates/craballoc/src/slab.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 3c1ef99..d0a3b96 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -335,8 +335,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
     }
 
     pub(crate) fn allocate<T: SlabItem>(&self) -> Id<T> {
+        // Hold the guard until the allocation is done, to keep concurrent allocations from
+        // expanding for the same space.
+        //
         // UNWRAP: we want to panic
-        let may_range = self.recycles.write().unwrap().remove(T::SLAB_SIZE as u32);
+        let mut recycles = self.recycles.write().unwrap();
+        let may_range = recycles.remove(T::SLAB_SIZE as u32);
         if let Some(range) = may_range {
             let id = Id::<T>::new(range.first_index);
             log::trace!(
@@ -360,12 +364,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
             return Array::default();
         }
 
+        // Hold the guard until the allocation is done, to keep concurrent allocations from
+        // expanding for the same space.
+        //
         // UNWRAP: we want to panic
-        let may_range = self
-            .recycles
-            .write()
-            .unwrap()
-            .remove((T::SLAB_SIZE * len) as u32);
+        let mut recycles = self.recycles.write().unwrap();
+        let may_range = recycles.remove((T::SLAB_SIZE * len) as u32);
         if let Some(range) = may_range {
             let array = Array::<T>::new(range.first_index, len as u32);
             log::trace!(
-- 
2.43.0


From 02842bfb97770c3a123d3dc86a4f2079aedaff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 11/24] fix: serialize commits and drain updates before
 expanding

Concurrent commits could use the buffer before it existed, write to a superseded
buffer or apply older updates last; and updates of values allocated after the
expansion check were written past the end of the buffer.
---
 crates/craballoc/src/slab.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index d0a3b96..d977b5d 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock},
+    sync::{atomic::AtomicBool, Arc, Mutex, PoisonError, RwLock},
 };
 
 use crate::{
@@ -262,6 +262,8 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     update_queue: Arc<RwLock<FxHashSet<usize>>>,
     // Recycled memory ranges
     pub(crate) recycles: Arc<RwLock<RangeManager<Range>>>,
+    // Serializes commits
+    commit_lock: Arc<Mutex<()>>,
 }
 
 impl<R: IsRuntime> Clone for SlabAllocator<R> {
@@ -281,6 +283,7 @@ impl<R: IsRuntime> Clone for SlabAllocator<R> {
             update_sources: self.update_sources.clone(),
             update_queue: self.update_queue.clone(),
             recycles: self.recycles.clone(),
+            commit_lock: self.commit_lock.clone(),
         }
     }
 }
@@ -304,6 +307,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             update_sources: Default::default(),
             update_queue: Default::default(),
             recycles: Default::default(),
+            commit_lock: Default::default(),
             len: Default::default(),
             // Start with size 1, because some of `wgpu`'s validation depends on it.
             // See <https://github.com/gfx-rs/wgpu/issues/6414> for more info.
@@ -394,7 +398,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     fn reserve_capacity(&self, capacity: usize) {
         self.capacity.store(capacity, Ordering::Relaxed);
-        self.needs_expansion.store(true, Ordering::Relaxed);
+        self.needs_expansion.store(true, Ordering::Release);
     }
 
     fn increment_len(&self, n: usize) -> usize {
@@ -553,11 +557,20 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// Returns a [`SlabBuffer`] wrapping the internal buffer that is currently in use by the allocator.
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
+        // Commits run one after the other, so that updates reach the buffer in the order they
+        // were drained.
+        let _commit_guard = self
+            .commit_lock
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner);
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
-        let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
+        // Drain the updates before checking for expansion, so that everything that was drained
+        // fits into the buffer.
+        let writes = self.drain_updated_sources();
+        let buffer = if self.needs_expansion.swap(false, Ordering::Acquire) {
             self.invalidation_k
                 .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
             self.recreate_buffer()
@@ -565,7 +578,6 @@ impl<R: IsRuntime> SlabAllocator<R> {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
         };
-        let writes = self.drain_updated_sources();
         if !writes.is_empty() {
             self.runtime
                 .buffer_write(writes.ranges.into_iter(), &buffer);
-- 
2.43.0


From e6f79a6eae2710203c9a7e309c0c920ec9372d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:28 +0000
Subject: [PATCH 12/24] fix: release a value before notifying the slab of its
 drop

A commit between the notification and the release found the value in use and
never reclaimed its slots.
---
 crates/craballoc/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 5ccdb0c..68a1325 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -336,6 +336,9 @@ pub struct Gpu<T> {
 
 impl<T> Drop for Gpu<T> {
     fn drop(&mut self) {
+        // Give up our reference before notifying, otherwise a concurrent commit could consume
+        // the notification while the value still seems to be in use.
+        drop(std::mem::take(&mut self.update));
         let _ = self.notify.try_send(self.notifier_index);
     }
 }
@@ -406,6 +409,9 @@ pub struct GpuArray<T> {
 
 impl<T> Drop for GpuArray<T> {
     fn drop(&mut self) {
+        // Give up our reference before notifying, otherwise a concurrent commit could consume
+        // the notification while the array still seems to be in use.
+        drop(std::mem::take(&mut self.updates));
         let _ = self.notifier.try_send(self.notifier_index);
     }
 }
-- 
2.43.0


From b76d0b543536ece9df73b939d006e66a8c99c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 13/24] fix: take the update queue in one step

Ids that a concurrent get_updated_source_ids put in the queue between reading
and resetting it were lost.
---
 crates/craballoc/src/slab.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index d977b5d..8e2b7a1 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -475,10 +475,14 @@ impl<R: IsRuntime> SlabAllocator<R> {
     pub fn get_updated_source_ids(&self) -> FxHashSet<usize> {
         // UNWRAP: panic on purpose
         let mut update_set = self.update_queue.write().unwrap();
+        self.receive_notifications(&mut update_set);
+        update_set.clone()
+    }
+
+    fn receive_notifications(&self, update_set: &mut FxHashSet<usize>) {
         while let Ok(source_index) = self.notifier.1.try_recv() {
             update_set.insert(source_index);
         }
-        update_set.clone()
     }
 
     /// Build the set of sources that require updates, draining the source
@@ -486,9 +490,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// This also places recycled items into the recycle bin.
     fn drain_updated_sources(&self) -> RangeManager<SlabUpdate> {
-        let update_set = self.get_updated_source_ids();
-        // UNWRAP: panic on purpose
-        *self.update_queue.write().unwrap() = Default::default();
+        let update_set = {
+            // UNWRAP: panic on purpose
+            let mut update_set = self.update_queue.write().unwrap();
+            self.receive_notifications(&mut update_set);
+            std::mem::take(&mut *update_set)
+        };
         // Prepare all of our GPU buffer writes
         let mut writes = RangeManager::<SlabUpdate>::default();
         {
-- 
2.43.0


From 22f9eac3705c001a24907d2965e495d2d62c9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 14/24] fix: invalidate buffers together with replacing them

A handle could learn of the invalidation before the new buffer was in place, and
was then synchronized to the old or to no buffer.
---
 crates/craballoc/src/slab.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 8e2b7a1..543daf3 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -439,7 +439,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let new_buffer = self.runtime.buffer_create(
             self.capacity(),
             self.label.as_deref(),
@@ -451,10 +451,14 @@ impl<R: IsRuntime> SlabAllocator<R> {
                 .buffer_copy(&old_buffer.buffer, &new_buffer, self.label.as_deref());
         }
         let source = SourceBuffer {
-            creation_k: self.invalidation_k.load(Ordering::Relaxed),
+            creation_k: invocation_k,
             buffer: Arc::new(new_buffer),
         };
         *guard = Some(source.clone());
+        // Invalidate previous buffers while holding the guard, so that whoever finds out about it
+        // also finds the new buffer.
+        self.invalidation_k.store(invocation_k, Ordering::Relaxed);
+        drop(guard);
         self.slab_buffer(source)
     }
 
@@ -578,9 +582,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
         // fits into the buffer.
         let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.swap(false, Ordering::Acquire) {
-            self.invalidation_k
-                .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-            self.recreate_buffer()
+            self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
-- 
2.43.0


From cb50831d7ed20021db15f4b39bbf38f78a940758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 15/24] fix: build craballoc without the wgpu feature

---
 crates/craballoc/src/runtime.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 6e7a4b9..e404598 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -1,16 +1,18 @@
 //! The CPU side fo slab allocation.
 
-use std::{
-    future::Future,
-    ops::Deref,
-    sync::{Arc, Mutex},
-};
+#[cfg(feature = "wgpu")]
+use std::sync::Arc;
+use std::{future::Future, ops::Deref, sync::Mutex};
 
 use crabslab::Array;
+#[cfg(feature = "wgpu")]
 use snafu::ResultExt;
+#[cfg(feature = "wgpu")]
 use tracing::Instrument;
 
-use crate::slab::{AsyncRecvSnafu, AsyncSnafu, SlabAllocatorError};
+use crate::slab::SlabAllocatorError;
+#[cfg(feature = "wgpu")]
+use crate::slab::{AsyncRecvSnafu, AsyncSnafu};
 
 /// An update to a slab.
 ///
@@ -181,6 +183,7 @@ pub struct WgpuRuntime {
     pub queue: Arc<wgpu::Queue>,
 }
 
+#[cfg(feature = "wgpu")]
 impl AsRef<WgpuRuntime> for WgpuRuntime {
     fn as_ref(&self) -> &WgpuRuntime {
         self
-- 
2.43.0


From 7c51d419f3d25b641d5d59d1c5329d3549c85ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 16/24] fix: return nothing when reading an empty range from
 the GPU

Slicing the staging buffer of size 0 panicked.
---
 crates/craballoc/src/runtime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index e404598..e822b69 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -249,6 +249,10 @@ impl IsRuntime for WgpuRuntime {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let (start, _end, len) = crate::runtime::range_to_indices_and_len(buffer_len, range);
+        if len == 0 {
+            // Buffers of size 0 cannot be sliced or mapped.
+            return Ok(vec![]);
+        }
         let byte_offset = start * std::mem::size_of::<u32>();
         let length = len * std::mem::size_of::<u32>();
         let output_buffer_size = length as u64;
-- 
2.43.0


From 131e263c57485ca0ad295da38d67a861fa0809e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 17/24] fix: keep unbounded GPU reads within the buffer

After allocating more than the buffer holds, and until the next commit, an
unbounded read copied past the end of the buffer.
---
 crates/craballoc/src/slab/wgpu_slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab/wgpu_slab.rs b/crates/craballoc/src/slab/wgpu_slab.rs
index 8982657..8cbcb5a 100644
--- a/crates/craballoc/src/slab/wgpu_slab.rs
+++ b/crates/craballoc/src/slab/wgpu_slab.rs
@@ -17,8 +17,10 @@ impl SlabAllocator<WgpuRuntime> {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let internal_buffer = self.get_buffer().context(NoInternalBufferSnafu)?;
+        // Values that have not been committed yet may lie past the end of the buffer.
+        let buffer_len = internal_buffer.size() as usize / std::mem::size_of::<u32>();
         self.runtime
-            .buffer_read(&internal_buffer, self.len(), range)
+            .buffer_read(&internal_buffer, self.len().min(buffer_len), range)
             .await
     }
 
-- 
2.43.0


From ff571e886ff497d89a14cb86bc089307febac663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 18/24] fix: allow updating values that outlive their slab

Setting a value after its SlabAllocator was dropped panicked and poisoned the value.
---
 crates/craballoc/src/value.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 68a1325..374eeb4 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -383,8 +383,9 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
                 es
             },
         }];
-        // UNWRAP: safe because it's unbounded
-        self.notify.try_send(self.notifier_index).unwrap();
+        // Never full, because it's unbounded, but closed once the slab is dropped, in which case
+        // there is nobody left to notify.
+        let _ = self.notify.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
@@ -483,8 +484,9 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             .lock()
             .unwrap()
             .push(SlabUpdate { array, elements });
-        // UNWRAP: safe because it's unbounded
-        self.notifier.try_send(self.notifier_index).unwrap();
+        // Never full, because it's unbounded, but closed once the slab is dropped, in which case
+        // there is nobody left to notify.
+        let _ = self.notifier.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
-- 
2.43.0


From 827c963902350acb64307dcb88a56422346c21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 19/24] fix: derive SlabItem for structs without fields

---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 4b37d1d..214e758 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -524,7 +524,7 @@ fn derive_from_slab_struct(
         impl #impl_generics crabslab::SlabItem for #name #ty_generics #where_clause
         {
             const SLAB_SIZE: usize = {
-                #( <#field_tys as crabslab::SlabItem>::SLAB_SIZE )+*
+                0 #( + <#field_tys as crabslab::SlabItem>::SLAB_SIZE )*
             };
 
             fn read_slab(mut index: usize, slab: &[u32]) -> Self {
-- 
2.43.0


From 32a4ee9964b19f003ecfbb0071c379ececac999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 20/24] fix: derive SlabItem for enums with fields named like
 the derived variables

Variant fields named e.g. `index` or `slab` shadowed the parameters of the derived
functions.
---
 crates/crabslab-derive/src/lib.rs | 65 +++++++++++++++----------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 214e758..05b05f9 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -10,6 +10,15 @@ enum FieldName {
     Ident(Ident),
 }
 
+impl quote::ToTokens for FieldName {
+    fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
+        match self {
+            FieldName::Index(index) => index.to_tokens(tokens),
+            FieldName::Ident(ident) => ident.to_tokens(tokens),
+        }
+    }
+}
+
 struct FieldParams {
     field_tys: Vec<Type>,
     field_names: Vec<FieldName>,
@@ -39,6 +48,16 @@ impl FieldParams {
             field_names,
         }
     }
+
+    /// Names of variables to bind the fields to, which can't clash with other variables in the
+    /// derived functions.
+    fn variables(&self) -> Vec<Ident> {
+        self.field_tys
+            .iter()
+            .enumerate()
+            .map(|(i, ty)| Ident::new(&format!("__{i}"), ty.span()))
+            .collect()
+    }
 }
 
 fn get_struct_params(ds: &DataStruct) -> FieldParams {
@@ -251,18 +270,11 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
 
     let variant_reads = variants.iter().map(|variant| {
         let ident = &variant.variant.ident;
-        let field_names = variant
-            .fields
-            .field_names
-            .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
-            .collect::<Vec<_>>();
+        let field_names = &variant.fields.field_names;
+        let variables = variant.fields.variables();
         let field_tys = &variant.fields.field_tys;
-        let num_fields = field_names.len();
-        let reads = field_names
+        let num_fields = variables.len();
+        let reads = variables
             .iter()
             .zip(field_tys.iter())
             .enumerate()
@@ -289,7 +301,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                      #name::#ident {
-                         #(#field_names),*
+                         #(#field_names: #variables),*
                      }
                 }}
             }
@@ -297,7 +309,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                     #name::#ident(
-                        #(#field_names),*
+                        #(#variables),*
                     )
                 }}
             }
@@ -318,17 +330,9 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         })
         .collect();
     let variant_writes = variants.iter().map(|variant| {
-        let field_names = variant
-            .fields
-            .field_names
-            .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
-            .collect::<Vec<_>>();
+        let variables = variant.fields.variables();
         quote! {
-            #(let index = #field_names.write_slab(index, slab);)*
+            #(let index = #variables.write_slab(index, slab);)*
         }
     });
     let write_variants_matches: Vec<proc_macro2::TokenStream> = variants
@@ -337,28 +341,21 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         .zip(variant_writes)
         .map(|((i, variant), write)| {
             let hash = syn::LitInt::new(&i.to_string(), variant.variant.span());
-            let field_names = variant
-                .fields
-                .field_names
-                .iter()
-                .map(|name| match name {
-                    FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                    FieldName::Ident(field) => field.clone(),
-                })
-                .collect::<Vec<_>>();
+            let field_names = &variant.fields.field_names;
+            let variables = variant.fields.variables();
             let ident = &variant.variant.ident;
             let pat_match = match variant.variant.fields {
                 Fields::Named(_) => {
                     quote! {
                         #name::#ident {
-                            #(#field_names,)*
+                            #(#field_names: #variables,)*
                         }
                     }
                 }
                 Fields::Unnamed(_) => {
                     quote! {
                         #name::#ident(
-                            #(#field_names,)*
+                            #(#variables,)*
                         )
                     }
                 }
-- 
2.43.0


From aaf238695aaf7552106e02dc0a49df6390b54354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 21/24] fix: derive SlabItem for structs with raw identifiers
 as field names

The derive panicked on e.g. `r#type`.
---
 crates/crabslab-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 05b05f9..fad7db6 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -1,8 +1,8 @@
 //! Provides derive macros for `crabslab`.
 use quote::quote;
 use syn::{
-    spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed, FieldsUnnamed,
-    Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
+    ext::IdentExt, spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed,
+    FieldsUnnamed, Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
 };
 
 enum FieldName {
@@ -481,11 +481,11 @@ fn derive_from_slab_struct(
             ),
             FieldName::Ident(field) => (
                 Ident::new(
-                    &format!("OFFSET_OF_{}", field.to_string().to_uppercase()),
+                    &format!("OFFSET_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
                 Ident::new(
-                    &format!("SLAB_SIZE_OF_{}", field.to_string().to_uppercase()),
+                    &format!("SLAB_SIZE_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
             ),
-- 
2.43.0


From d0f97e753faa29b4134b0fa112db3e56cb755474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 22/24] fix: derive offsets for generic structs

The offsets lacked the bounds that the SlabItem implementation has.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index fad7db6..c4ff3af 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -508,7 +508,7 @@ fn derive_from_slab_struct(
         quote! {
             #[automatically_derived]
             /// Offsets into the slab buffer for each field.
-            impl #impl_generics #name #ty_generics {
+            impl #impl_generics #name #ty_generics #where_clause {
                 #(#offsets)*
             }
         }
-- 
2.43.0


From f365a47c01d5ee73af6f5ceeeea97249d6b45792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 23/24] fix: return nothing for the sub slab of an empty array

---
 crates/crabslab/src/array.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/crabslab/src/array.rs b/crates/crabslab/src/array.rs
index b2fdc8b..f952d76 100644
--- a/crates/crabslab/src/array.rs
+++ b/crates/crabslab/src/array.rs
@@ -178,6 +178,10 @@ impl<T> Array<T> {
         T: SlabItem,
     {
         let arr = self.into_u32_array();
+        if arr.is_empty() {
+            // An empty array may be null, or point past the end of the slab
+            return &[];
+        }
         &slab[arr.index as usize..(arr.index + arr.len) as usize]
     }
 }
-- 
2.43.0


From c114207a4f9e0bf5ec9a95d941428622a5895594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 24/24] fix: let structs contain arrays of themselves

---
 crates/crabslab/src/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/crabslab/src/array.rs b/crates/crabslab/src/array.rs
index f952d76..4694d52 100644
--- a/crates/crabslab/src/array.rs
+++ b/crates/crabslab/src/array.rs
@@ -89,7 +89,7 @@ impl<T> PartialEq for Array<T> {
     }
 }
 
-impl<T: SlabItem> SlabItem for Array<T> {
+impl<T: core::any::Any> SlabItem for Array<T> {
     const SLAB_SIZE: usize = 2;
 
     fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
@@ -104,7 +104,7 @@ impl<T: SlabItem> SlabItem for Array<T> {
     }
 }
 
-impl<T: SlabItem> Default for Array<T> {
+impl<T> Default for Array<T> {
     fn default() -> Self {
         Array::NONE
     }
-- 
2.43.0

