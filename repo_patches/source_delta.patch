From 1a9e5a52170446706ee615ea999ed3a0e04c3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 1/7] fix: advance versions before touching state in destroy

The overflow panics for the slot and archetype versions fired after the
component data had been moved out of the storage but before its length was
decremented, leaving a freed component readable (and dropped twice) and a
destroy event logged for an entity that was still present.
---
 src/archetype/slot.rs    |  8 ++++----
 src/archetype/storage.rs | 13 +++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..d6331e8 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -150,13 +150,13 @@ impl Slot {
         // NOTE: We increment the version on release, not assignment.
     }
 
-    /// Releases a slot and increments its version, invalidating all handles.
-    /// Returns an `EcsError::VersionOverflow` if the version increment overflows.
+    /// Releases a slot and assigns it the given next version, invalidating all handles.
+    /// The next version is computed by the caller, since advancing it may panic on overflow.
     #[inline(always)]
-    pub(crate) fn release(&mut self, index_next_free: SlotIndex) {
+    pub(crate) fn release(&mut self, index_next_free: SlotIndex, next_version: SlotVersion) {
         debug_assert!(self.is_free() == false);
         self.index = index_next_free;
-        self.version = self.version.next();
+        self.version = next_version;
     }
 }
 
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..7e4f929 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -553,6 +553,15 @@ macro_rules! declare_storage_n {
                         let entities = self.entities.slice(self.len);
                         debug_assert!(entities.len() == self.len);
 
+                        // Advancing either version may panic on overflow, so we need to do that
+                        // before making any changes in order to leave the storage consistent.
+                        // SAFETY: We know that the slot storage is valid up to our capacity.
+                        let next_slot_version = self.slots.slice(self.capacity())
+                            .get_unchecked(slot_index_usize) // SAFETY: See declaration.
+                            .version()
+                            .next();
+                        let next_version = self.version.next();
+
                         // Make sure the entity backtracks to the same slot we're removing now.
                         debug_assert!(entities[dense_index_usize].slot_index() == slot_index);
                         debug_assert_eq!(
@@ -589,10 +598,10 @@ macro_rules! declare_storage_n {
                         // Return the target slot to the free list
                         slots
                             .get_unchecked_mut(slot_index_usize) // SAFETY: See declaration.
-                            .release(self.free_head);
+                            .release(self.free_head, next_slot_version);
 
                         // Advance this storage's overall version (for add/removes).
-                        self.version = self.version.next();
+                        self.version = next_version;
 
                         result
                     };
-- 
2.43.0


From 23671334aa79e7c5e85c8f42293d4737d9fbdff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 2/7] fix: hand out current direct handles in ecs_iter_destroy!

The archetype version was read once before the loop, so every direct handle
passed to the closure after the first removal was already stale.
---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..570520f 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // This changes with each removal, so we need to get it each time.
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From d31ee571e203b21d3406b9e689fa9612562a4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 3/7] fix: reject stale direct handles in to_direct

Converting a direct handle with to_direct returned it as is, even if it had
been invalidated by a removal or came from somewhere else entirely.
---
 src/archetype/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 7e4f929..e387318 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -671,7 +671,9 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    // We're already an EntityDirect, but we may no longer be valid.
+                    let (_, _) = self.resolve_direct(entity)?;
+                    Some(entity)
                 }
 
                 #[inline]
-- 
2.43.0


From 326d128976751d9ffd28a8d937f4717203d66feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 4/7] fix: drop already cloned components when a clone panics

If cloning a component panicked partway through cloning a world, then all of
the components that were already cloned for that archetype, and the arrays
storing them, were leaked.
---
 src/archetype/storage.rs | 47 +++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index e387318..1e0090c 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -728,12 +728,24 @@ macro_rules! declare_storage_n {
                 fn clone(&self) -> Self {
                     #(let ref_d~I = self.d~I.borrow();)*
 
-                    let mut new_slots = DataPtr::with_capacity(self.capacity);
-                    let mut new_entities = DataPtr::with_capacity(self.capacity);
-                    #(let mut new_d~I = DataPtr::with_capacity(self.capacity);)*
+                    // Start with an empty storage, so if cloning a component panics then the new
+                    // storage will drop everything that we successfully cloned up to that point.
+                    let mut result = Self {
+                        len: 0,
+                        version: self.version,
+                        capacity: self.capacity,
+                        free_head: self.free_head,
+                        slots: DataPtr::with_capacity(self.capacity),
+                        entities: DataPtr::with_capacity(self.capacity),
+                        #(d~I: RefCell::new(DataPtr::with_capacity(self.capacity)),)*
 
-                    unsafe {
+                        #[cfg(feature = "events")]
+                        created: self.created.clone(),
+                        #[cfg(feature = "events")]
+                        destroyed: self.destroyed.clone(),
+                    };
 
+                    unsafe {
                         // SAFETY: We know that the storage is valid up to self.len.
                         let old_slots = self.slots.slice(self.capacity);
                         let old_entities = self.entities.slice(self.len);
@@ -742,31 +754,22 @@ macro_rules! declare_storage_n {
                         for idx in 0..self.capacity {
                             // SAFETY: We know that the slot storage is valid up to our capacity,
                             // and the new storage has no data that needs to be dropped first.
-                            new_slots.write(idx, old_slots.get_unchecked(idx).clone());
+                            result.slots.write(idx, old_slots.get_unchecked(idx).clone());
                         }
 
                         for idx in 0..self.len {
+                            // Clone all of the components first, since any of these can panic.
+                            #(let new_~I = old_~I.get_unchecked(idx).clone();)*
+
                             // SAFETY: We know that the slot storage is valid up to our len,
                             // and the new storage has no data that needs to be dropped first.
-                            new_entities.write(idx, old_entities.get_unchecked(idx).clone());
-                            #(new_d~I.write(idx, old_~I.get_unchecked(idx).clone());)*
-                        }
-
-                        Self {
-                            len: self.len,
-                            version: self.version,
-                            capacity: self.capacity,
-                            free_head: self.free_head,
-                            slots: new_slots,
-                            entities: new_entities,
-                            #(d~I: RefCell::new(new_d~I),)*
-
-                            #[cfg(feature = "events")]
-                            created: self.created.clone(),
-                            #[cfg(feature = "events")]
-                            destroyed: self.destroyed.clone(),
+                            result.entities.write(idx, old_entities.get_unchecked(idx).clone());
+                            #(result.d~I.get_mut().write(idx, new_~I);)*
+                            result.len += 1;
                         }
                     }
+
+                    result
                 }
             }
 
-- 
2.43.0


From 9af11c5e3f6c4705688c660d43a11b64c4649ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 5/7] fix: drop the rest of the world when dropping a component
 panics

If dropping a component panicked while dropping an archetype, then all of the
remaining components in that archetype and its arrays were leaked.
---
 src/archetype/storage.rs | 63 ++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 1e0090c..fd8697a 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -690,16 +690,23 @@ macro_rules! declare_storage_n {
             {
                 #[inline(always)]
                 fn drop(&mut self) {
-                    // SAFETY: We guarantee that the storage is valid up to self.len.
                     unsafe {
-                        #(self.d~I.get_mut().drop_to(self.len);)*
-                        // We don't need to drop the other stuff since it's all trivial.
-
+                        // We don't need to drop these since their contents are all trivial.
                         // For dynamic storage we need to deallocate when dropping.
                         self.slots.dealloc(self.capacity);
                         self.entities.dealloc(self.capacity);
-                        #(self.d~I.get_mut().dealloc(self.capacity);)*
-                    };
+                    }
+
+                    // If dropping a component panics, we still need to drop everything else.
+                    // SAFETY: We guarantee that the storage is valid up to self.len, and
+                    // that each data array has exactly self.capacity elements allocated.
+                    let _columns = (#(
+                        DropColumn {
+                            data: self.d~I.get_mut(),
+                            len: self.len,
+                            capacity: self.capacity,
+                        },
+                    )*);
                 }
             }
 
@@ -1062,6 +1069,8 @@ impl<T> DataPtr<T> {
 
     /// Drops all elements in the range `0..len`.
     ///
+    /// If dropping an element panics, this will still drop the remaining elements.
+    ///
     /// # Safety
     ///
     /// It is up to the caller to guarantee the following:
@@ -1070,16 +1079,46 @@ impl<T> DataPtr<T> {
     #[inline(always)]
     unsafe fn drop_to(&mut self, len: usize) {
         unsafe {
-            for i in 0..len {
-                let i_ptr = self.0.as_ptr().add(i);
-                // SAFETY: The caller guarantees this element is valid.
-                ptr::drop_in_place(i_ptr as *mut T);
-                ptr::write(i_ptr, MaybeUninit::uninit()); // Hint for Miri
-            }
+            // SAFETY: The caller guarantees these elements are valid.
+            ptr::drop_in_place(self.slice_mut(len));
         };
     }
 }
 
+/// Drops and deallocates a column of component data when dropped.
+///
+/// # Safety
+///
+/// It is up to the creator to guarantee the following:
+/// - All elements in the range `0..len` are valid
+/// - The array has exactly `capacity` elements allocated
+struct DropColumn<'a, T> {
+    data: &'a mut DataPtr<T>,
+    len: usize,
+    capacity: usize,
+}
+
+impl<T> Drop for DropColumn<'_, T> {
+    #[inline(always)]
+    fn drop(&mut self) {
+        if self.len > 0 {
+            // Deallocate even if dropping the data panics, by dropping it with this column
+            // already set up to be emptied as we leave the function.
+            let column = DropColumn {
+                data: &mut *self.data,
+                len: 0,
+                capacity: self.capacity,
+            };
+
+            // SAFETY: The creator guarantees that these elements are valid.
+            unsafe { column.data.drop_to(self.len) };
+        } else {
+            // SAFETY: The creator guarantees that this is the allocated capacity.
+            unsafe { self.data.dealloc(self.capacity) };
+        }
+    }
+}
+
 #[inline(always)]
 fn new_layout<T>(capacity: usize) -> Layout {
     let layout = Layout::array::<T>(capacity).unwrap();
-- 
2.43.0


From f6f9825df8de15d0a89329f72756884bdb4ac02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 6/7] verification hook: preset generations (cfg gecs_verif)

---
 src/archetype/slot.rs    |  6 ++++++
 src/archetype/storage.rs | 16 ++++++++++++++++
 src/lib.rs               |  1 +
 src/version.rs           |  6 ++++++
 4 files changed, 29 insertions(+)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index d6331e8..d62cc0b 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -158,6 +158,12 @@ impl Slot {
         self.index = index_next_free;
         self.version = next_version;
     }
+
+    /// Verification hook, not a part of the API. Presets this slot's generation.
+    #[cfg(gecs_verif)]
+    pub(crate) fn verif_set_version(&mut self, version: std::num::NonZeroU32) {
+        self.version = SlotVersion::new(version);
+    }
 }
 
 // Need to enforce this invariant here just in case.
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index fd8697a..c0513ea 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -444,6 +444,22 @@ macro_rules! declare_storage_n {
                     }
                 }
 
+                /// Verification hook, not a part of the API. Presets the generations of this
+                /// storage and all of its slots, as if it had already seen that much use.
+                #[cfg(gecs_verif)]
+                #[doc(hidden)]
+                pub fn verif_preset_versions(
+                    &mut self,
+                    slot: std::num::NonZeroU32,
+                    arch: std::num::NonZeroU32,
+                ) {
+                    assert!(self.len == 0);
+                    self.version = ArchetypeVersion::verif_new(arch);
+                    // SAFETY: We know that the slot storage is valid up to our capacity.
+                    let slots = unsafe { self.slots.slice_mut(self.capacity) };
+                    slots.iter_mut().for_each(|s| s.verif_set_version(slot));
+                }
+
                 /// Grows the storage structure to accommodate more data.
                 ///
                 /// This wipes the current free list and rebuilds it, including the list head.
diff --git a/src/lib.rs b/src/lib.rs
index e9a2920..e3c79c2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // For cfg(gecs_verif), which guards verification hooks
 #![allow(clippy::type_complexity)] // lol
 #![allow(clippy::too_many_arguments)] // lmao
 #![allow(clippy::needless_doctest_main)] // this has false positives with gecs's macros
diff --git a/src/version.rs b/src/version.rs
index 1149a9b..4f058af 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -47,6 +47,12 @@ impl SlotVersion {
 }
 
 impl ArchetypeVersion {
+    /// Verification hook, not a part of the API. Creates a version with the given value.
+    #[cfg(gecs_verif)]
+    pub(crate) fn verif_new(version: NonZeroU32) -> Self {
+        Self { version }
+    }
+
     #[inline(always)]
     pub(crate) fn start() -> Self {
         Self {
-- 
2.43.0


From 5350ec91626f399cc3674dede506ce97cae1a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:47 +0000
Subject: [PATCH 7/7] fix: check that a growing archetype fits before
 reallocating any of it

If the allocation size of one column overflows, create panics. By then the
slots, the entities and any earlier columns were already reallocated, while
the recorded capacity stayed the same, so that they were later reallocated or
deallocated with the wrong layout.
---
 src/archetype/storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index c0513ea..1fbefad 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -474,6 +474,12 @@ macro_rules! declare_storage_n {
                     let new_capacity = self.capacity.saturating_add(1).saturating_mul(2);
                     let new_capacity = new_capacity.min(MAX_DATA_CAPACITY as usize);
 
+                    // Growing may panic if an allocation would be too large, so we need to check
+                    // for that before making any changes in order to leave the storage consistent.
+                    new_layout::<Slot>(new_capacity);
+                    new_layout::<Entity<A>>(new_capacity);
+                    #(new_layout::<T~I>(new_capacity);)*
+
                     unsafe {
                         // SAFETY: We know new_capacity > self.capacity and is nonzero.
                         self.slots.grow(self.capacity, new_capacity);
-- 
2.43.0

