From 93eb27ddf15afa554ec6b28ed5c93462ef37644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 01/15] Guarded seam: simulator-controlled query locks (cfg
 ellecs_sim, off by default)

---
 arche_tape/src/entity_builder.rs |   2 +-
 arche_tape/src/lib.rs            |  11 ++-
 arche_tape/src/sync.rs           | 148 +++++++++++++++++++++++++++++++
 arche_tape/src/world.rs          |   2 +-
 4 files changed, 158 insertions(+), 5 deletions(-)
 create mode 100644 arche_tape/src/sync.rs

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 707178d..988550a 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -275,7 +275,7 @@ impl<'a> EntityBuilder<'a> {
                 let entry = self.world.lock_lookup.entry(*id);
                 if let Entry::Vacant(entry) = entry {
                     entry.insert(self.world.locks.len());
-                    self.world.locks.push(std::sync::RwLock::new(()));
+                    self.world.locks.push(crate::sync::RwLock::new(()));
                 }
             }
 
diff --git a/arche_tape/src/lib.rs b/arche_tape/src/lib.rs
index 140d04c..7af4af4 100644
--- a/arche_tape/src/lib.rs
+++ b/arche_tape/src/lib.rs
@@ -1,4 +1,4 @@
-#![allow(clippy::bool_comparison)]
+#![allow(clippy::bool_comparison, unexpected_cfgs)]
 #![feature(unsafe_block_in_unsafe_fn, int_bits_const)]
 #![deny(unsafe_op_in_unsafe_fn)]
 
@@ -23,6 +23,7 @@ pub mod world;
 pub(crate) mod array_vec;
 pub(crate) mod dyn_query;
 pub(crate) mod static_query;
+mod sync;
 
 pub use dyn_query::DynQuery;
 pub use dyn_query::FetchType;
@@ -31,6 +32,9 @@ pub use static_query::EcsIds;
 pub use static_query::StaticQuery;
 pub use world::World;
 
+#[cfg(ellecs_sim)]
+pub use sync::sim;
+
 #[cfg(test)]
 mod tests {
     mod bitset_iterator;
@@ -42,9 +46,10 @@ mod tests {
 }
 
 pub(crate) mod utils {
+    use crate::sync::{RwLockReadGuard, RwLockWriteGuard};
+    use std::convert::TryInto;
+    use std::hash::BuildHasher;
     use std::hash::Hasher;
-    use std::{convert::TryInto, sync::RwLockReadGuard};
-    use std::{hash::BuildHasher, sync::RwLockWriteGuard};
 
     pub enum EitherGuard<'a> {
         Read(RwLockReadGuard<'a, ()>),
diff --git a/arche_tape/src/sync.rs b/arche_tape/src/sync.rs
new file mode 100644
index 0000000..aad374b
--- /dev/null
+++ b/arche_tape/src/sync.rs
@@ -0,0 +1,148 @@
+//! The reader/writer lock that arbitrates queries. This is `std::sync::RwLock` unless the crate is
+//! built with `--cfg ellecs_sim`, where a simulator decides who is granted a lock, and when.
+
+#[cfg(not(ellecs_sim))]
+pub use std::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
+
+#[cfg(ellecs_sim)]
+pub use self::sim::{RwLock, RwLockReadGuard, RwLockWriteGuard};
+
+#[cfg(ellecs_sim)]
+#[allow(missing_docs, dead_code)]
+pub mod sim {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+    /// What a simulator is told, and decides, about every lock. Locks are named by their address,
+    /// which is stable while the lock is held or waited for.
+    pub trait LockSim: Sync {
+        /// Returns once the simulator grants the lock. May unwind to end a simulated thread.
+        fn acquire(&self, lock: usize, write: bool);
+        /// Returns whether the lock was granted.
+        fn try_acquire(&self, lock: usize, write: bool) -> bool;
+        fn release(&self, lock: usize, write: bool);
+    }
+
+    static SIM: OnceLock<&'static dyn LockSim> = OnceLock::new();
+
+    pub fn install(sim: &'static dyn LockSim) {
+        let _ = SIM.set(sim);
+    }
+
+    #[derive(Default, Debug)]
+    pub struct RwLock<T> {
+        // So that locks have different addresses whatever T is
+        _addr: u8,
+        inner: std::sync::RwLock<T>,
+    }
+
+    struct Held(usize, bool);
+    impl Drop for Held {
+        fn drop(&mut self) {
+            if let Some(sim) = SIM.get() {
+                sim.release(self.0, self.1);
+            }
+        }
+    }
+
+    // Fields drop in order: the real lock is released before the simulator is told
+    pub struct RwLockReadGuard<'a, T>(std::sync::RwLockReadGuard<'a, T>, Held);
+    pub struct RwLockWriteGuard<'a, T>(std::sync::RwLockWriteGuard<'a, T>, Held);
+
+    impl<'a, T> Deref for RwLockReadGuard<'a, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            &self.0
+        }
+    }
+    impl<'a, T> Deref for RwLockWriteGuard<'a, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            &self.0
+        }
+    }
+    impl<'a, T> DerefMut for RwLockWriteGuard<'a, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            &mut self.0
+        }
+    }
+
+    impl<T> RwLock<T> {
+        pub fn new(t: T) -> Self {
+            RwLock {
+                _addr: 0,
+                inner: std::sync::RwLock::new(t),
+            }
+        }
+
+        fn acquire(&self, write: bool) -> Held {
+            let addr = self as *const Self as usize;
+            if let Some(sim) = SIM.get() {
+                sim.acquire(addr, write);
+            }
+            Held(addr, write)
+        }
+
+        fn try_acquire(&self, write: bool) -> Option<Held> {
+            let addr = self as *const Self as usize;
+            match SIM.get() {
+                Some(sim) if !sim.try_acquire(addr, write) => None,
+                _ => Some(Held(addr, write)),
+            }
+        }
+
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            let held = self.acquire(false);
+            match self.inner.read() {
+                Ok(g) => Ok(RwLockReadGuard(g, held)),
+                Err(e) => Err(PoisonError::new(RwLockReadGuard(e.into_inner(), held))),
+            }
+        }
+
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            let held = self.acquire(true);
+            match self.inner.write() {
+                Ok(g) => Ok(RwLockWriteGuard(g, held)),
+                Err(e) => Err(PoisonError::new(RwLockWriteGuard(e.into_inner(), held))),
+            }
+        }
+
+        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+            let held = self.try_acquire(false).ok_or(TryLockError::WouldBlock)?;
+            match self.inner.try_read() {
+                Ok(g) => Ok(RwLockReadGuard(g, held)),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                    RwLockReadGuard(e.into_inner(), held),
+                ))),
+            }
+        }
+
+        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+            let held = self.try_acquire(true).ok_or(TryLockError::WouldBlock)?;
+            match self.inner.try_write() {
+                Ok(g) => Ok(RwLockWriteGuard(g, held)),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                    RwLockWriteGuard(e.into_inner(), held),
+                ))),
+            }
+        }
+
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.inner.get_mut()
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            self.inner.into_inner()
+        }
+
+        pub fn is_poisoned(&self) -> bool {
+            self.inner.is_poisoned()
+        }
+
+        pub fn clear_poison(&self) {
+            self.inner.clear_poison()
+        }
+    }
+}
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6381270..99671e8 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -4,11 +4,11 @@ use crate::{
     bitset_iterator::{BitsetIterator, Bitsetsss, Bitvec},
     dyn_query::{DynQuery, FetchType},
     static_query::StaticQuery,
+    sync::RwLock,
     Component,
 };
 use std::cell::UnsafeCell;
 use std::collections::HashMap;
-use std::sync::RwLock;
 use std::{any::TypeId, slice::Iter};
 use untyped_vec::UntypedVec;
 
-- 
2.43.0


From a018a577c258288e9229d037f0d15a0cb5d6bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 02/15] fix: UntypedVec views and pops of zero-sized elements,
 aligned pointers when nothing is allocated

pop() on an empty vec of zero-sized elements ran the destructor and returned true, as_slice divided by
zero for them, and element pointers of an unallocated vec were not aligned to the element's layout.
---
 untyped_vec/src/lib.rs | 45 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 96c5f89..8a7c48d 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -77,6 +77,15 @@ impl UntypedVec {
         self.len == 0
     }
 
+    /// Where the elements are, this is aligned for them even if nothing is allocated
+    fn base_ptr(&self) -> *mut u8 {
+        if self.cap == 0 {
+            self.type_info.layout.align() as *mut u8
+        } else {
+            self.data.as_ptr()
+        }
+    }
+
     pub fn realloc(&mut self) {
         if self.type_info.layout.size() == 0 {
             panic!("Attempted to reallocate an UntypedVec who's data is size 0");
@@ -149,7 +158,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.base_ptr())
             } else {
                 None
             }
@@ -176,7 +185,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.base_ptr())
             } else {
                 None
             }
@@ -198,9 +207,13 @@ impl UntypedVec {
 
     /// Returns true if a value was popped
     pub fn pop(&mut self) -> bool {
-        if self.type_info.layout.size() == 0 && self.len > 0 {
+        if self.len == 0 {
+            return false;
+        }
+
+        if self.type_info.layout.size() == 0 {
             self.len -= 1;
-            let ptr = self.data.as_ptr();
+            let ptr = self.base_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
 
             if let Some(drop_fn) = self.type_info.drop_fn {
@@ -309,18 +322,12 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice<'a, T: 'static>(&'a self) -> &'a [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
-
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts(self.data.as_ptr() as *const T, slice_len)
+            std::slice::from_raw_parts(self.base_ptr() as *const T, slice_len)
         }
     }
 
@@ -330,18 +337,12 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice_mut<'a, T: 'static>(&'a mut self) -> &'a mut [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
-
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, slice_len)
+            std::slice::from_raw_parts_mut(self.base_ptr() as *mut T, slice_len)
         }
     }
 
@@ -349,14 +350,14 @@ impl UntypedVec {
     ///
     /// Must not mutate through this ptr or use it after it has been invalidated
     pub unsafe fn as_immut_ptr(&self) -> *const u8 {
-        self.data.as_ptr()
+        self.base_ptr()
     }
 
     /// # Safety
     ///
     /// Must not use this ptr after it has been invalidated
     pub unsafe fn as_mut_ptr(&mut self) -> *mut u8 {
-        self.data.as_ptr()
+        self.base_ptr()
     }
 }
 
-- 
2.43.0


From bc0baadb3f19c98af72ddddb7a5dcf5b4529241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 03/15] fix: UntypedVec drops zero-sized elements, and all
 elements if a destructor unwinds

Dropping the vec skipped every element if nothing had been allocated, which is always the case for
zero-sized elements, and leaked the rest of the elements and the memory if one destructor panicked.
---
 untyped_vec/src/lib.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 8a7c48d..19e167d 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -363,17 +363,30 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        if self.cap > 0 {
-            while self.pop() {}
+        // If the destructor of an element unwinds the remaining elements still have to be dropped and the memory freed
+        struct DropRemaining<'a>(&'a mut UntypedVec);
 
-            let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
-            let ptr = self.data.as_ptr();
-
-            // Safe because we allocate this memory ourself so it must be from this allocator.
-            // Safe because when we allocate memory we set cap to the size we used in the layout and
-            // the align we use for the allocation is always self.type_info.layout.align()
-            unsafe { dealloc(ptr, layout) }
+        impl<'a> Drop for DropRemaining<'a> {
+            fn drop(&mut self) {
+                while self.0.pop() {}
+
+                if self.0.cap > 0 {
+                    let layout =
+                        Layout::from_size_align(self.0.cap, self.0.type_info.layout.align())
+                            .unwrap();
+                    let ptr = self.0.data.as_ptr();
+
+                    // Safe because we allocate this memory ourself so it must be from this allocator.
+                    // Safe because when we allocate memory we set cap to the size we used in the layout and
+                    // the align we use for the allocation is always self.type_info.layout.align()
+                    unsafe { dealloc(ptr, layout) }
+                }
+            }
         }
+
+        // Zero sized elements are dropped as well, cap is always zero for them
+        let remaining = DropRemaining(self);
+        while remaining.0.pop() {}
     }
 }
 
-- 
2.43.0


From 2a4bd318fad51018943b6147eb4503deb4f89fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 04/15] fix: EntityBuilder refuses to build twice, or with a
 component twice, before touching the world

Building twice added the entity and bitwise copies of its components a second time. A repeated
component was only refused when a new archetype was created, otherwise columns got out of step.
---
 arche_tape/src/entity_builder.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 988550a..ad1f25a 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -22,6 +22,9 @@ pub struct EntityBuilder<'a> {
 
     num_components: usize,
 
+    /// From when this is set the components belong to the world
+    built: bool,
+
     world: &'a mut World,
 }
 
@@ -75,6 +78,7 @@ impl<'a> EntityBuilder<'a> {
             entity,
             world,
             num_components: 0,
+            built: false,
         }
     }
 
@@ -94,6 +98,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -129,6 +134,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -228,6 +234,20 @@ impl<'a> EntityBuilder<'a> {
 
     pub fn build(&mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
+
+        assert!(
+            self.built == false,
+            "EntityBuilder::build may only be called once"
+        );
+        // Nothing has been touched yet if this is refused, an archetype with as many components may exist
+        for (n, id) in self.comp_ids.iter().enumerate() {
+            assert!(
+                self.comp_ids[..n].contains(id) == false,
+                "Attempted to add the same component twice in EntityBuilder"
+            );
+        }
+        self.built = true;
+
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
                 .entities
-- 
2.43.0


From 7492a42de212ff2c49f7849a47ea00351df0bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 05/15] fix: dropping an EntityBuilder that was not built drops
 its components and frees its id

Both were leaked. A component is only recorded once its data is in the builder, so that a refused
component is not taken for one that was handed over.
---
 arche_tape/src/entity_builder.rs | 33 +++++++++++++++++++++++++++++++-
 arche_tape/src/world.rs          |  5 +++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index ad1f25a..39badbd 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -30,6 +30,9 @@ pub struct EntityBuilder<'a> {
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
+        // These are dropped last so that nothing else is skipped if one of their destructors unwinds
+        let _abandoned = self.take_abandoned();
+
         // If it never allocated, don't drop
         if self.cap != 0 {
             if let None = self.world.entity_builder_reuse {
@@ -62,6 +65,34 @@ impl<'a> Drop for EntityBuilder<'a> {
 }
 
 impl<'a> EntityBuilder<'a> {
+    /// If the entity was not built, gives its id back and returns the components that were handed over
+    fn take_abandoned(&mut self) -> Vec<UntypedVec> {
+        if self.built {
+            return Vec::new();
+        }
+        self.built = true;
+        self.world.forget_unbuilt(self.entity);
+
+        let mut components = Vec::with_capacity(self.comp_ids.len());
+        let mut data_ptr = self.data.as_ptr();
+        for &comp_id in &self.comp_ids {
+            let component_meta = &self.world.get_entity_meta(comp_id).unwrap().component_meta;
+
+            // The data in self.data is not aligned so it has to be moved before it can be dropped
+            unsafe {
+                let mut component = UntypedVec::new_from_raw(TypeInfo::new(
+                    component_meta.layout,
+                    component_meta.drop_fn,
+                ));
+                component.push_raw(data_ptr.cast());
+                components.push(component);
+
+                data_ptr = data_ptr.offset(component_meta.layout.size() as isize);
+            }
+        }
+        components
+    }
+
     pub(crate) fn new_from_world_cache(
         world: &'a mut World,
         entity: EcsId,
@@ -197,7 +228,6 @@ impl<'a> EntityBuilder<'a> {
         component: *mut u8,
         component_id: EcsId,
     ) -> Self {
-        self.comp_ids.push(component_id);
         let component_size = self
             .world
             .get_entity_meta(component_id)
@@ -211,6 +241,7 @@ impl<'a> EntityBuilder<'a> {
             let new_size = usize::max(required_size, self.cap * 2);
             self.realloc(new_size);
         }
+        self.comp_ids.push(component_id);
 
         unsafe {
             std::ptr::copy_nonoverlapping::<MaybeUninit<u8>>(
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 99671e8..2fe7935 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -462,6 +462,11 @@ impl World {
         self.ecs_id_meta.get(entity.uindex())?.as_ref()
     }
 
+    /// Frees the id of an entity that was spawned but never built
+    pub(crate) fn forget_unbuilt(&mut self, entity: EcsId) {
+        self.entities.despawn(entity);
+    }
+
     pub(crate) fn set_entity_meta(&mut self, entity: EcsId, meta: EntityMeta) {
         if self.entities.is_alive(entity) {
             let new_meta = Some(meta);
-- 
2.43.0


From 651dadf5b5f7376ceb30bf6e34e70c9db1df4a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 06/15] fix: querying a component type that is registered but
 on no entity yields nothing

It panicked, because locks are only created along with the first archetype that has the component.
---
 arche_tape/src/static_query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 9496b25..0cfc03a 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -237,6 +237,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static mut T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // There is no lock for a component that no entity ever had
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Mut(id))
     }
 
@@ -259,6 +261,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // There is no lock for a component that no entity ever had
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Immut(id))
     }
 
-- 
2.43.0


From 4c11e689cab8b9f450256cb8dabbf57ae680ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 07/15] fix: get_component_mut_dynamic returns None if the
 entity does not have the component

It panicked.
---
 arche_tape/src/world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 2fe7935..85d5f2f 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -871,7 +871,7 @@ impl World {
         };
         let archetype = &mut self.archetypes[archetype_idx.0];
 
-        let component_storage_idx = archetype.comp_lookup[&comp_id];
+        let component_storage_idx = *archetype.comp_lookup.get(&comp_id)?;
 
         Some(
             archetype.component_storages[component_storage_idx]
-- 
2.43.0


From 017582d6f697ac760087c26feeed01acf99ef043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 08/15] fix: queries acquire locks in one order, and refuse to
 conflict with themselves

Locks were acquired in the order in which a query names its components, so two queries naming the same
components in opposite order could deadlock, and a query naming one component mutably and again hung.
---
 arche_tape/src/dyn_query.rs    | 14 +++--------
 arche_tape/src/static_query.rs | 10 +-------
 arche_tape/src/world.rs        | 43 ++++++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/arche_tape/src/dyn_query.rs b/arche_tape/src/dyn_query.rs
index 28e305b..ed28e8d 100644
--- a/arche_tape/src/dyn_query.rs
+++ b/arche_tape/src/dyn_query.rs
@@ -159,23 +159,15 @@ impl<'a, const N: usize> DynQuery<'a, N> {
     pub(crate) fn new(world: &'a World, fetches: [FetchType; N]) -> Self {
         let mut incomplete = false;
 
-        const NONE: EitherGuard = EitherGuard::None;
-        let mut guards = [NONE; N];
+        let guards = world.lock_fetches(&fetches);
 
-        for (fetch, guard) in fetches.iter().zip(guards.iter_mut()) {
+        for fetch in fetches.iter() {
             let ecs_id = match fetch {
                 FetchType::EcsId => continue,
                 FetchType::Immut(id) | FetchType::Mut(id) => id,
             };
 
-            if let Some(&idx) = world.lock_lookup.get(ecs_id) {
-                let lock = &world.locks[idx];
-                match fetch {
-                    FetchType::Mut(_) => *guard = EitherGuard::Write(lock.write().unwrap()),
-                    FetchType::Immut(_) => *guard = EitherGuard::Read(lock.read().unwrap()),
-                    _ => (),
-                }
-            } else {
+            if world.lock_lookup.get(ecs_id).is_none() {
                 incomplete = true;
             }
         }
diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 0cfc03a..ffb226b 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -59,15 +59,7 @@ macro_rules! impl_query_tuple {
                 })();
 
                 let guards = match &fetches {
-                    Some([$($T,)*]) => {
-                        [$(
-                            match $T {
-                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap()),
-                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap()),
-                                FetchType::EcsId => EitherGuard::None,
-                            },
-                        )*]
-                    }
+                    Some(fetches) => world.lock_fetches(fetches),
                     None => {
                         const NONE_GUARD: EitherGuard = EitherGuard::None;
                         [NONE_GUARD; $N]
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 85d5f2f..77f6967 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -5,6 +5,7 @@ use crate::{
     dyn_query::{DynQuery, FetchType},
     static_query::StaticQuery,
     sync::RwLock,
+    utils::EitherGuard,
     Component,
 };
 use std::cell::UnsafeCell;
@@ -480,6 +481,48 @@ impl World {
         }
     }
 
+    /// Acquires the locks of every component that is fetched. Components that have no lock are skipped.
+    ///
+    /// Locks are always acquired in the same order, whatever the order of the fetches is, so that queries on
+    /// different threads cannot wait for each other.
+    ///
+    /// Panics if a component is fetched mutably and another time as well, such a query could never be granted
+    pub(crate) fn lock_fetches<const N: usize>(&self, fetches: &[FetchType; N]) -> [EitherGuard<'_>; N] {
+        let mut wanted = [(usize::MAX, false); N];
+        for (fetch, wanted) in fetches.iter().zip(wanted.iter_mut()) {
+            let mutable = matches!(fetch, FetchType::Mut(_));
+            if let Some(&idx) = fetch.get_id().and_then(|id| self.lock_lookup.get(&id)) {
+                *wanted = (idx, mutable);
+            }
+        }
+        wanted.sort_unstable();
+
+        for pair in wanted.windows(2) {
+            assert!(
+                pair[0].0 == usize::MAX || pair[0].0 != pair[1].0 || (!pair[0].1 && !pair[1].1),
+                "A query may not fetch the same component more than once if it is fetched mutably"
+            );
+        }
+
+        const NONE: EitherGuard = EitherGuard::None;
+        let mut guards = [NONE; N];
+        let mut previous = usize::MAX;
+        for (&(idx, mutable), guard) in wanted.iter().zip(guards.iter_mut()) {
+            // One shared guard is enough if a component is fetched immutably more than once
+            if idx == usize::MAX || idx == previous {
+                continue;
+            }
+            previous = idx;
+
+            let lock = &self.locks[idx];
+            *guard = match mutable {
+                true => EitherGuard::Write(lock.write().unwrap()),
+                false => EitherGuard::Read(lock.read().unwrap()),
+            };
+        }
+        guards
+    }
+
     pub(crate) fn query_archetypes<'a, const N: usize>(
         &'a self,
         iters: [(Iter<'a, usize>, fn(usize) -> usize); N],
-- 
2.43.0


From dab8409cbabb86d62ec5e19edd2cab3f6d713907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 09/15] fix: a panic while a query is held does not make every
 later query on its components panic

The locks were poisoned, although nothing about the world is inconsistent after such a panic.
---
 arche_tape/src/world.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 77f6967..68e0def 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -10,6 +10,7 @@ use crate::{
 };
 use std::cell::UnsafeCell;
 use std::collections::HashMap;
+use std::sync::PoisonError;
 use std::{any::TypeId, slice::Iter};
 use untyped_vec::UntypedVec;
 
@@ -514,10 +515,11 @@ impl World {
             }
             previous = idx;
 
+            // The locks guard no data of their own, that a panic happened while one was held changes nothing
             let lock = &self.locks[idx];
             *guard = match mutable {
-                true => EitherGuard::Write(lock.write().unwrap()),
-                false => EitherGuard::Read(lock.read().unwrap()),
+                true => EitherGuard::Write(lock.write().unwrap_or_else(PoisonError::into_inner)),
+                false => EitherGuard::Read(lock.read().unwrap_or_else(PoisonError::into_inner)),
             };
         }
         guards
-- 
2.43.0


From 3d20b4166f0ee3cfc4cf2549e748c1399220e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 10/15] fix: a component's destructor that unwinds leaves the
 world consistent

Destructors ran before the bookkeeping of despawn and remove_component was done. If one unwound, the
entity stayed alive with columns of different lengths.
---
 arche_tape/src/world.rs | 48 ++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 68e0def..6aaa240 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -180,13 +180,7 @@ impl Archetype {
     ) -> bool {
         assert!(self.entities[entity_idx] == entity);
         self.entities.swap_remove(entity_idx);
-        for storage in self
-            .component_storages
-            .iter_mut()
-            .map(|(_, cell)| cell.get_mut())
-        {
-            storage.swap_remove(entity_idx);
-        }
+
         entity_metas[entity.uindex()] = None;
 
         if let Some(&swapped_entity) = self.entities.get(entity_idx) {
@@ -197,6 +191,32 @@ impl Archetype {
                 .index = entity_idx;
         }
 
+        // Destructors run last, and if one of them unwinds the remaining components are still removed
+        struct SwapRemove<'a> {
+            storages: std::slice::IterMut<'a, (EcsId, UnsafeCell<UntypedVec>)>,
+            entity_idx: usize,
+        }
+
+        impl<'a> SwapRemove<'a> {
+            fn run(&mut self) {
+                while let Some((_, storage)) = self.storages.next() {
+                    storage.get_mut().swap_remove(self.entity_idx);
+                }
+            }
+        }
+
+        impl<'a> Drop for SwapRemove<'a> {
+            fn drop(&mut self) {
+                self.run();
+            }
+        }
+
+        SwapRemove {
+            storages: self.component_storages.iter_mut(),
+            entity_idx,
+        }
+        .run();
+
         false
     }
 
@@ -353,8 +373,9 @@ impl World {
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
 
-        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
+        // The destructors of the components may unwind, so the entity has to be dead before they run
         self.entities.despawn(entity);
+        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         true
     }
 
@@ -875,11 +896,6 @@ impl World {
             skipped_storage = Some(current_archetype.component_storages.len() - 1);
         }
 
-        current_archetype.component_storages[skipped_storage.unwrap()]
-            .1
-            .get_mut()
-            .swap_remove(entity_idx);
-
         target_archetype.entities.push(entity);
         self.ecs_id_meta[entity.uindex()]
             .as_mut()
@@ -897,6 +913,12 @@ impl World {
                 .instance_meta
                 .index = entity_idx;
         }
+
+        // The destructor may unwind, so it only runs after everything else is done
+        current_archetype.component_storages[skipped_storage.unwrap()]
+            .1
+            .get_mut()
+            .swap_remove(entity_idx);
     }
 
     pub fn get_component_mut_dynamic(&mut self, entity: EcsId, comp_id: EcsId) -> Option<*mut u8> {
-- 
2.43.0


From 20f4c3afe65ab4e8db5b82f3710a3b0303ec66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 11/15] fix: World::despawn removes the entity from the
 entities it is a component of

This was documented, but not implemented: it panicked if an archetype with the component exists. The id
of a component type also stayed registered after it was despawned, components of the type were then
silently discarded.
---
 arche_tape/src/world.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6aaa240..4964ee7 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -363,12 +363,7 @@ impl World {
             return false;
         }
 
-        // TODO: Remove `entity` component from all entities
-        for arch in &self.archetypes {
-            if let Some(_) = arch.comp_lookup.get(&entity) {
-                todo!();
-            }
-        }
+        self.remove_component_from_all(entity);
 
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
@@ -379,6 +374,26 @@ impl World {
         true
     }
 
+    /// Removes ``comp_id`` from every entity, and everything that is known about it as a component
+    fn remove_component_from_all(&mut self, comp_id: EcsId) {
+        let with_comp = (0..self.archetypes.len())
+            .filter(|&idx| self.archetypes[idx].comp_lookup.get(&comp_id).is_some())
+            .collect::<Vec<_>>();
+
+        for &idx in &with_comp {
+            while let Some(&entity) = self.archetypes[idx].entities.last() {
+                self.remove_component_dynamic(entity, comp_id);
+            }
+        }
+
+        // Bitsets are indexed without the generation, the archetypes must not be found when the id is reused
+        for &idx in &with_comp {
+            self.archetype_bitset.set_bit(comp_id, idx, false);
+        }
+        self.lock_lookup.remove(&comp_id);
+        self.type_id_to_ecs_id.retain(|_, id| *id != comp_id);
+    }
+
     pub fn is_alive(&self, entity: EcsId) -> bool {
         self.entities.is_alive(entity)
     }
-- 
2.43.0


From 2b075d6eb54c614f46e9022a68df54ae0f719772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:09 +0000
Subject: [PATCH 12/15] fix: UntypedVec refuses to move a zero-sized element
 that does not exist

---
 untyped_vec/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 19e167d..3050043 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -245,10 +245,7 @@ impl UntypedVec {
         element: usize,
     ) {
         assert!(self.type_info == other.type_info);
-        assert!(self.len > 0);
-        assert!(
-            self.type_info.layout.size() == 0 || element < self.len / self.type_info.layout.size()
-        );
+        assert!(element < self.len());
 
         let data: *mut MaybeUninit<u8> = self.data.as_ptr() as *mut MaybeUninit<u8>;
 
-- 
2.43.0


From eb0295effa4f9cd70e004f4ccaa38ba37a4d4653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 13/15] fix: World::add_component drops the component it
 refuses

---
 arche_tape/src/world.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 4964ee7..f466f26 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -408,6 +408,8 @@ impl World {
 
     pub fn add_component<T: Component>(&mut self, entity: EcsId, component: T) {
         assert!(self.entities.is_alive(entity));
+        // From here on nothing is refused, the component would be leaked
+        assert!(!self.has_component::<T>(entity));
         let comp_id = self.get_or_create_type_id_ecsid::<T>();
         let mut component = core::mem::ManuallyDrop::new(component);
         unsafe {
-- 
2.43.0


From dcfe7a008b60647373295457f1317a3a57bd5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 14/15] fix: World::remove_component does not register the type
 it refuses to remove

---
 arche_tape/src/world.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index f466f26..7a664fe 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -423,6 +423,8 @@ impl World {
 
     pub fn remove_component<T: Component>(&mut self, entity: EcsId) {
         assert!(self.entities.is_alive(entity));
+        // No entity has a component of a type that is unknown, it must not become known by being refused
+        assert!(self.type_id_to_ecs_id.get(&TypeId::of::<T>()).is_some());
         let comp_id = self.get_or_create_type_id_ecsid::<T>();
         self.remove_component_dynamic(entity, comp_id);
     }
-- 
2.43.0


From 7a0c2104955295e7a13b95fc2f069f4cf0772da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 15/15] fix: a component that has a destructor cannot be added
 without data

---
 arche_tape/src/entity_builder.rs |  4 +---
 arche_tape/src/world.rs          | 14 ++++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 39badbd..6ccb945 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -207,9 +207,7 @@ impl<'a> EntityBuilder<'a> {
                 .get_entity_meta(component_id)
                 .unwrap()
                 .component_meta
-                .layout
-                .size()
-                == 0
+                .is_dataless()
         );
 
         self.comp_ids.push(component_id);
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 7a664fe..8592542 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -266,11 +266,19 @@ impl ComponentMeta {
     /// Creates a ComponentMeta with the layout and drop_fn of the generic
     pub fn from_generic<T: Component>() -> Self {
         Self {
-            drop_fn: Some(component_meta_drop_fn::<T>),
+            drop_fn: match core::mem::needs_drop::<T>() {
+                true => Some(component_meta_drop_fn::<T>),
+                false => None,
+            },
             layout: core::alloc::Layout::new::<T>(),
         }
     }
 
+    /// Whether the component can be made out of nothing, anything with a destructor has to be handed over
+    pub(crate) fn is_dataless(&self) -> bool {
+        self.layout.size() == 0 && self.drop_fn.is_none()
+    }
+
     /// Creates a unit ComponentMeta, used for when the EcsId should hold no data when added as a component
     pub fn unit() -> Self {
         Self {
@@ -449,9 +457,7 @@ impl World {
             self.get_entity_meta(component_id)
                 .unwrap()
                 .component_meta
-                .layout
-                .size()
-                == 0
+                .is_dataless()
         );
 
         let mut component = core::mem::ManuallyDrop::new(());
-- 
2.43.0

