From 7c2df214285125a66e494a03daac97c83b7f132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 01/12] fix: do not mark an index as occupied when the
 get_or_insert_with closure panics

---
 src/masked.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..37dfd0f 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,11 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // Call the user provided function *before* setting the mask, if it panics then the index
+            // must stay empty.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From 9eab80a047c03fc275fe7b8edb7c46da616ad8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 02/12] fix: bind references from GuardedElement to the guard
 so they cannot alias

---
 src/masked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index 37dfd0f..02af342 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -237,11 +237,11 @@ pub struct GuardedElement<'a, S> {
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-    pub fn get(&self) -> &'a S::Item {
+    pub fn get(&self) -> &S::Item {
         unsafe { self.storage.get(self.index) }
     }
 
-    pub fn get_mut(&mut self) -> &'a mut S::Item {
+    pub fn get_mut(&mut self) -> &mut S::Item {
         unsafe { self.storage.get_mut(self.index) }
     }
 }
-- 
2.43.0


From 48b616e245cf8e7ba7fe0f4e21164309b36ddc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 03/12] fix: make MaskedStorage::raw_storage_mut unsafe, it can
 put the storage out of step with the mask

---
 src/masked.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 02af342..4f6f2db 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -33,7 +33,13 @@ impl<S: RawStorage> MaskedStorage<S> {
         &self.storage
     }
 
-    pub fn raw_storage_mut(&mut self) -> &mut S {
+    /// Mutably access the underlying raw storage.
+    ///
+    /// # Safety
+    /// The set of non-empty indexes in the storage must not be changed through the returned
+    /// reference (nor the storage replaced by one with a different set of non-empty indexes),
+    /// because it must always match the mask.
+    pub unsafe fn raw_storage_mut(&mut self) -> &mut S {
         &mut self.storage
     }
 
-- 
2.43.0


From a4de9015c171d6011b7d4de3b5f509103fa7bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 04/12] fix: keep reads and writes of RwResources disjoint in
 union and map

---
 src/resources.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/resources.rs b/src/resources.rs
index c1d18ca..4ee521d 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -77,10 +77,7 @@ where
         R2: Eq + Hash,
         F: Fn(&R) -> R2,
     {
-        RwResources {
-            reads: self.reads.iter().map(&f).collect(),
-            writes: self.writes.iter().map(&f).collect(),
-        }
+        RwResources::from_iters(self.reads.iter().map(&f), self.writes.iter().map(&f))
     }
 
     pub fn add_read(&mut self, r: R) {
@@ -120,7 +117,7 @@ where
 impl<R: Eq + Hash + Clone> Resources for RwResources<R> {
     fn union(&mut self, other: &Self) {
         for w in &other.writes {
-            self.writes.insert(w.clone());
+            self.add_write(w.clone());
         }
 
         for r in &other.reads {
-- 
2.43.0


From c3cc46e5e21b89143d94a44c137ba2f12b5b7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 05/12] fix: require Send items for storages to be Sync, as
 shared storages hand out mutable access

---
 src/storage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index be7cc71..81b1fa4 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,8 +57,12 @@ pub trait DenseStorage: RawStorage {
 
 pub struct VecStorage<T>(Vec<UnsafeCell<MaybeUninit<T>>>);
 
+// A shared reference to one of these storages is enough to hand out mutable references to its (distinct)
+// elements, and a mutable reference allows moving the element out, so sharing a storage between threads
+// requires `T: Send` as well as `T: Sync` (like `RwLock`).
+
 unsafe impl<T: Send> Send for VecStorage<T> {}
-unsafe impl<T: Sync> Sync for VecStorage<T> {}
+unsafe impl<T: Send + Sync> Sync for VecStorage<T> {}
 
 impl<T> Default for VecStorage<T> {
     fn default() -> Self {
@@ -99,7 +103,7 @@ pub struct DenseVecStorage<T> {
 }
 
 unsafe impl<T: Send> Send for DenseVecStorage<T> {}
-unsafe impl<T: Sync> Sync for DenseVecStorage<T> {}
+unsafe impl<T: Send + Sync> Sync for DenseVecStorage<T> {}
 
 impl<T> Default for DenseVecStorage<T> {
     fn default() -> Self {
@@ -166,7 +170,7 @@ impl<T> DenseStorage for DenseVecStorage<T> {
 pub struct HashMapStorage<T>(FxHashMap<Index, UnsafeCell<T>>);
 
 unsafe impl<T: Send> Send for HashMapStorage<T> {}
-unsafe impl<T: Sync> Sync for HashMapStorage<T> {}
+unsafe impl<T: Send + Sync> Sync for HashMapStorage<T> {}
 
 impl<T> Default for HashMapStorage<T> {
     fn default() -> Self {
-- 
2.43.0


From 7b0271bfffca1d59aa6c3d943fda03ebb5f24601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 06/12] fix: refuse indexes past the hibitset limit, which
 would be stored but never iterated

---
 src/entity.rs | 11 +++++------
 src/join.rs   |  7 +++++++
 src/masked.rs |  4 +++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..6784425 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -8,7 +8,7 @@ use std::{
 use hibitset::{AtomicBitSet, BitSet, BitSetLike, BitSetOr};
 use thiserror::Error;
 
-use crate::join::{Index, Join};
+use crate::join::{Index, Join, INDEX_LIMIT};
 
 #[derive(Debug, Error)]
 #[error("Entity is no longer alive or has a mismatched generation")]
@@ -146,8 +146,8 @@ impl Allocator {
     pub fn allocate(&mut self) -> Entity {
         let index = self.cache.pop().unwrap_or_else(|| {
             let index = *self.index_len.get_mut();
-            let index_len = index.checked_add(1).expect("no entity left to allocate");
-            *self.index_len.get_mut() = index_len;
+            assert!(index < INDEX_LIMIT, "no entity left to allocate");
+            *self.index_len.get_mut() = index + 1;
             self.update_generation_length();
             index
         });
@@ -291,7 +291,6 @@ impl Extend<Index> for EntityCache {
     }
 }
 
-const MAX_INDEX: Index = u32::MAX;
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
@@ -368,12 +367,12 @@ impl AliveGeneration {
     }
 }
 
-// Increments `i` atomically without wrapping on overflow.
+// Increments `i` atomically without going past `INDEX_LIMIT`.
 //
 // Resembles a `fetch_add(1, Ordering::Relaxed)` with checked overflow, returning `None` instead.
 fn atomic_increment(i: &AtomicIndex) -> Option<Index> {
     let mut prev = i.load(Ordering::Relaxed);
-    while prev != MAX_INDEX {
+    while prev < INDEX_LIMIT {
         match i.compare_exchange_weak(prev, prev + 1, Ordering::Relaxed, Ordering::Relaxed) {
             Ok(x) => return Some(x),
             Err(next_prev) => prev = next_prev,
diff --git a/src/join.rs b/src/join.rs
index f00a9e2..920b9a6 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -5,6 +5,13 @@ use thiserror::Error;
 
 pub type Index = u32;
 
+// The number of distinct indexes that a `hibitset` set can hold (and iterate over), every index of an
+// entity or component must be less than this.
+#[cfg(target_pointer_width = "64")]
+pub(crate) const INDEX_LIMIT: Index = 1 << 24;
+#[cfg(target_pointer_width = "32")]
+pub(crate) const INDEX_LIMIT: Index = 1 << 20;
+
 pub trait Join {
     type Item;
     type Access;
diff --git a/src/masked.rs b/src/masked.rs
index 4f6f2db..1b0dc51 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -3,7 +3,7 @@ use std::mem;
 use hibitset::{BitIter, BitSet, BitSetLike};
 
 use crate::{
-    join::{Index, Join},
+    join::{Index, Join, INDEX_LIMIT},
     storage::{DenseStorage, RawStorage},
     tracked::{ModifiedBitSet, TrackedStorage},
 };
@@ -85,6 +85,7 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            assert!(index < INDEX_LIMIT, "index {} is out of range", index);
             // Call the user provided function *before* setting the mask, if it panics then the index
             // must stay empty.
             let v = f();
@@ -99,6 +100,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             mem::swap(&mut v, unsafe { self.storage.get_mut(index) });
             Some(v)
         } else {
+            assert!(index < INDEX_LIMIT, "index {} is out of range", index);
             self.mask.add(index);
             unsafe { self.storage.insert(index, v) };
             None
-- 
2.43.0


From d9fdd56fa3b7922154f7c6d379543344eafbb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 07/12] fix: do not panic when asking for the entity at an
 index past the hibitset limit

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 6784425..f1d842c 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -134,7 +134,7 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if index < INDEX_LIMIT && self.raised_atomic.contains(index) {
             Some(Entity::new(index, generation.raised()))
         } else {
             None
-- 
2.43.0


From da0e4551b9cab0f49018433541a38cc1face618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 08/12] fix: do not leave an index alive when its generation
 overflows

---
 src/entity.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f1d842c..a0a882a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -152,11 +152,12 @@ impl Allocator {
             index
         });
 
-        self.alive.add(index);
-
+        // Panics if the generation overflows, in which case the index must not become alive.
         let generation = &mut self.generations[index as usize];
         let raised = generation.raised();
         *generation = raised.generation();
+
+        self.alive.add(index);
         Entity::new(index, raised)
     }
 
@@ -174,8 +175,10 @@ impl Allocator {
             atomic_increment(&self.index_len).expect("no entity left to allocate")
         });
 
+        // Panics if the generation overflows, in which case the index must not become alive.
+        let raised = self.generation(index).raised();
         self.raised_atomic.add_atomic(index);
-        Entity::new(index, self.generation(index).raised())
+        Entity::new(index, raised)
     }
 
     /// Returns a `BitSetLike` for all live entities.
-- 
2.43.0


From 0246a051e22319e5f3215d3047b5f5033ea6372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 09/12] fix: deleting entities must not depend on borrow flags,
 a leaked borrow left components of dead entities behind

---
 src/world.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index b086773..5596e7a 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -25,7 +25,7 @@ pub struct World {
     allocator: Allocator,
     resources: ResourceSet,
     components: ResourceSet,
-    remove_components: FxHashMap<TypeId, Box<dyn Fn(&ResourceSet, &[Entity]) + Send + Sync>>,
+    remove_components: FxHashMap<TypeId, Box<dyn Fn(&mut ResourceSet, &[Entity]) + Send + Sync>>,
     killed: Vec<Entity>,
 }
 
@@ -51,7 +51,7 @@ impl World {
     pub fn delete_entity(&mut self, e: Entity) -> Result<(), WrongGeneration> {
         self.allocator.kill(e)?;
         for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &[e]);
+            remove_component(&mut self.components, &[e]);
         }
         Ok(())
     }
@@ -119,7 +119,7 @@ impl World {
         self.remove_components.insert(
             TypeId::of::<C>(),
             Box::new(|resource_set, entities| {
-                let mut storage = resource_set.borrow_mut::<ComponentStorage<C>>();
+                let storage = resource_set.get_mut::<ComponentStorage<C>>();
                 for e in entities {
                     storage.remove(e.index());
                 }
@@ -208,7 +208,7 @@ impl World {
     pub fn merge(&mut self) {
         self.allocator.merge_atomic(&mut self.killed);
         for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &self.killed);
+            remove_component(&mut self.components, &self.killed);
         }
     }
 }
-- 
2.43.0


From c3fce3c33bf6517fd4e8e36cc073f3ba90787c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 10/12] fix: remove all components of deleted entities even if
 a component destructor panics

---
 src/world.rs | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 5596e7a..183c29e 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -2,6 +2,7 @@ use std::{
     any::TypeId,
     marker::PhantomData,
     ops::{Deref, DerefMut},
+    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
 };
 
 use atomic_refcell::{AtomicRef, AtomicRefMut};
@@ -20,12 +21,15 @@ use crate::{
     world_common::{Component, ComponentStorage, WorldResourceId, WorldResources},
 };
 
+type RemoveComponents =
+    FxHashMap<TypeId, Box<dyn Fn(&mut ResourceSet, &[Entity]) + Send + Sync>>;
+
 #[derive(Default)]
 pub struct World {
     allocator: Allocator,
     resources: ResourceSet,
     components: ResourceSet,
-    remove_components: FxHashMap<TypeId, Box<dyn Fn(&mut ResourceSet, &[Entity]) + Send + Sync>>,
+    remove_components: RemoveComponents,
     killed: Vec<Entity>,
 }
 
@@ -50,9 +54,7 @@ impl World {
 
     pub fn delete_entity(&mut self, e: Entity) -> Result<(), WrongGeneration> {
         self.allocator.kill(e)?;
-        for remove_component in self.remove_components.values() {
-            remove_component(&mut self.components, &[e]);
-        }
+        remove_components(&self.remove_components, &mut self.components, &[e]);
         Ok(())
     }
 
@@ -120,9 +122,9 @@ impl World {
             TypeId::of::<C>(),
             Box::new(|resource_set, entities| {
                 let storage = resource_set.get_mut::<ComponentStorage<C>>();
-                for e in entities {
+                for_each_despite_panic(entities, |e| {
                     storage.remove(e.index());
-                }
+                });
             }),
         );
         self.components.insert(ComponentStorage::<C>::default())
@@ -207,10 +209,40 @@ impl World {
     /// No entity is actually removed until this method is called.
     pub fn merge(&mut self) {
         self.allocator.merge_atomic(&mut self.killed);
-        for remove_component in self.remove_components.values() {
-            remove_component(&mut self.components, &self.killed);
+        remove_components(
+            &self.remove_components,
+            &mut self.components,
+            &self.killed,
+        );
+    }
+}
+
+// Remove all of the components of the given (already killed) entities.
+//
+// A panic in the `Drop` impl of some component must not leave any other component behind, as it would
+// then belong to the next entity that gets the same index.
+fn remove_components(
+    removers: &RemoveComponents,
+    components: &mut ResourceSet,
+    entities: &[Entity],
+) {
+    for_each_despite_panic(removers.values(), |remove_component| {
+        remove_component(components, entities);
+    });
+}
+
+// Call the given function for every item even if some call panics, and only then resume the (first)
+// panic.
+fn for_each_despite_panic<T>(items: impl IntoIterator<Item = T>, mut f: impl FnMut(T)) {
+    let mut panic = None;
+    for item in items {
+        if let Err(payload) = catch_unwind(AssertUnwindSafe(|| f(item))) {
+            panic.get_or_insert(payload);
         }
     }
+    if let Some(payload) = panic {
+        resume_unwind(payload);
+    }
 }
 
 pub struct Entities<'a>(&'a Allocator);
-- 
2.43.0


From a0347646690b1031e353fe503593eaf97842ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 11/12] fix: mark an index as occupied only once the raw
 storage has accepted the value

---
 src/masked.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index 1b0dc51..83ce6d3 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -86,11 +86,11 @@ impl<S: RawStorage> MaskedStorage<S> {
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
             assert!(index < INDEX_LIMIT, "index {} is out of range", index);
-            // Call the user provided function *before* setting the mask, if it panics then the index
-            // must stay empty.
+            // The mask must be set *last*, if the user provided function or the storage panics then the
+            // index must stay empty.
             let v = f();
-            self.mask.add(index);
             unsafe { self.storage.insert(index, v) };
+            self.mask.add(index);
         }
         unsafe { self.storage.get_mut(index) }
     }
@@ -101,8 +101,9 @@ impl<S: RawStorage> MaskedStorage<S> {
             Some(v)
         } else {
             assert!(index < INDEX_LIMIT, "index {} is out of range", index);
-            self.mask.add(index);
+            // The mask must be set *last*, if the storage panics then the index must stay empty.
             unsafe { self.storage.insert(index, v) };
+            self.mask.add(index);
             None
         }
     }
-- 
2.43.0


From d3b99ca989b10ca14034bf8addf81470e90c45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 12/12] fix: keep resources in a FxHashMap: anymap hashes type
 ids through misaligned reads

---
 src/resource_set.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/resource_set.rs b/src/resource_set.rs
index e4d51f7..0785e21 100644
--- a/src/resource_set.rs
+++ b/src/resource_set.rs
@@ -1,11 +1,11 @@
 use std::{
-    any::{type_name, TypeId},
+    any::{type_name, Any, TypeId},
     iter,
     ops::{Deref, DerefMut},
 };
 
-use anymap::{any::Any, Map};
 use atomic_refcell::{AtomicRef, AtomicRefCell, AtomicRefMut};
+use rustc_hash::FxHashMap;
 
 use crate::{
     fetch_resources::FetchResources,
@@ -16,13 +16,13 @@ use crate::{
 /// Store a set of arbitrary types inside `AtomicRefCell`s, and then access them for either reading
 /// or writing.
 pub struct ResourceSet {
-    resources: Map<dyn Any + Send + Sync>,
+    resources: FxHashMap<TypeId, Box<dyn Any + Send + Sync>>,
 }
 
 impl Default for ResourceSet {
     fn default() -> Self {
         ResourceSet {
-            resources: Map::new(),
+            resources: FxHashMap::default(),
         }
     }
 }
@@ -36,8 +36,10 @@ impl ResourceSet {
     where
         T: Send + 'static,
     {
+        let r: Resource<T> = AtomicRefCell::new(MakeSync::new(r));
         self.resources
-            .insert::<Resource<T>>(AtomicRefCell::new(MakeSync::new(r)))
+            .insert(TypeId::of::<T>(), Box::new(r))
+            .map(|r| r.downcast::<Resource<T>>().unwrap())
             .map(|r| r.into_inner().into_inner())
     }
 
@@ -46,7 +48,8 @@ impl ResourceSet {
         T: Send + 'static,
     {
         self.resources
-            .remove::<Resource<T>>()
+            .remove(&TypeId::of::<T>())
+            .map(|r| r.downcast::<Resource<T>>().unwrap())
             .map(|r| r.into_inner().into_inner())
     }
 
@@ -54,7 +57,7 @@ impl ResourceSet {
     where
         T: Send + 'static,
     {
-        self.resources.contains::<Resource<T>>()
+        self.resources.contains_key(&TypeId::of::<T>())
     }
 
     /// Borrow the given resource immutably.
@@ -65,7 +68,8 @@ impl ResourceSet {
     where
         T: Send + Sync + 'static,
     {
-        if let Some(r) = self.resources.get::<Resource<T>>() {
+        if let Some(r) = self.resources.get(&TypeId::of::<T>()) {
+            let r = r.downcast_ref::<Resource<T>>().unwrap();
             AtomicRef::map(r.borrow(), |r| r.get())
         } else {
             panic!("no such resource {:?}", type_name::<T>());
@@ -80,7 +84,8 @@ impl ResourceSet {
     where
         T: Send + 'static,
     {
-        if let Some(r) = self.resources.get::<Resource<T>>() {
+        if let Some(r) = self.resources.get(&TypeId::of::<T>()) {
+            let r = r.downcast_ref::<Resource<T>>().unwrap();
             AtomicRefMut::map(r.borrow_mut(), |r| r.get_mut())
         } else {
             panic!("no such resource {:?}", type_name::<T>());
@@ -93,7 +98,8 @@ impl ResourceSet {
     where
         T: Send + 'static,
     {
-        if let Some(r) = self.resources.get_mut::<Resource<T>>() {
+        if let Some(r) = self.resources.get_mut(&TypeId::of::<T>()) {
+            let r = r.downcast_mut::<Resource<T>>().unwrap();
             r.get_mut().get_mut()
         } else {
             panic!("no such resource {:?}", type_name::<T>());
-- 
2.43.0

