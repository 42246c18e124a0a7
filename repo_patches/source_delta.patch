From 6e5e21f647fa6e3f34bede0eb634b0b2ddb72675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:45 +0000
Subject: [PATCH 01/19] fix: keep pointer provenance in type-erased pointers

Erased stored the bytes of a pointer in an array of integers, so the pointer
recovered from it had no provenance and every use of it by the collectors was
undefined behavior.
---
 dumpster/src/ptr.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dumpster/src/ptr.rs b/dumpster/src/ptr.rs
index 0c04735..d4f11ed 100644
--- a/dumpster/src/ptr.rs
+++ b/dumpster/src/ptr.rs
@@ -11,7 +11,7 @@
 use std::{
     fmt,
     mem::{size_of, MaybeUninit},
-    ptr::{addr_of, addr_of_mut, copy_nonoverlapping, NonNull},
+    ptr::{addr_of, addr_of_mut, copy_nonoverlapping, null, NonNull},
 };
 
 #[repr(C)]
@@ -21,7 +21,11 @@ use std::{
 /// interpretation.
 /// We trust that all pointers (even to `?Sized` or `dyn` types) are 2 words or fewer in size.
 /// This is a hack! Like, a big hack!
-pub(crate) struct Erased([usize; 2]);
+pub(crate) struct Erased([*const (); 2]);
+
+// Erased pointers are only ever specified and dereferenced by the collector, which does so under the
+// same synchronization as it would with the original pointers.
+unsafe impl Send for Erased {}
 
 impl Erased {
     /// Construct a new erased pointer to some data from a reference
@@ -32,7 +36,7 @@ impl Erased {
     /// `ErasedPtr`.
     /// To my knowledge, there are no pointer types with this property.
     pub fn new<T: ?Sized>(reference: NonNull<T>) -> Erased {
-        let mut ptr = Erased([0; 2]);
+        let mut ptr = Erased([null(); 2]);
         let ptr_size = size_of::<NonNull<T>>();
         // Extract out the pointer as raw memory
         assert!(
-- 
2.43.0


From 4b3599c004c3946bf727a63dac48437063dcee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:45 +0000
Subject: [PATCH 02/19] fix: visit the contents of poisoned locks instead of
 panicking

Dropping a Gc to a value that contains a poisoned Mutex or RwLock panicked
inside Drop, which aborts the process when the drop happens while unwinding.
---
 dumpster/src/impls.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/dumpster/src/impls.rs b/dumpster/src/impls.rs
index 080c339..0350bb1 100644
--- a/dumpster/src/impls.rs
+++ b/dumpster/src/impls.rs
@@ -90,26 +90,24 @@ unsafe impl<T: Collectable + ?Sized> Collectable for RefCell<T> {
 unsafe impl<T: Collectable + ?Sized> Collectable for Mutex<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_lock()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_lock() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // a poisoned lock still owns its contents
+            Err(TryLockError::Poisoned(e)) => e.get_ref().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
 unsafe impl<T: Collectable + ?Sized> Collectable for RwLock<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_read()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_read() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // a poisoned lock still owns its contents
+            Err(TryLockError::Poisoned(e)) => e.get_ref().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
-- 
2.43.0


From 44ab6cb04c3e1959724556bf61d34b61882c104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:45 +0000
Subject: [PATCH 03/19] fix: bound generic parameters by Collectable in the
 derive macro

The derived implementation required heapsize::HeapSize of every type
parameter, so deriving Collectable for a generic type did not compile.
---
 dumpster_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 917b1d1..2ea9643 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -47,7 +47,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
 fn add_trait_bounds(mut generics: Generics) -> Generics {
     for param in &mut generics.params {
         if let GenericParam::Type(ref mut type_param) = *param {
-            type_param.bounds.push(parse_quote!(heapsize::HeapSize));
+            type_param.bounds.push(parse_quote!(dumpster::Collectable));
         }
     }
     generics
-- 
2.43.0


From 1d9fd0e03cb1ad75d70e53ef8aea67ccb52dc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:39 +0000
Subject: [PATCH 04/19] fix: count references correctly when an unsync
 collection destroys values

Values destroyed by a collection had their references to surviving allocations
decremented up front while the Gcs themselves stayed valid. A destructor that
moved such a Gc out left a reference which was not counted, so the survivor was
freed while still referenced. Gcs created, cloned or dropped by a destructor
during a collection were ignored on drop and leaked, and the Gcs killed with
their cycle were never subtracted from the number of existing Gcs. Dead Gcs
stored in a live value made the next collection panic.

Leave Gcs to survivors to Drop for Gc, and account for the killed ones.
---
 dumpster/src/unsync/collect.rs | 51 ++++++++++++++++++++--------------
 dumpster/src/unsync/mod.rs     |  3 --
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4a969ff..edd9c86 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -109,12 +109,14 @@ impl Dumpster {
         self.n_ref_drops.set(0);
 
         unsafe {
+            // take the allocations under suspicion out of the dumpster, as destructors may add more
+            let to_collect = self.to_collect.take();
             let mut dfs = Dfs {
-                visited: HashSet::with_capacity(self.to_collect.borrow().len()),
-                ref_graph: HashMap::with_capacity(self.to_collect.borrow().len()),
+                visited: HashSet::with_capacity(to_collect.len()),
+                ref_graph: HashMap::with_capacity(to_collect.len()),
             };
 
-            for (k, v) in &*self.to_collect.borrow() {
+            for (k, v) in &to_collect {
                 if dfs.visited.insert(*k) {
                     (v.dfs_fn)(v.ptr, &mut dfs);
                 }
@@ -133,9 +135,7 @@ impl Dumpster {
             }
 
             // any allocations which we didn't find must also be roots
-            for (id, cleanup) in self
-                .to_collect
-                .borrow()
+            for (id, cleanup) in to_collect
                 .iter()
                 .filter(|(id, _)| !dfs.ref_graph.contains_key(id))
             {
@@ -147,13 +147,12 @@ impl Dumpster {
             let mut decrementer = DropAlloc {
                 visited: dfs.visited,
                 reachable: &mark.visited,
+                n_refs_living: &self.n_refs_living,
             };
 
             COLLECTING.with(|c| c.set(true));
-            for cleanup in self
-                .to_collect
-                .borrow_mut()
-                .drain()
+            for cleanup in to_collect
+                .into_iter()
                 .filter_map(|(id, cleanup)| (!mark.visited.contains(&id)).then_some(cleanup))
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
@@ -193,8 +192,10 @@ impl Dumpster {
 
         // check if it's been a long time since the last time we collected all
         // the garbage.
-        // if so, go and collect it all again (amortized O(1))
-        if (self.collect_condition.get())(&CollectInfo { _private: () }) {
+        // if so, go and collect it all again (amortized O(1)), unless we are already doing so
+        if !COLLECTING.with(Cell::get)
+            && (self.collect_condition.get())(&CollectInfo { _private: () })
+        {
             self.collect_all();
         }
     }
@@ -245,7 +246,10 @@ impl Visitor for Dfs {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            // a dead `Gc` which escaped from a `Drop` implementation refers to nothing
+            return;
+        };
         let next_id = AllocationId::from(ptr);
         match self.ref_graph.entry(next_id) {
             Entry::Occupied(ref mut o) => {
@@ -284,7 +288,10 @@ impl Visitor for Mark {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            // a dead `Gc` which escaped from a `Drop` implementation refers to nothing
+            return;
+        };
         if self.visited.insert(AllocationId::from(ptr)) {
             let _ = unsafe { ptr.as_ref().value.accept(self) };
         }
@@ -297,6 +304,8 @@ struct DropAlloc<'a> {
     visited: HashSet<AllocationId>,
     /// The set of unreachable allocations.
     reachable: &'a HashSet<AllocationId>,
+    /// The number of living references, which no longer includes the ones we kill.
+    n_refs_living: &'a Cell<usize>,
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -311,16 +320,17 @@ impl Visitor for DropAlloc<'_> {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return;
+        };
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
-            unsafe {
-                let cell_ref = &ptr.as_ref().ref_count;
-                cell_ref.set(NonZeroUsize::new(cell_ref.get().get() - 1).unwrap());
-            }
+            // `gc` stays valid, and will give up its reference when it is dropped
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
+        self.n_refs_living
+            .set(self.n_refs_living.get().saturating_sub(1));
         if self.visited.insert(id) {
             unsafe {
                 ptr.as_ref().value.accept(self).unwrap();
@@ -332,8 +342,7 @@ impl Visitor for DropAlloc<'_> {
     }
 }
 
-/// Decrement the outbound reference counts for any reachable allocations which this allocation can
-/// find.
+/// Kill the references from this allocation to any unreachable allocations.
 /// Also, drop the allocation when done.
 unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAlloc<'_>) {
     if visitor
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index d6b49df..0abb136 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -488,9 +488,6 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
     /// If this is the last reference which can reach the pointed-to data, the allocation that it
     /// points to will be destroyed.
     fn drop(&mut self) {
-        if COLLECTING.with(Cell::get) {
-            return;
-        }
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-- 
2.43.0


From c683d28985ae4ef8ebc5d1eca9e7124fe0aaf70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:42 +0000
Subject: [PATCH 05/19] fix: allow dereferencing living unsync Gcs during a
 collection

try_deref is documented to return a reference for any Gc that is not dead, but
it panicked for all of them when called by a destructor during a collection.
Gcs to collected values are already dead by then, so they still panic.
---
 dumpster/src/unsync/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index 0abb136..bd57135 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{Dumpster, DUMPSTER};
 
 mod collect;
 #[cfg(test)]
@@ -407,10 +407,6 @@ impl<T: Collectable + ?Sized> Deref for Gc<T> {
     /// });
     /// ```
     fn deref(&self) -> &Self::Target {
-        assert!(
-            !COLLECTING.with(Cell::get),
-            "dereferencing GC to already-collected object"
-        );
         unsafe {
             &self.ptr.get().expect("dereferencing Gc to already-collected object. \
             This means a Gc escaped from a Drop implementation, likely implying a bug in your code.").as_ref().value
-- 
2.43.0


From b04fff259ce52febcfcd06ddff617f8f7e46a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:46 +0000
Subject: [PATCH 06/19] fix: make unsync collections reentrant and panic-safe

Calling collect() from a destructor during a collection panicked, and a
destructor that panicked left the thread in the collecting state for good.
---
 dumpster/src/unsync/collect.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index edd9c86..523a981 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -105,7 +105,21 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
 
 impl Dumpster {
     /// Collect all unreachable allocations that this dumpster is responsible for.
+    ///
+    /// Does nothing if called by a destructor while a collection is already running.
     pub fn collect_all(&self) {
+        /// Clears the `COLLECTING` flag, even if a destructor panics.
+        struct CollectingGuard;
+        impl Drop for CollectingGuard {
+            fn drop(&mut self) {
+                COLLECTING.with(|c| c.set(false));
+            }
+        }
+
+        if COLLECTING.with(|c| c.replace(true)) {
+            return;
+        }
+        let _guard = CollectingGuard;
         self.n_ref_drops.set(0);
 
         unsafe {
@@ -150,14 +164,12 @@ impl Dumpster {
                 n_refs_living: &self.n_refs_living,
             };
 
-            COLLECTING.with(|c| c.set(true));
             for cleanup in to_collect
                 .into_iter()
                 .filter_map(|(id, cleanup)| (!mark.visited.contains(&id)).then_some(cleanup))
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
-            COLLECTING.with(|c| c.set(false));
         }
     }
 
-- 
2.43.0


From c68f7e3ebd3f1c34799ead30596924b923481891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:18 +0000
Subject: [PATCH 07/19] fix: keep unsync allocations whose contents cannot be
 visited

If every reference to an allocation was accounted for but its contents were
inaccessible, for instance because a RefMut was leaked, the collection tried to
destroy it and panicked. Treat such allocations as reachable.
---
 dumpster/src/unsync/collect.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 523a981..08b865d 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -85,7 +85,7 @@ impl Cleanup {
     /// Construct a new cleanup for an allocation.
     fn new<T: Collectable + ?Sized>(box_ptr: NonNull<GcBox<T>>) -> Cleanup {
         Cleanup {
-            dfs_fn: apply_visitor::<T, Dfs>,
+            dfs_fn: dfs_assist::<T>,
             mark_fn: apply_visitor::<T, Mark>,
             drop_fn: drop_assist::<T>,
             ptr: Erased::new(box_ptr),
@@ -103,6 +103,18 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
     let _ = specified.as_ref().value.accept(visitor);
 }
 
+/// Build out the reference graph starting from some erased pointer.
+///
+/// # Safety
+///
+/// `T` must be the same type that `ptr` was created with via [`ErasedPtr::new`].
+unsafe fn dfs_assist<T: Collectable + ?Sized>(ptr: Erased, dfs: &mut Dfs) {
+    let specified: NonNull<GcBox<T>> = ptr.specify();
+    if specified.as_ref().value.accept(dfs).is_err() {
+        dfs.inaccessible.insert(AllocationId::from(specified));
+    }
+}
+
 impl Dumpster {
     /// Collect all unreachable allocations that this dumpster is responsible for.
     ///
@@ -128,6 +140,7 @@ impl Dumpster {
             let mut dfs = Dfs {
                 visited: HashSet::with_capacity(to_collect.len()),
                 ref_graph: HashMap::with_capacity(to_collect.len()),
+                inaccessible: HashSet::new(),
             };
 
             for (k, v) in &to_collect {
@@ -139,11 +152,9 @@ impl Dumpster {
             let mut mark = Mark {
                 visited: HashSet::with_capacity(dfs.visited.len()),
             };
-            for (id, reachability) in dfs
-                .ref_graph
-                .iter()
-                .filter(|(_, reachability)| reachability.n_unaccounted != 0)
-            {
+            for (id, reachability) in dfs.ref_graph.iter().filter(|(id, reachability)| {
+                reachability.n_unaccounted != 0 || dfs.inaccessible.contains(id)
+            }) {
                 mark.visited.insert(*id);
                 (reachability.mark_fn)(reachability.ptr, &mut mark);
             }
@@ -231,6 +242,8 @@ struct Dfs {
     visited: HashSet<AllocationId>,
     /// A map from allocation identifiers to information about their reachability.
     ref_graph: HashMap<AllocationId, Reachability>,
+    /// The set of allocations whose contents could not be visited, which therefore must be kept.
+    inaccessible: HashSet<AllocationId>,
 }
 
 #[derive(Debug)]
@@ -276,7 +289,9 @@ impl Visitor for Dfs {
             }
         }
         if self.visited.insert(next_id) {
-            let _ = unsafe { ptr.as_ref() }.value.accept(self);
+            if unsafe { ptr.as_ref() }.value.accept(self).is_err() {
+                self.inaccessible.insert(next_id);
+            }
         }
     }
 }
-- 
2.43.0


From 8fdf0f3e89e82b32cf38c8fc616b36e22f74436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:48 +0000
Subject: [PATCH 08/19] fix: support dropping unsync Gcs while the thread shuts
 down

A Gc stored in a thread-local variable could outlive the thread's dumpster, and
dropping it then panicked inside a thread-local destructor, which aborts.
---
 dumpster/src/unsync/collect.rs | 17 +++++++++++------
 dumpster/src/unsync/mod.rs     | 25 ++++++++++++++++++-------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 08b865d..4486f82 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -28,12 +28,7 @@ thread_local! {
     /// Whether the current thread is running a cleanup process.
     pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
-    pub(super) static DUMPSTER: Dumpster = Dumpster {
-        to_collect: RefCell::new(HashMap::new()),
-        n_ref_drops: Cell::new(0),
-        n_refs_living: Cell::new(0),
-        collect_condition: Cell::new(default_collect_condition),
-    };
+    pub(super) static DUMPSTER: Dumpster = Dumpster::new();
 }
 
 /// A dumpster is a collection of all the garbage that may or may not need to be cleaned up.
@@ -116,6 +111,16 @@ unsafe fn dfs_assist<T: Collectable + ?Sized>(ptr: Erased, dfs: &mut Dfs) {
 }
 
 impl Dumpster {
+    /// Construct a new, empty dumpster.
+    pub fn new() -> Dumpster {
+        Dumpster {
+            to_collect: RefCell::new(HashMap::new()),
+            n_ref_drops: Cell::new(0),
+            n_refs_living: Cell::new(0),
+            collect_condition: Cell::new(default_collect_condition),
+        }
+    }
+
     /// Collect all unreachable allocations that this dumpster is responsible for.
     ///
     /// Does nothing if called by a destructor while a collection is already running.
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index bd57135..36ebba2 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -116,7 +116,8 @@ pub struct Gc<T: Collectable + ?Sized + 'static> {
 /// # }
 /// ```
 pub fn collect() {
-    DUMPSTER.with(Dumpster::collect_all);
+    // if the dumpster is gone because the thread is shutting down, there is nothing to collect
+    let _ = DUMPSTER.try_with(Dumpster::collect_all);
 }
 
 /// Information passed to a [`CollectCondition`] used to determine whether the garbage collector
@@ -213,7 +214,7 @@ impl<T: Collectable + ?Sized> Gc<T> {
     where
         T: Sized,
     {
-        DUMPSTER.with(Dumpster::notify_created_gc);
+        let _ = DUMPSTER.try_with(Dumpster::notify_created_gc);
         Gc {
             ptr: Cell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 ref_count: Cell::new(NonZeroUsize::MIN),
@@ -468,7 +469,7 @@ impl<T: Collectable + ?Sized> Clone for Gc<T> {
                 .ref_count
                 .set(box_ref.ref_count.get().saturating_add(1));
         }
-        DUMPSTER.with(|d| {
+        let _ = DUMPSTER.try_with(|d| {
             d.notify_created_gc();
             // d.mark_cleaned(self.ptr);
         });
@@ -487,7 +488,7 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-        DUMPSTER.with(|d| {
+        let mut release = |d: &Dumpster| {
             let box_ref = unsafe { ptr.as_ref() };
             match box_ref.ref_count.get() {
                 NonZeroUsize::MIN => {
@@ -513,9 +514,19 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
                     }
                 }
             }
-            // Notify that a GC has been dropped, potentially triggering a cleanup
-            d.notify_dropped_gc();
-        });
+        };
+        if DUMPSTER
+            .try_with(|d| {
+                release(d);
+                // Notify that a GC has been dropped, potentially triggering a cleanup
+                d.notify_dropped_gc();
+            })
+            .is_err()
+        {
+            // The thread is shutting down and its dumpster is already gone, so use a temporary one
+            // which will collect the allocation if need be.
+            release(&Dumpster::new());
+        }
     }
 }
 
-- 
2.43.0


From 59e5ced0a7037366e1d5a15b36e976d05cbea686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:13 +0000
Subject: [PATCH 09/19] fix: count references correctly when a sync collection
 destroys values

Values destroyed by a collection had their references to surviving allocations
decremented up front while the Gcs themselves stayed valid. A destructor that
moved such a Gc out left a reference which was not counted, so the survivor was
freed while still referenced; a survivor losing its last reference this way
leaked. Gcs created, cloned or dropped by a destructor during a collection were
ignored on drop and leaked, and the Gcs killed with their cycle were never
subtracted from the number of existing Gcs. Dead Gcs stored in a live value
made the next collection panic.

Leave Gcs to survivors to Drop for Gc, and account for the killed ones.
---
 dumpster/src/sync/collect.rs | 32 +++++++++++++++++++++-----------
 dumpster/src/sync/mod.rs     |  7 ++-----
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b1affde..cd59266 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -150,9 +150,12 @@ pub fn notify_dropped_gc() {
         }
     });
 
-    if (unsafe {
-        transmute::<_, CollectCondition>(GARBAGE_TRUCK.collect_condition.load(Ordering::Relaxed))
-    })(&CollectInfo { _private: () })
+    if !currently_cleaning()
+        && (unsafe {
+            transmute::<_, CollectCondition>(
+                GARBAGE_TRUCK.collect_condition.load(Ordering::Relaxed),
+            )
+        })(&CollectInfo { _private: () })
     {
         GARBAGE_TRUCK.collect_all();
     }
@@ -397,7 +400,10 @@ impl<'a> Visitor for Dfs<'a> {
     where
         T: Collectable + Send + Sync + ?Sized,
     {
-        let ptr = unsafe { (*gc.ptr.get()).unwrap() };
+        let Some(ptr) = (unsafe { *gc.ptr.get() }).as_option() else {
+            // a dead `Gc` which escaped from a `Drop` implementation refers to nothing
+            return;
+        };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
         if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
@@ -495,7 +501,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
     ptr: Erased,
     graph: &HashMap<AllocationId, AllocationInfo>,
 ) {
-    /// A visitor for decrementing the reference count of pointees.
+    /// A visitor for killing references to other allocations which will be destroyed.
     struct PrepareForDestruction<'a> {
         /// The reference graph.
         /// Must have been populated with reachability already.
@@ -507,15 +513,19 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
         where
             T: Collectable + Send + Sync + ?Sized,
         {
-            let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
-            if matches!(self.graph[&id].reachability, Reachability::Reachable) {
-                unsafe {
-                    id.0.as_ref().strong.fetch_sub(1, Ordering::Release);
-                }
-            } else {
+            let Some(ptr) = (unsafe { *gc.ptr.get() }).as_option() else {
+                return;
+            };
+            // a `Gc` to a reachable allocation stays valid, and will give up its reference when it
+            // is dropped
+            if !matches!(
+                self.graph[&AllocationId::from(ptr)].reachability,
+                Reachability::Reachable
+            ) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
+                GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
             }
         }
 
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 30c61dd..f48dd40 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -44,8 +44,8 @@ use std::{
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
-    collect_all_await, currently_cleaning, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
-    notify_created_gc, notify_dropped_gc,
+    collect_all_await, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing, notify_created_gc,
+    notify_dropped_gc,
 };
 
 /// A thread-safe garbage-collected pointer.
@@ -453,9 +453,6 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     fn drop(&mut self) {
-        if currently_cleaning() {
-            return;
-        }
         let Some(mut ptr) = unsafe { *self.ptr.get() }.as_option() else {
             return;
         };
-- 
2.43.0


From c59c5f99ebbc57fb6a5cb60f8e0c3804a3b88299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 10/19] fix: make sync collections reentrant and panic-safe

A destructor run by a collection deadlocked if it requested a collection, or if
a Gc it dropped triggered one while allocations kept alive by a weak reference
were being destroyed. A destructor that panicked left the thread ignoring every
later drop of a Gc, and never released the weak references of the collection.
---
 dumpster/src/sync/collect.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index cd59266..19813d1 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -130,6 +130,10 @@ thread_local! {
 /// completion of the collection.
 /// Ensures that all allocations dropped on the calling thread are cleaned up
 pub fn collect_all_await() {
+    if currently_cleaning() {
+        // a destructor asked for a collection during a collection: it would wait for itself
+        return;
+    }
     DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
     GARBAGE_TRUCK.collect_all();
     drop(GARBAGE_TRUCK.collecting_lock.read());
@@ -277,7 +281,17 @@ impl GarbageTruck {
     /// if they are inaccessible.
     /// If so, drop those allocations.
     fn collect_all(&self) {
+        /// Clears the `CLEANING` flag, even if a destructor panics.
+        struct CleaningGuard;
+        impl Drop for CleaningGuard {
+            fn drop(&mut self) {
+                CLEANING.with(|c| c.set(false));
+            }
+        }
+
         let collecting_guard = self.collecting_lock.write();
+        CLEANING.with(|c| c.set(true));
+        let cleaning_guard = CleaningGuard;
         self.n_gcs_dropped.store(0, Ordering::Relaxed);
         let to_collect = take(&mut *self.contents.lock());
         let mut ref_graph = HashMap::with_capacity(to_collect.len());
@@ -301,15 +315,14 @@ impl GarbageTruck {
             mark(root_id, &mut ref_graph);
         }
 
-        CLEANING.with(|c| c.set(true));
         // set of allocations which must be destroyed because we were the last weak pointer to it
         let mut weak_destroys = Vec::new();
+        // allocations which turned out to be garbage
+        let mut destroys = Vec::new();
         for (id, node) in &ref_graph {
             let header_ref = unsafe { id.0.as_ref() };
             match node.reachability {
-                Reachability::Unknown { destroy_fn, .. } => unsafe {
-                    destroy_fn(node.ptr, &ref_graph);
-                },
+                Reachability::Unknown { destroy_fn, .. } => destroys.push((destroy_fn, node.ptr)),
                 Reachability::Reachable => {
                     if header_ref.weak.fetch_sub(1, Ordering::Release) == 1
                         && header_ref.strong.load(Ordering::Acquire) == 0
@@ -323,10 +336,14 @@ impl GarbageTruck {
                 }
             };
         }
-        CLEANING.with(|c| c.set(false));
+        // only run destructors once all bookkeeping is done, as they might panic
+        for (destroy_fn, ptr) in destroys {
+            unsafe { destroy_fn(ptr, &ref_graph) };
+        }
         for (drop_fn, ptr) in weak_destroys {
             unsafe { drop_fn(ptr) };
         }
+        drop(cleaning_guard);
         drop(collecting_guard);
     }
 }
-- 
2.43.0


From 0f14efc3529517658b02215ccb9760c0a1e801a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:12 +0000
Subject: [PATCH 11/19] fix: do not leak sync allocations whose last references
 are dropped concurrently

When two threads dropped the last two references to an allocation at once, the
thread dropping the very last one could see the weak reference of the other and
leave the allocation to it, while the other never freed anything. As in Arc, let
the strong references jointly hold one weak reference, so that whoever gives up
the last weak reference frees the allocation. Also acquire before doing so in
the collector.
---
 dumpster/src/sync/collect.rs | 12 +++++++-----
 dumpster/src/sync/mod.rs     | 27 ++++++++++++++-------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 19813d1..8f76737 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -306,8 +306,12 @@ impl GarbageTruck {
             .iter()
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
-                Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0
-                    || unsafe { k.0.as_ref().weak.load(Ordering::Acquire) > 1 })
+                Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0 || {
+                    // we hold one weak reference, and the strong references together hold another
+                    let header_ref = unsafe { k.0.as_ref() };
+                    let n_strong_weak = usize::from(header_ref.strong.load(Ordering::Acquire) > 0);
+                    header_ref.weak.load(Ordering::Acquire) > 1 + n_strong_weak
+                })
                 .then_some(k),
             })
             .collect::<Vec<_>>();
@@ -324,9 +328,7 @@ impl GarbageTruck {
             match node.reachability {
                 Reachability::Unknown { destroy_fn, .. } => destroys.push((destroy_fn, node.ptr)),
                 Reachability::Reachable => {
-                    if header_ref.weak.fetch_sub(1, Ordering::Release) == 1
-                        && header_ref.strong.load(Ordering::Acquire) == 0
-                    {
+                    if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
                         // we are the last reference to the allocation.
                         // mark to be cleaned up later
                         // no real synchronization loss to storing the guard because we had the last
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index f48dd40..7edfa8e 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -105,8 +105,8 @@ where
     /// allocation itself must still be valid.
     strong: AtomicUsize,
     /// The "weak" count, which is the number of references to this allocation stored in to-collect
-    /// buffers by the collection algorithm.
-    /// If the weak count is zero, the allocation may be destroyed.
+    /// buffers by the collection algorithm, plus one if the strong count is not zero.
+    /// Whoever takes the weak count to zero must destroy the allocation.
     weak: AtomicUsize,
     /// The current generation number of the allocation.
     /// The generation number is assigned to the global generation every time a strong reference is
@@ -232,7 +232,7 @@ where
         Gc {
             ptr: UnsafeCell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 strong: AtomicUsize::new(1),
-                weak: AtomicUsize::new(0),
+                weak: AtomicUsize::new(1),
                 generation: AtomicUsize::new(CURRENT_TAG.load(Ordering::Acquire)),
                 value,
             }))))),
@@ -466,21 +466,22 @@ where
             0 => unreachable!("strong cannot reach zero while a Gc to it exists"),
             1 => {
                 mark_clean(box_ref);
-                if box_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
-                    // destroyed the last weak reference! we can safely deallocate this
-                    let layout = Layout::for_value(box_ref);
-                    fence(Ordering::Acquire);
-                    unsafe {
-                        drop_in_place(ptr.as_mut());
-                        dealloc(ptr.as_ptr().cast(), layout);
-                    }
-                }
+                // give up the weak reference held by all the strong references together
+                box_ref.weak.fetch_sub(1, Ordering::Release);
             }
             _ => {
                 if contains_gcs(&box_ref.value).unwrap_or(true) {
                     mark_dirty(ptr);
                 }
-                box_ref.weak.fetch_sub(1, Ordering::Release);
+            }
+        }
+        if box_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
+            // destroyed the last weak reference! we can safely deallocate this
+            let layout = Layout::for_value(box_ref);
+            fence(Ordering::Acquire);
+            unsafe {
+                drop_in_place(ptr.as_mut());
+                dealloc(ptr.as_ptr().cast(), layout);
             }
         }
         notify_dropped_gc();
-- 
2.43.0


From aa3eeeb6d4847477574e46688f16c8ba8949bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:18 +0000
Subject: [PATCH 12/19] fix: support dropping sync Gcs while the thread shuts
 down

A Gc stored in a thread-local variable could outlive the thread's dumpster, and
dropping it then panicked inside a thread-local destructor, which aborts.
---
 dumpster/src/sync/collect.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 8f76737..51912e2 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -134,7 +134,7 @@ pub fn collect_all_await() {
         // a destructor asked for a collection during a collection: it would wait for itself
         return;
     }
-    DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    let _ = DUMPSTER.try_with(|d| d.deliver_to(&GARBAGE_TRUCK));
     GARBAGE_TRUCK.collect_all();
     drop(GARBAGE_TRUCK.collecting_lock.read());
 }
@@ -147,7 +147,7 @@ pub fn collect_all_await() {
 pub fn notify_dropped_gc() {
     GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
     GARBAGE_TRUCK.n_gcs_dropped.fetch_add(1, Ordering::Relaxed);
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         dumpster.n_drops.set(dumpster.n_drops.get() + 1);
         if dumpster.is_full() {
             dumpster.deliver_to(&GARBAGE_TRUCK);
@@ -177,10 +177,8 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     let box_ref = unsafe { allocation.as_ref() };
-    DUMPSTER.with(|dumpster| {
-        if dumpster
-            .contents
-            .borrow_mut()
+    let insert = |contents: &mut HashMap<AllocationId, TrashCan>| {
+        if contents
             .insert(
                 AllocationId::from(box_ref),
                 TrashCan {
@@ -192,7 +190,14 @@ where
         {
             box_ref.weak.fetch_add(1, Ordering::Acquire);
         }
-    });
+    };
+    if DUMPSTER
+        .try_with(|dumpster| insert(&mut dumpster.contents.borrow_mut()))
+        .is_err()
+    {
+        // the thread is shutting down and its dumpster is already gone
+        insert(&mut GARBAGE_TRUCK.contents.lock());
+    }
 }
 
 /// Mark an allocation as "clean," implying that it has already been cleaned up and does not
@@ -201,7 +206,7 @@ pub(super) fn mark_clean<T>(allocation: &GcBox<T>)
 where
     T: Collectable + Send + Sync + ?Sized,
 {
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
-- 
2.43.0


From 330c317e3e77d7432311e30977930e023a7445c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:34 +0000
Subject: [PATCH 13/19] fix: allow deriving Collectable for types with a
 parameter named V

The generic parameter of the derived method had the same name, which does not
compile.
---
 dumpster_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 2ea9643..96bb7dd 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
     let generated = quote! {
         unsafe impl #impl_generics dumpster::Collectable for #name #ty_generics #where_clause {
             #[inline]
-            fn accept<V: dumpster::Visitor>(&self, visitor: &mut V) -> std::result::Result<(), ()> {
+            fn accept<__V: dumpster::Visitor>(&self, visitor: &mut __V) -> std::result::Result<(), ()> {
                 #do_visitor
             }
         }
-- 
2.43.0


From c98ffb19eafcad3ca3c142e0dbda8eb45ca64d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:52 +0000
Subject: [PATCH 14/19] Add an optional hook before the atomic and lock
 operations of the sync collector

With --cfg dumpster_vp the sync collector uses instrumented atomics and locks,
which call a hook a test harness can install. Without it nothing changes.
---
 dumpster/src/lib.rs          |   5 +
 dumpster/src/sync/collect.rs |   9 +-
 dumpster/src/sync/mod.rs     |   8 +-
 dumpster/src/vp.rs           | 233 +++++++++++++++++++++++++++++++++++
 4 files changed, 253 insertions(+), 2 deletions(-)
 create mode 100644 dumpster/src/vp.rs

diff --git a/dumpster/src/lib.rs b/dumpster/src/lib.rs
index 205f92d..bbc6a4f 100644
--- a/dumpster/src/lib.rs
+++ b/dumpster/src/lib.rs
@@ -170,6 +170,7 @@ let gc1: Gc<[u8]> = Gc::new([1, 2, 3]);
 #![warn(missing_docs)]
 #![warn(clippy::missing_docs_in_private_items)]
 #![allow(clippy::multiple_crate_versions, clippy::result_unit_err)]
+#![allow(unexpected_cfgs)] // `dumpster_vp` is set by hand
 #![cfg_attr(feature = "coerce-unsized", feature(coerce_unsized))]
 #![cfg_attr(feature = "coerce-unsized", feature(unsize))]
 #![cfg_attr(feature = "coerce-unsized", feature(strict_provenance))]
@@ -179,6 +180,10 @@ mod impls;
 mod ptr;
 pub mod sync;
 pub mod unsync;
+#[cfg(dumpster_vp)]
+#[doc(hidden)]
+#[allow(missing_docs, clippy::missing_docs_in_private_items)]
+pub mod vp;
 
 /// The trait that any garbage-collectable data must implement.
 ///
diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 51912e2..1b0a1ce 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -14,11 +14,18 @@ use std::{
     collections::{hash_map::Entry, HashMap},
     mem::{replace, swap, take, transmute},
     ptr::{drop_in_place, NonNull},
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
+    sync::atomic::Ordering,
 };
 
+#[cfg(not(dumpster_vp))]
+use std::sync::atomic::{AtomicPtr, AtomicUsize};
+
+#[cfg(not(dumpster_vp))]
 use parking_lot::{Mutex, RwLock};
 
+#[cfg(dumpster_vp)]
+use crate::vp::{AtomicPtr, AtomicUsize, Mutex, RwLock};
+
 use once_cell::sync::Lazy;
 
 use crate::{ptr::Erased, Collectable, Visitor};
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 7edfa8e..c841177 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -38,9 +38,15 @@ use std::{
     fmt::Debug,
     ops::Deref,
     ptr::{addr_of, addr_of_mut, drop_in_place, NonNull},
-    sync::atomic::{fence, AtomicUsize, Ordering},
+    sync::atomic::Ordering,
 };
 
+#[cfg(not(dumpster_vp))]
+use std::sync::atomic::{fence, AtomicUsize};
+
+#[cfg(dumpster_vp)]
+use crate::vp::{fence, AtomicUsize};
+
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
diff --git a/dumpster/src/vp.rs b/dumpster/src/vp.rs
new file mode 100644
index 0000000..638b7a0
--- /dev/null
+++ b/dumpster/src/vp.rs
@@ -0,0 +1,233 @@
+//! Instrumented stand-ins for the atomics and locks of the thread-safe collector.
+//!
+//! This module only exists with `--cfg dumpster_vp`.
+//! Every operation first calls a hook, which a test harness may install with [`set_hook`] in order to
+//! observe the operation or to decide when the calling thread may carry on.
+
+use std::{
+    mem::transmute,
+    ops::{Deref, DerefMut},
+    ptr::{from_ref, null, null_mut},
+    sync::atomic::{self, Ordering},
+};
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+/// What the calling thread is about to do.
+pub enum Op {
+    /// Read an atomic.
+    Load,
+    /// Write an atomic.
+    Store,
+    /// Read and write an atomic.
+    Rmw,
+    /// Issue a memory fence.
+    Fence,
+    /// Try to acquire a lock.
+    Acquire,
+    /// Wait for a lock which it just failed to acquire.
+    Blocked,
+    /// Nothing: it just acquired a lock.
+    Acquired,
+}
+
+/// A hook: gets the operation and the address of its object, and returns whether the calling thread
+/// is scheduled by the hook (and therefore must never block).
+pub type Hook = fn(Op, *const ()) -> bool;
+
+/// The installed hook, or null.
+static HOOK: atomic::AtomicPtr<()> = atomic::AtomicPtr::new(null_mut());
+
+/// Install a hook.
+pub fn set_hook(hook: Hook) {
+    HOOK.store(hook as *mut (), Ordering::SeqCst);
+}
+
+#[inline]
+/// Call the hook.
+fn point<T: ?Sized>(op: Op, object: &T) -> bool {
+    point_at(op, from_ref(object).cast())
+}
+
+#[inline]
+/// Call the hook.
+fn point_at(op: Op, object: *const ()) -> bool {
+    let hook = HOOK.load(Ordering::Relaxed);
+    !hook.is_null() && unsafe { transmute::<*mut (), Hook>(hook) }(op, object)
+}
+
+/// Announce and issue a fence.
+pub fn fence(order: Ordering) {
+    point_at(Op::Fence, null());
+    atomic::fence(order);
+}
+
+/// Define an instrumented atomic; anything but its most common operations comes from the original.
+macro_rules! instrumented {
+    ($name: ident, [$($gen: ident)?], $value: ty, { $($extra: ident),* }) => {
+        #[derive(Debug)]
+        /// An instrumented atomic.
+        pub struct $name $(<$gen>)? (atomic::$name $(<$gen>)?);
+
+        impl $(<$gen>)? $name $(<$gen>)? {
+            pub const fn new(value: $value) -> Self {
+                Self(atomic::$name::new(value))
+            }
+
+            #[inline]
+            pub fn load(&self, order: Ordering) -> $value {
+                point(Op::Load, self);
+                self.0.load(order)
+            }
+
+            #[inline]
+            pub fn store(&self, value: $value, order: Ordering) {
+                point(Op::Store, self);
+                self.0.store(value, order);
+            }
+
+            #[inline]
+            pub fn swap(&self, value: $value, order: Ordering) -> $value {
+                point(Op::Rmw, self);
+                self.0.swap(value, order)
+            }
+
+            #[inline]
+            pub fn compare_exchange(
+                &self,
+                current: $value,
+                new: $value,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$value, $value> {
+                point(Op::Rmw, self);
+                self.0.compare_exchange(current, new, success, failure)
+            }
+
+            #[inline]
+            pub fn compare_exchange_weak(
+                &self,
+                current: $value,
+                new: $value,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$value, $value> {
+                self.compare_exchange(current, new, success, failure)
+            }
+
+            $(
+                #[inline]
+                pub fn $extra(&self, value: $value, order: Ordering) -> $value {
+                    point(Op::Rmw, self);
+                    self.0.$extra(value, order)
+                }
+            )*
+        }
+
+        impl $(<$gen>)? Deref for $name $(<$gen>)? {
+            type Target = atomic::$name $(<$gen>)?;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
+        impl $(<$gen>)? DerefMut for $name $(<$gen>)? {
+            fn deref_mut(&mut self) -> &mut Self::Target {
+                &mut self.0
+            }
+        }
+    };
+}
+
+instrumented!(AtomicUsize, [], usize, { fetch_add, fetch_sub, fetch_max, fetch_min, fetch_or, fetch_and });
+instrumented!(AtomicBool, [], bool, { fetch_or, fetch_and });
+instrumented!(AtomicPtr, [T], *mut T, {});
+
+/// Acquire a lock, by repeated attempts if the hook schedules this thread.
+fn acquire<L, G>(lock: &L, attempt: impl Fn() -> Option<G>, block: impl FnOnce() -> G) -> G {
+    if !point(Op::Acquire, lock) {
+        return block();
+    }
+    loop {
+        if let Some(guard) = attempt() {
+            point(Op::Acquired, lock);
+            return guard;
+        }
+        point(Op::Blocked, lock);
+    }
+}
+
+#[derive(Debug)]
+/// An instrumented mutex.
+pub struct Mutex<T>(parking_lot::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self(parking_lot::const_mutex(value))
+    }
+
+    pub fn lock(&self) -> parking_lot::MutexGuard<'_, T> {
+        acquire(self, || self.0.try_lock(), || self.0.lock())
+    }
+
+    pub fn try_lock(&self) -> Option<parking_lot::MutexGuard<'_, T>> {
+        point(Op::Acquire, self);
+        self.0.try_lock()
+    }
+}
+
+impl<T> Deref for Mutex<T> {
+    type Target = parking_lot::Mutex<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for Mutex<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[derive(Debug)]
+/// An instrumented reader-writer lock.
+pub struct RwLock<T>(parking_lot::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub const fn new(value: T) -> Self {
+        Self(parking_lot::const_rwlock(value))
+    }
+
+    pub fn read(&self) -> parking_lot::RwLockReadGuard<'_, T> {
+        acquire(self, || self.0.try_read(), || self.0.read())
+    }
+
+    pub fn write(&self) -> parking_lot::RwLockWriteGuard<'_, T> {
+        acquire(self, || self.0.try_write(), || self.0.write())
+    }
+
+    pub fn try_read(&self) -> Option<parking_lot::RwLockReadGuard<'_, T>> {
+        point(Op::Acquire, self);
+        self.0.try_read()
+    }
+
+    pub fn try_write(&self) -> Option<parking_lot::RwLockWriteGuard<'_, T>> {
+        point(Op::Acquire, self);
+        self.0.try_write()
+    }
+}
+
+impl<T> Deref for RwLock<T> {
+    type Target = parking_lot::RwLock<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for RwLock<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
-- 
2.43.0


From 7c78f5710e90fd5b569a224a8456d31023f76f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:41 +0000
Subject: [PATCH 15/19] fix: do not keep shared garbage which refers to an
 accessed value

A sweep treated an allocation as reachable if anything it refers to had been
accessed during the sweep. Such an allocation was no longer suspected
afterwards, so if it was garbage it leaked. Treat the accessed allocation as
reachable instead.
---
 dumpster/src/sync/collect.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 1b0a1ce..d6ee9b8 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -437,9 +437,7 @@ impl<'a> Visitor for Dfs<'a> {
         };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
-        if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
-            || box_ref.generation.load(Ordering::Acquire) >= current_tag
-        {
+        if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag {
             // This pointer was already tagged by this sweep, so it must have been moved by
             mark(self.current_id, self.ref_graph);
             return;
@@ -461,6 +459,22 @@ impl<'a> Visitor for Dfs<'a> {
         };
         children.push(new_id);
 
+        if box_ref.generation.load(Ordering::Acquire) >= current_tag {
+            // The target was accessed during this sweep, so it is reachable.
+            // This does not say anything about the allocation which `gc` is in.
+            if let Entry::Vacant(v) = self.ref_graph.entry(new_id) {
+                box_ref.weak.fetch_add(1, Ordering::Acquire);
+                v.insert(AllocationInfo {
+                    ptr: Erased::new(ptr),
+                    weak_drop_fn: drop_weak_zero::<T>,
+                    reachability: Reachability::Reachable,
+                });
+            } else {
+                mark(new_id, self.ref_graph);
+            }
+            return;
+        }
+
         match self.ref_graph.entry(new_id) {
             Entry::Occupied(mut o) => match o.get_mut().reachability {
                 Reachability::Unknown {
-- 
2.43.0


From 981408b69f0e572d5a190d6a7f15890b63f26ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:29 +0000
Subject: [PATCH 16/19] fix: keep shared garbage under suspicion while another
 thread uses it

A sweep keeps an allocation that looks like garbage if another thread is still
in the middle of dropping a reference to it. That thread may already have
decided not to suspect the allocation, in which case it leaked. Hand such
allocations back to the garbage truck for the next sweep.
---
 dumpster/src/sync/collect.rs | 37 +++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index d6ee9b8..b1cdf54 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -11,7 +11,7 @@
 use std::{
     alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
-    collections::{hash_map::Entry, HashMap},
+    collections::{hash_map::Entry, HashMap, HashSet},
     mem::{replace, swap, take, transmute},
     ptr::{drop_in_place, NonNull},
     sync::atomic::Ordering,
@@ -83,6 +83,8 @@ struct AllocationInfo {
     /// Function for dropping the allocation when its weak and strong count hits zero.
     /// Should have the same behavior as dropping a Gc normally to a reference count of zero.
     weak_drop_fn: unsafe fn(Erased),
+    /// The function which can be used to build a reference graph.
+    dfs_fn: unsafe fn(Erased, &mut HashMap<AllocationId, AllocationInfo>),
     /// Information about this allocation's reachability.
     reachability: Reachability,
 }
@@ -314,15 +316,25 @@ impl GarbageTruck {
             unsafe { dfs_fn(ptr, &mut ref_graph) };
         }
 
+        // allocations which are only kept because another thread still has a weak reference to them
+        let mut in_use = HashSet::new();
         let root_ids = ref_graph
             .iter()
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
-                Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0 || {
+                Reachability::Unknown {
+                    n_unaccounted,
+                    ref children,
+                    ..
+                } => (n_unaccounted > 0 || {
                     // we hold one weak reference, and the strong references together hold another
                     let header_ref = unsafe { k.0.as_ref() };
                     let n_strong_weak = usize::from(header_ref.strong.load(Ordering::Acquire) > 0);
-                    header_ref.weak.load(Ordering::Acquire) > 1 + n_strong_weak
+                    let is_in_use = header_ref.weak.load(Ordering::Acquire) > 1 + n_strong_weak;
+                    if is_in_use && !children.is_empty() {
+                        in_use.insert(k);
+                    }
+                    is_in_use
                 })
                 .then_some(k),
             })
@@ -339,6 +351,22 @@ impl GarbageTruck {
             let header_ref = unsafe { id.0.as_ref() };
             match node.reachability {
                 Reachability::Unknown { destroy_fn, .. } => destroys.push((destroy_fn, node.ptr)),
+                // the other thread might be done with dropping its reference, so nobody else will
+                // suspect this allocation again: keep it under suspicion
+                Reachability::Reachable
+                    if in_use.contains(id)
+                        && header_ref.strong.load(Ordering::Acquire) > 0
+                        && self
+                            .contents
+                            .lock()
+                            .insert(
+                                *id,
+                                TrashCan {
+                                    ptr: node.ptr,
+                                    dfs_fn: node.dfs_fn,
+                                },
+                            )
+                            .is_none() => {}
                 Reachability::Reachable => {
                     if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
                         // we are the last reference to the allocation.
@@ -393,6 +421,7 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
     v.insert(AllocationInfo {
         ptr,
         weak_drop_fn: drop_weak_zero::<T>,
+        dfs_fn: dfs::<T>,
         reachability: Reachability::Unknown {
             children: Vec::new(),
             n_unaccounted: strong_count,
@@ -467,6 +496,7 @@ impl<'a> Visitor for Dfs<'a> {
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
                     weak_drop_fn: drop_weak_zero::<T>,
+                    dfs_fn: dfs::<T>,
                     reachability: Reachability::Reachable,
                 });
             } else {
@@ -492,6 +522,7 @@ impl<'a> Visitor for Dfs<'a> {
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
                     weak_drop_fn: drop_weak_zero::<T>,
+                    dfs_fn: dfs::<T>,
                     reachability: Reachability::Unknown {
                         children: Vec::new(),
                         n_unaccounted: strong_count - 1,
-- 
2.43.0


From 207bf674fc1e837ff379bef457dbebbd042f0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:40 +0000
Subject: [PATCH 17/19] fix: do not collect what a concurrently locked unsync
 value refers to

A value owned by the thread-local collector can hold a lock which another
thread uses through a reference. If that thread locked it between the two
traversals of a collection, the second traversal did not find the value's
children and destroyed them. Mark along the graph found by the first one.
---
 dumpster/src/unsync/collect.rs | 77 ++++++++++++++--------------------
 1 file changed, 32 insertions(+), 45 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4486f82..9b91cda 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -12,6 +12,7 @@ use std::{
     alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
     collections::{hash_map::Entry, HashMap, HashSet},
+    mem::replace,
     num::NonZeroUsize,
     ptr::{drop_in_place, NonNull},
 };
@@ -68,8 +69,6 @@ struct Cleanup {
     /// The function which is called to build the reference graph and find all allocations
     /// reachable from this allocation.
     dfs_fn: unsafe fn(Erased, &mut Dfs),
-    /// The function which is called to mark descendants of this allocation as reachable.
-    mark_fn: unsafe fn(Erased, &mut Mark),
     /// A function used for dropping the allocation.
     drop_fn: unsafe fn(Erased, &mut DropAlloc<'_>),
     /// An erased pointer to the allocation.
@@ -81,23 +80,12 @@ impl Cleanup {
     fn new<T: Collectable + ?Sized>(box_ptr: NonNull<GcBox<T>>) -> Cleanup {
         Cleanup {
             dfs_fn: dfs_assist::<T>,
-            mark_fn: apply_visitor::<T, Mark>,
             drop_fn: drop_assist::<T>,
             ptr: Erased::new(box_ptr),
         }
     }
 }
 
-/// Apply a visitor to some erased pointer.
-///
-/// # Safety
-///
-/// `T` must be the same type that `ptr` was created with via [`ErasedPtr::new`].
-unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visitor: &mut V) {
-    let specified: NonNull<GcBox<T>> = ptr.specify();
-    let _ = specified.as_ref().value.accept(visitor);
-}
-
 /// Build out the reference graph starting from some erased pointer.
 ///
 /// # Safety
@@ -105,6 +93,7 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
 /// `T` must be the same type that `ptr` was created with via [`ErasedPtr::new`].
 unsafe fn dfs_assist<T: Collectable + ?Sized>(ptr: Erased, dfs: &mut Dfs) {
     let specified: NonNull<GcBox<T>> = ptr.specify();
+    dfs.current_id = AllocationId::from(specified);
     if specified.as_ref().value.accept(dfs).is_err() {
         dfs.inaccessible.insert(AllocationId::from(specified));
     }
@@ -146,6 +135,8 @@ impl Dumpster {
                 visited: HashSet::with_capacity(to_collect.len()),
                 ref_graph: HashMap::with_capacity(to_collect.len()),
                 inaccessible: HashSet::new(),
+                children: HashMap::with_capacity(to_collect.len()),
+                current_id: AllocationId(NonNull::dangling()),
             };
 
             for (k, v) in &to_collect {
@@ -156,21 +147,20 @@ impl Dumpster {
 
             let mut mark = Mark {
                 visited: HashSet::with_capacity(dfs.visited.len()),
+                children: &dfs.children,
             };
-            for (id, reachability) in dfs.ref_graph.iter().filter(|(id, reachability)| {
+            for (id, _) in dfs.ref_graph.iter().filter(|(id, reachability)| {
                 reachability.n_unaccounted != 0 || dfs.inaccessible.contains(id)
             }) {
-                mark.visited.insert(*id);
-                (reachability.mark_fn)(reachability.ptr, &mut mark);
+                mark.mark(*id);
             }
 
             // any allocations which we didn't find must also be roots
-            for (id, cleanup) in to_collect
+            for (id, _) in to_collect
                 .iter()
                 .filter(|(id, _)| !dfs.ref_graph.contains_key(id))
             {
-                mark.visited.insert(*id);
-                (cleanup.mark_fn)(cleanup.ptr, &mut mark);
+                mark.mark(*id);
             }
 
             dfs.visited.clear();
@@ -249,6 +239,10 @@ struct Dfs {
     ref_graph: HashMap<AllocationId, Reachability>,
     /// The set of allocations whose contents could not be visited, which therefore must be kept.
     inaccessible: HashSet<AllocationId>,
+    /// For each allocation, the allocations which it was found to refer to.
+    children: HashMap<AllocationId, Vec<AllocationId>>,
+    /// The allocation whose contents are being visited.
+    current_id: AllocationId,
 }
 
 #[derive(Debug)]
@@ -257,10 +251,6 @@ struct Reachability {
     /// The number of unaccounted-for references to this allocation.
     /// If this number is 0, the reference is not a root.
     n_unaccounted: usize,
-    /// An erased pointer to the allocation under concern.
-    ptr: Erased,
-    /// A function used to mark descendants of this allocation as accessible.
-    mark_fn: unsafe fn(Erased, &mut Mark),
 }
 
 impl Visitor for Dfs {
@@ -288,44 +278,41 @@ impl Visitor for Dfs {
             Entry::Vacant(v) => {
                 v.insert(Reachability {
                     n_unaccounted: unsafe { next_id.0.as_ref().get().get() - 1 },
-                    ptr: Erased::new(ptr),
-                    mark_fn: apply_visitor::<T, Mark>,
                 });
             }
         }
+        self.children
+            .entry(self.current_id)
+            .or_default()
+            .push(next_id);
         if self.visited.insert(next_id) {
+            let previous_id = replace(&mut self.current_id, next_id);
             if unsafe { ptr.as_ref() }.value.accept(self).is_err() {
                 self.inaccessible.insert(next_id);
             }
+            self.current_id = previous_id;
         }
     }
 }
 
 /// A mark traversal, which marks allocations as reachable.
-struct Mark {
+/// It follows the reference graph found before instead of visiting the allocations again, as another
+/// thread might have locked a part of them in the meantime.
+struct Mark<'a> {
     /// The set of allocations which have been marked as reachable.
     visited: HashSet<AllocationId>,
+    /// For each allocation, the allocations which it refers to.
+    children: &'a HashMap<AllocationId, Vec<AllocationId>>,
 }
 
-impl Visitor for Mark {
-    fn visit_sync<T>(&mut self, _: &crate::sync::Gc<T>)
-    where
-        T: Collectable + Send + Sync + ?Sized,
-    {
-        // because `Gc` is `!Sync`, we know we won't find a `Gc` this way and can return
-        // immediately.
-    }
-
-    fn visit_unsync<T>(&mut self, gc: &Gc<T>)
-    where
-        T: Collectable + ?Sized,
-    {
-        let Some(ptr) = gc.ptr.get().as_option() else {
-            // a dead `Gc` which escaped from a `Drop` implementation refers to nothing
-            return;
-        };
-        if self.visited.insert(AllocationId::from(ptr)) {
-            let _ = unsafe { ptr.as_ref().value.accept(self) };
+impl Mark<'_> {
+    /// Mark `root` and all allocations reachable from it.
+    fn mark(&mut self, root: AllocationId) {
+        let mut to_mark = vec![root];
+        while let Some(id) = to_mark.pop() {
+            if self.visited.insert(id) {
+                to_mark.extend(self.children.get(&id).into_iter().flatten());
+            }
         }
     }
 }
-- 
2.43.0


From d3d982b5869fc3ada5eb4c83a8fed9c7c032fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:31 +0000
Subject: [PATCH 18/19] fix: allow deriving Collectable for structs written by
 macros

The derived code named self and the visitor with the span of the field.
When the field came from an argument of another macro, these names were
looked up where the argument was written and were not found.
---
 dumpster_derive/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 96bb7dd..abd7fa9 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -11,11 +11,11 @@
 #![warn(clippy::cargo)]
 #![allow(clippy::multiple_crate_versions)]
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
 use syn::{
-    parse_macro_input, parse_quote, spanned::Spanned, Data, DeriveInput, Fields, GenericParam,
-    Generics, Ident, Index,
+    parse_macro_input, parse_quote, spanned::Spanned, Data, DeriveInput, Field, Fields,
+    GenericParam, Generics, Ident, Index,
 };
 
 #[proc_macro_derive(Collectable)]
@@ -53,6 +53,12 @@ fn add_trait_bounds(mut generics: Generics) -> Generics {
     generics
 }
 
+/// Get the span for code about some field: errors are reported at the field, but names are looked
+/// up as in the rest of the generated code, even if the field was written by another macro.
+fn field_span(field: &Field) -> Span {
+    field.span().resolved_at(Span::call_site())
+}
+
 #[allow(clippy::too_many_lines)]
 /// Generate method implementations for [`Collectable`] for some data type.
 fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
@@ -61,7 +67,7 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             Fields::Named(ref f) => {
                 let delegate_visit = f.named.iter().map(|f| {
                     let name = &f.ident;
-                    quote_spanned! {f.span() =>
+                    quote_spanned! {field_span(f) =>
                         dumpster::Collectable::accept(
                             &self.#name,
                             visitor
@@ -74,7 +80,7 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             Fields::Unnamed(ref f) => {
                 let delegate_visit = f.unnamed.iter().enumerate().map(|(i, f)| {
                     let index = Index::from(i);
-                    quote_spanned! {f.span() =>
+                    quote_spanned! {field_span(f) =>
                         dumpster::Collectable::accept(
                             &self.#index,
                             visitor
-- 
2.43.0


From 13515fd9ddf1da4f91f83894ba61fe5172c6895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:19:45 +0000
Subject: [PATCH 19/19] fix: use sequentially consistent operations for
 counting references against a sweep

A sweep could read a strong count from before a clone while the clone read
the tag from before the sweep. Neither noticed the other, and a value which
was still in use was destroyed (or the sweep panicked because it found more
references than it had counted).
---
 dumpster/src/sync/collect.rs | 6 +++---
 dumpster/src/sync/mod.rs     | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b1cdf54..c2c4219 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -310,7 +310,7 @@ impl GarbageTruck {
         let to_collect = take(&mut *self.contents.lock());
         let mut ref_graph = HashMap::with_capacity(to_collect.len());
 
-        CURRENT_TAG.fetch_add(1, Ordering::Release);
+        CURRENT_TAG.fetch_add(1, Ordering::SeqCst);
 
         for (_, TrashCan { ptr, dfs_fn }) in to_collect {
             unsafe { dfs_fn(ptr, &mut ref_graph) };
@@ -417,7 +417,7 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
         box_ref.weak.fetch_sub(1, Ordering::Release);
         return;
     };
-    let strong_count = box_ref.strong.load(Ordering::Acquire);
+    let strong_count = box_ref.strong.load(Ordering::SeqCst);
     v.insert(AllocationInfo {
         ptr,
         weak_drop_fn: drop_weak_zero::<T>,
@@ -517,7 +517,7 @@ impl<'a> Visitor for Dfs<'a> {
             },
             Entry::Vacant(v) => {
                 // This allocation has never been visited by the reference graph builder
-                let strong_count = box_ref.strong.load(Ordering::Acquire);
+                let strong_count = box_ref.strong.load(Ordering::SeqCst);
                 box_ref.weak.fetch_add(1, Ordering::Acquire);
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index c841177..032ecbd 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -441,10 +441,11 @@ where
             This means a Gc was accessed during a Drop implementation, likely implying a bug in your code.").as_ref()
         };
         // increment strong count before generation to ensure cleanup never underestimates ref count
-        box_ref.strong.fetch_add(1, Ordering::Acquire);
+        // sequentially consistent: either a cleanup sees this, or we see its tag
+        box_ref.strong.fetch_add(1, Ordering::SeqCst);
         box_ref
             .generation
-            .store(CURRENT_TAG.load(Ordering::Acquire), Ordering::Release);
+            .store(CURRENT_TAG.load(Ordering::SeqCst), Ordering::Release);
         notify_created_gc();
         // mark_clean(box_ref); // causes performance drops
         Gc {
-- 
2.43.0

