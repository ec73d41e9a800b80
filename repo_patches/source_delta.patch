From a9360bdf482a205567c326da053d3cb87d4a8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 01/10] fix: adding the 14th component or removing from a
 14-component archetype descriptor no longer indexes out of bounds

---
 src/descriptors/archetype_descriptor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..e06b4fe 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -137,7 +137,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -159,9 +159,10 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                for i in found_index..self.len() as usize - 1 {
                     v.components[i] = self.components[i + 1].clone();
                 }
+                v.components[self.len() as usize - 1] = ComponentDescriptor::INVALID;
 
                 v.len -= 1;
                 v.archetype_id =
-- 
2.43.0


From 53744d59f4803a818322f580ec015643521e2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 02/10] fix: component groups compute their archetype id over
 their own components only, so create and add/remove agree on it

---
 src/descriptors/component_group_descriptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..6e6a878 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,8 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the first N descriptors are part of the group, the remainder is padding.
+        let id = ArchetypeDescriptor::compute_archetype_id(sorted_descriptors.split_at(N).0);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From 3e5d0438e675ecaf2462697dceb21653bacc0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 03/10] fix: remove_entity leaves the entity alone unless the
 group matches its components exactly

---
 src/registry/registry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..29a8935 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,15 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        // The group must describe exactly the components stored for the entity.
+        if !G::DESCRIPTOR.is_valid()
+            || G::DESCRIPTOR.len() != archetype.descriptor().len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From 4f7d550b028feaa0ae0a881481e096dbfcbb4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 04/10] fix: invalid component groups match no entity instead
 of dereferencing null or underflowing

---
 src/archetype_registry/iterators/archetype_iter.rs       | 2 +-
 src/archetype_registry/iterators/archetype_iter_mut.rs   | 2 +-
 .../iterators/filter_archetype_iter.rs                   | 2 +-
 .../iterators/filter_archetype_iter_mut.rs               | 2 +-
 src/registry/registry.rs                                 | 9 +++++++++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 29a8935..6499b86 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -122,6 +122,9 @@ impl Registry {
     /// Returns false if entity is invalid or does not have all of the specified components.
     /// If you need to check for only a single components, prefer to use [`Registry::has_component`] instead.
     pub fn has_components<'registry, G: ComponentGroup>(&'registry self, entity: Entity) -> bool {
+        if !G::DESCRIPTOR.is_valid() {
+            return false;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return false,
             Some(v) => v,
@@ -156,6 +159,9 @@ impl Registry {
         &'registry self,
         entity: Entity,
     ) -> Option<G::RefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
@@ -197,6 +203,9 @@ impl Registry {
         &'registry mut self,
         entity: Entity,
     ) -> Option<G::MutRefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
-- 
2.43.0


From 179d0958cb2fbca660162398467b5d5922852622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 05/10] fix: archetypes grow up to the entity limit instead of
 freeing their storage at 8388608 entities

---
 src/archetype/data_access.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..53fba12 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -507,6 +507,10 @@ impl Archetype {
             } else {
                 self.capacity() as usize
             };
+            // Grow up to, but never beyond the maximum amount of entities.
+            let additional_capacity = additional_capacity
+                .min(MAX_ENTITIES_PER_ARCHETYPE as usize - self.capacity() as usize);
+            assert_ne!(additional_capacity, 0);
             self.resize_capacity(additional_capacity as isize);
         }
     }
-- 
2.43.0


From a9e4e42587526cec47d94bc88f6b2033294ce48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 06/10] fix: zero-sized components and archetypes without
 capacity no longer allocate, reallocate or dereference invalid memory

---
 src/archetype/data_access.rs | 19 ++++++++----------
 src/archetype/mod.rs         | 37 ++++++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 53fba12..6045fa8 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -1,8 +1,8 @@
-use super::Archetype;
+use super::{deallocate, reallocate, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
+use alloc::alloc::Layout;
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
 
@@ -430,7 +430,7 @@ impl Archetype {
             size_of::<Entity>() * old_capacity as usize,
             align_of::<Entity>(),
         );
-        self.entity_associations = realloc(
+        self.entity_associations = reallocate(
             self.entity_associations as *mut u8,
             layout,
             size_of::<Entity>() * new_capacity,
@@ -445,7 +445,7 @@ impl Archetype {
                 component_type.size as usize * old_capacity as usize,
                 component_type.align as usize,
             );
-            *pointer = realloc(
+            *pointer = reallocate(
                 *pointer,
                 layout,
                 component_type.size as usize * new_capacity,
@@ -463,23 +463,20 @@ impl Archetype {
             .iter_mut()
             .enumerate()
         {
-            if pointer.is_null() {
-                return;
-            }
             let component_type = &self.descriptor.components()[index];
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
             );
-            dealloc(*pointer, layout);
-            *pointer = core::ptr::null_mut();
+            deallocate(*pointer, layout);
+            *pointer = component_type.align as usize as *mut u8;
         }
         let layout = Layout::from_size_align_unchecked(
             size_of::<Entity>() * self.capacity() as usize,
             align_of::<Entity>(),
         );
-        dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        deallocate(self.entity_associations as *mut u8, layout);
+        self.entity_associations = core::ptr::NonNull::dangling().as_ptr();
         self.capacity = 0;
     }
 
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..95d6c8b 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -1,9 +1,34 @@
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
 use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
 use crate::*;
-use alloc::alloc::{alloc, Layout};
+use alloc::alloc::{alloc, dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 
+/// Allocates memory for the given layout.
+/// Layouts of size zero are not allocated, a dangling well-aligned pointer is returned instead.
+unsafe fn allocate(layout: Layout) -> *mut u8 {
+    if layout.size() == 0 {
+        return layout.align() as *mut u8;
+    }
+    alloc(layout)
+}
+
+/// Resizes memory returned by [`allocate`].
+unsafe fn reallocate(pointer: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
+    if layout.size() == 0 || new_size == 0 {
+        deallocate(pointer, layout);
+        return allocate(Layout::from_size_align_unchecked(new_size, layout.align()));
+    }
+    realloc(pointer, layout, new_size)
+}
+
+/// Deallocates memory returned by [`allocate`] or [`reallocate`].
+unsafe fn deallocate(pointer: *mut u8, layout: Layout) {
+    if layout.size() != 0 {
+        dealloc(pointer, layout);
+    }
+}
+
 mod data_access;
 #[cfg(test)]
 mod tests;
@@ -42,10 +67,14 @@ impl Archetype {
         let mut archetype = Self {
             descriptor: archetype_descriptor.clone(),
             pointers: [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY],
-            entity_associations: core::ptr::null_mut(),
+            entity_associations: core::ptr::NonNull::dangling().as_ptr(),
             entity_count: 0,
             capacity: 0,
         };
+        // Without allocations the pointers are dangling, but never null.
+        for (index, component) in archetype.descriptor.components().iter().enumerate() {
+            archetype.pointers[index] = component.align as usize as *mut u8;
+        }
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
             unsafe {
@@ -53,7 +82,7 @@ impl Archetype {
                     size_of::<Entity>() * capacity as usize,
                     align_of::<Entity>(),
                 );
-                archetype.entity_associations = alloc(layout) as *mut Entity;
+                archetype.entity_associations = allocate(layout) as *mut Entity;
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
@@ -61,7 +90,7 @@ impl Archetype {
                         component.size as usize * capacity as usize,
                         component.align as usize,
                     );
-                    archetype.pointers[index] = alloc(layout);
+                    archetype.pointers[index] = allocate(layout);
                     assert_ne!(archetype.pointers[index], core::ptr::null_mut());
                 }
                 archetype.capacity = capacity;
-- 
2.43.0


From 7e871b13705c2ec2b9d5253d2247025e637d6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 07/10] fix: at the entity limit, freed entity slots are reused
 and create_entity returns Err instead of panicking

---
 src/entity_registry/mod.rs | 3 ++-
 src/registry/registry.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..a8ef5de 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -31,10 +31,11 @@ impl EntityRegistry {
 
     pub fn can_register_new_entity(&self) -> bool {
         self.entities.len() < Self::MAX_ENTITY_COUNT
+            || self.next_free_slot != IndexInArchetype::INVALID_VALUE
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 6499b86..2893431 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,7 +29,10 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
-        let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
+        let index_in_archetype = match IndexInArchetype::new(archetype.len()) {
+            Some(v) => v,
+            None => return Err(components),
+        };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
-- 
2.43.0


From ae56b98e87c8afe1c4fb08f0a1b080a1ee5d02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 08/10] fix: component sets with colliding archetype ids no
 longer share an archetype

---
 src/archetype_registry/mod.rs           | 30 +++++++++++++++++--------
 src/descriptors/archetype_descriptor.rs |  7 +++++-
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..366426c 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -68,15 +68,31 @@ impl Default for ArchetypeRegistry {
 }
 
 impl ArchetypeRegistry {
+    /// Searches for the archetype having exactly the described components.
+    /// Archetype ids are hashes, so archetypes with equal ids are ordered by their components.
+    fn search_level(&self, archetype_descriptor: &ArchetypeDescriptor) -> Result<usize, usize> {
+        self.sorted_mappings[archetype_descriptor.len() as usize - 1].binary_search_by(|e| {
+            e.id.cmp(&archetype_descriptor.archetype_id())
+                .then_with(|| {
+                    let descriptor = self.archetypes[e.archetype_index as usize].descriptor();
+                    let ids = descriptor.components().iter().map(|c| c.component_type_id);
+                    ids.cmp(
+                        archetype_descriptor
+                            .components()
+                            .iter()
+                            .map(|c| c.component_type_id),
+                    )
+                })
+        })
+    }
+
     #[allow(dead_code)]
     pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
         let len = archetype_descriptor.len() as usize;
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_level(archetype_descriptor) {
             Ok(found_index) => Some(
                 &self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -94,9 +110,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_level(archetype_descriptor) {
             Ok(found_index) => Some(
                 &mut self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -169,9 +183,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        return match self.search_level(archetype_descriptor) {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
                 &mut self.archetypes
diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index e06b4fe..78f7388 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let hash = fnv1a_hash_32(&bytes, Some(bytes.len()));
+        // The hash may not coincide with the id reserved for invalid archetypes.
+        if hash == ArchetypeId::INVALID.into_u32() {
+            return ArchetypeId::from_u32(0);
+        }
+        ArchetypeId::from_u32(hash)
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From c200da7c984ea3fda968f0cec522e83ca75b49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 09/10] fix: out of range source archetype index is rejected
 instead of panicking

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 366426c..9c81e4d 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -127,7 +127,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -155,7 +155,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From e0a268dd9f188f8d17e205c8450b2fd3a6a46e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 10/10] x

hooks: observation points for the verification harnesses (cfg(kani))
---
 src/archetype/mod.rs                  |  2 ++
 src/archetype/verif_hooks.rs          | 26 ++++++++++++++++++
 src/archetype_registry/mod.rs         |  2 ++
 src/archetype_registry/verif_hooks.rs | 39 +++++++++++++++++++++++++++
 src/entity_registry/mod.rs            |  2 ++
 src/entity_registry/verif_hooks.rs    | 21 +++++++++++++++
 src/lib.rs                            |  2 ++
 src/registry/registry.rs              |  4 +++
 src/registry/verif_hooks.rs           | 18 +++++++++++++
 9 files changed, 116 insertions(+)
 create mode 100644 src/archetype/verif_hooks.rs
 create mode 100644 src/archetype_registry/verif_hooks.rs
 create mode 100644 src/entity_registry/verif_hooks.rs
 create mode 100644 src/registry/verif_hooks.rs

diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 95d6c8b..e12623e 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -32,6 +32,8 @@ unsafe fn deallocate(pointer: *mut u8, layout: Layout) {
 mod data_access;
 #[cfg(test)]
 mod tests;
+#[cfg(kani)]
+mod verif_hooks;
 
 #[derive(Debug)]
 pub struct Archetype {
diff --git a/src/archetype/verif_hooks.rs b/src/archetype/verif_hooks.rs
new file mode 100644
index 0000000..75a9378
--- /dev/null
+++ b/src/archetype/verif_hooks.rs
@@ -0,0 +1,26 @@
+//! Observation points for the verification harnesses. Only compiled under `cfg(kani)`.
+use super::Archetype;
+use crate::Entity;
+
+impl Archetype {
+    /// Sets the entity count without touching the storage.
+    pub fn verif_set_len(&mut self, len: u32) {
+        self.entity_count = len;
+    }
+    /// Start of the column of the n-th component.
+    pub fn verif_column(&self, n: usize) -> *mut u8 {
+        self.pointers[n]
+    }
+    /// Start of the entity column.
+    pub fn verif_entity_column(&self) -> *mut Entity {
+        self.entity_associations
+    }
+    /// Calls the internal resizing function.
+    pub unsafe fn verif_resize_capacity(&mut self, change: isize) {
+        self.resize_capacity(change)
+    }
+    /// Calls the internal deallocation function.
+    pub unsafe fn verif_dealloc(&mut self) {
+        self.dealloc()
+    }
+}
diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9c81e4d..c2f2783 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -3,6 +3,8 @@ mod sorted_archetype_key;
 pub(crate) mod iterators;
 #[cfg(test)]
 mod tests;
+#[cfg(kani)]
+mod verif_hooks;
 
 use alloc::vec::*;
 use core::ops::{Index, IndexMut};
diff --git a/src/archetype_registry/verif_hooks.rs b/src/archetype_registry/verif_hooks.rs
new file mode 100644
index 0000000..33d0245
--- /dev/null
+++ b/src/archetype_registry/verif_hooks.rs
@@ -0,0 +1,39 @@
+//! Observation points for the verification harnesses. Only compiled under `cfg(kani)`.
+use super::*;
+use crate::ArchetypeId;
+
+impl ArchetypeRegistry {
+    /// Builds a registry from its archetypes and their sorted keys, given per component count.
+    pub fn verif_from_parts(
+        keys: [Vec<(ArchetypeId, u16)>; MAX_COMPONENTS_PER_ENTITY],
+        archetypes: Vec<Archetype>,
+    ) -> Self {
+        let sorted_mappings = keys.map(|level| {
+            let mut mapped = Vec::with_capacity(level.len() + 1);
+            for (id, archetype_index) in level {
+                mapped.push(SortedArchetypeKey {
+                    id,
+                    archetype_index,
+                });
+            }
+            mapped
+        });
+        Self {
+            sorted_mappings,
+            archetypes,
+        }
+    }
+    /// All archetypes.
+    pub fn verif_archetypes(&self) -> &[Archetype] {
+        &self.archetypes
+    }
+    /// Amount of keys for archetypes having `components` components.
+    pub fn verif_key_count(&self, components: usize) -> usize {
+        self.sorted_mappings[components - 1].len()
+    }
+    /// The n-th key for archetypes having `components` components.
+    pub fn verif_key(&self, components: usize, n: usize) -> (ArchetypeId, u16) {
+        let key = self.sorted_mappings[components - 1][n];
+        (key.id, key.archetype_index)
+    }
+}
diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index a8ef5de..5947042 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -3,6 +3,8 @@ mod archetype_index;
 mod entry;
 mod iterator;
 mod index_in_archetype;
+#[cfg(kani)]
+mod verif_hooks;
 
 pub use entity::*;
 pub use entry::*;
diff --git a/src/entity_registry/verif_hooks.rs b/src/entity_registry/verif_hooks.rs
new file mode 100644
index 0000000..fce1097
--- /dev/null
+++ b/src/entity_registry/verif_hooks.rs
@@ -0,0 +1,21 @@
+//! Observation points for the verification harnesses. Only compiled under `cfg(kani)`.
+use super::{EntityEntry, EntityRegistry};
+use alloc::vec::Vec;
+
+impl EntityRegistry {
+    /// Builds a registry from its slots and the head of its free list.
+    pub fn verif_from_parts(entities: Vec<EntityEntry>, next_free_slot: u32) -> Self {
+        Self {
+            entities,
+            next_free_slot,
+        }
+    }
+    /// All slots.
+    pub fn verif_slots(&self) -> &[EntityEntry] {
+        &self.entities
+    }
+    /// Head of the free list.
+    pub fn verif_next_free_slot(&self) -> u32 {
+        self.next_free_slot
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 1ffe256..3bc24bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![no_std]
+// The verification harnesses are built with `cfg(kani)`.
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 2893431..b2e2f43 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -6,6 +6,10 @@ use crate::descriptors::component_group::ComponentGroup;
 use crate::entity_registry::IndexInArchetype;
 use crate::{entity_registry::EntityRegistry, Component, Entity};
 
+#[cfg(kani)]
+#[path = "verif_hooks.rs"]
+mod verif_hooks;
+
 /// The primary construct in the *Shard* Entity Component System (ECS).
 #[derive(Default)]
 pub struct Registry {
diff --git a/src/registry/verif_hooks.rs b/src/registry/verif_hooks.rs
new file mode 100644
index 0000000..c31c1e9
--- /dev/null
+++ b/src/registry/verif_hooks.rs
@@ -0,0 +1,18 @@
+//! Observation points for the verification harnesses. Only compiled under `cfg(kani)`.
+use super::Registry;
+use crate::archetype_registry::ArchetypeRegistry;
+use crate::entity_registry::EntityRegistry;
+
+impl Registry {
+    /// Builds a registry from its parts.
+    pub fn verif_from_parts(entities: EntityRegistry, archetypes: ArchetypeRegistry) -> Self {
+        Self {
+            entities,
+            archetypes,
+        }
+    }
+    /// The parts of the registry.
+    pub fn verif_parts(&self) -> (&EntityRegistry, &ArchetypeRegistry) {
+        (&self.entities, &self.archetypes)
+    }
+}
-- 
2.43.0

