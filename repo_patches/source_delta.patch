From 26f3a8b391b79ff266b9db5a736bc2189c780c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 01/15] fix: wide enough child indices in 256-bit SparseTree
 configurations

Index 0 is reserved for the empty block/item, so a full 256-child root level
needs 257 indices (u8 wraps to 0) and a full first level 256^2 + 1 (u16 wraps).
---
 src/config.rs      | 4 +++-
 src/sparse_tree.rs | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 0ebf70c..c5dbc0b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,7 +48,9 @@ pub mod width_128 {
 #[allow(non_camel_case_types)]
 pub mod width_256{
     use super::*;
-    generate!(Block<wide::u64x4, [u8; 256]>, Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>);
+    // Index 0 always points to the empty block/item. So with 256 childs we need 257 indices
+    // at root level (does not fit u8), and 256^2 + 1 at the first level (does not fit u16).
+    generate!(Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>, Block<wide::u64x4, [u32; 256]>);
 }
 
 /*pub type _64x1 = w64::d1;
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 9394e78..7922316 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -24,6 +24,7 @@ use crate::hibit_tree::{HibitTree, HibitTreeCursor};
 /// 
 /// To save memory, instead of traditional pointers, integer indices
 /// are used. Root level use u8 for indices, first level - u16, everything below - u32.
+/// (256-bit wide configurations use u16 for root level, and u32 for everything below)
 /// 
 /// It is slightly faster than [DenseTree], and can have wider nodes with 
 /// SIMD-accelerated bitmasks.
-- 
2.43.0


From f09e7096810d95dd9e9f0f4250227f714a0b920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 02/15] fix: NodePtr::from_parts must count the trailing empty
 child in len

Node len always includes the excess empty child. Without it, removing from (or
inserting to) a DenseTree materialized from a non-exact hierarchy corrupts it.
---
 src/dense_tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 734c5f6..5943294 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -219,7 +219,7 @@ impl NodePtr {
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
-        addr_of_mut!((*node).len).write(len as u8);
+        addr_of_mut!((*node).len).write(cap);   // childs + empty_child
         
         let mut this = Self(NonNull::new_unchecked(node));
         
-- 
2.43.0


From 104d10c66ae6c3db1198aaced66cb9563410acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 03/15] fix: DenseTree from non-exact hierarchy: no empty
 nodes, empty source

Empty terminal nodes were kept, breaking EXACT_HIERARCHY of the resulting
DenseTree. And if the source had no elements at all, None root was
unwrap_unchecked.
---
 src/dense_tree/from.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 474c2c6..d9aedf2 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -7,7 +7,7 @@ use crate::{
     HibitTreeCursorTypes, HibitTreeTypes
 };
 
-use super::node::{empty_node, NodePtr};
+use super::node::{empty_node, NodePtr, DEFAULT_CAP};
 use super::{DenseTree, DataIndex, Mask};
 
 type CursorData<'src, 'state, L> = 
@@ -110,6 +110,11 @@ where
     let mask = other_cursor.select_level_node_unchecked(other, n, index);
     
     if N::VALUE == L::LevelCount::VALUE - 1 {
+        // Only root node can be empty.
+        if N::VALUE != 0 && mask.is_zero() {
+            return None;
+        }
+        
         // terminal node with data
         let len = mask.count_ones() as u8;
         let cap = len + 1;
@@ -171,7 +176,10 @@ where
             } else {
                 from_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                ).unwrap_unchecked()
+                ).unwrap_or_else(
+                    // Tree is empty. (DEPTH > 1 here - terminal root always exists)
+                    || NodePtr::new::<NodePtr>(DEFAULT_CAP, empty_node(ConstUsize::<1>, ConstUsize::<DEPTH>))
+                )
             }
         };
         Self{ root, data, keys }
-- 
2.43.0


From 7e83f7c9ffeefde45ec5c70a3e47b6c8889da4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 04/15] fix: remove() from one-level DenseTree

Branch does not include the root node, which is the terminal one when DEPTH == 1.
unwrap_unchecked on an empty branch is UB.
---
 src/dense_tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 41075a0..776879d 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -232,7 +232,12 @@ where
             let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
             let branch = self.get_branch(&indices);
 
-            let terminal_node = branch.as_ref().last().unwrap_unchecked();
+            let terminal_node = if DEPTH == 1 {
+                // Branch does not include root.
+                self.root
+            } else {
+                *branch.as_ref().last().unwrap_unchecked()
+            };
             let terminal_inner_index = *indices.as_ref().last().unwrap_unchecked();
 
             let data_index = terminal_node.get_child::<DataIndex>(terminal_inner_index).as_usize();
@@ -241,7 +246,7 @@ where
                 terminal_node.remove::<DataIndex>(terminal_inner_index);
 
                 // 1. Try remove empty terminal node recursively.
-                if terminal_node.header().len() == 1 /* TODO: unlikely */ {
+                if DEPTH != 1 /*don't touch root*/ && terminal_node.header().len() == 1 /* TODO: unlikely */ {
                     terminal_node.drop_node::<DataIndex>();
 
                     // climb up the tree, and remove empty nodes
-- 
2.43.0


From 45883288b7d4eff42e26a4e177fe6a4dca0bf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 05/15] fix: index_range() overflow for 8-level 256-bit
 hierarchy

Use saturating_pow, same as Index::from.
---
 src/hibit_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hibit_tree.rs b/src/hibit_tree.rs
index c55317e..4652089 100644
--- a/src/hibit_tree.rs
+++ b/src/hibit_tree.rs
@@ -213,7 +213,7 @@ where
     /// Act as `const`.
     #[inline]
     /*const*/ fn index_range() -> RangeTo<usize> {
-        RangeTo{ end: Self::LevelMask::SIZE.pow(Self::LevelCount::VALUE as _) }
+        RangeTo{ end: Self::LevelMask::SIZE.saturating_pow(Self::LevelCount::VALUE as _) }
     }
 }
 
-- 
2.43.0


From 6157c69ce4b3d6bd4759af935f1e126c5d167ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 06/15] fix: multi_intersection of zero trees is empty for
 get() too

get() returned Some(empty iterator) for any index, while hierarchy is empty.
---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index bb097a6..b0834fa 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -111,6 +111,10 @@ where
                     return None;
                 }
             }
+            if datas.is_empty() {
+                // Intersection of nothing is empty.
+                return None;
+            }
             
             Some(datas.into_iter())
         }
-- 
2.43.0


From d3aab57f2abf82a75b0bbfb6781d6f3be4d8db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 07/15] fix: multi_intersection cursor: data() after
 select_level_node_unchecked

Unchecked select did not update terminal node mask, which data() relies on.
---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index b0834fa..f0e7d0e 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -428,6 +428,10 @@ where
             acc_mask &= mask;
         }            
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
-- 
2.43.0


From 7c3d38f0a8685829e2f826af5de1e3fcaf6b64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 08/15] fix: multi_union cursor: data() of missing items, and
 one-level hierarchies

data() returned Some(empty iterator) for items that are not in any tree, so
multi_map_fold(multi_union(..)) had phantom items when nested in union/
intersection. And data() panicked with todo!() for one-level hierarchies.
---
 src/ops/_multi_union.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 7d492ad..aab9fa0 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -118,6 +118,15 @@ where
 
 const N: usize = 32;
 type CursorIndex = u8;
+const ALL_CURSOR_INDICES: [CursorIndex; N] = {
+    let mut indices = [0; N];
+    let mut i = 0;
+    while i < N {
+        indices[i] = i as CursorIndex;
+        i += 1;
+    }
+    indices
+};
 type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>);
 
 pub struct Cursor<'src, 'item, Iter>
@@ -134,6 +143,8 @@ where
         <<IterItem<Iter> as HibitTree>::LevelCount as ConstInteger>::Dec,
     >,
     
+    terminal_node_mask: <IterItem<Iter> as HibitTree>::LevelMask,
+    
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
 }
 
@@ -164,6 +175,7 @@ where
         Self {
             cursors: states,
             lvls_non_empty_states: Array::from_fn(|_|ArrayVec::new()),
+            terminal_node_mask: BitBlock::zero(),
             phantom_data: PhantomData,
         }
     }
@@ -180,13 +192,16 @@ where
     unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, level_n: N, level_index: usize) 
         -> <Self::Src as HibitTree>::LevelMask 
     {
-        let mut acc_mask = BitBlock::zero();
+        let mut acc_mask: <Self::Src as HibitTree>::LevelMask = BitBlock::zero();
         
         if N::VALUE == 0 {
             for (array, array_cursor) in self.cursors.iter_mut() {
                 let mask = array_cursor.select_level_node(array, level_n, level_index);
                 acc_mask |= mask;
             }            
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                self.terminal_node_mask = acc_mask.clone();
+            }
             return acc_mask;
         }
         
@@ -218,6 +233,10 @@ where
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone();
+        }
+        
         acc_mask
     }
 
@@ -225,16 +244,19 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
-        if lvl_non_empty_states.is_empty(){
+        // At least one of the trees must have item at `level_index`.
+        if !self.terminal_node_mask.get_bit(level_index) {
             return None;
         }
         
+        let lvl_non_empty_states = if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+            // We don't store root level - just use all cursors.
+            ALL_CURSOR_INDICES.get_unchecked(..self.cursors.len())
+        } else {
+            self.lvls_non_empty_states.as_ref()
+                .last().unwrap_unchecked().as_slice()
+        };
+        
         Some(CursorData {
             lvl_non_empty_states: lvl_non_empty_states.iter(),
             cursors: &self.cursors,
-- 
2.43.0


From 5db29f4d2f2f401cab3284e9706b8ff6fced38cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 09/15] fix: const_for/const_for_rev must not visit values
 below from

const_for(2, 4) visited 0 too, const_for_rev(1, 3) visited 0 too.
---
 src/const_utils/const_int.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index 1aff1bb..a531438 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -35,13 +35,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = self.dec().iterate_as_range(from, visitor);
         if ctrl.is_continue() {
-            if self.value() == from.value() {
-                Continue(())
-            } else {            
-                visitor.visit(self.dec())
-            }
+            visitor.visit(self.dec())
         } else {
             ctrl
         }
@@ -54,13 +53,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = visitor.visit(self.dec());
         if ctrl.is_continue(){
-            if self.value() == from.value() {
-                Continue(())
-            } else {
-                self.dec().iterate_as_range_rev(from, visitor)
-            }
+            self.dec().iterate_as_range_rev(from, visitor)
         } else {
             ctrl
         }
-- 
2.43.0


From 6cf77274aeb37b8d9166902583da3e3d591dc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 10/15] fix: ConstInteger::sat_dec() must saturate

It returned Dec, and panicked for zero.
---
 src/const_utils/const_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index a531438..383a01b 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -82,8 +82,8 @@ pub trait ConstInteger: ConstIntegerPrivate + Default + Copy + Eq + Debug + 'sta
     type SatDec: ConstInteger;
     /// Saturating decrement
     #[inline]
-    fn sat_dec(self) -> Self::Dec {
-        Self::Dec::default()
+    fn sat_dec(self) -> Self::SatDec {
+        Self::SatDec::default()
     }
     
     type Dec: ConstInteger;
-- 
2.43.0


From 0d244bcdb971bf6e3943bfb48edeb83ecb22943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 11/15] fix: DenseTree does not compile with may_dangle feature

---
 src/dense_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 776879d..7b80d42 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -329,7 +329,10 @@ where
 }
 
 #[cfg(feature = "may_dangle")]
-unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH> {
+unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH>
+where
+    ConstUsize<DEPTH>: ConstInteger
+{
     #[inline]
     fn drop(&mut self) {
         unsafe{ self.drop_impl(); }
-- 
2.43.0


From e849461a13f62617fb69d91e4d8c5f8d2f6a61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 12/15] fix: values dropped twice when a value's drop panics in
 drop of the tree

drop_impl zeroed the length of the value vector only after drop_in_place, so
on unwinding the vector dropped all values again, and the uninitialized
placeholder in slot 0 too.
---
 src/dense_tree.rs  | 3 ++-
 src/sparse_tree.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 7b80d42..4ba6e66 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -320,8 +320,9 @@ where
             self.data.as_mut_ptr().add(1), 
             self.data.len() - 1
         ); 
-        ptr::drop_in_place(slice);
+        // Before drop_in_place: if value's drop panics, `data` must not drop them again.
         self.data.set_len(0);
+        ptr::drop_in_place(slice);
         
         // drop node hierarchy
         self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>()         
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 7922316..1a62e0a 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -527,8 +527,9 @@ where
             self.values.as_mut_ptr().add(skip_first as usize), 
             self.values.len() - skip_first as usize
         ); 
-        ptr::drop_in_place(slice);
+        // Before drop_in_place: if value's drop panics, `values` must not drop them again.
         self.values.set_len(0);
+        ptr::drop_in_place(slice);
     }
 }
 
-- 
2.43.0


From 635ca7d1aaeab9a0844820e4c894ee6393ddc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 13/15] fix: SparseTree::default dropped an uninitialized value
 when Data::default panics

---
 src/sparse_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 1a62e0a..5ea9e65 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -76,11 +76,12 @@ where
     #[inline]
     fn default() -> Self {
         let mut values: Vec<Data> = Vec::with_capacity(1);
-        unsafe{ values.set_len(1); }
         unsafe{
             <DefaultInitFor<Data, R> as DefaultInit>
             ::init_default(values.as_mut_ptr().cast());
         }
+        // After init_default: it may panic, with slot 0 still uninitialized.
+        unsafe{ values.set_len(1); }
         
         Self{
             levels: Levels::default(),
-- 
2.43.0


From 4444fc1ffbfb575b1abc97d7fa83bfd04b5cc680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 14/15] fix: DenseTree materialize dropped an uninitialized
 value when the source panics

---
 src/dense_tree/from.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index d9aedf2..1fc2686 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -1,4 +1,5 @@
 use arrayvec::ArrayVec;
+use std::mem::ManuallyDrop;
 use std::ops::ControlFlow::Continue;
 
 use crate::const_utils::{ConstInteger, ConstUsize};
@@ -156,7 +157,8 @@ where
 {
     fn from_sparse_hierarchy(other: From) -> Self {
         let mut other_cursor = <From as HibitTreeTypes>::Cursor::new(&other);        
-        let mut data: Vec<T> = Vec::with_capacity(1);
+        // ManuallyDrop: `other` may panic, and slot 0 must not be dropped then. 
+        let mut data = ManuallyDrop::new(Vec::<T>::with_capacity(1));
         unsafe{ data.set_len(1); }
         
         let mut keys = vec![usize::MAX];
@@ -182,6 +184,6 @@ where
                 )
             }
         };
-        Self{ root, data, keys }
+        Self{ root, data: ManuallyDrop::into_inner(data), keys }
     }
 }
\ No newline at end of file
-- 
2.43.0


From c9c11ed8fe0ae2ce8146555dba208cd2bbd04c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 15/15] fix: multi_intersection get_unchecked item iterator
 must report exact length

---
 src/ops/_multi_intersection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index f0e7d0e..86e2a06 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -309,7 +309,9 @@ where
     
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter.size_hint()
+        // ExactSizeIterator must be exact even if `Iter` is not.
+        let len = self.iter.clone().count();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0

