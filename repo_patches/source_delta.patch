From 6fb718f92d06d29fc2117365476bcb90e660606d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 01/20] fix: NodePtr::from_parts must count the trailing empty
 child in node len

---
 src/dense_tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 734c5f6..5943294 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -219,7 +219,7 @@ impl NodePtr {
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
-        addr_of_mut!((*node).len).write(len as u8);
+        addr_of_mut!((*node).len).write(cap);   // childs + empty_child
         
         let mut this = Self(NonNull::new_unchecked(node));
         
-- 
2.43.0


From 086da2ef22a6c1283cddf8d4311436ccf9ce01bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 02/20] fix: materialize must not keep empty terminal nodes of
 a non-exact tree

---
 src/dense_tree/from.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 474c2c6..f983f6a 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -112,6 +112,9 @@ where
     if N::VALUE == L::LevelCount::VALUE - 1 {
         // terminal node with data
         let len = mask.count_ones() as u8;
+        if len == 0 {
+            return None;
+        }
         let cap = len + 1;
         return Some(make_terminal_node(other, other_cursor, mask, cap, key_acc, push_data));        
     }
-- 
2.43.0


From 57eb79137123453c866acca964b5b8d0ebf7a29a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 03/20] fix: materialize of an empty non-exact tree must give
 an empty container

---
 src/dense_tree.rs      | 15 ++++++++++-----
 src/dense_tree/from.rs |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 41075a0..a6806a5 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -100,11 +100,7 @@ where
         unsafe{ data.set_len(1); }
 
         Self{
-            root: if DEPTH == 1 {
-                NodePtr::new::<DataIndex>(node::DEFAULT_CAP, 0)                
-            } else {
-                NodePtr::new::<NodePtr>(node::DEFAULT_CAP, empty_node(ConstUsize::<1>, ConstUsize::<DEPTH>))
-            },
+            root: Self::empty_root(),
             data,
             keys: vec![usize::MAX]
         }
@@ -115,6 +111,15 @@ impl<T, const DEPTH: usize> DenseTree<T, DEPTH>
 where
     ConstUsize<DEPTH>: ConstInteger    
 {
+    #[inline]
+    fn empty_root() -> NodePtr {
+        if DEPTH == 1 {
+            NodePtr::new::<DataIndex>(node::DEFAULT_CAP, 0)                
+        } else {
+            NodePtr::new::<NodePtr>(node::DEFAULT_CAP, empty_node(ConstUsize::<1>, ConstUsize::<DEPTH>))
+        }
+    }
+    
     #[inline]
     fn get_or_insert_impl(
         &mut self, 
diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index f983f6a..a6e7b0c 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -174,7 +174,7 @@ where
             } else {
                 from_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                ).unwrap_unchecked()
+                ).unwrap_or_else(Self::empty_root)
             }
         };
         Self{ root, data, keys }
-- 
2.43.0


From 530e6e39ac0654de1a1f20f60710c02361b07187 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 04/20] fix: DenseTree::remove with DEPTH == 1 must use the
 root as terminal node

---
 src/dense_tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index a6806a5..29b0bac 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -237,7 +237,11 @@ where
             let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
             let branch = self.get_branch(&indices);
 
-            let terminal_node = branch.as_ref().last().unwrap_unchecked();
+            let terminal_node = if DEPTH == 1 {
+                self.root
+            } else {
+                *branch.as_ref().last().unwrap_unchecked()
+            };
             let terminal_inner_index = *indices.as_ref().last().unwrap_unchecked();
 
             let data_index = terminal_node.get_child::<DataIndex>(terminal_inner_index).as_usize();
@@ -246,7 +250,8 @@ where
                 terminal_node.remove::<DataIndex>(terminal_inner_index);
 
                 // 1. Try remove empty terminal node recursively.
-                if terminal_node.header().len() == 1 /* TODO: unlikely */ {
+                if DEPTH != 1 /*don't touch root*/
+                && terminal_node.header().len() == 1 /* TODO: unlikely */ {
                     terminal_node.drop_node::<DataIndex>();
 
                     // climb up the tree, and remove empty nodes
-- 
2.43.0


From ed89dbf4c33368d64f6149f64e08598b89dabc34 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 05/20] fix: width_256 child indices must fit 256 (256*256)
 non-zero values

---
 src/config.rs      | 3 ++-
 src/sparse_tree.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 0ebf70c..12c77c4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,7 +48,8 @@ pub mod width_128 {
 #[allow(non_camel_case_types)]
 pub mod width_256{
     use super::*;
-    generate!(Block<wide::u64x4, [u8; 256]>, Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>);
+    // 0 is reserved for an empty child: 256 (256*256) children does not fit u8 (u16).
+    generate!(Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>, Block<wide::u64x4, [u32; 256]>);
 }
 
 /*pub type _64x1 = w64::d1;
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index 9394e78..da3622e 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -24,6 +24,7 @@ use crate::hibit_tree::{HibitTree, HibitTreeCursor};
 /// 
 /// To save memory, instead of traditional pointers, integer indices
 /// are used. Root level use u8 for indices, first level - u16, everything below - u32.
+/// (256-wide trees use u16 for root level, and u32 for everything below)
 /// 
 /// It is slightly faster than [DenseTree], and can have wider nodes with 
 /// SIMD-accelerated bitmasks.
-- 
2.43.0


From 4e0718c02ac93dca9c696b1aaaf039bde4b300b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 06/20] fix: index_range must not overflow when width^depth
 exceeds usize

---
 src/hibit_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hibit_tree.rs b/src/hibit_tree.rs
index c55317e..4652089 100644
--- a/src/hibit_tree.rs
+++ b/src/hibit_tree.rs
@@ -213,7 +213,7 @@ where
     /// Act as `const`.
     #[inline]
     /*const*/ fn index_range() -> RangeTo<usize> {
-        RangeTo{ end: Self::LevelMask::SIZE.pow(Self::LevelCount::VALUE as _) }
+        RangeTo{ end: Self::LevelMask::SIZE.saturating_pow(Self::LevelCount::VALUE as _) }
     }
 }
 
-- 
2.43.0


From 0acbc57ffe5cb7ca28d19781974bc7321b72faf5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 07/20] fix: multi_union cursor must not report data at unset
 indices of a non-empty node

---
 src/ops/_multi_union.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 7d492ad..c439e67 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -134,6 +134,9 @@ where
         <<IterItem<Iter> as HibitTree>::LevelCount as ConstInteger>::Dec,
     >,
     
+    /// Accumulated mask of the last selected terminal node.
+    terminal_node_mask: <IterItem<Iter> as HibitTree>::LevelMask,
+    
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
 }
 
@@ -164,6 +167,7 @@ where
         Self {
             cursors: states,
             lvls_non_empty_states: Array::from_fn(|_|ArrayVec::new()),
+            terminal_node_mask: BitBlock::zero(),
             phantom_data: PhantomData,
         }
     }
@@ -180,7 +184,7 @@ where
     unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, level_n: N, level_index: usize) 
         -> <Self::Src as HibitTree>::LevelMask 
     {
-        let mut acc_mask = BitBlock::zero();
+        let mut acc_mask: <Self::Src as HibitTree>::LevelMask = BitBlock::zero();
         
         if N::VALUE == 0 {
             for (array, array_cursor) in self.cursors.iter_mut() {
@@ -218,6 +222,10 @@ where
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone();
+        }
+        
         acc_mask
     }
 
@@ -231,7 +239,7 @@ where
         
         let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
                                    .last().unwrap_unchecked();
-        if lvl_non_empty_states.is_empty(){
+        if !self.terminal_node_mask.get_bit(level_index) {
             return None;
         }
         
-- 
2.43.0


From 3dd40512759cac5f48420cc9dace2375a38664fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 08/20] fix: implement multi_union cursor data for 1-level
 trees

---
 src/ops/_multi_union.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index c439e67..fa92336 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -118,6 +118,17 @@ where
 
 const N: usize = 32;
 type CursorIndex = u8;
+
+/// [0, 1, .. N-1]
+static ALL_STATES: [CursorIndex; N] = {
+    let mut indices = [0; N];
+    let mut i = 0;
+    while i < N {
+        indices[i] = i as CursorIndex;
+        i += 1;
+    }
+    indices
+};
 type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>);
 
 pub struct Cursor<'src, 'item, Iter>
@@ -191,6 +202,9 @@ where
                 let mask = array_cursor.select_level_node(array, level_n, level_index);
                 acc_mask |= mask;
             }            
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                self.terminal_node_mask = acc_mask.clone();
+            }
             return acc_mask;
         }
         
@@ -233,12 +247,14 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
+        let lvl_non_empty_states = 
+            if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                // Root is the terminal node, and we don't store root - use all states.
+                ALL_STATES.get_unchecked(..self.cursors.len())
+            } else {
+                self.lvls_non_empty_states.as_ref()
+                    .last().unwrap_unchecked().as_slice()
+            };
         if !self.terminal_node_mask.get_bit(level_index) {
             return None;
         }
-- 
2.43.0


From 8cad0096128283fddc8ef3663b2bd6c6f0f6d64f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 09/20] fix: multi_intersection of zero trees must be empty for
 get() too

---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index bb097a6..f6cd031 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -111,6 +111,10 @@ where
                     return None;
                 }
             }
+            // Intersection of nothing is empty.
+            if datas.is_empty(){
+                return None;
+            }
             
             Some(datas.into_iter())
         }
-- 
2.43.0


From 810f522eca782c52bf8e906f202497ac404f9c2a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 10/20] fix: multi_intersection cursor data must work after
 select_level_node_unchecked

---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index f6cd031..51d9b1a 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -428,6 +428,10 @@ where
             acc_mask &= mask;
         }            
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
-- 
2.43.0


From 8c8e0954fb0aacc3aa32e785a30197b8ff1f6d73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 11/20] fix: container drop must not double drop when a value's
 drop panics

---
 src/dense_tree.rs  | 9 +++++----
 src/sparse_tree.rs | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 29b0bac..31aefe8 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -320,16 +320,17 @@ where
     
     #[inline]
     unsafe fn drop_impl(&mut self){
+        // drop node hierarchy
+        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>();
+        
         // drop values
+        // Len must be 0 before that - value's drop may panic.
         let slice = ptr::slice_from_raw_parts_mut(
             self.data.as_mut_ptr().add(1), 
             self.data.len() - 1
         ); 
-        ptr::drop_in_place(slice);
         self.data.set_len(0);
-        
-        // drop node hierarchy
-        self.root.drop_node_with_childs::<ConstUsize<0>, DEPTH>()         
+        ptr::drop_in_place(slice);
     }
 }
 
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index da3622e..f3a731f 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -527,8 +527,9 @@ where
             self.values.as_mut_ptr().add(skip_first as usize), 
             self.values.len() - skip_first as usize
         ); 
-        ptr::drop_in_place(slice);
+        // Len must be 0 before drop - value's drop may panic.
         self.values.set_len(0);
+        ptr::drop_in_place(slice);
     }
 }
 
-- 
2.43.0


From 56e913fa2155cd81a04c7795a7cf613fe2a2a719 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 12/20] fix: materialize must not drop uninitialized
 placeholder when source panics

---
 src/dense_tree/from.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index a6e7b0c..5604bac 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -154,15 +154,14 @@ where
 {
     fn from_sparse_hierarchy(other: From) -> Self {
         let mut other_cursor = <From as HibitTreeTypes>::Cursor::new(&other);        
-        let mut data: Vec<T> = Vec::with_capacity(1);
-        unsafe{ data.set_len(1); }
         
-        let mut keys = vec![usize::MAX];
+        // Fill complete container, instead of raw parts - `other` may panic.
+        let mut this = Self::default();
         
         let mut push_fn = |index, value| -> DataIndex {
-            let i = data.len(); 
-            data.push(value);
-            keys.push(index);
+            let i = this.data.len(); 
+            this.data.push(value);
+            this.keys.push(index);
             i as DataIndex
         };
 
@@ -177,6 +176,9 @@ where
                 ).unwrap_or_else(Self::empty_root)
             }
         };
-        Self{ root, data, keys }
+        
+        let empty_root = std::mem::replace(&mut this.root, root);
+        unsafe{ empty_root.drop_node_with_childs::<ConstUsize<0>, DEPTH>(); }
+        this
     }
 }
\ No newline at end of file
-- 
2.43.0


From 67616770c1ceaae67a0abf4da23bb72bea90212f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 13/20] fix: SparseTree::default must not drop uninitialized
 placeholder when Data::default panics

---
 src/sparse_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index f3a731f..b65c986 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -76,11 +76,11 @@ where
     #[inline]
     fn default() -> Self {
         let mut values: Vec<Data> = Vec::with_capacity(1);
-        unsafe{ values.set_len(1); }
         unsafe{
             <DefaultInitFor<Data, R> as DefaultInit>
             ::init_default(values.as_mut_ptr().cast());
         }
+        unsafe{ values.set_len(1); }
         
         Self{
             levels: Levels::default(),
-- 
2.43.0


From 22770934e67427667e84ff2ea09782aab01cccd7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 14/20] fix: const_for/const_for_rev must iterate exactly
 from..to

---
 src/const_utils/const_int.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index 1aff1bb..a531438 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -35,13 +35,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = self.dec().iterate_as_range(from, visitor);
         if ctrl.is_continue() {
-            if self.value() == from.value() {
-                Continue(())
-            } else {            
-                visitor.visit(self.dec())
-            }
+            visitor.visit(self.dec())
         } else {
             ctrl
         }
@@ -54,13 +53,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = visitor.visit(self.dec());
         if ctrl.is_continue(){
-            if self.value() == from.value() {
-                Continue(())
-            } else {
-                self.dec().iterate_as_range_rev(from, visitor)
-            }
+            self.dec().iterate_as_range_rev(from, visitor)
         } else {
             ctrl
         }
-- 
2.43.0


From fe9fe21f2b228f135192cc0841410d4f6bd3c877 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 15/20] fix: DenseTree node allocation failure must not
 dereference null

---
 src/dense_tree/node.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 5943294..73a429c 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -1,4 +1,4 @@
-use std::alloc::{alloc, dealloc, Layout, realloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error, Layout, realloc};
 use std::{mem, ptr};
 use std::mem::{align_of, MaybeUninit, size_of};
 use std::ops::ControlFlow;
@@ -189,10 +189,20 @@ impl NodePtr {
         }
     }
     
+    #[inline]
+    unsafe fn alloc_node<T: NodeChild>(cap: u8) -> *mut NodeHeader {
+        let layout = Self::layout::<T>(cap);
+        let ptr = alloc(layout);
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
+        ptr as *mut NodeHeader
+    }
+    
     #[inline]
     pub fn new<T: NodeChild>(cap: u8, empty_child: T) -> Self {
         unsafe {
-            let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+            let node = Self::alloc_node::<T>(cap);
             
             addr_of_mut!((*node).mask).write(Mask::default());
             debug_assert!(cap>=1);
@@ -215,7 +225,7 @@ impl NodePtr {
     ) -> Self {
         let len = childs.len();
         let cap = (len + 1) as u8; 
-        let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+        let node = Self::alloc_node::<T>(cap);
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
@@ -239,7 +249,7 @@ impl NodePtr {
     #[inline]
     pub fn raw_new<T: NodeChild>(cap: u8, mask: Mask) -> MaybeUninit<Self> {
         unsafe {
-            let node = alloc(Self::layout::<T>(cap)) as *mut NodeHeader;
+            let node = Self::alloc_node::<T>(cap);
             
             addr_of_mut!((*node).mask).write(mask);
             addr_of_mut!((*node).capacity).write(cap);
@@ -306,11 +316,15 @@ impl NodePtr {
             let capacity = node.capacity;
             if node.len == capacity {
                 let new_capacity = capacity * 2;
+                let new_layout = Self::layout::<T>(new_capacity);
                 let new_ptr= realloc(
                     self.0.as_ptr() as *mut u8,
                     Self::layout::<T>(capacity),
-                    Self::layout::<T>(new_capacity).size(),
+                    new_layout.size(),
                 ) as *mut NodeHeader;
+                if new_ptr.is_null() {
+                    handle_alloc_error(new_layout);
+                }
                 (*new_ptr).capacity = new_capacity; 
                 self.0 = NonNull::new_unchecked(new_ptr);
             }
-- 
2.43.0


From 61974299417066cfdd76c6e7414d60b45f732791 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 16/20] fix: may_dangle feature must compile for DenseTree

---
 src/dense_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 31aefe8..a5009ac 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -335,7 +335,10 @@ where
 }
 
 #[cfg(feature = "may_dangle")]
-unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH> {
+unsafe impl<#[may_dangle] T, const DEPTH: usize> Drop for DenseTree<T, DEPTH>
+where
+    ConstUsize<DEPTH>: ConstInteger
+{
     #[inline]
     fn drop(&mut self) {
         unsafe{ self.drop_impl(); }
-- 
2.43.0


From fc4ea127d808a60dfe0caeb5203cf8d1defc5eb2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 17/20] fix: get_or_insert with panicking Default must not
 leave empty nodes

---
 src/dense_tree.rs       | 12 +++++++++---
 src/sparse_tree.rs      | 12 +++++++++---
 src/utils/lazy_value.rs | 32 ++++++++++++++++++++++++++++++++
 src/utils/mod.rs        |  2 ++
 4 files changed, 52 insertions(+), 6 deletions(-)
 create mode 100644 src/utils/lazy_value.rs

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index a5009ac..1dd6c06 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -17,7 +17,7 @@ use crate::bit_queue::BitQueue;
 use crate::const_utils::{const_loop, ConstArray, ConstArrayType, ConstBool, ConstFalse, ConstInteger, ConstTrue, ConstUsize};
 use crate::level_indices;
 use crate::hibit_tree::{HibitTree, HibitTreeCursor};
-use crate::utils::{Array, Borrowable, Primitive};
+use crate::utils::{Array, Borrowable, LazyValue, Primitive};
 
 use node::{NodePtr, empty_node};
 
@@ -129,6 +129,10 @@ where
     ) -> &mut T {
         let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
         
+        // value_fn may panic. To not leave empty nodes in the tree in such case -
+        // exec it before the first node insertion.
+        let mut value_fn = LazyValue::new(value_fn);
+        
         // get terminal node pointing to data
         let mut node = &mut self.root;
         const_loop!(N in 0..{DEPTH-1} => {
@@ -138,6 +142,8 @@ where
                 /*child*/ node = if node_ptr.header().contains(inner_index) {
                     node_ptr.get_child_mut(inner_index)
                 } else {
+                    value_fn.force();
+                    
                     // TODO: insert node with already inserted ONE element 
                     //       all down below. And immediately exit loop?
                     //       BENCHMARK change.
@@ -165,12 +171,12 @@ where
             let data_index = if node_ptr.header().contains(inner_index) {
                 let data_index = node_ptr.get_child::<DataIndex>(inner_index).as_usize();
                 /*const*/ if insert.value(){
-                    *self.data.get_unchecked_mut(data_index) = value_fn();                     
+                    *self.data.get_unchecked_mut(data_index) = value_fn.into_value();                     
                 }
                 data_index
             } else {
                 let i = self.data.len(); 
-                self.data.push(value_fn());
+                self.data.push(value_fn.into_value());
                 self.keys.push(index);
                 let (_, new_node) = node_ptr.insert(inner_index, i as DataIndex);
                 *node = new_node;
diff --git a/src/sparse_tree.rs b/src/sparse_tree.rs
index b65c986..c36dfba 100644
--- a/src/sparse_tree.rs
+++ b/src/sparse_tree.rs
@@ -13,7 +13,7 @@ use crate::const_utils::{const_loop, ConstBool, ConstFalse, ConstTrue};
 use crate::{Empty, Index, HibitTreeCursorTypes, HibitTreeTypes};
 use crate::req_default::{DefaultInit, DefaultInitFor, DefaultRequirement, ReqDefault};
 use crate::utils::Primitive;
-use crate::utils::Array;
+use crate::utils::{Array, LazyValue};
 use crate::sparse_tree_levels::{FoldMutVisitor, FoldVisitor, MutVisitor, SparseTreeLevels, TypeVisitor, Visitor};
 use crate::hibit_tree::{HibitTree, HibitTreeCursor};
 
@@ -399,6 +399,10 @@ where
         let level_indices = crate::level_indices::<Levels::Mask, Levels::LevelCount>(index);
         let last_level_inner_index = unsafe{ *level_indices.as_ref().last().unwrap_unchecked() };
         
+        // value_fn may panic. To not leave empty blocks in the tree in such case -
+        // exec it before the first block insertion.
+        let mut value_fn = LazyValue::new(value_fn);
+        
         let mut level_block_index = 0;
         const_loop!(LEVEL_INDEX in 0..{<Levels::LevelCount as ConstInteger>::Dec::VALUE} => {
             let level_index = ConstUsize::<LEVEL_INDEX>;
@@ -408,6 +412,8 @@ where
                 block.get_child(inner_index) 
             };
             level_block_index = if next_level_block_index.is_zero() {
+                value_fn.force();
+                
                 // 1. Insert new block in next level
                 struct Insert;
                 impl<M> MutVisitor<M> for Insert {
@@ -443,7 +449,7 @@ where
             if data_block_index.is_zero() {
                 let i = self.values.len();
                 
-                self.values.push((value_fn)());
+                self.values.push(value_fn.into_value());
                 self.keys.push(index);
                 self.last_level_block_indices.push(
                     (level_block_index, last_level_inner_index)
@@ -453,7 +459,7 @@ where
                 i                   
             } else {
                 /*const*/ if insert.value() { 
-                    *self.values.get_unchecked_mut(data_block_index) = (value_fn)();
+                    *self.values.get_unchecked_mut(data_block_index) = value_fn.into_value();
                 }
                 data_block_index
             }
diff --git a/src/utils/lazy_value.rs b/src/utils/lazy_value.rs
new file mode 100644
index 0000000..fe56f90
--- /dev/null
+++ b/src/utils/lazy_value.rs
@@ -0,0 +1,32 @@
+/// Value that computed at most once, on first need.
+pub(crate) enum LazyValue<T, F> {
+    Fn(F),
+    Value(T),
+    Taken
+}
+
+impl<T, F: FnOnce() -> T> LazyValue<T, F> {
+    #[inline]
+    pub fn new(f: F) -> Self {
+        Self::Fn(f)
+    }
+    
+    /// Compute value, if not computed yet.
+    #[inline]
+    pub fn force(&mut self) {
+        if let Self::Fn(_) = self {
+            if let Self::Fn(f) = std::mem::replace(self, Self::Taken) {
+                *self = Self::Value(f());
+            }
+        }
+    }
+    
+    #[inline]
+    pub fn into_value(self) -> T {
+        match self {
+            Self::Fn(f) => f(),
+            Self::Value(value) => value,
+            Self::Taken => unreachable!(),
+        }
+    }
+}
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 044c1c6..9cda8e0 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -4,6 +4,7 @@ mod take;
 mod borrowable;
 mod function;
 mod lending_iterator;
+mod lazy_value;
 
 pub use primitive::*;
 pub use array::*;
@@ -11,6 +12,7 @@ pub use take::*;
 pub use borrowable::*;
 pub use function::*;
 pub use lending_iterator::*;
+pub(crate) use lazy_value::*;
 
 /// Trait for &.
 pub trait Ref {
-- 
2.43.0


From 994afecb5ac19df95af0408465aecde828bed3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 18/20] fix: sat_dec must saturate at zero

---
 src/const_utils/const_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index a531438..383a01b 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -82,8 +82,8 @@ pub trait ConstInteger: ConstIntegerPrivate + Default + Copy + Eq + Debug + 'sta
     type SatDec: ConstInteger;
     /// Saturating decrement
     #[inline]
-    fn sat_dec(self) -> Self::Dec {
-        Self::Dec::default()
+    fn sat_dec(self) -> Self::SatDec {
+        Self::SatDec::default()
     }
     
     type Dec: ConstInteger;
-- 
2.43.0


From 4e1521292f0451a55f3834761d93ea27c621abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 19/20] fix: MultiUnion cursor re-borrowed its level states
 while writing to one of them

---
 src/ops/_multi_union.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index fa92336..b8b9522 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -208,11 +208,12 @@ where
             return acc_mask;
         }
         
-        // drop lifetime checks for `get_many`-like access. 
-        let mut lvls_non_empty_states = NonNull::from(self.lvls_non_empty_states.as_mut());
+        // `get_many`-like access: previous levels, and the selected one. 
+        let (prev_lvls_non_empty_states, lvls_non_empty_states) = 
+            self.lvls_non_empty_states.as_mut().split_at_mut(level_n.value()-1);
         
         let lvl_non_empty_states = 
-            lvls_non_empty_states.as_mut().get_unchecked_mut(level_n.value()-1);
+            lvls_non_empty_states.get_unchecked_mut(0);
         lvl_non_empty_states.clear();
         
         let len = self.cursors.len() as u8;
@@ -232,7 +233,7 @@ where
             for i in 0..len { foreach(i) }    
         } else {
             let prev_lvl_non_empty_states =
-                lvls_non_empty_states.as_ref().get_unchecked(level_n.value()-2);
+                prev_lvls_non_empty_states.get_unchecked(level_n.value()-2);
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
-- 
2.43.0


From f03664c7b09327fb731ee628b2941d723f76adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:09 +0000
Subject: [PATCH 20/20] fix: MultiIntersection's cursor assumed that each clone
 of the source iterator yields the same trees

The cursor kept the operands' cursors only, and took the operands from a new clone
of the source iterator each time, with unwrap_unchecked. Safe iterators may yield
something else the next time (a filter on a Cell): undefined behaviour. Keep each
operand with its cursor, as MultiUnion does.
---
 src/ops/_multi_intersection.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 51d9b1a..3e2605c 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -320,7 +320,7 @@ where
 {}
 
 const N: usize = 32;
-type CursorsItem<'item, Iter> = IterItemCursor<'item, Iter>; 
+type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>);
 
 pub struct Cursor<'src, 'item, I>
 where
@@ -351,7 +351,8 @@ where
         let cursors = ArrayVec::from_iter(
             src.iter.clone()
                 .map(|array|{
-                    HibitTreeCursor::new(array)
+                    let array_cursor = HibitTreeCursor::new(array);
+                    (array, array_cursor)
                 })
         );
         
@@ -373,18 +374,15 @@ where
         }
         
         let mut cursors_iter = self.cursors.iter_mut();
-        let mut array_iter  = src.iter.clone();
         
         let mut acc_mask = 
-            if let Some(array_cursor) = cursors_iter.next(){
-                let array = array_iter.next().unwrap_unchecked();
+            if let Some((array, array_cursor)) = cursors_iter.next(){
                 array_cursor.select_level_node(array, level_n, level_index)
             } else {
                 return BitBlock::zero();
             };
         
-        for array_cursor in cursors_iter {
-            let array = array_iter.next().unwrap_unchecked();
+        for (array, array_cursor) in cursors_iter {
             let mask = array_cursor.select_level_node(
                 array, level_n, level_index
             );
@@ -410,18 +408,15 @@ where
     ) -> <Self::Src as HibitTree>::LevelMask {
         // TODO: Almost the same as in checked version. Reuse somehow. 
         let mut cursors_iter = self.cursors.iter_mut();
-        let mut array_iter  = src.iter.clone();
         
         let mut acc_mask = 
-            if let Some(array_cursor) = cursors_iter.next() {
-                let array = array_iter.next().unwrap_unchecked();
+            if let Some((array, array_cursor)) = cursors_iter.next() {
                 array_cursor.select_level_node_unchecked(array, level_n, level_index)
             } else {
                 return BitBlock::zero();
             };
         
-        for array_cursor in cursors_iter {
-            let array = array_iter.next().unwrap_unchecked();
+        for (array, array_cursor) in cursors_iter {
             let mask = array_cursor.select_level_node_unchecked(
                 array, level_n, level_index
             );
@@ -452,7 +447,6 @@ where
     ) -> <Self as HibitTreeCursorTypes<'a>>::Data {
         CursorData { 
             level_index,
-            array_iter: src.iter.clone(),
             cursors_iter: self.cursors.iter(),
         }
     }
@@ -464,7 +458,6 @@ where
     I: Iterator<Item: Ref<Type: HibitTree>>
 {
     level_index: usize,
-    array_iter: I,
     cursors_iter: slice::Iter<'cursor, CursorsItem<'item, I>>,
 }
 
@@ -490,8 +483,7 @@ where
         // Compiler optimizes away additional branching here.
         self.cursors_iter
             .next()
-            .map(|array_cursor| unsafe { 
-                let array = self.array_iter.next().unwrap_unchecked();
+            .map(|(array, array_cursor)| unsafe { 
                 array_cursor.data_unchecked(array, self.level_index)
             })
     }
@@ -499,15 +491,14 @@ where
     // TODO: We probably don't need this fold implementation.
     //       Looks like compiler able to optimize next() into the same code.
     #[inline]
-    fn fold<B, F>(mut self, mut init: B, mut f: F) -> B
+    fn fold<B, F>(self, mut init: B, mut f: F) -> B
     where
         Self: Sized,
         F: FnMut(B, Self::Item) -> B,
     {
         let level_index = self.level_index;
-        for array_cursor in self.cursors_iter {
+        for (array, array_cursor) in self.cursors_iter {
             let data = unsafe{
-                let array = self.array_iter.next().unwrap_unchecked();
                 array_cursor.data_unchecked(array, level_index) 
             };
             init = f(init, data);
-- 
2.43.0

