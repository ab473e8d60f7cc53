From dfb1c4b28483f6d014363dc857f8d3524a979b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 01/14] fix: Iter::next_back keeps the remaining length in step

The borrowed iterator decremented len only in next(), so iterating from
both ends yielded pairs twice and len()/size_hint() never went down from
the back.
---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..8474416 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -90,6 +91,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = leaf.len() - 1;
 
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(leaf.data_at(offset))
                 }
             }
@@ -104,6 +106,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                 let offset = last_leaf_size - 1;
 
                 self.end = Some((last_leaf, offset));
+                self.len -= 1;
                 Some(last_leaf.data_at(offset))
             }
         }
-- 
2.43.0


From cd1f5ac44c9b34e3fd5b4b8d39b3d2ddce90010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 02/14] fix: Cursor::first and Cursor::last return None on an
 empty tree

The root leaf of an empty tree holds no pair; both functions read (and
cloned) its uninitialised first or last slot.
---
 src/tree/cursor.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..21af955 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -43,7 +43,8 @@ impl<'k, K: Key + 'k> Cursor<K> {
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
-        let kv = leaf.data_at(0);
+        // an empty tree still has one (empty) leaf
+        let kv = leaf.try_data_at(0)?;
 
         Some((
             Self {
@@ -63,13 +64,15 @@ impl<'k, K: Key + 'k> Cursor<K> {
     {
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
-        let kv = leaf.data_at(leaf.len() - 1);
+        // an empty tree still has one (empty) leaf
+        let offset = leaf.len().checked_sub(1)?;
+        let kv = leaf.data_at(offset);
 
         Some((
             Self {
                 k: kv.0.clone(),
                 leaf_id_hint: leaf_id,
-                offset_hint: leaf.len() - 1,
+                offset_hint: offset,
             },
             kv.1,
         ))
-- 
2.43.0


From 5e59c857f092976ae9c0488e890daec1fd7086e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 03/14] fix: bulk_load never builds an inner node with a single
 child

When the number of nodes in a layer was 1 modulo the branching factor the
last inner node got one child and no key. Removing from it then found no
sibling and hit unreachable!().
---
 src/tree/bulk_load.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..b02a516 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,13 +71,20 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        let mut rest = nodes.as_slice();
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
 
         for _ in 0..node_num {
-            let childs = chunk_iter.next().unwrap();
+            // an inner node needs at least one key, so never leave a single child for the last one
+            let childs_num = if rest.len() == child_n + 1 {
+                child_n - 1
+            } else {
+                child_n.min(rest.len())
+            };
+            let (childs, remaining) = rest.split_at(childs_num);
+            rest = remaining;
             let start_key = childs[0].1 .0.clone();
             let end_key = childs[childs.len() - 1].1 .0.clone();
 
-- 
2.43.0


From ebaf58d80b51f041657415f467322d3c5ab161eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 04/14] fix: merging two inner nodes drops each augmentation
 once

merge_next moves every augmentation of the right node and sets its size to
0, but InnerNode's drop always drops the first augmentation, so it was
dropped in the freed node and again in the merged one.
---
 src/tree/tree_remove.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..bc9b43a 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -2,7 +2,7 @@ use super::{
     entry_ref::EntryRef, BPlusTree, InnerMergeResult, InnerNode, LeafDeleteResult, NodeStore,
 };
 use crate::augment::Augmentation;
-use std::borrow::Borrow;
+use std::{borrow::Borrow, mem::MaybeUninit};
 
 impl<S: NodeStore> BPlusTree<S> {
     pub(crate) fn remove_impl<Q>(&mut self, k: &Q) -> Option<(S::K, S::V)>
@@ -322,6 +322,11 @@ impl<S: NodeStore> BPlusTree<S> {
         let mut right = node_store.take_inner(right_child_id);
         let left = node_store.get_mut_inner(left_child_id);
         left.merge_next(slot_key, &mut right);
+        // Safety: everything `right` held, its first augmentation included, is moved to `left`. Only
+        //         the allocation is left to free, `InnerNode`'s drop must not run.
+        drop(unsafe {
+            Box::from_raw(Box::into_raw(right) as *mut MaybeUninit<InnerNode<S::K, S::Augmentation>>)
+        });
 
         let augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
         node.set_augmentation(slot, augmentation);
-- 
2.43.0


From a0d9b0547d84d4ae343473c005c7dc48b9ead2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 05/14] fix: drop the root augmentation when a tree is turned
 into an iterator

into_parts took the node store out of the tree and forgot the rest, so
into_iter (and everything built on it) leaked the root augmentation.
---
 src/tree/iterator.rs | 17 ++++++++++++++++-
 src/tree/mod.rs      | 13 ++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index 8474416..d7d6885 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -127,11 +127,26 @@ pub struct IntoIter<S: NodeStore> {
 
 impl<S: NodeStore> IntoIter<S> {
     pub fn new(tree: BPlusTree<S>) -> Self {
+        let mut tree = ManuallyDrop::new(tree);
+        // Safety: the tree is consumed, neither field is used again
+        unsafe {
+            let iter = Self::take_from(&mut tree);
+            std::ptr::drop_in_place(&mut tree.root_augmentation);
+            iter
+        }
+    }
+
+    /// Take all the data out of `tree`.
+    ///
+    /// # Safety
+    /// The tree must not be used after this, it can only be dropped field by field.
+    pub(super) unsafe fn take_from(tree: &mut BPlusTree<S>) -> Self {
         // the tree ensures there is at least one leaf
         let first_leaf_id = tree.first_leaf().unwrap();
         let last_leaf_id = tree.last_leaf().unwrap();
 
-        let (node_store, _root_id, len) = tree.into_parts();
+        let len = tree.len();
+        let node_store = ManuallyDrop::take(&mut tree.node_store);
 
         let last_leaf_size = node_store.get_leaf(last_leaf_id).len();
 
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..9312185 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -196,16 +196,6 @@ where
         result
     }
 
-    /// consume self and return the parts. This is useful when implementing `IntoIter`
-    fn into_parts(self) -> (S, NodeId, usize) {
-        let mut me = ManuallyDrop::new(self);
-        (
-            unsafe { ManuallyDrop::take(&mut me.node_store) },
-            me.root,
-            me.len,
-        )
-    }
-
     pub fn statistic(&self) -> &Statistic {
         &self.st
     }
@@ -817,7 +807,8 @@ where
 
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
-        unsafe { drop(std::ptr::read(self).into_iter()) }
+        // Safety: the tree is being dropped, its node store is not used again
+        unsafe { drop(IntoIter::take_from(self)) }
     }
 }
 
-- 
2.43.0


From b5f98fd8c76caf4508c4bca2eeaf8585e15f3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 06/14] fix: GroupCount rank keeps what upper layers counted

fold_inner returned None when the searched key is under the first child, so
in a tree of three or more layers the group items counted in upper layers
were lost and the rank came out too small.
---
 src/augment/group.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..56d1dda 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -290,7 +290,11 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
+        let last_augmentation = match rev_iter.next() {
+            Some(a) => a,
+            // nothing on the left side in this inner node, keep what the upper layers found
+            None => return rank,
+        };
 
         let (max_group, mut max_group_size) = last_augmentation.max_group()?;
 
-- 
2.43.0


From a836b56fc4d9d8c3545a0b69fc540a9f6740d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 07/14] fix: GroupCount counts the last group of a leaf from
 one

from_leaf kept adding to the same counter for every group after the first,
so with three or more groups in a leaf the last one's size included the
middle ones.
---
 src/augment/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index 56d1dda..725dc2f 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,7 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From 8abdf6cd39a8ce7d82b01d359739f509b4daeaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 08/14] fix: a panic in Key::clone does not lose half a leaf on
 insert

insert_leaf moved the upper half of a full leaf to a new one and then
cloned the separator key. When clone panicked the new leaf was not linked
yet, and the moved pairs were gone.
---
 src/tree/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 9312185..496a5bc 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -307,11 +307,19 @@ where
             }
             LeafUpsertResult::Updated(v) => DescendInsertResult::Updated(v),
             LeafUpsertResult::IsFull(idx, k, v) => {
+                // the first key of the right leaf after split. It is cloned before anything is moved,
+                // so a panic in `clone` leaves the tree as it was.
+                let split_origin_size = S::leaf_n() as usize / 2;
+                let slot_key: S::K = if idx == split_origin_size {
+                    k.clone()
+                } else {
+                    leaf_node.data_at(split_origin_size).0.clone()
+                };
+
                 let right_id = self.node_store.reserve_leaf();
 
                 let l_leaf = self.node_store.get_mut_leaf(id);
                 let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);
-                let slot_key: S::K = r_leaf.data_at(0).0.clone();
 
                 // fix r_leaf's next's prev
                 if let Some(next) = r_leaf.next() {
@@ -319,7 +327,7 @@ where
                 }
                 self.node_store.assign_leaf(right_id, r_leaf);
 
-                let updated_id = if idx >= S::leaf_n() as usize / 2 {
+                let updated_id = if idx >= split_origin_size {
                     right_id
                 } else {
                     id
-- 
2.43.0


From 994ddc0f9666452b4ad7758a85fe8a53698f86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 09/14] fix: a panic in Key::clone does not lose a pair on
 remove

The two leaf rotations took a pair out of the sibling and then cloned the
new separator key. When clone panicked the pair in flight was dropped and
len no longer matched the leaves.
---
 src/tree/tree_remove.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index bc9b43a..54656ba 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -346,10 +346,11 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_leaf(left_id);
         debug_assert!(left.able_to_lend());
 
+        // cloned before anything is moved, so a panic in `clone` leaves the tree as it was
+        let new_slot_key = left.data_at(left.len() - 1).0.clone();
         let kv = left.pop();
         node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
-        let new_slot_key = kv.0.clone();
         let right = node_store.get_mut_leaf(right_id);
         let deleted = right.delete_with_push_front(delete_idx, kv);
         node.set_augmentation(
@@ -377,13 +378,14 @@ impl<S: NodeStore> BPlusTree<S> {
         let right = node_store.get_mut_leaf(right_id);
         debug_assert!(right.able_to_lend());
 
+        // cloned before anything is moved, so a panic in `clone` leaves the tree as it was
+        let new_slot_key = right.data_at(1).0.clone();
         let kv = right.pop_front();
         parent.set_augmentation(
             slot + 1,
             S::Augmentation::from_leaf(right.keys(), right.values()),
         );
 
-        let new_slot_key = right.data_at(0).0.clone();
         let left = node_store.get_mut_leaf(left_id);
         let deleted = left.delete_with_push(delete_idx, kv);
         parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
-- 
2.43.0


From 296a8f64cd02cb36e5c9073d8bd4ced8dc032cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 10/14] fix: a panic while an inner node is filled does not
 drop uninitialised memory

InnerNode::new_from_iter filled a node of size 0, whose drop still drops
the first augmentation. When an iterator panicked (Key::clone or the
augmentation's clone in bulk_load) that slot was not written yet.
---
 src/tree/inner_node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..6bfc694 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -134,7 +134,9 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         childs: impl IntoIterator<Item = NodeId>,
         augmentations: impl IntoIterator<Item = A>,
     ) -> Box<Self> {
-        let mut node = Self::empty();
+        // The iterators may panic, e.g. in `clone`. Dropping a half filled node would read memory which
+        // is not initialized yet.
+        let mut node = ManuallyDrop::new(Self::empty());
 
         let keys = keys.into_iter();
         let childs = childs.into_iter();
@@ -159,7 +161,7 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         assert!(key_size + 1 == child_size);
         node.size = key_size;
 
-        node
+        ManuallyDrop::into_inner(node)
     }
 
     pub(crate) fn keys(&self) -> &[K] {
-- 
2.43.0


From 5e9d8e96ab63d44b0491341ed3eda7f6eef4fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 11/14] fix: report a failed node allocation instead of writing
 through null

LeafNode::new and InnerNode::empty used what alloc returned without looking
at it. Vec in the same node store already ends in handle_alloc_error.
---
 src/tree/inner_node.rs | 5 ++++-
 src/tree/leaf_node.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 6bfc694..8d0949e 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -1,5 +1,5 @@
 use super::*;
-use std::alloc::alloc;
+use std::alloc::{alloc, handle_alloc_error};
 use std::slice::SliceIndex;
 use std::{
     alloc::Layout,
@@ -114,6 +114,9 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
     pub(crate) fn empty() -> Box<Self> {
         let layout = Layout::new::<mem::MaybeUninit<Self>>();
         let ptr: *mut Self = unsafe { alloc(layout).cast() };
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
         let mut this = unsafe { Box::from_raw(ptr) };
         this.size = 0;
         this
diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index d8ea84d..0ba1cf1 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -1,6 +1,6 @@
 use super::*;
 use std::{
-    alloc::{alloc, Layout},
+    alloc::{alloc, handle_alloc_error, Layout},
     borrow::Borrow,
     mem::{self, MaybeUninit},
     slice::SliceIndex,
@@ -58,6 +58,9 @@ impl<K: Key, V> LeafNode<K, V> {
     pub fn new() -> Box<Self> {
         let layout = Layout::new::<mem::MaybeUninit<Self>>();
         let ptr: *mut Self = unsafe { alloc(layout).cast() };
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
         let mut this = unsafe { Box::from_raw(ptr) };
 
         this.prev = None;
-- 
2.43.0


From d30060f6a089b79d70c445044151f8cd1aabca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 12/14] fix: check the index a SearchAugmentation returns

get_ref_by_augmentation used the child and slot index from user code
unchecked, so safe code could read, drop or move out uninitialised or
unowned memory. descend_visit already panics on an invalid index.
---
 src/tree/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 496a5bc..063dca5 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -681,6 +681,9 @@ where
                             inner.keys(),
                             inner.augmentations(),
                         )?;
+                    if offset > inner.len() {
+                        panic!("invalid index");
+                    }
                     node_id = inner.child_id(offset);
 
                     stack.push(inner_id, offset, node_id);
@@ -693,6 +696,9 @@ where
                         leaf.keys(),
                         leaf.values(),
                     )?;
+                    if slot >= leaf.len() {
+                        panic!("invalid index");
+                    }
 
                     return Some(EntryRef::new(self, stack, leaf_id, slot));
                 }
-- 
2.43.0


From b02e37a8bec3690de7101daf90b5da47f49e99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 13/14] fix: release the root node that collapses into its only
 child

---
 src/tree/tree_remove.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 54656ba..0b15689 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -59,16 +59,20 @@ impl<S: NodeStore> BPlusTree<S> {
                     }
                 }
                 None => {
+                    // released when everything else is done
+                    let mut collapsed_root = None;
+
                     // now process root
                     let r = match r {
                         DeleteDescendResult::Done(kv) => Some(kv),
                         DeleteDescendResult::InnerUnderSize(deleted_item) => {
-                            let root = tree
-                                .node_store
-                                .get_mut_inner(unsafe { tree.root.inner_id_unchecked() });
+                            let root_id = unsafe { tree.root.inner_id_unchecked() };
+                            let root = tree.node_store.get_mut_inner(root_id);
 
                             if root.is_empty() {
                                 tree.root = root.child_id(0);
+                                // nothing refers to the collapsed root any more
+                                collapsed_root = Some(tree.node_store.take_inner(root_id));
                             }
 
                             Some(deleted_item)
@@ -88,6 +92,7 @@ impl<S: NodeStore> BPlusTree<S> {
                         tree.len -= 1;
                     }
 
+                    drop(collapsed_root);
                     return r;
                 }
             }
-- 
2.43.0


From 7093f53745be3a7ba2d931ba8ea36dec9e247932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 14/14] fix: use the ids of removed nodes again

---
 src/tree/node_stores/vec_backed.rs | 35 +++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/tree/node_stores/vec_backed.rs b/src/tree/node_stores/vec_backed.rs
index 099dde0..6c1a561 100644
--- a/src/tree/node_stores/vec_backed.rs
+++ b/src/tree/node_stores/vec_backed.rs
@@ -2,6 +2,10 @@ use crate::tree::{Augmentation, InnerNode, InnerNodeId, Key, LeafNode, LeafNodeI
 
 #[derive(Debug)]
 pub struct NodeStoreVec<K: Key, V, A: Augmentation<K, V> = ()> {
+    /// ids of nodes that were taken, they are used again before the vecs grow
+    free_inners: Vec<InnerNodeId>,
+    free_leaves: Vec<LeafNodeId>,
+
     inner_nodes: Vec<Option<Box<InnerNode<K, A>>>>,
     leaf_nodes: Vec<Option<Box<LeafNode<K, V>>>>,
 
@@ -11,6 +15,8 @@ pub struct NodeStoreVec<K: Key, V, A: Augmentation<K, V> = ()> {
 impl<K: Key, V: Clone, A: Augmentation<K, V>> Clone for NodeStoreVec<K, V, A> {
     fn clone(&self) -> Self {
         Self {
+            free_inners: self.free_inners.clone(),
+            free_leaves: self.free_leaves.clone(),
             inner_nodes: self.inner_nodes.clone(),
             leaf_nodes: self.leaf_nodes.clone(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(
@@ -23,6 +29,8 @@ impl<K: Key, V: Clone, A: Augmentation<K, V>> Clone for NodeStoreVec<K, V, A> {
 impl<K: Key, V, A: Augmentation<K, V>> Default for NodeStoreVec<K, V, A> {
     fn default() -> Self {
         Self {
+            free_inners: Default::default(),
+            free_leaves: Default::default(),
             inner_nodes: Default::default(),
             leaf_nodes: Default::default(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(usize::MAX),
@@ -106,20 +114,22 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
 
     #[cfg(test)]
     fn new_empty_inner(&mut self) -> InnerNodeId {
-        let id = InnerNodeId::from_usize(self.inner_nodes.len());
-        let node = InnerNode::<K, A>::empty();
-        self.inner_nodes.push(Some(node));
-        id
+        self.add_inner(InnerNode::<K, A>::empty())
     }
 
     fn new_empty_leaf(&mut self) -> (LeafNodeId, &mut LeafNode<K, V>) {
-        let id = LeafNodeId::from_usize(self.leaf_nodes.len());
         let node = LeafNode::<Self::K, Self::V>::new();
-        self.leaf_nodes.push(Some(node));
+        let id = self.reserve_leaf();
+        self.assign_leaf(id, node);
         (id, self.get_mut_leaf(id))
     }
 
     fn add_inner(&mut self, node: Box<InnerNode<K, A>>) -> InnerNodeId {
+        if let Some(id) = self.free_inners.pop() {
+            self.inner_nodes[id.as_usize()] = Some(node);
+            return id;
+        }
+
         let id = InnerNodeId::from_usize(self.inner_nodes.len());
         self.inner_nodes.push(Some(node));
         id
@@ -157,14 +167,21 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn take_inner(&mut self, id: InnerNodeId) -> Box<InnerNode<K, A>> {
-        std::mem::take(&mut self.inner_nodes[id.as_usize()]).unwrap()
+        let node = std::mem::take(&mut self.inner_nodes[id.as_usize()]).unwrap();
+        self.free_inners.push(id);
+        node
     }
 
     fn put_back_inner(&mut self, id: InnerNodeId, node: Box<InnerNode<K, A>>) {
+        self.free_inners.retain(|free| *free != id);
         self.inner_nodes[id.as_usize()] = Some(node);
     }
 
     fn reserve_leaf(&mut self) -> LeafNodeId {
+        if let Some(id) = self.free_leaves.pop() {
+            return id;
+        }
+
         let id = LeafNodeId::from_usize(self.leaf_nodes.len());
         self.leaf_nodes.push(None);
         id
@@ -200,7 +217,9 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn take_leaf(&mut self, id: LeafNodeId) -> Box<LeafNode<K, V>> {
-        std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap()
+        let leaf = std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap();
+        self.free_leaves.push(id);
+        leaf
     }
 
     fn assign_leaf(&mut self, id: LeafNodeId, leaf: Box<LeafNode<K, V>>) {
-- 
2.43.0

