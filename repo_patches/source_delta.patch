From 88ce5d3ad7baa86071df1cfe71b70887d704d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 01/10] fix: Iter::next_back accounts for the items it yields

next_back left `len` untouched, so mixing next and next_back yielded items
twice and len()/size_hint() were wrong after next_back.
---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..a304c43 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -89,6 +90,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let leaf = self.tree.node_store.get_leaf(prev_id);
                     let offset = leaf.len() - 1;
 
+                    self.len -= 1;
                     self.end = Some((leaf, offset));
                     Some(leaf.data_at(offset))
                 }
@@ -103,6 +105,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
 
                 let offset = last_leaf_size - 1;
 
+                self.len -= 1;
                 self.end = Some((last_leaf, offset));
                 Some(last_leaf.data_at(offset))
             }
-- 
2.43.0


From 033c0cc63e86f559d386919018329487c1bf9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 02/10] fix: Cursor::first and Cursor::last return None for an
 empty tree

An empty tree still has an (empty) root leaf: first read uninitialized memory
and last underflowed.
---
 src/tree/cursor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..2e25c96 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -40,6 +40,10 @@ impl<'k, K: Key + 'k> Cursor<K> {
     where
         'k: 'b,
     {
+        if tree.is_empty() {
+            return None;
+        }
+
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
@@ -61,6 +65,10 @@ impl<'k, K: Key + 'k> Cursor<K> {
     where
         'k: 'b,
     {
+        if tree.is_empty() {
+            return None;
+        }
+
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
         let kv = leaf.data_at(leaf.len() - 1);
-- 
2.43.0


From 48ce33a1843d860a1f7560f3c112a48e98130521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 03/10] fix: GroupCount keeps the accumulated rank when there
 is no previous sibling

fold_inner dropped the rank of the upper layers whenever the key belongs to
the first child of an inner node.
---
 src/augment/group.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..308a3cf 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -290,7 +290,10 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
+        let Some(last_augmentation) = rev_iter.next() else {
+            // no previous sibling in this layer, keep what upper layers accumulated
+            return rank;
+        };
 
         let (max_group, mut max_group_size) = last_augmentation.max_group()?;
 
-- 
2.43.0


From 206364f9882c5a02e092265bde867a0767be07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 04/10] fix: GroupCount::from_leaf restarts the item count for
 each group

The count of the last group of a leaf included the items of all the groups
between the first and the last one.
---
 src/augment/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index 308a3cf..e8f6a4f 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,7 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From ffa53884008929752a504b12ba2833be60ec6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 05/10] fix: merging inner nodes no longer drops a moved
 augmentation

merge_next moves all augmentations out of the right node, but the node was then
dropped as an empty one, which drops its first augmentation a second time (a
double free for augmentations which own memory).
---
 src/tree/tree_remove.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..1fabc33 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -3,6 +3,7 @@ use super::{
 };
 use crate::augment::Augmentation;
 use std::borrow::Borrow;
+use std::mem::MaybeUninit;
 
 impl<S: NodeStore> BPlusTree<S> {
     pub(crate) fn remove_impl<Q>(&mut self, k: &Q) -> Option<(S::K, S::V)>
@@ -322,6 +323,9 @@ impl<S: NodeStore> BPlusTree<S> {
         let mut right = node_store.take_inner(right_child_id);
         let left = node_store.get_mut_inner(left_child_id);
         left.merge_next(slot_key, &mut right);
+        // all of right's content is moved to left, so only its memory should be freed
+        let right: *mut InnerNode<S::K, S::Augmentation> = Box::into_raw(right);
+        drop(unsafe { Box::from_raw(right.cast::<MaybeUninit<InnerNode<S::K, S::Augmentation>>>()) });
 
         let augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
         node.set_augmentation(slot, augmentation);
-- 
2.43.0


From fecb0a677cd066b6e0a7f4b040842f357628b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 06/10] fix: into_iter drops the root augmentation

---
 src/tree/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..6090ac2 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -199,6 +199,7 @@ where
     /// consume self and return the parts. This is useful when implementing `IntoIter`
     fn into_parts(self) -> (S, NodeId, usize) {
         let mut me = ManuallyDrop::new(self);
+        unsafe { std::ptr::drop_in_place(&mut me.root_augmentation) };
         (
             unsafe { ManuallyDrop::take(&mut me.node_store) },
             me.root,
@@ -817,7 +818,10 @@ where
 
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
-        unsafe { drop(std::ptr::read(self).into_iter()) }
+        let mut me = unsafe { std::ptr::read(self) };
+        // self's root augmentation is dropped with self's fields, so `me` must not drop it
+        std::mem::forget(std::mem::take(&mut me.root_augmentation));
+        drop(me.into_iter())
     }
 }
 
-- 
2.43.0


From a1c2c168f248f62f975305421d80ba0c98914de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 07/10] fix: bulk_load never builds an inner node with a single
 child

---
 src/tree/bulk_load.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..33e4687 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,13 +71,20 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        let mut rest_nodes = nodes.as_slice();
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
 
         for _ in 0..node_num {
-            let childs = chunk_iter.next().unwrap();
+            // an inner node needs at least two children, so do not leave a single one for the last node
+            let take_n = if rest_nodes.len() == child_n + 1 {
+                child_n - 1
+            } else {
+                child_n.min(rest_nodes.len())
+            };
+            let (childs, rest) = rest_nodes.split_at(take_n);
+            rest_nodes = rest;
             let start_key = childs[0].1 .0.clone();
             let end_key = childs[childs.len() - 1].1 .0.clone();
 
-- 
2.43.0


From 69e41979aba952a0fd378b78c08738c00c189bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 08/10] Add a cfg guarded hook to build with small nodes

---
 src/lib.rs         |  2 ++
 src/tree/consts.rs | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8aa9ec1..7ad6d6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(clippy::type_complexity)]
+// `sweep_node_cap` is only set by verification builds
+#![allow(unexpected_cfgs)]
 
 mod set;
 pub use set::*;
diff --git a/src/tree/consts.rs b/src/tree/consts.rs
index d834a44..e7311c5 100644
--- a/src/tree/consts.rs
+++ b/src/tree/consts.rs
@@ -1,5 +1,11 @@
 /// Inner node Key capacity
+#[cfg(not(any(sweep_node_cap = "4", sweep_node_cap = "8")))]
 pub(crate) const INNER_N: usize = 64;
+/// Verification hook: `--cfg sweep_node_cap="4"` (or "8") builds the crate with small nodes
+#[cfg(sweep_node_cap = "4")]
+pub(crate) const INNER_N: usize = 4;
+#[cfg(sweep_node_cap = "8")]
+pub(crate) const INNER_N: usize = 8;
 /// Inner node Child capacity/branch factor
 pub(crate) const INNER_C: usize = INNER_N + 1;
 /// Leaf node capacity
@@ -11,4 +17,8 @@ pub(crate) const MIN_N: usize = INNER_N / 4;
 
 /// Visit Stack capacity, it is the maximum depth of the tree.
 /// The formula is `ceil(log(u64::MAX, K))`, the K is the minimum branching factor of the tree.
+#[cfg(not(sweep_node_cap = "4"))]
 pub(crate) const MAX_DEPTH: usize = usize::MAX.ilog(MIN_N) as usize;
+/// The formula does not work for the `MIN_N` of the smallest nodes
+#[cfg(sweep_node_cap = "4")]
+pub(crate) const MAX_DEPTH: usize = 64;
-- 
2.43.0


From 00cdf2dbafa6ae1ad29f3acdbff978d16b0df17d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 09/10] fix: a panicking clone must not leave a torn tree

Clone the separator key before a leaf is split or an entry is moved between
leaves, and do not drop an inner node that is still incomplete, so that a
panic in the user's Clone leaves the tree as it was.
---
 src/tree/inner_node.rs  | 5 +++--
 src/tree/mod.rs         | 9 ++++++++-
 src/tree/tree_remove.rs | 6 ++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..2580924 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -134,7 +134,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         childs: impl IntoIterator<Item = NodeId>,
         augmentations: impl IntoIterator<Item = A>,
     ) -> Box<Self> {
-        let mut node = Self::empty();
+        // the iterators may panic, and then the incomplete node must not be dropped
+        let mut node = mem::ManuallyDrop::new(Self::empty());
 
         let keys = keys.into_iter();
         let childs = childs.into_iter();
@@ -159,7 +160,7 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         assert!(key_size + 1 == child_size);
         node.size = key_size;
 
-        node
+        mem::ManuallyDrop::into_inner(node)
     }
 
     pub(crate) fn keys(&self) -> &[K] {
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 6090ac2..361af21 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -318,11 +318,18 @@ where
             }
             LeafUpsertResult::Updated(v) => DescendInsertResult::Updated(v),
             LeafUpsertResult::IsFull(idx, k, v) => {
+                // `clone` may panic, so call it before anything is modified
+                let split_size = S::leaf_n() as usize / 2;
+                let slot_key: S::K = if idx == split_size {
+                    k.clone()
+                } else {
+                    leaf_node.data_at(split_size).0.clone()
+                };
+
                 let right_id = self.node_store.reserve_leaf();
 
                 let l_leaf = self.node_store.get_mut_leaf(id);
                 let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);
-                let slot_key: S::K = r_leaf.data_at(0).0.clone();
 
                 // fix r_leaf's next's prev
                 if let Some(next) = r_leaf.next() {
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 1fabc33..45209f3 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -345,10 +345,11 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_leaf(left_id);
         debug_assert!(left.able_to_lend());
 
+        // `clone` may panic, so call it before anything is modified
+        let new_slot_key = left.data_at(left.len() - 1).0.clone();
         let kv = left.pop();
         node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
-        let new_slot_key = kv.0.clone();
         let right = node_store.get_mut_leaf(right_id);
         let deleted = right.delete_with_push_front(delete_idx, kv);
         node.set_augmentation(
@@ -376,13 +377,14 @@ impl<S: NodeStore> BPlusTree<S> {
         let right = node_store.get_mut_leaf(right_id);
         debug_assert!(right.able_to_lend());
 
+        // `clone` may panic, so call it before anything is modified
+        let new_slot_key = right.data_at(1).0.clone();
         let kv = right.pop_front();
         parent.set_augmentation(
             slot + 1,
             S::Augmentation::from_leaf(right.keys(), right.values()),
         );
 
-        let new_slot_key = right.data_at(0).0.clone();
         let left = node_store.get_mut_leaf(left_id);
         let deleted = left.delete_with_push(delete_idx, kv);
         parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
-- 
2.43.0


From c98745dc101b232698aa32d3766abfcb6c842cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 10/10] fix: refuse an index outside the node from a search
 augmentation

A SearchAugmentation is user code, but the child index and slot it answers
were used unchecked: an answer past the end read uninitialised memory or
memory outside the node, and remove_by_augmentation corrupted the leaf.
Panic instead, as descend_visit does.
---
 src/tree/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 361af21..babc99f 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -691,6 +691,10 @@ where
                             inner.keys(),
                             inner.augmentations(),
                         )?;
+                    // the augmentation is user code, its answer can't be trusted
+                    if offset > inner.len() {
+                        panic!("invalid index");
+                    }
                     node_id = inner.child_id(offset);
 
                     stack.push(inner_id, offset, node_id);
@@ -703,6 +707,9 @@ where
                         leaf.keys(),
                         leaf.values(),
                     )?;
+                    if slot >= leaf.len() {
+                        panic!("invalid index");
+                    }
 
                     return Some(EntryRef::new(self, stack, leaf_id, slot));
                 }
-- 
2.43.0

