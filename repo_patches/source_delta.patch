From 3736f072b06300114e3830d7000dba127c642e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 1/7] fix: keep the root hash in step with values edited
 through mutable references

get_mut, modify, insert and the entry API hand out mutable references to
values after the hashes on the path to them were computed, so the root
hash went stale when the value was edited through them. A panic in a
value's hashing code half way through an insert or delete also left the
tree unbalanced with stale hashes. Compute subtree hashes on demand and
only invalidate them while the tree changes.
---
 src/rbtree.rs       | 103 +++++++++++++++++++++-----------------------
 src/rbtree/entry.rs |   4 +-
 2 files changed, 52 insertions(+), 55 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..a271bea 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -6,6 +6,7 @@
 //! [crate::collections] module.
 
 use std::borrow::{Borrow, Cow};
+use std::cell::Cell;
 use std::cmp::Ordering;
 use std::cmp::Ordering::{Equal, Greater, Less};
 use std::fmt;
@@ -41,11 +42,7 @@ impl Color {
 impl<K: 'static + Label, V: AsHashTree + 'static> AsHashTree for RbTree<K, V> {
     #[inline]
     fn root_hash(&self) -> Hash {
-        if self.root.is_null() {
-            Empty.reconstruct()
-        } else {
-            unsafe { (*self.root).subtree_hash }
-        }
+        unsafe { Node::subtree_hash(self.root) }
     }
 
     #[inline]
@@ -123,23 +120,24 @@ struct Node<K, V> {
     right: *mut Node<K, V>,
     color: Color,
 
-    /// Hash of the full hash tree built from this node and its
-    /// children. It needs to be recomputed after every rotation.
-    subtree_hash: Hash,
+    /// Hash of the full hash tree built from this node and its children, or
+    /// `None` when it is out of date. It is computed on demand, and has to be
+    /// invalidated on every node from the root to a node before that node's
+    /// value can change (a mutable reference to it may outlive the call that
+    /// gave it out), and after every rotation.
+    subtree_hash: Cell<Option<Hash>>,
 }
 
 impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
     #[allow(clippy::let_and_return)]
     fn new(key: K, value: V) -> *mut Self {
-        let value_hash = value.root_hash();
-        let data_hash = labeled_hash(&key.as_label(), &value_hash);
         let node = Box::into_raw(Box::new(Self {
             key,
             value,
             left: Node::null(),
             right: Node::null(),
             color: Color::Red,
-            subtree_hash: data_hash,
+            subtree_hash: Cell::new(None),
         }));
 
         #[cfg(test)]
@@ -158,7 +156,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
         if (*n).left.is_null() {
             Empty
         } else {
-            Pruned((*(*n).left).subtree_hash)
+            Pruned(Node::subtree_hash((*n).left))
         }
     }
 
@@ -167,7 +165,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
         if (*n).right.is_null() {
             Empty
         } else {
-            Pruned((*(*n).right).subtree_hash)
+            Pruned(Node::subtree_hash((*n).right))
         }
     }
 
@@ -228,17 +226,30 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
             return Empty.reconstruct();
         }
 
+        if let Some(hash) = (*n).subtree_hash.get() {
+            return hash;
+        }
+
         let h = Node::data_hash(n);
 
-        match ((*n).left.is_null(), (*n).right.is_null()) {
+        let hash = match ((*n).left.is_null(), (*n).right.is_null()) {
             (true, true) => h,
-            (false, true) => fork_hash(&(*(*n).left).subtree_hash, &h),
-            (true, false) => fork_hash(&h, &(*(*n).right).subtree_hash),
+            (false, true) => fork_hash(&Node::subtree_hash((*n).left), &h),
+            (true, false) => fork_hash(&h, &Node::subtree_hash((*n).right)),
             (false, false) => fork_hash(
-                &(*(*n).left).subtree_hash,
-                &fork_hash(&h, &(*(*n).right).subtree_hash),
+                &Node::subtree_hash((*n).left),
+                &fork_hash(&h, &Node::subtree_hash((*n).right)),
             ),
-        }
+        };
+
+        (*n).subtree_hash.set(Some(hash));
+        hash
+    }
+
+    /// Mark the hash of this node as out of date.
+    unsafe fn invalidate(n: *mut Self) {
+        debug_assert!(!n.is_null());
+        (*n).subtree_hash.set(None);
     }
 }
 
@@ -351,7 +362,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         Q: Ord,
     {
         unsafe fn go<'a, K: 'static + Label, V: AsHashTree + 'static, T, Q: ?Sized>(
-            mut h: *mut Node<K, V>,
+            h: *mut Node<K, V>,
             k: &Q,
             f: impl FnOnce(&'a mut V) -> T,
         ) -> Option<T>
@@ -363,22 +374,12 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 return None;
             }
 
+            Node::invalidate(h);
+
             match k.cmp((*h).key.borrow()) {
-                Equal => {
-                    let res = f(&mut (*h).value);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    Some(res)
-                }
-                Less => {
-                    let res = go((*h).left, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-                Greater => {
-                    let res = go((*h).right, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
+                Equal => Some(f(&mut (*h).value)),
+                Less => go((*h).left, k, f),
+                Greater => go((*h).right, k, f),
             }
         }
         unsafe { go(self.root, key, f) }
@@ -402,7 +403,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             T,
             F: FnOnce(&'a K, &'a mut V) -> T,
         >(
-            mut h: *mut Node<K, V>,
+            h: *mut Node<K, V>,
             prefix: &P,
             f: F,
         ) -> (Option<T>, Option<F>)
@@ -414,10 +415,12 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 return (None, Some(f));
             }
 
+            Node::invalidate(h);
+
             let node_key = &(*h).key;
             let key_prefix = node_key.borrow();
 
-            let res = match key_prefix.cmp(prefix) {
+            match key_prefix.cmp(prefix) {
                 Greater | Equal if node_key.is_prefix(prefix) => match go((*h).right, prefix, f) {
                     (None, Some(f)) => {
                         let ret = f(node_key, &mut (*h).value);
@@ -427,13 +430,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 },
                 Greater => go((*h).left, prefix, f),
                 Less | Equal => go((*h).right, prefix, f),
-            };
-
-            if res.0.is_some() {
-                (*h).subtree_hash = Node::subtree_hash(h);
             }
-
-            res
         }
 
         unsafe { go(self.root, prefix, f).0 }
@@ -740,7 +737,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                     Pruned(Node::data_hash(n)),
                     go((*n).right, lo, hi, f),
                 ),
-                _ => Pruned((*n).subtree_hash),
+                _ => Pruned(Node::subtree_hash(n)),
             }
         }
         unsafe { go(self.root, lo, hi, f) }
@@ -899,19 +896,19 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let (old_value, new_value_ref) = match k.cmp(&(*h).key) {
                 Equal => {
                     std::mem::swap(&mut (*h).value, &mut v);
-                    (*h).subtree_hash = Node::subtree_hash(h);
+                    Node::invalidate(h);
                     (Some(v), &mut (*h).value)
                 }
                 Less => {
                     let res = go((*h).left, k, v);
                     (*h).left = res.node;
-                    (*h).subtree_hash = Node::subtree_hash(h);
+                    Node::invalidate(h);
                     (res.old_value, res.new_value_ref)
                 }
                 Greater => {
                     let res = go((*h).right, k, v);
                     (*h).right = res.node;
-                    (*h).subtree_hash = Node::subtree_hash(h);
+                    Node::invalidate(h);
                     (res.old_value, res.new_value_ref)
                 }
             };
@@ -998,7 +995,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 h = move_red_left(h);
             }
             (*h).left = delete_min((*h).left, result);
-            (*h).subtree_hash = Node::subtree_hash(h);
+            Node::invalidate(h);
             balance(h)
         }
 
@@ -1039,7 +1036,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                     (*h).right = go((*h).right, result, key);
                 }
             }
-            (*h).subtree_hash = Node::subtree_hash(h);
+            Node::invalidate(h);
             balance(h)
         }
 
@@ -1124,8 +1121,8 @@ unsafe fn rotate_right<K: 'static + Label, V: AsHashTree + 'static>(
     (*x).color = (*(*x).right).color;
     (*(*x).right).color = Color::Red;
 
-    (*h).subtree_hash = Node::subtree_hash(h);
-    (*x).subtree_hash = Node::subtree_hash(x);
+    Node::invalidate(h);
+    Node::invalidate(x);
 
     x
 }
@@ -1142,8 +1139,8 @@ unsafe fn rotate_left<K: 'static + Label, V: AsHashTree + 'static>(
     (*x).color = (*(*x).left).color;
     (*(*x).left).color = Color::Red;
 
-    (*h).subtree_hash = Node::subtree_hash(h);
-    (*x).subtree_hash = Node::subtree_hash(x);
+    Node::invalidate(h);
+    Node::invalidate(x);
 
     x
 }
diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..82c7c77 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -63,7 +63,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`into_mut`]: OccupiedEntry::into_mut
     #[inline]
     pub fn get_mut(&mut self) -> &mut V {
-        unsafe { &mut (*self.node).value }
+        self.map.modify(&self.key, |v| v).unwrap()
     }
 
     /// Converts the entry into a mutable reference to its value.
@@ -73,7 +73,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`get_mut`]: OccupiedEntry::get_mut
     #[inline]
     pub fn into_mut(self) -> &'a mut V {
-        unsafe { &mut (*self.node).value }
+        self.map.modify(&self.key, |v| v).unwrap()
     }
 
     /// Gets a reference to the key in the entry.
-- 
2.43.0


From 478d24a8e2a6f0b7c5a0c03ed8178c94c71b204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 2/7] fix: leave the tree intact when a key comparison panics
 during delete

---
 src/rbtree.rs | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index a271bea..ef6aebe 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -999,25 +999,29 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             balance(h)
         }
 
-        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static, Q: ?Sized>(
+        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
             mut h: *mut Node<K, V>,
             result: &mut Option<(K, V)>,
-            key: &Q,
-        ) -> *mut Node<K, V>
-        where
-            K: Borrow<Q>,
-            Q: Ord,
-        {
-            if key < (*h).key.borrow() {
+            path: &[(*mut Node<K, V>, Ordering)],
+        ) -> *mut Node<K, V> {
+            // A node which is not on the path has been rotated up from the left
+            // of a node that is on it.
+            let cmp = |h: *mut Node<K, V>| {
+                path.iter()
+                    .find(|(node, _)| *node == h)
+                    .map_or(Greater, |(_, ord)| *ord)
+            };
+
+            if cmp(h) == Less {
                 if !is_red((*h).left) && !is_red((*(*h).left).left) {
                     h = move_red_left(h);
                 }
-                (*h).left = go((*h).left, result, key);
+                (*h).left = go((*h).left, result, path);
             } else {
                 if is_red((*h).left) {
                     h = rotate_right(h);
                 }
-                if key == (*h).key.borrow() && (*h).right.is_null() {
+                if cmp(h) == Equal && (*h).right.is_null() {
                     debug_assert!((*h).left.is_null());
                     *result = Some(Node::delete(h).unwrap());
                     return Node::null();
@@ -1027,13 +1031,13 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                     h = move_red_right(h);
                 }
 
-                if key == (*h).key.borrow() {
+                if cmp(h) == Equal {
                     let m = min((*h).right);
                     std::mem::swap(&mut (*h).key, &mut (*m).key);
                     std::mem::swap(&mut (*h).value, &mut (*m).value);
                     (*h).right = delete_min((*h).right, result);
                 } else {
-                    (*h).right = go((*h).right, result, key);
+                    (*h).right = go((*h).right, result, path);
                 }
             }
             Node::invalidate(h);
@@ -1041,13 +1045,29 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         }
 
         unsafe {
-            self.get(key)?;
+            // Make all of the comparisons before the tree changes, a comparison
+            // that panics half way through would leave it broken.
+            let mut path = Vec::with_capacity(16);
+            let mut node = self.root;
+            loop {
+                if node.is_null() {
+                    return None;
+                }
+                let ord = key.cmp((*node).key.borrow());
+                path.push((node, ord));
+                match ord {
+                    Equal => break,
+                    Less => node = (*node).left,
+                    Greater => node = (*node).right,
+                }
+            }
+
             if !is_red((*self.root).left) && !is_red((*self.root).right) {
                 (*self.root).color = Color::Red;
             }
 
             let mut result = None;
-            self.root = go(self.root, &mut result, key);
+            self.root = go(self.root, &mut result, &path);
             if !self.root.is_null() {
                 (*self.root).color = Color::Black;
             }
-- 
2.43.0


From bb86144e874e781c60196215bca2e165848d5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 3/7] fix: keep the hash of a Seq in step when the iterator
 given to extend panics

---
 src/collections/seq.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/collections/seq.rs b/src/collections/seq.rs
index d7ce6f9..94b4df1 100644
--- a/src/collections/seq.rs
+++ b/src/collections/seq.rs
@@ -195,18 +195,20 @@ impl<T: AsHashTree> Borrow<[T]> for Seq<T> {
 impl<'a, T: AsHashTree + Copy + 'a> Extend<&'a T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        self.extend(iter.into_iter().copied())
     }
 }
 
 impl<T: AsHashTree> Extend<T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        let iter = iter.into_iter();
+        self.items.reserve(iter.size_hint().0);
+
+        // The hash has to match the items even when the iterator panics.
+        for item in iter {
+            self.append(item);
+        }
     }
 }
 
-- 
2.43.0


From ee88e6826f87ad59ee00d976f81bb3ef21a50ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 4/7] fix: do not wrap large page numbers around to an existing
 page

---
 src/collections/paged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..5477386 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
@@ -104,7 +105,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0


From f87e2f9a4b6dc92bfcbcac165f079bee5836ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 5/7] fix: list every key with the prefix when many keys
 compare equal to it

---
 src/rbtree.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index ef6aebe..b953093 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -567,7 +567,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         P: Ord,
     {
         self.range_witness(
-            self.lower_bound(prefix),
+            self.left_prefix_neighbor(prefix),
             self.right_prefix_neighbor(prefix),
             Node::witness_tree,
         )
@@ -795,6 +795,33 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         unsafe { go(self.root, key) }
     }
 
+    fn left_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
+    where
+        K: Prefix<P>,
+        P: Ord,
+    {
+        unsafe fn go<'a, K: 'static + Label, V, P: ?Sized>(
+            n: *mut Node<K, V>,
+            prefix: &P,
+        ) -> Option<KeyBound<'a, K>>
+        where
+            K: Prefix<P>,
+            P: Ord,
+        {
+            if n.is_null() {
+                return None;
+            }
+            let node_key = &(*n).key;
+            let key_prefix = node_key.borrow();
+            match key_prefix.cmp(prefix) {
+                Less => go((*n).right, prefix).or(Some(KeyBound::Neighbor(node_key))),
+                // Many keys can compare equal to a prefix that is a part of the key.
+                Equal | Greater => go((*n).left, prefix),
+            }
+        }
+        unsafe { go(self.root, prefix) }
+    }
+
     fn right_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
     where
         K: Prefix<P>,
-- 
2.43.0


From 94a94dd7f8c2b848426812a429218a8d6e17ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 6/7] fix: do not let references given to modify outlive the
 tree

---
 src/rbtree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index b953093..7845cb8 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -356,7 +356,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Updates the value corresponding to the specified key.
     #[inline]
-    pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
+    pub fn modify<'a, Q: ?Sized, T>(
+        &'a mut self,
+        key: &Q,
+        f: impl FnOnce(&'a mut V) -> T,
+    ) -> Option<T>
     where
         K: Borrow<Q>,
         Q: Ord,
@@ -387,7 +391,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Modify the maximum node with the given prefix.
     pub fn modify_max_with_prefix<'a, P: ?Sized, T>(
-        &mut self,
+        &'a mut self,
         prefix: &P,
         f: impl FnOnce(&'a K, &'a mut V) -> T,
     ) -> Option<T>
-- 
2.43.0


From b8c21febc47cb713363fe0b50113e6b3d23ecadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:19 +0000
Subject: [PATCH 7/7] fix: mark hashes as out of date before an insert replaces
 a value

When the destructor of the redundant key panics, the frames above do not
get to mark their hashes, and the root no longer matches the contents.
---
 src/rbtree.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 7845cb8..02d2d2b 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -924,22 +924,23 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 };
             }
 
+            // Before the value changes: a destructor of `k` that panics unwinds
+            // through all of the frames above.
+            Node::invalidate(h);
+
             let (old_value, new_value_ref) = match k.cmp(&(*h).key) {
                 Equal => {
                     std::mem::swap(&mut (*h).value, &mut v);
-                    Node::invalidate(h);
                     (Some(v), &mut (*h).value)
                 }
                 Less => {
                     let res = go((*h).left, k, v);
                     (*h).left = res.node;
-                    Node::invalidate(h);
                     (res.old_value, res.new_value_ref)
                 }
                 Greater => {
                     let res = go((*h).right, k, v);
                     (*h).right = res.node;
-                    Node::invalidate(h);
                     (res.old_value, res.new_value_ref)
                 }
             };
-- 
2.43.0

