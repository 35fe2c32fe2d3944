From decc5d2045af4b4848aa5cf496445551ec8b49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 01/18] fix: VecSet::union_with must clone the elements it adds

---
 src/vec_set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index 7dc66e0..ec81db5 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -754,7 +754,12 @@ where
     }
 
     pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.as_slice(), SetUnionOp, NoConverter);
+        InPlaceSmallVecMergeStateRef::merge(
+            &mut self.0,
+            &that.as_slice(),
+            SetUnionOp,
+            CloneConverter,
+        );
     }
 
     pub fn intersection_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-- 
2.43.0


From 682ff2cb7ca163d0a7f000c15a45f5587675e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 02/18] fix: VecSet::xor_with must compute the symmetric
 difference

---
 src/vec_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index ec81db5..9f97102 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -775,8 +775,8 @@ where
         InPlaceSmallVecMergeStateRef::merge(
             &mut self.0,
             &that.as_slice(),
-            SetIntersectionOp,
-            NoConverter,
+            SetXorOp,
+            CloneConverter,
         );
     }
 
-- 
2.43.0


From 985e6019480647c48351ee1d114032f5578d6e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 03/18] fix: BTreeMap::right_join_with must drop the keys
 missing on the right

---
 src/btree_map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index b315666..797d1f3 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -190,6 +190,9 @@ impl<K, V> InPlaceRelationalOps<K, V> for BTreeMap<K, V> {
         K: Ord + Clone,
         F: Fn(&K, Option<&mut V>, &W) -> bool,
     {
+        // k not in that
+        self.retain(|k, _| that.get(k).is_some());
+        // k in that
         for (k, w) in that.iter() {
             if !f(k, self.get_mut(k), w) {
                 self.remove(k);
-- 
2.43.0


From d94db3706c11f3176ead878d5e046b80993f2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 04/18] fix: TotalVecSet::is_superset is not the negation of
 is_subset

---
 src/total_vec_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_set.rs b/src/total_vec_set.rs
index d88680b..7352348 100644
--- a/src/total_vec_set.rs
+++ b/src/total_vec_set.rs
@@ -138,7 +138,7 @@ impl<T: Ord, A: Array<Item = T>> TotalVecSet<A> {
     }
 
     pub fn is_superset(&self, that: &Self) -> bool {
-        !self.is_subset(that)
+        that.is_subset(self)
     }
 
     pub fn is_subset(&self, that: &Self) -> bool {
-- 
2.43.0


From 75ef6abe392f7cf237c934e24b86762aa13e1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 05/18] fix: TotalVecMap equality must compare the default
 value

---
 src/total_vec_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_map.rs b/src/total_vec_map.rs
index c628a79..663a25a 100644
--- a/src/total_vec_map.rs
+++ b/src/total_vec_map.rs
@@ -66,7 +66,7 @@ impl<K: Hash, V: Hash, A: Array<Item = (K, V)>> Hash for TotalVecMap<V, A> {
 
 impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEq for TotalVecMap<V, A> {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.1 == other.1
     }
 }
 
-- 
2.43.0


From e6e876e0b942458228991b97216156b81dbf607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 06/18] fix: left_combine must not consult the function for
 keys only on the left

Whether it was called with None depended on how the right tree happened to
be split into nodes, and differed from left_combine_with.
---
 src/radix_tree/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index ad907b3..6263564 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -1155,8 +1155,9 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     if n == a.prefix().len() && n == b.prefix().len() {
         // prefixes are identical
         value = match (a.value(), b.value()) {
-            (Some(a), b) => f(a, b),
-            _ => None,
+            (Some(a), Some(b)) => f(a, Some(b)),
+            (Some(a), None) => Some(a.clone()),
+            (None, _) => None,
         };
         children = VecMergeState::merge(
             a.children(),
-- 
2.43.0


From a7b26d4aea0baa21e92487a872dce9d8015777bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 07/18] fix: validate the children of an archived radix tree
 before looking at them

---
 src/radix_tree/arc_radix_tree.rs  | 6 +++---
 src/radix_tree/flat_radix_tree.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 5b1b476..a673077 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -297,6 +297,9 @@ mod validation_support {
             CheckBytes::check_bytes(prefix, context).map_err(|_| ArchivedRadixTreeError::Prefix)?;
             // check the value, if present
             CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
+            // recursively check the children. This must be done before looking at them.
+            CheckBytes::check_bytes(children, context)
+                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
@@ -311,9 +314,6 @@ mod validation_support {
             {
                 return Err(ArchivedRadixTreeError::Order);
             };
-            // recursively check the children
-            CheckBytes::check_bytes(children, context)
-                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
 
             Ok(&*this)
         }
diff --git a/src/radix_tree/flat_radix_tree.rs b/src/radix_tree/flat_radix_tree.rs
index c57c33b..30371f6 100644
--- a/src/radix_tree/flat_radix_tree.rs
+++ b/src/radix_tree/flat_radix_tree.rs
@@ -247,6 +247,9 @@ mod rkyv_support {
                 // check the value, if present
                 CheckBytes::check_bytes(value, context)
                     .map_err(|_| ArchivedRadixTreeError::Value)?;
+                // recursively check the children. This must be done before looking at them.
+                CheckBytes::check_bytes(children, context)
+                    .map_err(|_| ArchivedRadixTreeError::Children)?;
                 // check that the prefix of all children is of non zero length
                 if !children.iter().all(|child| !child.prefix.is_empty()) {
                     return Err(ArchivedRadixTreeError::Children);
@@ -259,9 +262,6 @@ mod rkyv_support {
                 {
                     return Err(ArchivedRadixTreeError::Order);
                 };
-                // recursively check the children
-                CheckBytes::check_bytes(children, context)
-                    .map_err(|_| ArchivedRadixTreeError::Children)?;
 
                 Ok(&*this)
             }
-- 
2.43.0


From cb98fc9f03baad98f09f6b95471c01be93a7f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 08/18] fix: reject archived arc radix trees whose shared
 pointers form a cycle

Shared pointers are registered before they are checked, so an archive in which a
node is its own descendant passed validation and every traversal of it ran forever.
---
 src/radix_tree/arc_radix_tree.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index a673077..689e2b0 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -252,7 +252,7 @@ mod validation_support {
         Archived,
     };
 
-    use super::{ArchivedArcRadixTree, TKey, TValue};
+    use super::{ArcRadixTree, ArchivedArcRadixTree, TKey, TValue};
 
     /// Validation error for a radix tree
     #[derive(Debug)]
@@ -300,6 +300,14 @@ mod validation_support {
             // recursively check the children. This must be done before looking at them.
             CheckBytes::check_bytes(children, context)
                 .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
+            // the children are always written before the node that refers to them. Shared pointers
+            // are only checked once, so without this check they could be used to create cycles.
+            let children_pos = children.get() as *const Archived<Vec<ArcRadixTree<K, V>>>;
+            if children_pos as usize >= this as usize {
+                return Err(ArchivedRadixTreeError::Children(
+                    "children not written before their parent".into(),
+                ));
+            }
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
-- 
2.43.0


From b3a126322fee3f582a4f7e9341e2ad3d2099b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 09/18] fix: opening an archived lazy radix tree must not load
 its children

---
 src/radix_tree/lazy_radix_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radix_tree/lazy_radix_tree.rs b/src/radix_tree/lazy_radix_tree.rs
index e926f17..3132722 100644
--- a/src/radix_tree/lazy_radix_tree.rs
+++ b/src/radix_tree/lazy_radix_tree.rs
@@ -125,8 +125,8 @@ impl<'a, K: TKey + Archive<Archived = K>, V: TValue + Archive<Archived = V>>
     From<&'a ArchivedLazyRadixTree<K, V>> for LazyRadixTree<'a, K, V>
 {
     fn from(value: &'a ArchivedLazyRadixTree<K, V>) -> Self {
-        let children = value.children().iter().map(Self::from).collect::<Vec<_>>();
-        let children = Lazy::initialized(Arc::new(children));
+        // do not touch the children here, they are loaded on first access
+        let children = Lazy::uninitialized(value.children());
         LazyRadixTree {
             prefix: value.prefix().into(),
             value: value.value().cloned(),
-- 
2.43.0


From bb7b079b4e7777914da94d893e18d4cc3ea750b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 10/18] fix: keep sets and maps sorted when a retain predicate
 panics

---
 src/vec_map.rs | 8 +++++++-
 src/vec_set.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 30a861c..308e3b9 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -5,6 +5,7 @@ use std::collections::BTreeMap;
 use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
+use inplace_vec_builder::InPlaceSmallVecBuilder;
 #[cfg(feature = "rkyv")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
@@ -641,7 +642,12 @@ impl<A: Array> VecMap<A> {
 
     /// retain all pairs matching a predicate
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        // unlike SmallVec::retain, this keeps the target sorted at all times, even if f panics
+        let mut builder = InPlaceSmallVecBuilder::from(&mut self.0);
+        while let Some(entry) = builder.source_slice().first() {
+            let keep = f(entry);
+            builder.consume(1, keep);
+        }
     }
 
     #[cfg(feature = "total")]
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 9f97102..499da91 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -10,6 +10,7 @@ use std::collections::BTreeSet;
 use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
+use inplace_vec_builder::InPlaceSmallVecBuilder;
 #[cfg(feature = "rkyv")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
@@ -331,7 +332,12 @@ where
 
     /// Retain all elements matching a predicate.
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        // unlike SmallVec::retain, this keeps the target sorted at all times, even if f panics
+        let mut builder = InPlaceSmallVecBuilder::from(&mut self.0);
+        while let Some(entry) = builder.source_slice().first() {
+            let keep = f(entry);
+            builder.consume(1, keep);
+        }
     }
 
     /// creates a set from a vec.
-- 
2.43.0


From 60ccc1a22c05789b92c16be2a9f5d98a9a30101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 11/18] fix: keep the children of a radix tree node sorted when
 comparing keys panics

---
 src/radix_tree/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index 6263564..bf76e31 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -384,8 +384,10 @@ pub trait AbstractRadixTreeMut<K: TKey, V: TValue>: internals::AbstractRadixTree
         } else {
             // disjoint
             self.split(n);
-            self.children_mut().push(that.materialize_shortened(n));
-            self.children_mut().sort_by_key(|x| x.prefix()[0]);
+            let that = that.materialize_shortened(n);
+            // compare before inserting, so that the children are sorted even if comparing panics
+            let index = (self.children()[0].prefix()[0] < that.prefix()[0]) as usize;
+            self.children_mut().insert(index, that);
         }
         self.unsplit();
     }
-- 
2.43.0


From e084a21b1a7f83aa787c93dec84dc86e16f87540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 12/18] fix: don't allocate by an untrusted serde size hint

---
 src/vec_map.rs | 3 ++-
 src/vec_set.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 308e3b9..1e930fb 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -821,7 +821,8 @@ where
     }
 
     fn visit_map<M: MapAccess<'de>>(self, mut map: M) -> Result<Self::Value, M::Error> {
-        let len = map.size_hint().unwrap_or(0);
+        // the hint comes from the input, so don't rely on it to allocate an arbitrary amount of memory
+        let len = map.size_hint().unwrap_or(0).min(1024);
         let mut values: SmallVec<A> = SmallVec::with_capacity(len);
 
         while let Some(value) = map.next_entry::<K, V>()? {
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 499da91..d48844f 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -617,7 +617,8 @@ where
     where
         B: SeqAccess<'de>,
     {
-        let len = seq.size_hint().unwrap_or(0);
+        // the hint comes from the input, so don't rely on it to allocate an arbitrary amount of memory
+        let len = seq.size_hint().unwrap_or(0).min(1024);
         let mut values = SmallVec::with_capacity(len);
 
         while let Some(value) = seq.next_element()? {
-- 
2.43.0


From 222ad6ebb315eb18da8ec6d6efba925b1f35e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 13/18] fix: build with the feature rkyv alone

The import of rkyv's validation module was gated by the feature rkyv instead
of rkyv_validated, so a crate depending on vec-collections with rkyv only did
not build unless something else turned on rkyv's validation.
---
 src/vec_map.rs | 2 +-
 src/vec_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 1e930fb..42ddf37 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -6,7 +6,7 @@ use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
 use inplace_vec_builder::InPlaceSmallVecBuilder;
-#[cfg(feature = "rkyv")]
+#[cfg(feature = "rkyv_validated")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
 #[cfg(feature = "serde")]
diff --git a/src/vec_set.rs b/src/vec_set.rs
index d48844f..d2c1e31 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -11,7 +11,7 @@ use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
 use inplace_vec_builder::InPlaceSmallVecBuilder;
-#[cfg(feature = "rkyv")]
+#[cfg(feature = "rkyv_validated")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
 #[cfg(feature = "serde")]
-- 
2.43.0


From e2f3d2cf41aec932e083a3aeb68d497377820b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 14/18] fix: build the radix tree without the feature rkyv

The shared flavour and the archiving code were already gated by rkyv, but the
key and value traits used rkyv unconditionally, so radixtree without rkyv did
not build. The lazily loaded flavour needs archives in any case.
---
 src/radix_tree/mod.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index bf76e31..9ae69b7 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -20,19 +20,38 @@
 use std::{borrow::Borrow, cmp::Ordering, fmt::Debug, marker::PhantomData, ops::Deref, sync::Arc};
 
 /// Trait for everything that is needed for a component to be a radix tree key component
+#[cfg(feature = "rkyv")]
 pub trait TKey: Debug + Ord + Copy + Archive<Archived = Self> + Send + Sync + 'static {}
 
+#[cfg(feature = "rkyv")]
 impl<T: Debug + Ord + Copy + Archive<Archived = T> + Send + Sync + 'static> TKey for T {}
 
+/// Trait for everything that is needed for a component to be a radix tree key component
+#[cfg(not(feature = "rkyv"))]
+pub trait TKey: Debug + Ord + Copy + Send + Sync + 'static {}
+
+#[cfg(not(feature = "rkyv"))]
+impl<T: Debug + Ord + Copy + Send + Sync + 'static> TKey for T {}
+
 /// Trait for everything that is needed for a component to be a radix tree value
+#[cfg(feature = "rkyv")]
 pub trait TValue: Debug + Clone + Archive + Send + Sync + 'static {}
 
+#[cfg(feature = "rkyv")]
 impl<T: Debug + Clone + Archive + Send + Sync + 'static> TValue for T {}
 
+/// Trait for everything that is needed for a component to be a radix tree value
+#[cfg(not(feature = "rkyv"))]
+pub trait TValue: Debug + Clone + Send + Sync + 'static {}
+
+#[cfg(not(feature = "rkyv"))]
+impl<T: Debug + Clone + Send + Sync + 'static> TValue for T {}
+
+#[cfg(feature = "rkyv")]
 use rkyv::Archive;
-#[cfg(feature = "lazy_radixtree")]
+#[cfg(all(feature = "lazy_radixtree", feature = "rkyv"))]
 mod lazy_radix_tree;
-#[cfg(feature = "lazy_radixtree")]
+#[cfg(all(feature = "lazy_radixtree", feature = "rkyv"))]
 pub use lazy_radix_tree::LazyRadixTree;
 #[cfg(feature = "rkyv")]
 mod arc_radix_tree;
-- 
2.43.0


From 825df16d09ad19309456da4ff2136f4a6a929052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 15/18] fix: build std_support without the feature rkyv

The support for archived BTreeMaps is only available with rkyv.
---
 src/btree_map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index 797d1f3..6e11803 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -5,12 +5,14 @@ use std::{
     collections::{btree_map, BTreeMap},
 };
 
+#[cfg(feature = "rkyv")]
 use rkyv::collections::ArchivedBTreeMap;
 
 use crate::OuterJoinArg;
 
 pub enum AbstractBTreeMapIter<'a, K, V> {
     BTreeMap(btree_map::Iter<'a, K, V>),
+    #[cfg(feature = "rkyv")]
     ArchivedBTreeMap(rkyv::collections::btree_map::Iter<'a, K, V>),
 }
 
@@ -20,6 +22,7 @@ impl<'a, K, V> Iterator for AbstractBTreeMapIter<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         match self {
             AbstractBTreeMapIter::BTreeMap(x) => x.next(),
+            #[cfg(feature = "rkyv")]
             AbstractBTreeMapIter::ArchivedBTreeMap(x) => x.next(),
         }
     }
@@ -39,6 +42,7 @@ impl<K, V> AbstractBTreeMap<K, V> for BTreeMap<K, V> {
     }
 }
 
+#[cfg(feature = "rkyv")]
 impl<K, V> AbstractBTreeMap<K, V> for ArchivedBTreeMap<K, V> {
     fn iter(&self) -> AbstractBTreeMapIter<K, V> {
         AbstractBTreeMapIter::ArchivedBTreeMap(self.iter())
-- 
2.43.0


From 9c66f3aa093efd17d0773970a388f8dc8a719d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 16/18] fix: vecmap! with a trailing comma, used by its path

The arm for a trailing comma called vecmap! without $crate, so
vec_collections::vecmap! { k => v, } only worked if the caller had imported
the macro as well.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 7ecc69d..8478c66 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -14,7 +14,7 @@ macro_rules! vecset {
 /// Macro to create a vecmap
 #[macro_export]
 macro_rules! vecmap {
-    ($($key:expr => $value:expr,)+) => { vecmap!($($key => $value),+) };
+    ($($key:expr => $value:expr,)+) => { $crate::vecmap!($($key => $value),+) };
     ($($key:expr => $value:expr),*) => {
         {
             let mut _map = $crate::VecMap::default();
-- 
2.43.0


From 900720f340c1a0478c200a98d3c225d3c360e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:26 +0000
Subject: [PATCH 17/18] fix: export Keep, which sort_dedup and
 sort_dedup_by_key take

Both functions are exported, but could not be called: the type of their last
argument was not reachable.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e14de51..5f56005 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -99,7 +99,7 @@ mod iterators;
 
 mod macros;
 
-pub use dedup::{sort_dedup, sort_dedup_by_key};
+pub use dedup::{sort_dedup, sort_dedup_by_key, Keep};
 pub use smallvec::Array;
 pub use vec_map::*;
 pub use vec_set::*;
-- 
2.43.0


From 232ba98d8c2df44f9b80b56523926c7cb369ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 18/18] fix: one empty children array per type of ArcRadixTree

A single one for all types was archived as a shared pointer that is used
with two different types, so an archive that contains trees of different
types did not pass validation, and its empty arrays could be misaligned.
---
 src/radix_tree/arc_radix_tree.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 689e2b0..04639da 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -1,6 +1,7 @@
 use std::{
-    collections::BTreeMap,
-    sync::{Arc, LazyLock},
+    any::{Any, TypeId},
+    collections::{BTreeMap, HashMap},
+    sync::{Arc, LazyLock, RwLock},
 };
 
 use internals::{AbstractRadixTreeMut as _, Fragment};
@@ -13,14 +14,24 @@ use rkyv::{
 
 use super::{internals, location, offset_from, AbstractRadixTree, RadixTree, TKey, TValue};
 
-static EMPTY_ARC_VEC: LazyLock<Arc<Vec<u128>>> = LazyLock::new(|| Arc::new(Vec::new()));
-
-fn empty_arc<T>() -> Arc<Vec<T>> {
-    // TODO: this seems to work, but is strictly speaking ub. Get rid of the unsafe
-    unsafe { std::mem::transmute(EMPTY_ARC_VEC.clone()) }
+// one empty vec per element type. It must not be shared between different types, since rkyv shared
+// pointers are identified by address, so in an archive it would be used with different types.
+static EMPTY_ARC_VECS: LazyLock<RwLock<HashMap<TypeId, Arc<dyn Any + Send + Sync>>>> =
+    LazyLock::new(Default::default);
+
+fn empty_arc<T: Send + Sync + 'static>() -> Arc<Vec<T>> {
+    let id = TypeId::of::<T>();
+    let existing = EMPTY_ARC_VECS.read().unwrap().get(&id).cloned();
+    let arc = existing.unwrap_or_else(|| {
+        let mut arcs = EMPTY_ARC_VECS.write().unwrap();
+        arcs.entry(id)
+            .or_insert_with(|| Arc::new(Vec::<T>::new()))
+            .clone()
+    });
+    arc.downcast().expect("arc of the wrong type")
 }
 
-fn wrap_in_arc<T>(data: Vec<T>) -> Arc<Vec<T>> {
+fn wrap_in_arc<T: Send + Sync + 'static>(data: Vec<T>) -> Arc<Vec<T>> {
     if data.is_empty() {
         empty_arc()
     } else {
-- 
2.43.0

