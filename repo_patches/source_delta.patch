From b018ac4eda3d758eaee61124b6b050164654100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 01/14] fix: VecSet::union_with must clone elements only
 present in the right side

It used NoConverter, which panics as soon as an element has to be taken from the right hand side.
---
 src/vec_set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index 7dc66e0..ec81db5 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -754,7 +754,12 @@ where
     }
 
     pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.as_slice(), SetUnionOp, NoConverter);
+        InPlaceSmallVecMergeStateRef::merge(
+            &mut self.0,
+            &that.as_slice(),
+            SetUnionOp,
+            CloneConverter,
+        );
     }
 
     pub fn intersection_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-- 
2.43.0


From 555af9e9128daabeb58159ff7ea461ba7972a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 02/14] fix: VecSet::xor_with must compute the symmetric
 difference

It computed the intersection.
---
 src/vec_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index ec81db5..9f97102 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -775,8 +775,8 @@ where
         InPlaceSmallVecMergeStateRef::merge(
             &mut self.0,
             &that.as_slice(),
-            SetIntersectionOp,
-            NoConverter,
+            SetXorOp,
+            CloneConverter,
         );
     }
 
-- 
2.43.0


From 4c6ef92ed74e91380c842533992d37efddc8ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 03/14] fix: TotalVecMap equality must compare the default
 value

---
 src/total_vec_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_map.rs b/src/total_vec_map.rs
index c628a79..663a25a 100644
--- a/src/total_vec_map.rs
+++ b/src/total_vec_map.rs
@@ -66,7 +66,7 @@ impl<K: Hash, V: Hash, A: Array<Item = (K, V)>> Hash for TotalVecMap<V, A> {
 
 impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEq for TotalVecMap<V, A> {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.1 == other.1
     }
 }
 
-- 
2.43.0


From 07414a15850e102cdda585cfbe3f0d8889283d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 04/14] fix: TotalVecSet::is_superset must be the converse of
 is_subset

---
 src/total_vec_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_set.rs b/src/total_vec_set.rs
index d88680b..7352348 100644
--- a/src/total_vec_set.rs
+++ b/src/total_vec_set.rs
@@ -138,7 +138,7 @@ impl<T: Ord, A: Array<Item = T>> TotalVecSet<A> {
     }
 
     pub fn is_superset(&self, that: &Self) -> bool {
-        !self.is_subset(that)
+        that.is_subset(self)
     }
 
     pub fn is_subset(&self, that: &Self) -> bool {
-- 
2.43.0


From 23251cc29f840a733ef376366b81dc14680f7abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/14] fix: deserialisation must not reserve the memory a
 document announces

---
 src/vec_map.rs | 3 ++-
 src/vec_set.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 30a861c..8714579 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -815,7 +815,8 @@ where
     }
 
     fn visit_map<M: MapAccess<'de>>(self, mut map: M) -> Result<Self::Value, M::Error> {
-        let len = map.size_hint().unwrap_or(0);
+        // the size hint comes from the document, so it must not be trusted
+        let len = map.size_hint().unwrap_or(0).min(4096);
         let mut values: SmallVec<A> = SmallVec::with_capacity(len);
 
         while let Some(value) = map.next_entry::<K, V>()? {
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 9f97102..f57d83f 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -611,7 +611,8 @@ where
     where
         B: SeqAccess<'de>,
     {
-        let len = seq.size_hint().unwrap_or(0);
+        // the size hint comes from the document, so it must not be trusted
+        let len = seq.size_hint().unwrap_or(0).min(4096);
         let mut values = SmallVec::with_capacity(len);
 
         while let Some(value) = seq.next_element()? {
-- 
2.43.0


From 68add01b3a7acc68af580f2697c88fe8d88ea119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 06/14] fix: archived sets and maps of strings must be
 validatable

---
 src/vec_map.rs | 6 +++---
 src/vec_set.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 8714579..40168f5 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -6,7 +6,7 @@ use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
 #[cfg(feature = "rkyv")]
-use rkyv::{validation::ArchiveContext, Archive};
+use rkyv::validation::ArchiveContext;
 use smallvec::{Array, SmallVec};
 #[cfg(feature = "serde")]
 use {
@@ -903,8 +903,8 @@ impl<C: ?Sized, K, V> bytecheck::CheckBytes<C> for ArchivedVecMap<K, V>
 where
     C: ArchiveContext,
     C::Error: std::error::Error,
-    K: Ord + Archive + CheckBytes<C>,
-    V: Archive + CheckBytes<C>,
+    K: Ord + CheckBytes<C>,
+    V: CheckBytes<C>,
     bool: bytecheck::CheckBytes<C>,
 {
     type Error = ArchivedVecMapError;
diff --git a/src/vec_set.rs b/src/vec_set.rs
index f57d83f..b1d6e26 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -11,7 +11,7 @@ use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
 #[cfg(feature = "rkyv")]
-use rkyv::{validation::ArchiveContext, Archive};
+use rkyv::validation::ArchiveContext;
 use smallvec::{Array, SmallVec};
 #[cfg(feature = "serde")]
 use {
@@ -696,7 +696,7 @@ impl<C: ?Sized, T> bytecheck::CheckBytes<C> for ArchivedVecSet<T>
 where
     C: ArchiveContext,
     C::Error: std::error::Error,
-    T: Ord + Archive + CheckBytes<C>,
+    T: Ord + CheckBytes<C>,
     bool: bytecheck::CheckBytes<C>,
 {
     type Error = ArchivedVecSetError;
-- 
2.43.0


From bd1539daf211312437c4868f12b83588a4886807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 07/14] fix: validating an archived radix tree must not look at
 unvalidated children

Both CheckBytes impls read the prefixes of the children before validating them. Cyclic shared
pointers are rejected as well, since those are not checked while checking is in progress.
---
 src/radix_tree/arc_radix_tree.rs  | 14 +++++++++++---
 src/radix_tree/flat_radix_tree.rs |  6 +++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 5b1b476..6f18b68 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -297,6 +297,17 @@ mod validation_support {
             CheckBytes::check_bytes(prefix, context).map_err(|_| ArchivedRadixTreeError::Prefix)?;
             // check the value, if present
             CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
+            // recursively check the children. They must not be looked at before this
+            CheckBytes::check_bytes(children, context)
+                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
+            // a shared pointer that has been seen before is not checked again, even if checking its
+            // target is still in progress. Children are always written before their parent, so
+            // requiring that excludes cycles
+            if children.get() as *const _ as usize >= this as usize {
+                return Err(ArchivedRadixTreeError::Children(
+                    "children not before their parent".into(),
+                ));
+            }
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
@@ -311,9 +322,6 @@ mod validation_support {
             {
                 return Err(ArchivedRadixTreeError::Order);
             };
-            // recursively check the children
-            CheckBytes::check_bytes(children, context)
-                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
 
             Ok(&*this)
         }
diff --git a/src/radix_tree/flat_radix_tree.rs b/src/radix_tree/flat_radix_tree.rs
index c57c33b..2c09229 100644
--- a/src/radix_tree/flat_radix_tree.rs
+++ b/src/radix_tree/flat_radix_tree.rs
@@ -247,6 +247,9 @@ mod rkyv_support {
                 // check the value, if present
                 CheckBytes::check_bytes(value, context)
                     .map_err(|_| ArchivedRadixTreeError::Value)?;
+                // recursively check the children. They must not be looked at before this
+                CheckBytes::check_bytes(children, context)
+                    .map_err(|_| ArchivedRadixTreeError::Children)?;
                 // check that the prefix of all children is of non zero length
                 if !children.iter().all(|child| !child.prefix.is_empty()) {
                     return Err(ArchivedRadixTreeError::Children);
@@ -259,9 +262,6 @@ mod rkyv_support {
                 {
                     return Err(ArchivedRadixTreeError::Order);
                 };
-                // recursively check the children
-                CheckBytes::check_bytes(children, context)
-                    .map_err(|_| ArchivedRadixTreeError::Children)?;
 
                 Ok(&*this)
             }
-- 
2.43.0


From 83f9a65cd0ba976fc097e544b6769d9d9e64459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 08/14] fix: into_iter of radix trees must not hand out
 references into the consumed tree

---
 src/radix_tree/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index ad907b3..f4330f6 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -592,7 +592,7 @@ pub trait AbstractRadixTree<K: TKey, V: TValue>: Sized {
         Iter::new(self, IterKey::new(self.prefix()))
     }
 
-    /// iterate over all elements
+    /// iterate over all elements, consuming the tree. The values are cloned.
     fn into_iter(self) -> ObjAndIter<Self, Iter<'static, K, V, Self>> {
         ObjAndIter::new(Box::new(self), |x| x.iter())
     }
@@ -1916,10 +1916,13 @@ impl<K: 'static, V> ObjAndIter<K, V> {
     }
 }
 
-impl<K: 'static, V: Iterator> Iterator for ObjAndIter<K, V> {
-    type Item = V::Item;
+impl<K: TKey, V: TValue, T: AbstractRadixTree<K, V>> Iterator
+    for ObjAndIter<T, Iter<'static, K, V, T>>
+{
+    // items must not borrow from the boxed tree, since it goes away together with the iterator
+    type Item = (IterKey<K>, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.v.next()
+        self.v.next().map(|(k, v)| (k, v.clone()))
     }
 }
-- 
2.43.0


From d7eff3c4665b1eee41c56a714c55fd0916b64082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 09/14] fix: left_combine must ask the function about every key
 of the left tree

---
 src/radix_tree/mod.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index f4330f6..70e5736 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -1149,7 +1149,7 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     f: impl Fn(&V, Option<&W>) -> Option<V> + Copy,
 ) -> R {
     let n = common_prefix(a.prefix(), b.prefix());
-    let mut prefix = a.prefix()[..n].into();
+    let prefix = a.prefix()[..n].into();
     let children;
     let mut value = None;
     if n == a.prefix().len() && n == b.prefix().len() {
@@ -1168,7 +1168,7 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     } else if n == a.prefix().len() {
         // a is a prefix of b
         let b = b.materialize_shortened(n);
-        value = a.value().cloned();
+        value = a.value().and_then(|v| f(v, None));
         children = VecMergeState::merge(
             a.children(),
             &[b],
@@ -1188,19 +1188,29 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
         );
     } else {
         // disjoint
-        prefix = a.prefix().into();
-        value = a.value().cloned();
-        children = a
-            .children()
-            .iter()
-            .map(|x| x.materialize_shortened(0))
-            .collect();
+        return left_combine_none(a, f);
     }
     let mut res = R::new(prefix, value, children);
     res.unsplit();
     res
 }
 
+/// Left combine for a tree where no key has a counterpart on the other side
+fn left_combine_none<K: TKey, V: TValue, W, R: AbstractRadixTreeMut<K, V, Materialized = R>>(
+    a: &impl AbstractRadixTree<K, V, Materialized = R>,
+    f: impl Fn(&V, Option<&W>) -> Option<V> + Copy,
+) -> R {
+    let value = a.value().and_then(|v| f(v, None));
+    let children = a
+        .children()
+        .iter()
+        .map(|child| left_combine_none(child, f))
+        .collect();
+    let mut res = R::new(a.prefix().into(), value, children);
+    res.unsplit();
+    res
+}
+
 struct IntersectOp<T>(PhantomData<T>);
 
 impl<'a, K, V, W, I> MergeOperation<I> for IntersectOp<(K, V, W)>
@@ -1465,7 +1475,13 @@ where
         m: &mut VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>,
         n: usize,
     ) -> bool {
-        m.advance_a(n, true)
+        for a in m.a.take_front(n) {
+            let res = left_combine_none(a, self.0);
+            if !res.is_empty() {
+                m.r.push(res);
+            }
+        }
+        true
     }
     fn from_b(
         &self,
-- 
2.43.0


From e6235cf4d757facdcb20d352cfecbfa8a321a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 10/14] fix: shared trees of different types must not share the
 vector of no children

Archives holding shared trees of more than one type did not validate, because all
leaves of all types pointed at one transmuted static. Also gets rid of the unsafe.
---
 src/radix_tree/arc_radix_tree.rs | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 6f18b68..f337957 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -1,7 +1,4 @@
-use std::{
-    collections::BTreeMap,
-    sync::{Arc, LazyLock},
-};
+use std::{collections::BTreeMap, sync::Arc};
 
 use internals::{AbstractRadixTreeMut as _, Fragment};
 use rkyv::{
@@ -13,21 +10,6 @@ use rkyv::{
 
 use super::{internals, location, offset_from, AbstractRadixTree, RadixTree, TKey, TValue};
 
-static EMPTY_ARC_VEC: LazyLock<Arc<Vec<u128>>> = LazyLock::new(|| Arc::new(Vec::new()));
-
-fn empty_arc<T>() -> Arc<Vec<T>> {
-    // TODO: this seems to work, but is strictly speaking ub. Get rid of the unsafe
-    unsafe { std::mem::transmute(EMPTY_ARC_VEC.clone()) }
-}
-
-fn wrap_in_arc<T>(data: Vec<T>) -> Arc<Vec<T>> {
-    if data.is_empty() {
-        empty_arc()
-    } else {
-        Arc::new(data)
-    }
-}
-
 /// A generic radix tree with structural sharing and copy on write
 ///
 /// Compared to the simplest radix tree, this adds cheap (O(1)) snapshots and enables incremental
@@ -47,7 +29,7 @@ impl<K: TKey, V: TValue> Default for ArcRadixTree<K, V> {
         Self {
             prefix: Default::default(),
             value: Default::default(),
-            children: empty_arc(),
+            children: Default::default(),
         }
     }
 }
@@ -70,7 +52,7 @@ impl<K: TKey, V: TValue> AbstractRadixTree<K, V> for ArcRadixTree<K, V> {
 
 impl<K: TKey, V: TValue> internals::AbstractRadixTreeMut<K, V> for ArcRadixTree<K, V> {
     fn new(prefix: Fragment<K>, value: Option<V>, children: Vec<Self>) -> Self {
-        let children = wrap_in_arc(children);
+        let children = Arc::new(children);
         Self {
             prefix,
             value,
-- 
2.43.0


From 1b086e1a972b7944d12d747dec7ed49a9612eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 11/14] fix: right_join_with must drop keys the right side does
 not have

---
 src/btree_map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index b315666..c423ce9 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -195,6 +195,8 @@ impl<K, V> InPlaceRelationalOps<K, V> for BTreeMap<K, V> {
                 self.remove(k);
             }
         }
+        // k not in that
+        self.retain(|k, _| that.get(k).is_some());
     }
 
     fn outer_join_with<W, L, R>(&mut self, that: &impl AbstractBTreeMap<K, W>, l: L, r: R)
-- 
2.43.0


From bade35e2daf15890c4ba43e3e6e48a619a7d7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 12/14] fix: creating a lazy tree from an archive must not
 materialise the archive

---
 src/radix_tree/lazy_radix_tree.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/radix_tree/lazy_radix_tree.rs b/src/radix_tree/lazy_radix_tree.rs
index e926f17..aa10a2f 100644
--- a/src/radix_tree/lazy_radix_tree.rs
+++ b/src/radix_tree/lazy_radix_tree.rs
@@ -125,12 +125,10 @@ impl<'a, K: TKey + Archive<Archived = K>, V: TValue + Archive<Archived = V>>
     From<&'a ArchivedLazyRadixTree<K, V>> for LazyRadixTree<'a, K, V>
 {
     fn from(value: &'a ArchivedLazyRadixTree<K, V>) -> Self {
-        let children = value.children().iter().map(Self::from).collect::<Vec<_>>();
-        let children = Lazy::initialized(Arc::new(children));
         LazyRadixTree {
             prefix: value.prefix().into(),
             value: value.value().cloned(),
-            children,
+            children: Lazy::uninitialized(value.children()),
         }
     }
 }
-- 
2.43.0


From b32037c1a5c5c784a2deefdb14a6ddee538f7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 13/14] fix: keep radix tree children ordered if a key
 comparison panics

outer_combine_with pushed the new child to the end and then sorted, so a
panicking comparison left the children of self unordered.
---
 src/radix_tree/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index 70e5736..6ed6881 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -383,9 +383,11 @@ pub trait AbstractRadixTreeMut<K: TKey, V: TValue>: internals::AbstractRadixTree
             self.outer_combine_children_with(that.children(), f);
         } else {
             // disjoint
+            // compare before changing self, so that self stays ordered even if the comparison panics
+            let index = if that.prefix()[n] < self.prefix()[n] { 0 } else { 1 };
+            let that = that.materialize_shortened(n);
             self.split(n);
-            self.children_mut().push(that.materialize_shortened(n));
-            self.children_mut().sort_by_key(|x| x.prefix()[0]);
+            self.children_mut().insert(index, that);
         }
         self.unsplit();
     }
-- 
2.43.0


From b0eae31b09d34a6c85a0cea3c173e0197d8db84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 14/14] fix: keep VecSet and VecMap ordered if the predicate of
 retain panics

SmallVec::retain moves elements by swapping, so a panicking predicate left
the elements unordered.
---
 src/vec_map.rs | 6 +++++-
 src/vec_set.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 40168f5..7e60e53 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -641,7 +641,11 @@ impl<A: Array> VecMap<A> {
 
     /// retain all pairs matching a predicate
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        // smallvec swaps elements while retaining, so take the elements out of self to make sure that
+        // they can not be observed unordered if f panics
+        let mut entries = std::mem::take(&mut self.0);
+        entries.retain(|entry| f(entry));
+        self.0 = entries;
     }
 
     #[cfg(feature = "total")]
diff --git a/src/vec_set.rs b/src/vec_set.rs
index b1d6e26..fc16d50 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -331,7 +331,11 @@ where
 
     /// Retain all elements matching a predicate.
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        // smallvec swaps elements while retaining, so take the elements out of self to make sure that
+        // they can not be observed unordered if f panics
+        let mut entries = std::mem::take(&mut self.0);
+        entries.retain(|entry| f(entry));
+        self.0 = entries;
     }
 
     /// creates a set from a vec.
-- 
2.43.0

