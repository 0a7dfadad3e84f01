From 9678538ed7e9b114c2a59cfd470627cb510df5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 1/5] fix: start prefix witnesses at the first key with the
 prefix

lower_bound returned the first matching node on the search path, so for
key types where several keys borrow to the same prefix (Prefix's default
is_prefix) keys_with_prefix skipped the matching keys on its left.
---
 src/rbtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..3fa01d9 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -765,7 +765,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let node_key = &(*n).key;
             match node_key.borrow().cmp(key) {
                 Less => go((*n).right, key).or(Some(KeyBound::Neighbor(node_key))),
-                Equal => Some(KeyBound::Exact(node_key)),
+                // Several keys can borrow to the same prefix, start from the first one.
+                Equal => match go((*n).left, key) {
+                    Some(KeyBound::Exact(first)) => Some(KeyBound::Exact(first)),
+                    _ => Some(KeyBound::Exact(node_key)),
+                },
                 Greater => go((*n).left, key),
             }
         }
-- 
2.43.0


From 972e5fb56a4712cd9d59019b8c6ef29fb8a33500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 2/5] fix: Paged::get must not truncate the page number

get(key, 1 << 32) returned page 0 instead of None.
---
 src/collections/paged.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..09e39e9 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
-- 
2.43.0


From c45fddd6295907f15abc31f07ee50a0a695a4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 3/5] fix: Entry::and_modify must update the root hash

It changed the value in place and left the cached hashes stale.
---
 src/rbtree/entry.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..9d2560f 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -104,8 +104,9 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> Entry<'a, K, V> {
         F: FnOnce(&mut V),
     {
         match self {
-            Occupied(mut entry) => {
-                f(entry.get_mut());
+            Occupied(entry) => {
+                // Go through `modify` so the hashes on the path to the entry are updated.
+                entry.map.modify(&entry.key, f);
                 Occupied(entry)
             }
             Vacant(entry) => Vacant(entry),
-- 
2.43.0


From 2bfe0d78135b4982c0d10b6aea09e23c397af716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 4/5] fix: bound the reference given to modify closures by the
 borrow of the map

The lifetime of the &mut V handed to the closure was unconstrained, so safe
code could return it as &'static mut V and use it after the map was dropped.
---
 src/rbtree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 3fa01d9..e3584f0 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -345,7 +345,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Updates the value corresponding to the specified key.
     #[inline]
-    pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
+    pub fn modify<'a, Q: ?Sized, T>(
+        &'a mut self,
+        key: &Q,
+        f: impl FnOnce(&'a mut V) -> T,
+    ) -> Option<T>
     where
         K: Borrow<Q>,
         Q: Ord,
@@ -386,7 +390,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Modify the maximum node with the given prefix.
     pub fn modify_max_with_prefix<'a, P: ?Sized, T>(
-        &mut self,
+        &'a mut self,
         prefix: &P,
         f: impl FnOnce(&'a K, &'a mut V) -> T,
     ) -> Option<T>
-- 
2.43.0


From f3a438a2558b290013dcca955b8e60ea641e9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 5/5] fix: Paged::witness must not truncate the page number

---
 src/collections/paged.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index 09e39e9..5477386 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -105,7 +105,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0

