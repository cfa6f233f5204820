From 767fb8419653dcd84d1416aafe7aec9754a9d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 1/7] fix: do not trust the claimed length when deserializing a
 list

Vec::with_capacity was called with the size hint of the deserializer, which
e.g. bincode takes from the input, so a few bytes of malformed input could
panic (capacity overflow) or abort the process (allocation failure).
---
 src/list/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1742738..430d885 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -511,11 +511,9 @@ pub mod serde {
         where
             A: SeqAccess<'de>,
         {
-            let mut vec: Vec<T> = if let Some(capacity) = seq.size_hint() {
-                Vec::with_capacity(capacity)
-            } else {
-                Vec::new()
-            };
+            // The size hint can come from untrusted input, so it must not decide on its own how much
+            // memory we allocate upfront.
+            let mut vec: Vec<T> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(1024));
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
-- 
2.43.0


From dde7d6899d60f1d9b94105db4b57701c6fad6403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 2/7] fix: do not allocate for the upper bound of the size hint
 in List::from_iter

The upper bound can be far above the number of elements, e.g. for
(0..usize::MAX).take_while(..), which panicked with a capacity overflow or
aborted on allocation failure.  This also affected Stack and Queue.
---
 src/list/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 430d885..fd7ee6c 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -383,8 +383,9 @@ where
 {
     fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> List<T, P> {
         let iter = into_iter.into_iter();
-        let (min_size, max_size_hint) = iter.size_hint();
-        let mut vec: Vec<T> = Vec::with_capacity(max_size_hint.unwrap_or(min_size));
+        // The upper bound of the size hint can be arbitrarily far above the number of elements.
+        let (min_size, _) = iter.size_hint();
+        let mut vec: Vec<T> = Vec::with_capacity(min_size);
 
         for e in iter {
             vec.push(e);
-- 
2.43.0


From e3a2e95249639e1030772aebd02d32ca5d9da70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 3/7] fix: reject numbers of bits for a vector that do not fit
 in an index

Vector::new_with_bits(64) and above were accepted but the first push failed
with a shift overflow (or, without overflow checks, lost elements).
---
 src/vector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5a0d73b..a265675 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -294,6 +294,7 @@ where
     #[must_use]
     pub fn new_with_bits(bits: u8) -> Vector<T, P> {
         assert!(bits > 0, "number of bits for the vector must be positive");
+        assert!(u32::from(bits) < usize::BITS, "number of bits for the vector is too big");
 
         Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
     }
-- 
2.43.0


From f5491b03532cea298a29382a54b9b9fb4c67e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 4/7] fix: reject a hash trie degree of one

It was accepted as a power of two, but a trie of that degree can never tell
two keys apart, so inserting a second key recursed without end.
---
 src/map/hash_trie_map/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 4ded787..e33269b 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -750,6 +750,7 @@ where
         degree: u8,
     ) -> HashTrieMap<K, V, P, H> {
         assert!(degree.is_power_of_two(), "degree must be a power of two");
+        assert!(degree > 1, "degree is too small");
         assert!(degree <= DEFAULT_DEGREE, "degree is too big");
 
         HashTrieMap {
-- 
2.43.0


From ecbabbb8262bf78cb11e7c6b130a891cb09e5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 5/7] fix: format the nodes of a list iteratively

The derived Debug recursed once per element, so formatting a long List, Stack
or Queue (or a hash trie with many collisions) with {:?} overflowed the stack.
---
 src/list/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index fd7ee6c..a6df1a7 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -2,7 +2,7 @@ use alloc::vec::Vec;
 use archery::*;
 use core::borrow::Borrow;
 use core::cmp::Ordering;
-use core::fmt::Display;
+use core::fmt::{Debug, Display};
 use core::hash::{Hash, Hasher};
 use core::iter::FromIterator;
 
@@ -114,7 +114,6 @@ where
     length: usize,
 }
 
-#[derive(Debug)]
 struct Node<T, P>
 where
     P: SharedPointerKind,
@@ -123,6 +122,19 @@ where
     next: Option<SharedPointer<Node<T, P>, P>>,
 }
 
+// Format the nodes iteratively to prevent stack overflow.
+impl<T: Debug, P> Debug for Node<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn fmt(&self, fmt: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        let nodes =
+            core::iter::successors(Some(self), |node| node.next.as_ref().map(AsRef::as_ref));
+
+        fmt.debug_list().entries(nodes.map(|node| &node.value)).finish()
+    }
+}
+
 impl<T, P> Clone for Node<T, P>
 where
     P: SharedPointerKind,
-- 
2.43.0


From 310b44333a58cfa545e4cd65c63f8aa50192ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 6/7] fix: drop the nodes of a list iteratively when another
 thread is dropping them too

---
 src/list/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index a6df1a7..59b0bb9 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -414,16 +414,19 @@ where
 }
 
 // Drop the list iteratively to prevent stack overflow.
-impl<T, P> Drop for List<T, P>
+// This is implemented for the node, and not just for the list, because when `try_unwrap()` fails
+// another thread might release its reference before we release ours, which makes us drop the node
+// without going through the list.
+impl<T, P> Drop for Node<T, P>
 where
     P: SharedPointerKind,
 {
     fn drop(&mut self) {
-        let mut head = self.head.take();
-        while let Some(node) = head {
+        let mut next = self.next.take();
+        while let Some(node) = next {
             match SharedPointer::try_unwrap(node) {
                 Ok(mut node) => {
-                    head = node.next.take();
+                    next = node.next.take();
                 }
                 _ => {
                     break;
-- 
2.43.0


From 61a03fc50111da10e839e5fc86f629c5eac5ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 7/7] fix: HashTrieMap: keep the other entries of a collision
 bucket when a comparison panics

bucket_utils::list_remove_first() took the entries off the list while it was looking for the
needle, so when the predicate, which calls user code, panicked the entries before the needle were
lost, while the size of the map still counted them.  Look for the needle first.
---
 src/map/hash_trie_map/mod.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index e33269b..1f5a87b 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -473,27 +473,21 @@ mod bucket_utils {
         list: &mut List<T, P>,
         predicate: F,
     ) -> Option<T> {
-        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
-        let remaining: &mut List<T, P> = list;
-        let mut removed = None;
+        // The predicate can panic, so we must find the needle before we start changing the list.
+        let needle_index = list.iter().position(predicate)?;
 
-        while !remaining.is_empty() {
-            let e: T = remaining.first().unwrap().clone();
+        let mut before_needle: Vec<T> = list.iter().take(needle_index).cloned().collect();
 
-            remaining.drop_first_mut();
-
-            if predicate(&e) {
-                removed = Some(e);
-                break;
-            }
-
-            before_needle.push(e);
+        for _ in 0..needle_index {
+            list.drop_first_mut();
         }
 
-        let new_entries = remaining;
+        let removed = list.first().cloned();
+
+        list.drop_first_mut();
 
         while let Some(e) = before_needle.pop() {
-            new_entries.push_front_mut(e);
+            list.push_front_mut(e);
         }
 
         removed
-- 
2.43.0

