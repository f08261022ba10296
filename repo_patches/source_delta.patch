From df0e0b1730f6f79a10dbc120f51af2c201242443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 01/29] fix: a missing value is not equal to an empty value

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..0bbf4c6 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -669,6 +669,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From c8b451fb8c53e4c9d34b75cd78fc9551f096a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 02/29] fix: do not keep an empty children vec in a leaf

A leaf that had been touched by an in-place operation kept an allocated but
empty vec, so is_leaf and equality depended on its history, and the vec was
leaked when the node was emptied.
---
 src/node/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 0bbf4c6..81341f6 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -911,10 +911,12 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+        if self.child_count() == 0 {
+            // empty children are always represented as id none
+            self.set_children_arc_opt(None);
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
         }
     }
 
-- 
2.43.0


From b1462ff52d1b73db55c488dd036d908951779731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 03/29] fix: scan_prefix duplicated part of the key when the
 prefix was exactly at a node

---
 src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 81341f6..ee26151 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1997,7 +1997,9 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                // the iterator will append the prefix of the tree itself
+                let n = tree.load_prefix(&store1)?.len();
+                let prefix = IterKey::new(&prefix[..prefix.len() - n]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From 37b7f1efc0d8513fa0f53307edca70dc83317b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 04/29] fix: retain_prefix_with ignored longer prefixes below a
 refused one

When a key of the right tree that was refused by the predicate was a proper
prefix of a node, everything below was dropped, even if covered by a longer
accepted key.
---
 src/node/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index ee26151..a4417f8 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2799,14 +2799,11 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From f27488e3524b0c36894941e4572de13ec4e55408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 05/29] fix: has_prefix and filter_prefix found the empty
 prefix in an empty tree

---
 src/node/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index a4417f8..56bd029 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -819,7 +819,8 @@ impl<S: BlobStore> TreeNode<S> {
         // if we find a tree at exactly the location, and it has a value, we have a hit
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-                FindResult::Found(_) => true,
+                // only the root can be empty
+                FindResult::Found(_) => !self.is_empty(),
                 FindResult::Prefix { .. } => true,
                 FindResult::NotFound => false,
             })
@@ -1498,7 +1499,10 @@ fn filter_prefix<S: BlobStore>(
         Ok(match x {
             FindResult::Found(res) => {
                 let mut res = res.to_owned();
-                res.set_prefix_slice(substitution);
+                // only the root can be empty
+                if !res.is_empty() {
+                    res.set_prefix_slice(substitution);
+                }
                 res
             }
             FindResult::Prefix { tree, matching } => {
-- 
2.43.0


From b2b145c97d8765ebd1dad549c12d1b97703c1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 06/29] fix: canonicalize nodes of attached trees

A modified node of an attached tree can have children that are not loaded, and
prefixes that are stored by id. Load the prefixes before merging a node with its
only child, and leave children that have not been loaded alone, instead of
asserting that neither can happen.
---
 src/node/mod.rs | 64 +++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 34 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 56bd029..9eec697 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -892,18 +892,18 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
+    /// Restore the invariants of a node after its value or children have been modified
+    ///
+    /// Children that have not been loaded have not been modified, so they are left alone.
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
+            // combine the prefix again. This is done first since it can fail.
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
+            prefix.extend_from_slice(children[0].load_prefix(store)?.as_ref());
             let children = Arc::make_mut(children);
             let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
-            // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -919,6 +919,7 @@ impl<S: BlobStore> TreeNode<S> {
                 self.set_prefix_owned(OwnedBlobRef::EMPTY);
             }
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2082,7 +2083,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2162,13 +2163,13 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        outer_combine_children_with(ac, ab, bc, bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is value of a
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        outer_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.split(&ab, n)?;
@@ -2176,8 +2177,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2288,7 +2288,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2430,27 +2430,26 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is none
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        inner_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of b
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2554,7 +2553,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2709,23 +2708,22 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        left_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of a
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2799,7 +2797,7 @@ where
             a.set_value_slice(None);
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2807,21 +2805,20 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        retain_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nuke it
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2899,7 +2896,7 @@ where
             // recurse
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2912,18 +2909,17 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        remove_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
-- 
2.43.0


From 7d1f5ec3568aef75b64707c262316a0a7a86d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 07/29] fix: combine operations on trees that are partly in a
 store

Detaching a value or a list of children that is in the store, and shortening a
node that has been read from the store were not implemented.
---
 src/node/mod.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 9eec697..f56935e 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,19 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
-        if !self.is_id() {
+        if !self.is_id() || self.is_none() {
             Ok(unsafe { std::mem::transmute(self.to_owned()) })
         } else {
-            todo!()
+            let data = store.read(self.slice())?;
+            Ok(Value {
+                hdr: Header::data(data.len()),
+                data: CompactOwnedBlob::copy_from_slice(&data),
+                p: PhantomData,
+            })
         }
     }
 
@@ -1428,7 +1433,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
@@ -1864,16 +1869,28 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
-        if self.is_empty() {
+    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
+        let mut res = Vec::new();
+        while let Some(x) = self.next() {
+            res.push(x.to_owned());
+        }
+        if res.is_empty() {
             None
         } else {
-            todo!()
+            Some(Arc::new(res))
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        let mut res = Vec::new();
+        while let Some(x) = self.next() {
+            res.push(x.detached(store)?);
+        }
+        Ok(if res.is_empty() {
+            None
+        } else {
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From d226c178e4a57f30ef333c036291ab672a2142ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 08/29] fix: loading or querying malformed nodes could panic

---
 src/node/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f56935e..18bf77b 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1306,7 +1306,8 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
     pub fn read_one(rest: &'a [u8]) -> Option<(Self, &'a [u8])> {
         let prefix_hdr = Header::from(*rest.first()?);
         let len = prefix_hdr.len() + 1;
-        if rest.len() < len {
+        // a prefix can not be none
+        if rest.len() < len || prefix_hdr.is_none() {
             return None;
         }
         let (prefix, rest) = (&rest[0], &rest[len..]);
@@ -1320,7 +1321,8 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
 
         let children_hdr = Header::from(*rest.first()?);
         let len = children_hdr.len() + 1;
-        if rest.len() < len {
+        // children are always stored as an id
+        if rest.len() < len || children_hdr.is_data() {
             return None;
         }
         let (children, rest) = (&rest[0], &rest[len..]);
@@ -1525,6 +1527,11 @@ fn filter_prefix<S: BlobStore>(
     })
 }
 
+/// error for a children id that does not refer to a list of children
+fn no_children() -> anyhow::Error {
+    anyhow::anyhow!("missing children")
+}
+
 /// get the first value
 fn first_value<S: BlobStore>(
     node: &TreeNodeRef<S>,
@@ -1533,7 +1540,7 @@ fn first_value<S: BlobStore>(
     Ok(match node.value_opt() {
         Some(value) => Some(value.to_owned()),
         None => match node.load_children(store)? {
-            Some(mut children) => first_value(&children.next().unwrap(), store)?,
+            Some(mut children) => first_value(&children.next().ok_or_else(no_children)?, store)?,
             None => None,
         },
     })
@@ -1545,7 +1552,7 @@ fn last_value<S: BlobStore>(
     store: &S,
 ) -> Result<Option<Value<S>>, S::Error> {
     Ok(match node.load_children(store)? {
-        Some(mut children) => last_value(&children.last().unwrap(), store)?,
+        Some(mut children) => last_value(&children.last().ok_or_else(no_children)?, store)?,
         None => node.value_opt().map(|x| x.to_owned()),
     })
 }
@@ -1560,7 +1567,7 @@ fn first_entry<S: BlobStore>(
     Ok(match node.value_opt() {
         Some(value) => Some((prefix, value.to_owned())),
         None => match node.load_children(store)? {
-            Some(mut children) => first_entry(prefix, &children.next().unwrap(), store)?,
+            Some(mut children) => first_entry(prefix, &children.next().ok_or_else(no_children)?, store)?,
             None => None,
         },
     })
@@ -1574,7 +1581,7 @@ fn last_entry<S: BlobStore>(
 ) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
     prefix.extend_from_slice(&node.load_prefix(store)?);
     Ok(match node.load_children(store)? {
-        Some(mut children) => last_entry(prefix, &children.last().unwrap(), store)?,
+        Some(mut children) => last_entry(prefix, &children.last().ok_or_else(no_children)?, store)?,
         None => node.value_opt().map(|x| (prefix, x.to_owned())),
     })
 }
-- 
2.43.0


From 48c73ce1d5f773a6b4a1608b907a76181e5cfcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 09/29] fix: keep the entries of a tree when an in-place
 operation fails half way

---
 src/node/mod.rs | 160 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 145 insertions(+), 15 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 18bf77b..d8f42ed 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2160,6 +2160,26 @@ fn outer_combine_with<A, B, C, F>(
     c: C,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    C: NodeConverter<B, A> + Clone,
+    A::Error: From<B::Error>,
+    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
+{
+    let res = outer_combine_nodes_with(a, ab.clone(), b, bb, c, f);
+    // also needed if the operation failed half way
+    res.and(a.canonicalize(&ab))
+}
+
+fn outer_combine_nodes_with<A, B, C, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    c: C,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2178,8 +2198,9 @@ where
         // prefixes are now identical
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                f(&mut av, &bv)?;
+                let res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
+                res?;
             } else {
                 let av = c.convert_value(&bv, &bb)?;
                 a.set_value_owned(av.as_value_ref().0);
@@ -2201,7 +2222,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize(&ab)
+    Ok(())
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2237,16 +2258,27 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    outer_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = outer_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
                     let b = bci.next().unwrap();
-                    let a = c.convert_node(&b, &bb)?;
-                    acb.push(a);
+                    match c.convert_node(&b, &bb) {
+                        Ok(a) => acb.push(a),
+                        Err(e) => {
+                            // keep the remaining children
+                            acb.consume(usize::MAX, true);
+                            return Err(e.into());
+                        }
+                    }
                 }
             }
         }
@@ -2436,6 +2468,26 @@ fn inner_combine_with<A, B, C, F>(
     c: C,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    C: NodeConverter<B, A> + Clone,
+    A::Error: From<B::Error>,
+    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
+{
+    let res = inner_combine_nodes_with(a, ab.clone(), b, bb, c, f);
+    // also needed if the operation failed half way
+    res.and(a.canonicalize(&ab))
+}
+
+fn inner_combine_nodes_with<A, B, C, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    c: C,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2449,8 +2501,9 @@ where
     if n == ap.len() && n == bp.len() {
         // prefixes are now identical
         if let (Some(mut av), Some(bv)) = (a.take_value_opt(), b.value_opt()) {
-            f(&mut av, &bv)?;
+            let res = f(&mut av, &bv);
             a.set_value_owned(av.as_value_ref().0);
+            res?;
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
@@ -2473,7 +2526,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize(&ab)
+    Ok(())
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2506,10 +2559,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2712,6 +2770,26 @@ fn left_combine_with<A, B, C, F>(
     c: C,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    C: NodeConverter<B, A> + Clone,
+    A::Error: From<B::Error>,
+    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
+{
+    let res = left_combine_nodes_with(a, ab.clone(), b, bb, c, f);
+    // also needed if the operation failed half way
+    res.and(a.canonicalize(&ab))
+}
+
+fn left_combine_nodes_with<A, B, C, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    c: C,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2726,8 +2804,9 @@ where
         // prefixes are now identical
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                f(&mut av, &bv)?;
+                let res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
+                res?;
             }
         }
         let ac = a.load_children_mut(&ab)?;
@@ -2747,7 +2826,7 @@ where
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize(&ab)
+    Ok(())
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2780,10 +2859,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2806,6 +2890,24 @@ fn retain_prefix_with<A, B, F>(
     bb: B,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
+    A::Error: From<B::Error>,
+{
+    let res = retain_prefix_nodes_with(a, ab.clone(), b, bb, f);
+    // also needed if the operation failed half way
+    res.and(a.canonicalize(&ab))
+}
+
+fn retain_prefix_nodes_with<A, B, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2842,7 +2944,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize(&ab)
+    Ok(())
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2873,10 +2975,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f)?;
+                    let res = retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2901,6 +3008,24 @@ fn remove_prefix_with<A, B, F>(
     bb: B,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
+    A::Error: From<B::Error>,
+{
+    let res = remove_prefix_nodes_with(a, ab.clone(), b, bb, f);
+    // also needed if the operation failed half way
+    res.and(a.canonicalize(&ab))
+}
+
+fn remove_prefix_nodes_with<A, B, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2943,7 +3068,7 @@ where
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize(&ab)
+    Ok(())
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
@@ -2974,10 +3099,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f)?;
+                    let res = remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
-- 
2.43.0


From 10b28c0cee99a683343d5993b3d98a03bc45d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 10/29] fix: reading an invalid id from a paged file store
 could panic

---
 src/store/paged_file_store.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..1e2680e 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -198,6 +198,11 @@ impl Inner {
     }
 
     fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
+        // ids are file offsets after the header
+        anyhow::ensure!(
+            offset >= 4 && offset <= i64::MAX as u64 - HEADER_SIZE,
+            "invalid id"
+        );
         let last_page = page(self.last_id, self.page_size);
         let page = page(offset - 1, self.page_size);
         let page_offset = offset_within_page(offset, self.page_size);
@@ -274,6 +279,7 @@ impl BlobStore for PagedFileStore {
     type Error = anyhow::Error;
 
     fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(id.len() == 8, "invalid id");
         let offset = u64::from_be_bytes(id.try_into().unwrap());
         self.0.lock().bytes(offset)
     }
-- 
2.43.0


From f48d0f1f5d67fd0f9bb6caccf908235699aa067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 11/29] fix: sync of the paged file store did not flush the
 file

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 1e2680e..1087242 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -290,7 +290,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
-        Ok(())
+        Ok(self.0.lock().file.sync_all()?)
     }
 }
 
-- 
2.43.0


From e9359066f1040fc60fccedd405de69cc7af445c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 12/29] fix: a paged file could be reopened with a last id that
 is not a blob

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 1087242..830273e 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -175,8 +175,8 @@ impl Inner {
     fn close_page(&mut self, current_page: u64) -> anyhow::Result<()> {
         // println!("close_page page={} offset={}", current_page, self.file.stream_position()?);
         let start = offset_of_page(current_page, self.page_size);
+        // the padding becomes valid with the next blob
         self.pad_to(start + (self.page_size as u64))?;
-        self.commit()?;
         self.load_page(current_page)?;
         self.recent
             .retain(|offset, _| page(*offset, self.page_size) != current_page);
-- 
2.43.0


From 85866ecabc1c191125b21ab0d9404c345d2ec0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 13/29] fix: slicing a blob with the largest excluded start
 gave the whole blob without overflow checks

---
 src/store/blob_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index d6f6092..fcd2feb 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -129,7 +129,7 @@ impl<'a> Blob<'a> {
 
         let begin = match range.start_bound() {
             Bound::Included(&n) => n,
-            Bound::Excluded(&n) => n + 1,
+            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
             Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From ee73222ac942beef36514ea6e4b9dcdf708388d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:16 +0000
Subject: [PATCH 14/29] fix: a tree was not in its normal form after a
 combining function had failed

---
 src/node/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index d8f42ed..6821e2f 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2196,6 +2196,8 @@ where
             a.split(&ab, n)?;
         }
         // prefixes are now identical
+        // load the children first, to be able to canonicalize if f fails
+        a.load_children_mut(&ab)?;
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
                 let res = f(&mut av, &bv);
@@ -2500,6 +2502,8 @@ where
     let n = common_prefix(ap.as_ref(), bp.as_ref());
     if n == ap.len() && n == bp.len() {
         // prefixes are now identical
+        // load the children first, to be able to canonicalize if f fails
+        a.load_children_mut(&ab)?;
         if let (Some(mut av), Some(bv)) = (a.take_value_opt(), b.value_opt()) {
             let res = f(&mut av, &bv);
             a.set_value_owned(av.as_value_ref().0);
@@ -2802,6 +2806,8 @@ where
     let n = common_prefix(ap.as_ref(), bp.as_ref());
     if n == ap.len() && n == bp.len() {
         // prefixes are now identical
+        // load the children first, to be able to canonicalize if f fails
+        a.load_children_mut(&ab)?;
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
                 let res = f(&mut av, &bv);
-- 
2.43.0


From a0d1a44efb9bf140e95fc17210b57d9b4dab19e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:22 +0000
Subject: [PATCH 15/29] fix: the browser crate did not compile, OwnedBlob was
 not public

---
 src/store/blob_store.rs | 2 +-
 src/store/mod.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index fcd2feb..b9825cc 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -65,7 +65,7 @@ impl<'a> Borrow<[u8]> for Blob<'a> {
 /// A blob that is self-contained and therefore has a static lifetime
 ///
 /// An owned blob can be created either from a slice with an owner, or an actually static slice.
-pub(crate) type OwnedBlob = Blob<'static>;
+pub type OwnedBlob = Blob<'static>;
 
 impl<'a> Hash for Blob<'a> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
diff --git a/src/store/mod.rs b/src/store/mod.rs
index c8aeacc..679ce3f 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -12,7 +12,7 @@ mod paged_file_store;
 pub use blob_store::DynBlobStore;
 #[cfg(feature = "custom-store")]
 pub use blob_store::UnwrapSafeExt;
-pub use blob_store::{Blob, BlobStore, Detached, NoError};
+pub use blob_store::{Blob, BlobStore, Detached, NoError, OwnedBlob};
 
 #[cfg(feature = "mem-store")]
 pub use mem_store::MemStore;
-- 
2.43.0


From e60a05a4ee2d0af521b72b016963a70af79415dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 16/29] fix: browser files whose names need encoding in a url
 were lost when reopened

---
 browser/src/web_cache_fs.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index a7997a2..c9b9796 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -284,7 +284,7 @@ impl WebCacheDir {
     pub(crate) async fn delete(&self, file_name: &str) -> anyhow::Result<bool> {
         let res: JsValue = js_async(
             self.cache.delete_with_str_and_options(
-                &format!("/{}", file_name),
+                &request_path(file_name),
                 CacheQueryOptions::new()
                     .ignore_method(true)
                     .ignore_search(true),
@@ -555,6 +555,15 @@ async fn chunks(cache: &web_sys::Cache, name: &str) -> anyhow::Result<BTreeSet<C
     Ok(chunks)
 }
 
+/// the path of all requests for a file, with the file name encoded so that it survives being in a url
+fn request_path(file_name: &str) -> String {
+    let mut url = Url::parse("http://localhost").unwrap();
+    url.path_segments_mut()
+        .unwrap()
+        .extend(file_name.split('/'));
+    url.path().to_owned()
+}
+
 /// sort chunks, retain relevant, and return the ones to be deletes as a vec
 fn retain_relevant(chunks: &mut Vec<ChunkMeta>) -> Vec<ChunkMeta> {
     chunks.sort();
@@ -620,9 +629,8 @@ impl ChunkMeta {
         // info!("parse_and_filter {}", request);
         let url = Url::parse(request)?;
         if let Some(query) = url.query() {
-            let name = url.path().strip_prefix('/').unwrap();
-            // info!("parse_and_filter name {} file_name {}  query {}", name, file_name, query);
-            if name != file_name {
+            // info!("parse_and_filter path {} file_name {}  query {}", url.path(), file_name, query);
+            if url.path() != request_path(file_name) {
                 // not ours
                 Ok(None)
             } else {
@@ -637,8 +645,11 @@ impl ChunkMeta {
 
     fn to_request_str(&self, file_name: &str) -> String {
         format!(
-            "/{}?{:04x}-{:08x}-{:04x}",
-            file_name, self.level, self.offset, self.len
+            "{}?{:04x}-{:08x}-{:04x}",
+            request_path(file_name),
+            self.level,
+            self.offset,
+            self.len
         )
     }
 }
-- 
2.43.0


From 520add44f6375c584b17b19c3000aa95243f7bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 17/29] fix: a deleted browser directory stayed open, what was
 written to it later was lost

---
 browser/src/web_cache_fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index c9b9796..42aa1fb 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -113,6 +113,8 @@ impl WebCacheFs {
     async fn delete_dir(&mut self, dir_name: SharedStr) -> anyhow::Result<bool> {
         let caches = worker_scope().caches().map_err(JsError::from)?;
         let res: JsValue = js_async(caches.delete(&dir_name)).await?;
+        // what we have of it would go on in the deleted cache
+        self.dirs.remove(&dir_name);
         Ok(res.as_bool().context("no bool")?)
     }
 
-- 
2.43.0


From e0c045fae3b68d8f6c00fa45025477e1b16a7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:19 +0000
Subject: [PATCH 18/29] fix: reading a blob where there is none, or one that
 was partly overwritten, in a browser file

---
 browser/src/web_cache_fs.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 42aa1fb..175c2c2 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -9,6 +9,7 @@ use std::{
     convert::{TryFrom, TryInto},
     ops::{Bound, Range},
     str::FromStr,
+    sync::Arc,
 };
 use url::Url;
 use wasm_bindgen::JsValue;
@@ -367,12 +368,19 @@ impl WebCacheFile {
     pub(crate) async fn load_length_prefixed(&self, start: u64) -> anyhow::Result<OwnedBlob> {
         // info!("load_length_prefixed index={}", start);
         // let t0 = js_sys::Date::now();
-        let chunks = intersecting_chunks(&self.chunks, start..start + 4).collect::<Vec<_>>();
+        let header_end = start.checked_add(4).context("offset too large")?;
+        let chunks = intersecting_chunks(&self.chunks, start..header_end).collect::<Vec<_>>();
         let end = chunks.iter().map(|x| x.range().end).max().unwrap_or(start);
         let res = self.load_chunks(start..end, chunks).await?;
+        anyhow::ensure!(res.len() >= 4, "no blob at this offset");
         let len = usize::try_from(u32::from_be_bytes(res[0..4].try_into().unwrap()))?;
-        anyhow::ensure!(res.len() >= len + 4);
-        let res = Blob::copy_from_slice(&res[4..len + 4]);
+        let res = if res.len() >= len + 4 {
+            Blob::copy_from_slice(&res[4..len + 4])
+        } else {
+            // the data is not in the same chunk as the header
+            let end = header_end + u64::try_from(len)?;
+            Blob::from(Arc::new(self.read(header_end..end).await?))
+        };
         // info!("load_length_prefixed {}", js_sys::Date::now() - t0);
         Ok(res)
     }
-- 
2.43.0


From d0f3332b4296b70128191aa38cf61023dfff5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:53 +0000
Subject: [PATCH 19/29] fix: the length of a browser file was wrong after
 overwriting a part of it

---
 browser/src/web_cache_fs.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 175c2c2..1f425ad 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -325,14 +325,22 @@ impl WebCacheFile {
         self.chunks.iter().last().cloned().unwrap_or_default()
     }
 
+    /// end of the file. The last chunk is the one with the highest level, not the one at the end.
+    fn end(&self) -> u64 {
+        self.chunks
+            .iter()
+            .map(|x| x.range().end)
+            .max()
+            .unwrap_or_default()
+    }
+
     pub(crate) async fn flush(&mut self) -> anyhow::Result<()> {
         // simple fs flushes after each op
         Ok(())
     }
 
     pub(crate) async fn append(&mut self, data: &mut Vec<u8>) -> anyhow::Result<u64> {
-        let prev = self.prev();
-        let offset = prev.range().end;
+        let offset = self.end();
         let plan = add(&self.chunks, offset, data.clone());
         execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
         Ok(offset)
@@ -389,7 +397,7 @@ impl WebCacheFile {
         let len_u64 = range.end.saturating_sub(range.start);
         let len: usize = len_u64.try_into()?;
         anyhow::ensure!(
-            range.end <= self.prev().range().end,
+            range.end <= self.end(),
             "tried to read beyond the end of the file"
         );
         let mut res = vec![0u8; len];
@@ -408,7 +416,7 @@ impl WebCacheFile {
     }
 
     pub(crate) async fn length(&mut self) -> anyhow::Result<u64> {
-        Ok(self.prev().range().end)
+        Ok(self.end())
     }
 
     pub(crate) async fn truncate(&mut self, offset: u64) -> anyhow::Result<()> {
-- 
2.43.0


From e85cfcffa144dd0fcd3b09e994ded2832a003f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:53 +0000
Subject: [PATCH 20/29] fix: writing past the end of a browser file left a gap

---
 browser/src/web_cache_fs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 1f425ad..61bc79f 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -410,6 +410,14 @@ impl WebCacheFile {
     }
 
     pub(crate) async fn write(&mut self, offset: u64, mut data: Vec<u8>) -> anyhow::Result<()> {
+        if data.is_empty() {
+            return Ok(());
+        }
+        // a file has no gaps, what comes after one is what a crashed truncate left behind
+        let end = self.end();
+        let gap = usize::try_from(offset.saturating_sub(end))?;
+        data.splice(0..0, std::iter::repeat(0u8).take(gap));
+        let offset = offset.min(end);
         let plan = add(&self.chunks, offset, data);
         execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
         Ok(())
-- 
2.43.0


From 264314a26bc5fcffc418ba2bd9c1f4a91d068a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:33 +0000
Subject: [PATCH 21/29] fix: what an interrupted truncate of a browser file
 left behind came back

---
 browser/src/web_cache_fs.rs | 47 ++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 61bc79f..4259f22 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -306,19 +306,40 @@ pub struct WebCacheFile {
     file_name: SharedStr,
     /// all the chunks that we have, sorted
     chunks: BTreeSet<ChunkMeta>,
+    /// true if an operation was interrupted, so the chunks have to be cleaned up before they are used
+    dirty: bool,
 }
 
 impl WebCacheFile {
     pub(crate) async fn new(cache: web_sys::Cache, file_name: SharedStr) -> anyhow::Result<Self> {
         let chunks = chunks(&cache, &file_name).await?;
         info!("opened file {:?} {} {:?}", cache, file_name, chunks);
-        // let to_delete = retain_relevant(&mut chunks);
-        // delete(&cache, &file_name, &to_delete).await?;
-        Ok(Self {
+        let mut res = Self {
             cache,
             file_name,
             chunks,
-        })
+            dirty: true,
+        };
+        res.recover().await?;
+        Ok(res)
+    }
+
+    /// remove what an operation that was interrupted left behind
+    async fn recover(&mut self) -> anyhow::Result<()> {
+        if self.dirty {
+            let plan = open(&self.chunks);
+            execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
+            self.dirty = false;
+        }
+        Ok(())
+    }
+
+    /// execute a plan for an operation on this file
+    async fn execute(&mut self, plan: Vec<Op>) -> anyhow::Result<()> {
+        self.dirty = true;
+        execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
+        self.dirty = false;
+        Ok(())
     }
 
     fn prev(&self) -> ChunkMeta {
@@ -340,9 +361,10 @@ impl WebCacheFile {
     }
 
     pub(crate) async fn append(&mut self, data: &mut Vec<u8>) -> anyhow::Result<u64> {
+        self.recover().await?;
         let offset = self.end();
         let plan = add(&self.chunks, offset, data.clone());
-        execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
+        self.execute(plan).await?;
         Ok(offset)
     }
 
@@ -373,7 +395,8 @@ impl WebCacheFile {
         Ok(res)
     }
 
-    pub(crate) async fn load_length_prefixed(&self, start: u64) -> anyhow::Result<OwnedBlob> {
+    pub(crate) async fn load_length_prefixed(&mut self, start: u64) -> anyhow::Result<OwnedBlob> {
+        self.recover().await?;
         // info!("load_length_prefixed index={}", start);
         // let t0 = js_sys::Date::now();
         let header_end = start.checked_add(4).context("offset too large")?;
@@ -393,7 +416,8 @@ impl WebCacheFile {
         Ok(res)
     }
 
-    pub(crate) async fn read(&self, range: Range<u64>) -> anyhow::Result<Vec<u8>> {
+    pub(crate) async fn read(&mut self, range: Range<u64>) -> anyhow::Result<Vec<u8>> {
+        self.recover().await?;
         let len_u64 = range.end.saturating_sub(range.start);
         let len: usize = len_u64.try_into()?;
         anyhow::ensure!(
@@ -413,24 +437,25 @@ impl WebCacheFile {
         if data.is_empty() {
             return Ok(());
         }
+        self.recover().await?;
         // a file has no gaps, what comes after one is what a crashed truncate left behind
         let end = self.end();
         let gap = usize::try_from(offset.saturating_sub(end))?;
         data.splice(0..0, std::iter::repeat(0u8).take(gap));
         let offset = offset.min(end);
         let plan = add(&self.chunks, offset, data);
-        execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
-        Ok(())
+        self.execute(plan).await
     }
 
     pub(crate) async fn length(&mut self) -> anyhow::Result<u64> {
+        self.recover().await?;
         Ok(self.end())
     }
 
     pub(crate) async fn truncate(&mut self, offset: u64) -> anyhow::Result<()> {
+        self.recover().await?;
         let plan = truncate(&self.chunks, offset);
-        execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
-        Ok(())
+        self.execute(plan).await
     }
 
     async fn load(&self, chunk: &ChunkMeta) -> anyhow::Result<Vec<u8>> {
-- 
2.43.0


From 178595c49e9c372ffe19e5dcbf0ad08b3c820c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:09 +0000
Subject: [PATCH 22/29] fix: an interrupted truncate of a browser file could
 leave a part of what it was to remove

---
 browser/src/web_cache_fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 4259f22..38ef7f2 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -789,7 +789,7 @@ fn add(ranges: &BTreeSet<ChunkMeta>, offset: u64, data: Vec<u8>) -> Vec<Op> {
 // produces a sequence of ops to truncate a file
 fn truncate(ranges: &BTreeSet<ChunkMeta>, offset: u64) -> Vec<Op> {
     // all existing chunks that are relevant for the range offset..
-    let relevant = ranges
+    let mut relevant = ranges
         .iter()
         .filter(|x| x.range().end > offset)
         .cloned()
@@ -808,7 +808,8 @@ fn truncate(ranges: &BTreeSet<ChunkMeta>, offset: u64) -> Vec<Op> {
             res.push(Op::Rewrite(ChunkMeta::new(start..offset, level)));
         }
     }
-    // delete all relevant chunks
+    // delete all relevant chunks, from the start, so that the rest is behind a gap at once
+    relevant.sort_by_key(|x| x.offset);
     res.extend(relevant.into_iter().map(Op::Delete));
     res
 }
-- 
2.43.0


From cfa520bca72fa1597d935fb53765397ccb3fb078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:20 +0000
Subject: [PATCH 23/29] fix: a blob that fills a page of a browser paging file
 panicked or was lost

---
 browser/src/paging_file.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index 176241e..a98b540 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -1,3 +1,4 @@
+use anyhow::Context;
 use log::{debug, info, trace};
 use num_traits::Num;
 use parking_lot::Mutex;
@@ -73,28 +74,34 @@ impl PagingFileInner {
         Ok(())
     }
 
-    fn remaining(&self) -> u64 {
-        page_range(self.length, self.page_size).end - self.length
+    /// the aligned offset for an item of the given length if it is appended at start, None if it
+    /// would fill up the page or more
+    fn place(&self, start: u64, len: u64) -> Option<u64> {
+        // make sure base is aligned
+        let offset = align(start + 4, ALIGNMENT).end - 4;
+        let page_end = page_range(start, self.page_size).end;
+        (offset + len < page_end).then(|| offset)
     }
 
     fn append(&mut self, data: &[u8]) -> anyhow::Result<u64> {
         let len = u64::try_from(data.len())?;
-        anyhow::ensure!(len <= self.page_size, "item too large");
-        if len + 8 > self.remaining() {
-            self.close_page()?;
-        }
-        // make sure base is aligned
-        if !is_aligned(self.length + 4, ALIGNMENT) {
-            let missing = align(self.length + 4, ALIGNMENT).end - self.length - 4;
-            self.length += missing;
-        }
+        let res = match self.place(self.length, len) {
+            Some(offset) => offset,
+            None => {
+                let next_page = page_range(self.length, self.page_size).end;
+                let offset = self
+                    .place(next_page, len)
+                    .context("item too large")?;
+                self.close_page()?;
+                offset
+            }
+        };
         let last_page = Arc::make_mut(&mut self.last_page);
         // offset within the page
-        let offset = offset_within_page(self.length, self.page_size);
+        let offset = offset_within_page(res, self.page_size);
         // copy into the page
         last_page[offset..offset + data.len()].copy_from_slice(data);
-        let res = self.length;
-        self.length += len;
+        self.length = res + len;
         Ok(res)
     }
 
-- 
2.43.0


From b094f3eaade69c607eb028262f78e7a80ea17337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:43 +0000
Subject: [PATCH 24/29] fix: reading a blob with an id near the largest number
 panicked in a browser paging file

---
 browser/src/paging_file.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index a98b540..7aeb0af 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -116,6 +116,7 @@ impl PagingFileInner {
 
     pub(crate) fn load_length_prefixed(&mut self, start: u64) -> anyhow::Result<OwnedBlob> {
         trace!("load_length_prefixed {}", start);
+        anyhow::ensure!(start < self.length, "no blob at this offset");
         let last_page = page_num(self.length, self.page_size);
         let page_num = page_num(start, self.page_size);
         // offset of start within its page
-- 
2.43.0


From 62256100974bc3748032003343f8ec22a2da86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:50 +0000
Subject: [PATCH 25/29] fix: a paged file store with a page size of 0 panicked
 instead of being refused

---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 830273e..33d9be7 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -120,6 +120,7 @@ fn write_size(file: &mut File, size: u64) -> anyhow::Result<()> {
 
 impl Inner {
     pub fn new(mut file: File, page_size: u64) -> anyhow::Result<Self> {
+        anyhow::ensure!(page_size > 0, "a page size of 0");
         anyhow::ensure!((page_size as usize) % ALIGN == 0);
         let end = file.seek(std::io::SeekFrom::End(0))?;
         if end == 0 {
-- 
2.43.0


From af7107c947c5ff7e4895171a72675310d9b18db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 26/29] fix: opening a paged file whose recorded size is near
 the largest number panicked

---
 src/store/paged_file_store.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 33d9be7..53890b9 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -132,6 +132,10 @@ impl Inner {
             anyhow::bail!("Incomplete header!");
         }
         let size = read_size(&mut file)?;
+        anyhow::ensure!(
+            size <= (i64::MAX as u64) - HEADER_SIZE,
+            "the recorded size is larger than any file"
+        );
         file.set_len(size + HEADER_SIZE)?;
         file.seek(std::io::SeekFrom::End(0))?;
         Ok(Self {
-- 
2.43.0


From 0de0f8097f951bdf58884ee567f49bc4d2ea778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:58 +0000
Subject: [PATCH 27/29] fix: a blob of 4 GiB or more was cut by its 4 byte
 length in a paged file store

---
 src/store/paged_file_store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 53890b9..554d4c5 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -238,6 +238,11 @@ impl Inner {
             data.len() <= (self.page_size as usize) - 8,
             "block too large for this store"
         );
+        // the length prefix has 4 bytes
+        anyhow::ensure!(
+            u32::try_from(data.len()).is_ok(),
+            "block too large for a length prefix"
+        );
         // len of the data when stored, including length prefix
         let len = data.len() as u64 + 4;
         let position = self.file.seek(SeekFrom::End(0))?;
-- 
2.43.0


From 8b6f9dd61574dfeb47127f41525d781d8f76cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:17 +0000
Subject: [PATCH 28/29] fix: a browser paging file with a page size of 0
 panicked instead of being refused

---
 browser/src/paging_file.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index 7aeb0af..86ca199 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -28,6 +28,7 @@ struct PagingFileInner {
 
 impl PagingFileInner {
     pub fn new(inner: SyncFile, page_size: u64) -> anyhow::Result<Self> {
+        anyhow::ensure!(page_size > 0, "a page size of 0");
         let length = inner.length()?;
         let last_page_range = page_range(length, page_size);
         let mut last_page = inner.read(last_page_range.start..length)?;
-- 
2.43.0


From 86eb3b2e115aef7bb085b3937b0310a4ff944a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:27 +0000
Subject: [PATCH 29/29] fix: a paged file store with more pages than a process
 can map failed, and ended the process

---
 src/store/paged_file_store.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 554d4c5..1e1b73b 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -37,6 +37,8 @@ struct Inner {
 
 const ALIGN: usize = 8;
 const HEADER_SIZE: u64 = 4096;
+/// Pages to keep mapped, well below the number of mappings a process can have
+const MAX_PAGES: usize = 8192;
 
 struct PageInner {
     page_size: usize,
@@ -155,6 +157,10 @@ impl Inner {
                 .len(self.page_size as usize)
                 .map(&self.file)?
         };
+        if self.pages.len() >= MAX_PAGES {
+            // pages of blobs that are in use stay mapped
+            self.pages.clear();
+        }
         self.pages
             .insert(page, Page::new(mmap, self.page_size as usize));
         Ok(())
-- 
2.43.0

