From 6c8697492bfd52cb263db788c5492cae55fe25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 1/8] fix: sparse delete of an absent key must not change the
 tree

delete() took the presence of an entry under the key in storage as proof
that the key is in the tree. That entry outlives the key, so deleting a
key twice removed whichever other leaf the path ended at, and a key equal
to the hash of a stored node made it panic. Look the leaf up in the tree.
---
 src/sparse/merkle_tree.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..f587408 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -106,14 +106,20 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
-            self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
+        // The key is present only if the path leads to a leaf holding this very
+        // key. The path of an absent key ends at a placeholder or at the leaf of
+        // another key, and there is nothing to delete.
+        let (path_nodes, side_nodes) = self.path_set(Node::create_leaf(key, &[]))?;
+        match path_nodes.first() {
+            Some(node) if node.is_leaf() && !node.is_placeholder() && node.leaf_key() == key => {
+                let leaf_node = node.clone();
+                self.delete_with_path_set(
+                    &leaf_node,
+                    path_nodes.as_slice(),
+                    side_nodes.as_slice(),
+                )?;
+            }
+            _ => (),
         }
 
         Ok(())
-- 
2.43.0


From 6aa6a1587cc3dfeae9812bb2dd7a5a93374a790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 2/8] fix: sparse update must not store the leaf under its raw
 key

update() stored the leaf twice: under its hash and under the caller's key.
A key equal to the hash of a stored node overwrote that node, and later
calls walked into the wrong leaf. Nothing reads the second entry.
---
 src/sparse/merkle_tree.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index f587408..6782a56 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -86,8 +86,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
-- 
2.43.0


From 29adb8664f66a27d1ba7863142b047852a476cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 3/8] fix: sparse load must accept the root of the empty tree

A tree that has never held a key, or whose last key was deleted, reports
the zero root, which load() rejected with a LoadError.
---
 src/sparse/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 6782a56..1a7bd49 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        if root == zero_sum() {
+            // The zero root is the root of the empty tree, which stores no
+            // nodes.
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From 4140020e529185af8379bdd30adb121a1a13677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 4/8] fix: sparse delete must not remove nodes before storing
 their replacements

delete() removed the nodes on the path first. A storage error, or a crash,
before the last insert left neither the old tree nor the new one complete:
the tree kept its old root but could no longer be read.
---
 src/sparse/merkle_tree.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 1a7bd49..b556b8d 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -240,10 +240,6 @@ where
         path_nodes: &[Node],
         side_nodes: &[Node],
     ) -> Result<(), StorageError> {
-        for node in path_nodes {
-            self.storage.remove(&node.hash())?;
-        }
-
         let path = requested_leaf_node.leaf_key();
         let mut side_nodes_iter = side_nodes.iter();
 
@@ -296,6 +292,13 @@ where
 
         self.set_root_node(current_node);
 
+        // The previous path is stale now. Remove it only after all nodes of the
+        // new tree are stored and the new root is set: if a storage operation
+        // fails, the tree is still complete, either with or without the leaf.
+        for node in path_nodes {
+            self.storage.remove(&node.hash())?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From eaf9360d51c4ac69bd1db26941de520b598c9361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 5/8] fix: binary push must keep its subtrees when a storage
 operation fails

---
 src/binary/merkle_tree.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..3980de9 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -295,10 +295,12 @@ where
     pub fn push(&mut self, data: &[u8]) -> Result<(), MerkleTreeError<StorageError>> {
         let node = Node::create_leaf(self.leaves_count, data);
         self.storage.insert(&node.key(), &node.as_ref().into())?;
-        let next = self.head.take();
+        // Join the subtrees on a copy of the list. If a storage operation fails,
+        // the tree must remain as it was before the push.
+        let next = self.head.clone();
         let head = Box::new(Subtree::<Node>::new(node, next));
+        let head = self.join_all_subtrees(head)?;
         self.head = Some(head);
-        self.join_all_subtrees()?;
 
         self.leaves_count += 1;
 
@@ -309,9 +311,11 @@ where
     // PRIVATE
     //
 
-    fn join_all_subtrees(&mut self) -> Result<(), StorageError> {
+    fn join_all_subtrees(
+        &mut self,
+        mut current: Box<Subtree<Node>>,
+    ) -> Result<Box<Subtree<Node>>, StorageError> {
         loop {
-            let current = self.head.as_ref().unwrap();
             if !(current.next().is_some()
                 && current.node().position().height()
                     == current.next_node().unwrap().position().height())
@@ -321,7 +325,7 @@ where
 
             // Merge the two front heads of the list into a single head
             let joined_head = {
-                let mut head = self.head.take().unwrap();
+                let mut head = current;
                 let mut head_next = head.take_next().unwrap();
                 let joined_head = join_subtrees(&mut head_next, &mut head);
                 self.storage.insert(
@@ -330,10 +334,10 @@ where
                 )?;
                 joined_head
             };
-            self.head = Some(Box::new(joined_head));
+            current = Box::new(joined_head);
         }
 
-        Ok(())
+        Ok(current)
     }
 }
 
-- 
2.43.0


From dc94ddfe98d162c3ed577d1c75a513786ead88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 6/8] fix: sum push must keep its subtrees when a storage
 operation fails

---
 src/sum/merkle_tree.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sum/merkle_tree.rs b/src/sum/merkle_tree.rs
index a3cc9d4..3f4f8b8 100644
--- a/src/sum/merkle_tree.rs
+++ b/src/sum/merkle_tree.rs
@@ -72,10 +72,12 @@ where
         let node = Node::create_leaf(fee, data);
         self.storage.insert(node.hash(), &node)?;
 
-        let next = self.head.take();
+        // Join the subtrees on a copy of the list. If a storage operation fails,
+        // the tree must remain as it was before the push.
+        let next = self.head.clone();
         let head = Box::new(Subtree::<Node>::new(node, next));
+        let head = self.join_all_subtrees(head)?;
         self.head = Some(head);
-        self.join_all_subtrees()?;
 
         Ok(())
     }
@@ -101,9 +103,11 @@ where
         Ok(root_node)
     }
 
-    fn join_all_subtrees(&mut self) -> Result<(), StorageError> {
+    fn join_all_subtrees(
+        &mut self,
+        mut current: Box<Subtree<Node>>,
+    ) -> Result<Box<Subtree<Node>>, StorageError> {
         loop {
-            let current = self.head.as_ref().unwrap();
             if !(current.next().is_some()
                 && current.node().height() == current.next_node().unwrap().height())
             {
@@ -111,15 +115,14 @@ where
             }
 
             // Merge the two front nodes of the list into a single node
-            let joined_node = {
-                let mut head = self.head.take().unwrap();
+            current = {
+                let mut head = current;
                 let mut head_next = head.take_next().unwrap();
                 self.join_subtrees(&mut head_next, &mut head)?
             };
-            self.head = Some(joined_node);
         }
 
-        Ok(())
+        Ok(current)
     }
 
     fn join_subtrees(
-- 
2.43.0


From edcb006eab67dddca345d71df42193afac9edb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 7/8] fix: binary prove must reject the greatest proof index
 instead of overflowing

---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 3980de9..6696ba7 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From 3228dc0ec8bae8373d5c2a7a78a5ae7eb472b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 8/8] fix: binary prove names the storage key of a missing
 leaf, not its leaf index

The other load errors carry the key that is not found in storage. The error for
a missing leaf carried the proof index, which is the key of a different node.
---
 src/binary/merkle_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 6696ba7..adaf1fe 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -90,10 +90,11 @@ where
 
         let root_position = self.root_position();
         let leaf_position = Position::from_leaf_index(proof_index);
+        let leaf_key = leaf_position.in_order_index();
         let primitive = self
             .storage
-            .get(&leaf_position.in_order_index())?
-            .ok_or(MerkleTreeError::LoadError(proof_index))?
+            .get(&leaf_key)?
+            .ok_or(MerkleTreeError::LoadError(leaf_key))?
             .into_owned();
         let leaf_node = Node::from(primitive);
         proof_set.push(*leaf_node.hash());
-- 
2.43.0

