From b76e5281bfab23a0bc77bc8b7fb165953f64972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 1/7] fix: reject update and range proofs with more than 256
 siblings instead of panicking

---
 src/types/proof/definition.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index c29d2b1..74a1482 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -308,6 +308,13 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         new_element_key: KeyHash,
         new_element_value: Option<V>,
     ) -> Result<RootHash> {
+        ensure!(
+            self.siblings.len() <= 256,
+            "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+            256,
+            self.siblings.len(),
+        );
+
         if let Some(new_element_value) = new_element_value {
             // A value have been supplied, we need to prove that we inserted a given value at the new key
 
@@ -654,6 +661,12 @@ impl<H: SimpleHasher> SparseMerkleRangeProof<H> {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 07778f38a088ffefe2772fcad5d338f4e4926a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 2/7] fix: check that an inserted key belongs at the leaf an
 update proof splits

---
 src/types/proof/definition.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 74a1482..c226ec1 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -338,6 +338,11 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                         // Step 3: we compute the new Merkle root
                         Ok(new_merkle_path.root_hash())
                     } else {
+                        // The new key must belong in the subtree that only holds this leaf
+                        ensure!(self
+                            .verify_nonexistence(old_root_hash, new_element_key)
+                            .is_ok());
+
                         let new_merkle_path = self.compute_new_merkle_path_on_split(
                             leaf_node,
                             new_element_key,
-- 
2.43.0


From 3ec133a7ed626f27f480d52fb997620d5a417dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 3/7] fix: keep the pre-genesis tree when version 0 changes
 nothing

---
 src/tree_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index f2ec12b..b9609ac 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -313,7 +313,8 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        // (At version 0 the previous root is that of the pre-genesis tree, if there is one.)
+        if root_node_key.version() != self.next_version
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-- 
2.43.0


From 3f4891cdabca59b244d4fe6c6ecc9fd967f2dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 4/7] fix: store the null root of an unchanged empty tree at
 its own version

---
 src/tree_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index b9609ac..190748d 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -296,7 +296,9 @@ where
             // If the root node does not exist, then we need to set it to the null node and record
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
+            // key-value mapping in the tree. The first version of a tree need not be 0, and its
+            // root belongs to that version, not to the one before it.
+            root_node_key.set_version(self.next_version);
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From e3c4711ab6fba4dbb986ac95c040cdf0642f434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 5/7] fix: restore: check the root hash before finishing,
 accept an empty tree

---
 src/restore.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/restore.rs b/src/restore.rs
index 9b57d67..f6cb501 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -665,6 +665,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             if num_children == 1 {
                 if let Some(node) = leaf {
                     let node_key = NodeKey::new_empty_path(self.version);
+                    self.ensure_expected_root(node.hash::<H>())?;
                     assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
                     self.store.write_node_batch(&self.frozen_nodes)?;
@@ -673,9 +674,30 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
+        let root_key = self.partial_nodes[0].node_key.clone();
+        if self.partial_nodes[0].children.iter().all(Option::is_none) {
+            // Nothing was ever added: this is the empty tree.
+            self.partial_nodes.clear();
+            self.frozen_nodes.insert_node(root_key.clone(), Node::new_null());
+        }
+
         self.freeze(0);
+        let root_hash = self.frozen_nodes.nodes()[&root_key].hash::<H>();
+        self.ensure_expected_root(root_hash)?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
+
+    /// Checks that the restored tree is the one we were asked to restore. A chunk is only verified
+    /// up to its last key, so it's the hash of the root that tells whether the keys are complete.
+    fn ensure_expected_root(&self, root_hash: [u8; 32]) -> Result<()> {
+        ensure!(
+            RootHash(root_hash) == self.expected_root_hash,
+            "The restored tree does not have the expected root hash {:?}; its root hash is {:?}.",
+            self.expected_root_hash,
+            RootHash(root_hash),
+        );
+        Ok(())
+    }
 }
 
 /// The interface used with [`JellyfishMerkleRestore`], taken from the Diem `storage-interface` crate.
-- 
2.43.0


From 45ecef7d3ab6ea61a62d39f4ee88f2db145ecfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 6/7] fix: restore: starting over a completely restored tree is
 an error, not a panic

---
 src/restore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/restore.rs b/src/restore.rs
index f6cb501..5f42bce 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -229,6 +229,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The tree at this version has been restored completely.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From 44302dd586e31551dc876a08b4a2ba771ee220f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 7/7] fix: return the reader's error when an insertion proof's
 sibling leaf cannot be read

---
 src/tree.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 5662c3a..9cf2b23 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -711,17 +711,14 @@ where
                     let (child_key_opt, mut siblings) = internal_node
                         .get_only_child_with_siblings::<H>(tree_cache, &node_key, child_index);
 
-                    let leaf: Option<SparseMerkleLeafNode> = child_key_opt.map(|child_key|
-                    {
+                    let leaf: Option<SparseMerkleLeafNode> = match child_key_opt {
                         // We should be able to find the node in the case
-                        let node = tree_cache.get_node(&child_key).expect("this node should be in the cache");
-                        match node {
-                            Leaf(leaf_node) => {
-                                leaf_node.into()
-                            },
+                        Some(child_key) => match tree_cache.get_node(&child_key)? {
+                            Leaf(leaf_node) => Some(leaf_node.into()),
                             _ => unreachable!("get_only_child_with_siblings should return a leaf node in that case")
-                        }
-                    });
+                        },
+                        None => None,
+                    };
 
                     siblings.reverse();
                     Some(SparseMerkleProof::new(leaf, siblings))
-- 
2.43.0

