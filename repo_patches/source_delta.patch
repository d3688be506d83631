From 3af4f35d576da2816aaf2f3cac255f5dde2b1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 1/6] fix: check_descendants compares every byte up to the
 split index

Stepping from an unaligned minimum split index by eight bits skipped the last,
partially covered byte, so keys outside a branch could be taken for its
descendants and present keys were reported as absent.
---
 src/utils/tree_utils.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 3e4ecac..b797497 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -86,8 +86,7 @@ pub fn check_descendants<'keys, const N: usize>(
     for (i, k) in keys.iter().enumerate() {
         let key = k.as_ref();
         let mut descendant = true;
-        for j in (min_split_index..branch_split_index).step_by(8) {
-            let byte = j >> 3_usize;
+        for byte in (min_split_index >> 3_usize)..((branch_split_index + 7) >> 3_usize) {
             if branch_key[byte] == key[byte] {
                 continue;
             }
-- 
2.43.0


From 91e0a2a52204f19ef093ad351b0dff7e9a733cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 2/6] fix: keep the reference count of a branch that already
 exists

merge_nodes stored a branch that another tree already contained with a count of
one, so that removing one of the trees deleted nodes the other one needed.
---
 src/merkle_bit.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index dca2bd1..1a06f05 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -475,8 +475,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             return Err(Exception::new("tree_refs should not be empty!"));
         }
 
+        // The references acquired so far must be visible when nodes are merged
+        self.db.batch_write()?;
+
         if tree_refs.len() == 1 {
-            self.db.batch_write()?;
             let node = tree_refs.remove(0);
             return Ok(node.location);
         }
@@ -574,6 +576,15 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
             branch_node.set_references(1);
 
+            if let Some(n) = self.db.get_node(branch_node_location)? {
+                // Another tree already contains this branch, which holds a reference to each of
+                // its children, so it takes over the ones acquired for this tree.
+                let references = n.get_references() + 1;
+                branch_node.set_references(references);
+                self.release_reference(&tree_ref_location)?;
+                self.release_reference(&next_tree_ref_location)?;
+            }
+
             self.db.insert(branch_node_location, branch_node)?;
 
             {
@@ -591,11 +602,27 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(Some(root))
     }
 
+    /// Gives up one reference to a node that is still referenced elsewhere.
+    fn release_reference(&mut self, location: &Array<N>) -> BinaryMerkleTreeResult<()> {
+        if let Some(mut node) = self.db.get_node(*location)? {
+            let references = node.get_references().saturating_sub(1);
+            node.set_references(references);
+            self.db.insert(*location, node)?;
+            return Ok(());
+        }
+        Err(Exception::new(
+            "Corrupt merkle tree: Failed to release a reference",
+        ))
+    }
+
     /// Remove all items with less than 1 reference under the given root.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
     #[inline]
     pub fn remove(&mut self, root_hash: &Array<N>) -> BinaryMerkleTreeResult<()> {
+        // Queued writes must not be applied after the removals
+        self.db.batch_write()?;
+
         let mut nodes = VecDeque::with_capacity(128);
         nodes.push_front(*root_hash);
 
-- 
2.43.0


From 50e4b8248b1b9d9fa6466e958d92133d4044926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 3/6] fix: do not leak references when a value is inserted
 again

Inserting a key with an unchanged value counted its data node and, on top of an
existing root, its leaf once too often, so they stayed behind after every root
that contained them was removed.
---
 src/merkle_bit.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 1a06f05..4eb04e7 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -269,22 +269,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 NodeVariant::Branch(n) => n,
                 NodeVariant::Leaf(n) => {
                     let key = n.get_key();
-                    let mut update = false;
 
-                    // Check if we are updating an existing value
-                    if let Some(loc) = key_map.get(key) {
-                        update = loc == &location;
-                        if !update {
-                            continue;
-                        }
+                    // Check if we are updating an existing value, whose leaf is referenced already
+                    if key_map.contains_key(key) {
+                        continue;
                     }
 
                     self.insert_leaf(&location)?;
 
-                    if update {
-                        continue;
-                    }
-
                     let tree_ref = TreeRef::new(*key, location, 1, 1);
                     proof_nodes.push(tree_ref);
                     continue;
@@ -447,17 +439,18 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let mut leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
             leaf_node.set_references(1);
 
-            if let Some(n) = self.db.get_node(data_node_location)? {
-                let references = n.get_references() + 1;
-                data_node.set_references(references);
-            }
-
             if let Some(n) = self.db.get_node(leaf_node_location)? {
+                // An existing leaf already holds a reference to its data
                 let references = n.get_references() + 1;
                 leaf_node.set_references(references);
+            } else {
+                if let Some(n) = self.db.get_node(data_node_location)? {
+                    let references = n.get_references() + 1;
+                    data_node.set_references(references);
+                }
+                self.db.insert(data_node_location, data_node)?;
             }
 
-            self.db.insert(data_node_location, data_node)?;
             self.db.insert(leaf_node_location, leaf_node)?;
 
             nodes.push(leaf_node_location);
-- 
2.43.0


From 12c511ab08f1af5bc22e036737d6a54ede9a7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 4/6] fix: decode arrays from the sequences they are encoded as

Array<N> is serialized as a sequence but asked for bytes when deserialized,
so every self-describing scheme (json, cbor, yaml, pickle, ron) failed to
decode the nodes it had encoded.
---
 src/lib.rs | 534 +++++++++++++++++++++++++++--------------------------
 1 file changed, 274 insertions(+), 260 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6655a89..1c8b830 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,260 +1,274 @@
-// Clippy configurations
-#![warn(
-    clippy::all,
-    clippy::restriction,
-    clippy::pedantic,
-    clippy::nursery,
-    clippy::cargo
-)]
-#![allow(clippy::integer_arithmetic)]
-#![allow(clippy::indexing_slicing)]
-#![allow(clippy::cast_possible_truncation)]
-#![allow(clippy::implicit_return)]
-#![allow(clippy::else_if_without_else)]
-#![allow(clippy::module_name_repetitions)]
-#![allow(clippy::mod_module_files)]
-#![allow(clippy::separated_literal_suffix)]
-#![allow(clippy::blanket_clippy_restriction_lints)]
-#![forbid(unsafe_code)]
-
-//! # Merkle Binary Indexed Tree
-//! ## Introduction
-//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
-//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
-//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
-//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
-//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
-//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
-//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
-//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
-//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
-//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
-//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
-//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
-//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
-//!
-//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
-//! later used to access the inserted items.
-//!
-//! ## Internal Structure
-//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
-//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
-//!
-//! A `Branch` node contains first a `split_index`
-//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
-//! that makes this a *sparse* merkle tree.  It then contains pointers
-//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
-//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
-//! a `count` of the nodes under that branch.
-//!
-//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
-//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
-//! accessing data information if data should be retrieved.
-//!
-//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
-//! and the only restriction is that the data must be serializable and deserializable.
-//!
-//! To illustrate these concepts, please refer to the diagram below:
-//!
-//! ```text
-//!                                                 ----------------------
-//!                                 branch  --->    | split_index: usize |
-//!                                   |             | zero: [u8]         |
-//!       ----------------           / \            | one:  [u8]         |
-//!       | key: [u8]    |          /   \           | count: u64         |
-//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
-//!       ----------------         |                ----------------------
-//!                                |
-//!                                V
-//!                              data
-//!                                |
-//!                                V
-//!                         ------------------
-//!                         | value: Vec<u8> |
-//!                         ------------------
-//! ```
-//!
-//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
-//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
-
-#[cfg(feature = "serde")]
-use serde::de::{Error, Visitor};
-#[cfg(feature = "serde")]
-use serde::ser::SerializeSeq;
-#[cfg(feature = "serde")]
-use serde::{Deserialize, Deserializer};
-#[cfg(feature = "serde")]
-use serde::{Serialize, Serializer};
-#[cfg(feature = "serde")]
-use std::array::IntoIter;
-#[cfg(feature = "serde")]
-use std::cmp::min;
-#[cfg(feature = "serde")]
-use std::fmt::Formatter;
-#[cfg(feature = "serde")]
-use std::ops::{Deref, DerefMut, Index, IndexMut};
-#[cfg(feature = "serde")]
-use std::slice::{Iter, SliceIndex};
-
-/// Defines constants for the tree.
-pub mod constants;
-/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
-pub mod hash_tree;
-/// Contains the actual operations of inserting, getting, and removing items from a tree.
-pub mod merkle_bit;
-/// Contains the traits necessary for tree operations
-pub mod traits;
-/// Contains a collection of structs for representing locations within the tree.
-pub mod tree;
-/// Contains a collection of structs for implementing tree databases.
-pub mod tree_db;
-/// Contains a collection of structs for implementing hashing functions in the tree.
-pub mod tree_hasher;
-/// Contains a collection of useful structs and functions for tree operations.
-pub mod utils;
-
-#[cfg(feature = "rocksdb")]
-/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
-pub mod rocks_tree;
-
-/// Alias for a fixed sized array
-#[cfg(not(any(feature = "serde")))]
-pub type Array<const N: usize> = [u8; N];
-
-/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
-/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
-#[cfg(feature = "serde")]
-#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
-pub struct Array<const N: usize>([u8; N]);
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Array<N> {
-    /// Produces an iterator through the underlying array.
-    #[inline]
-    pub fn iter(&self) -> Iter<u8> {
-        self.0.iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Default for Array<N> {
-    #[inline]
-    fn default() -> Self {
-        Self([0; N])
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<[u8; N]> for Array<N> {
-    #[inline]
-    fn from(array: [u8; N]) -> Self {
-        Self(array)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<Array<N>> for [u8; N] {
-    #[inline]
-    fn from(array: Array<N>) -> Self {
-        array.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> IntoIterator for Array<N> {
-    type Item = u8;
-    type IntoIter = IntoIter<u8, N>;
-
-    #[inline]
-    fn into_iter(self) -> Self::IntoIter {
-        self.0.into_iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> AsRef<[u8]> for Array<N> {
-    #[inline]
-    fn as_ref(&self) -> &[u8] {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Deref for Array<N> {
-    type Target = [u8; N];
-
-    #[inline]
-    fn deref(&self) -> &Self::Target {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> DerefMut for Array<N> {
-    #[inline]
-    fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
-    type Output = Idx::Output;
-
-    #[inline]
-    fn index(&self, index: Idx) -> &Self::Output {
-        &self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
-    #[inline]
-    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
-        &mut self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Serialize for Array<N> {
-    #[inline]
-    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(N))?;
-        for e in self.iter() {
-            seq.serialize_element(e)?;
-        }
-        seq.end()
-    }
-}
-
-#[cfg(feature = "serde")]
-/// Visitor for deserializing `Array<N>`s.
-struct ArrayVisitor<const N: usize>;
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
-    type Value = Array<N>;
-
-    #[inline]
-    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
-        formatter.write_str("an unsigned integer from 0 to 255")
-    }
-
-    #[inline]
-    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
-        let mut value = Array::default();
-        for i in 0..(min(N, v.len())) {
-            value[i] = v[i];
-        }
-
-        Ok(value)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Deserialize<'de> for Array<N> {
-    #[inline]
-    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_bytes(ArrayVisitor)
-    }
-}
+// Clippy configurations
+#![warn(
+    clippy::all,
+    clippy::restriction,
+    clippy::pedantic,
+    clippy::nursery,
+    clippy::cargo
+)]
+#![allow(clippy::integer_arithmetic)]
+#![allow(clippy::indexing_slicing)]
+#![allow(clippy::cast_possible_truncation)]
+#![allow(clippy::implicit_return)]
+#![allow(clippy::else_if_without_else)]
+#![allow(clippy::module_name_repetitions)]
+#![allow(clippy::mod_module_files)]
+#![allow(clippy::separated_literal_suffix)]
+#![allow(clippy::blanket_clippy_restriction_lints)]
+#![forbid(unsafe_code)]
+
+//! # Merkle Binary Indexed Tree
+//! ## Introduction
+//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
+//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
+//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
+//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
+//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
+//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
+//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
+//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
+//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
+//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
+//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
+//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
+//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
+//!
+//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
+//! later used to access the inserted items.
+//!
+//! ## Internal Structure
+//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
+//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
+//!
+//! A `Branch` node contains first a `split_index`
+//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
+//! that makes this a *sparse* merkle tree.  It then contains pointers
+//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
+//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
+//! a `count` of the nodes under that branch.
+//!
+//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
+//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
+//! accessing data information if data should be retrieved.
+//!
+//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
+//! and the only restriction is that the data must be serializable and deserializable.
+//!
+//! To illustrate these concepts, please refer to the diagram below:
+//!
+//! ```text
+//!                                                 ----------------------
+//!                                 branch  --->    | split_index: usize |
+//!                                   |             | zero: [u8]         |
+//!       ----------------           / \            | one:  [u8]         |
+//!       | key: [u8]    |          /   \           | count: u64         |
+//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
+//!       ----------------         |                ----------------------
+//!                                |
+//!                                V
+//!                              data
+//!                                |
+//!                                V
+//!                         ------------------
+//!                         | value: Vec<u8> |
+//!                         ------------------
+//! ```
+//!
+//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
+//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
+
+#[cfg(feature = "serde")]
+use serde::de::{Error, SeqAccess, Visitor};
+#[cfg(feature = "serde")]
+use serde::ser::SerializeSeq;
+#[cfg(feature = "serde")]
+use serde::{Deserialize, Deserializer};
+#[cfg(feature = "serde")]
+use serde::{Serialize, Serializer};
+#[cfg(feature = "serde")]
+use std::array::IntoIter;
+#[cfg(feature = "serde")]
+use std::cmp::min;
+#[cfg(feature = "serde")]
+use std::fmt::Formatter;
+#[cfg(feature = "serde")]
+use std::ops::{Deref, DerefMut, Index, IndexMut};
+#[cfg(feature = "serde")]
+use std::slice::{Iter, SliceIndex};
+
+/// Defines constants for the tree.
+pub mod constants;
+/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
+pub mod hash_tree;
+/// Contains the actual operations of inserting, getting, and removing items from a tree.
+pub mod merkle_bit;
+/// Contains the traits necessary for tree operations
+pub mod traits;
+/// Contains a collection of structs for representing locations within the tree.
+pub mod tree;
+/// Contains a collection of structs for implementing tree databases.
+pub mod tree_db;
+/// Contains a collection of structs for implementing hashing functions in the tree.
+pub mod tree_hasher;
+/// Contains a collection of useful structs and functions for tree operations.
+pub mod utils;
+
+#[cfg(feature = "rocksdb")]
+/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
+pub mod rocks_tree;
+
+/// Alias for a fixed sized array
+#[cfg(not(any(feature = "serde")))]
+pub type Array<const N: usize> = [u8; N];
+
+/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
+/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
+#[cfg(feature = "serde")]
+#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
+pub struct Array<const N: usize>([u8; N]);
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Array<N> {
+    /// Produces an iterator through the underlying array.
+    #[inline]
+    pub fn iter(&self) -> Iter<u8> {
+        self.0.iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Default for Array<N> {
+    #[inline]
+    fn default() -> Self {
+        Self([0; N])
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<[u8; N]> for Array<N> {
+    #[inline]
+    fn from(array: [u8; N]) -> Self {
+        Self(array)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<Array<N>> for [u8; N] {
+    #[inline]
+    fn from(array: Array<N>) -> Self {
+        array.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> IntoIterator for Array<N> {
+    type Item = u8;
+    type IntoIter = IntoIter<u8, N>;
+
+    #[inline]
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> AsRef<[u8]> for Array<N> {
+    #[inline]
+    fn as_ref(&self) -> &[u8] {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Deref for Array<N> {
+    type Target = [u8; N];
+
+    #[inline]
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> DerefMut for Array<N> {
+    #[inline]
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
+    type Output = Idx::Output;
+
+    #[inline]
+    fn index(&self, index: Idx) -> &Self::Output {
+        &self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
+    #[inline]
+    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
+        &mut self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Serialize for Array<N> {
+    #[inline]
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        let mut seq = serializer.serialize_seq(Some(N))?;
+        for e in self.iter() {
+            seq.serialize_element(e)?;
+        }
+        seq.end()
+    }
+}
+
+#[cfg(feature = "serde")]
+/// Visitor for deserializing `Array<N>`s.
+struct ArrayVisitor<const N: usize>;
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
+    type Value = Array<N>;
+
+    #[inline]
+    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
+        formatter.write_str("an unsigned integer from 0 to 255")
+    }
+
+    #[inline]
+    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+        let mut value = Array::default();
+        for i in 0..(min(N, v.len())) {
+            value[i] = v[i];
+        }
+
+        Ok(value)
+    }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        let mut i = 0;
+        while let Some(byte) = seq.next_element()? {
+            if i < N {
+                value[i] = byte;
+            }
+            i += 1;
+        }
+
+        Ok(value)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Deserialize<'de> for Array<N> {
+    #[inline]
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_seq(ArrayVisitor)
+    }
+}
-- 
2.43.0


From 43888fbbe7ad41f9c949daee1c72cf3fa9ab2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 5/6] fix: do not size proof buffers by the depth limit

---
 src/merkle_bit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 4eb04e7..860483b 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -685,10 +685,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         root: &Array<N>,
         key: Array<N>,
     ) -> BinaryMerkleTreeResult<Vec<(Array<N>, bool)>> {
-        let mut nodes = VecDeque::with_capacity(self.depth);
+        let mut nodes = VecDeque::with_capacity(3);
         nodes.push_front(*root);
 
-        let mut proof = Vec::with_capacity(self.depth);
+        let mut proof = Vec::new();
 
         let mut found_leaf = false;
         let mut depth = 0;
-- 
2.43.0


From c767f50cb5b6dc329045e382c351323635c047f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 6/6] fix: restore the line endings of src/lib.rs

---
 src/lib.rs | 548 ++++++++++++++++++++++++++---------------------------
 1 file changed, 274 insertions(+), 274 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c8b830..fdb3b03 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,274 +1,274 @@
-// Clippy configurations
-#![warn(
-    clippy::all,
-    clippy::restriction,
-    clippy::pedantic,
-    clippy::nursery,
-    clippy::cargo
-)]
-#![allow(clippy::integer_arithmetic)]
-#![allow(clippy::indexing_slicing)]
-#![allow(clippy::cast_possible_truncation)]
-#![allow(clippy::implicit_return)]
-#![allow(clippy::else_if_without_else)]
-#![allow(clippy::module_name_repetitions)]
-#![allow(clippy::mod_module_files)]
-#![allow(clippy::separated_literal_suffix)]
-#![allow(clippy::blanket_clippy_restriction_lints)]
-#![forbid(unsafe_code)]
-
-//! # Merkle Binary Indexed Tree
-//! ## Introduction
-//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
-//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
-//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
-//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
-//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
-//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
-//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
-//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
-//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
-//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
-//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
-//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
-//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
-//!
-//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
-//! later used to access the inserted items.
-//!
-//! ## Internal Structure
-//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
-//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
-//!
-//! A `Branch` node contains first a `split_index`
-//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
-//! that makes this a *sparse* merkle tree.  It then contains pointers
-//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
-//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
-//! a `count` of the nodes under that branch.
-//!
-//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
-//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
-//! accessing data information if data should be retrieved.
-//!
-//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
-//! and the only restriction is that the data must be serializable and deserializable.
-//!
-//! To illustrate these concepts, please refer to the diagram below:
-//!
-//! ```text
-//!                                                 ----------------------
-//!                                 branch  --->    | split_index: usize |
-//!                                   |             | zero: [u8]         |
-//!       ----------------           / \            | one:  [u8]         |
-//!       | key: [u8]    |          /   \           | count: u64         |
-//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
-//!       ----------------         |                ----------------------
-//!                                |
-//!                                V
-//!                              data
-//!                                |
-//!                                V
-//!                         ------------------
-//!                         | value: Vec<u8> |
-//!                         ------------------
-//! ```
-//!
-//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
-//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
-
-#[cfg(feature = "serde")]
-use serde::de::{Error, SeqAccess, Visitor};
-#[cfg(feature = "serde")]
-use serde::ser::SerializeSeq;
-#[cfg(feature = "serde")]
-use serde::{Deserialize, Deserializer};
-#[cfg(feature = "serde")]
-use serde::{Serialize, Serializer};
-#[cfg(feature = "serde")]
-use std::array::IntoIter;
-#[cfg(feature = "serde")]
-use std::cmp::min;
-#[cfg(feature = "serde")]
-use std::fmt::Formatter;
-#[cfg(feature = "serde")]
-use std::ops::{Deref, DerefMut, Index, IndexMut};
-#[cfg(feature = "serde")]
-use std::slice::{Iter, SliceIndex};
-
-/// Defines constants for the tree.
-pub mod constants;
-/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
-pub mod hash_tree;
-/// Contains the actual operations of inserting, getting, and removing items from a tree.
-pub mod merkle_bit;
-/// Contains the traits necessary for tree operations
-pub mod traits;
-/// Contains a collection of structs for representing locations within the tree.
-pub mod tree;
-/// Contains a collection of structs for implementing tree databases.
-pub mod tree_db;
-/// Contains a collection of structs for implementing hashing functions in the tree.
-pub mod tree_hasher;
-/// Contains a collection of useful structs and functions for tree operations.
-pub mod utils;
-
-#[cfg(feature = "rocksdb")]
-/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
-pub mod rocks_tree;
-
-/// Alias for a fixed sized array
-#[cfg(not(any(feature = "serde")))]
-pub type Array<const N: usize> = [u8; N];
-
-/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
-/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
-#[cfg(feature = "serde")]
-#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
-pub struct Array<const N: usize>([u8; N]);
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Array<N> {
-    /// Produces an iterator through the underlying array.
-    #[inline]
-    pub fn iter(&self) -> Iter<u8> {
-        self.0.iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Default for Array<N> {
-    #[inline]
-    fn default() -> Self {
-        Self([0; N])
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<[u8; N]> for Array<N> {
-    #[inline]
-    fn from(array: [u8; N]) -> Self {
-        Self(array)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> From<Array<N>> for [u8; N] {
-    #[inline]
-    fn from(array: Array<N>) -> Self {
-        array.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> IntoIterator for Array<N> {
-    type Item = u8;
-    type IntoIter = IntoIter<u8, N>;
-
-    #[inline]
-    fn into_iter(self) -> Self::IntoIter {
-        self.0.into_iter()
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> AsRef<[u8]> for Array<N> {
-    #[inline]
-    fn as_ref(&self) -> &[u8] {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Deref for Array<N> {
-    type Target = [u8; N];
-
-    #[inline]
-    fn deref(&self) -> &Self::Target {
-        &self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> DerefMut for Array<N> {
-    #[inline]
-    fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.0
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
-    type Output = Idx::Output;
-
-    #[inline]
-    fn index(&self, index: Idx) -> &Self::Output {
-        &self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
-    #[inline]
-    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
-        &mut self.0[index]
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<const N: usize> Serialize for Array<N> {
-    #[inline]
-    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(N))?;
-        for e in self.iter() {
-            seq.serialize_element(e)?;
-        }
-        seq.end()
-    }
-}
-
-#[cfg(feature = "serde")]
-/// Visitor for deserializing `Array<N>`s.
-struct ArrayVisitor<const N: usize>;
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
-    type Value = Array<N>;
-
-    #[inline]
-    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
-        formatter.write_str("an unsigned integer from 0 to 255")
-    }
-
-    #[inline]
-    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
-        let mut value = Array::default();
-        for i in 0..(min(N, v.len())) {
-            value[i] = v[i];
-        }
-
-        Ok(value)
-    }
-
-    #[inline]
-    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
-        let mut value = Array::default();
-        let mut i = 0;
-        while let Some(byte) = seq.next_element()? {
-            if i < N {
-                value[i] = byte;
-            }
-            i += 1;
-        }
-
-        Ok(value)
-    }
-}
-
-#[cfg(feature = "serde")]
-impl<'de, const N: usize> Deserialize<'de> for Array<N> {
-    #[inline]
-    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_seq(ArrayVisitor)
-    }
-}
+// Clippy configurations
+#![warn(
+    clippy::all,
+    clippy::restriction,
+    clippy::pedantic,
+    clippy::nursery,
+    clippy::cargo
+)]
+#![allow(clippy::integer_arithmetic)]
+#![allow(clippy::indexing_slicing)]
+#![allow(clippy::cast_possible_truncation)]
+#![allow(clippy::implicit_return)]
+#![allow(clippy::else_if_without_else)]
+#![allow(clippy::module_name_repetitions)]
+#![allow(clippy::mod_module_files)]
+#![allow(clippy::separated_literal_suffix)]
+#![allow(clippy::blanket_clippy_restriction_lints)]
+#![forbid(unsafe_code)]
+
+//! # Merkle Binary Indexed Tree
+//! ## Introduction
+//! This module implements [`MerkleBIT`](merkle_bit/struct.MerkleBIT.html) with an attached storage module.  The implemented [`HashTree`](hash_tree/struct.HashTree.html)
+//! and [`RocksTree`](rocks_tree/struct.RocksTree.html) structures allow use with persistence in memory and storage respectively.  Write
+//! operations are batched together and committed at the end of each insert op.  The [`MerkleBit`](merkle_bit/struct.MerkleBIT.html) API
+//! abstracts all actions related to maintaining and updating the storage tree.  The public APIs are
+//! * [`new`](merkle_bit/struct.MerkleBIT.html#method.new)
+//! * [`from_db`](merkle_bit/struct.MerkleBIT.html#method.from_db)
+//! * [`get`](merkle_bit/struct.MerkleBIT.html#method.get)
+//! * [`insert`](merkle_bit/struct.MerkleBIT.html#method.insert)
+//! * [`remove`](merkle_bit/struct.MerkleBIT.html#method.remove)
+//! * [`generate_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.generate_inclusion_proof)
+//! * [`get_one`](merkle_bit/struct.MerkleBIT.html#method.get_one)
+//! * [`insert_one`](merkle_bit/struct.MerkleBIT.html#method.insert_one)
+//! * and the associated function [`verify_inclusion_proof`](merkle_bit/struct.MerkleBIT.html#method.verify_inclusion_proof).
+//!
+//! After each call to either `insert` or `insert_one`, a new root hash will be created which can be
+//! later used to access the inserted items.
+//!
+//! ## Internal Structure
+//! Internally, the `MerkleBit` is composed of a collection of trait structs which implement the
+//! [`Branch`](traits/trait.Branch.html), [`Leaf`](traits/trait.Leaf.html), and [`Data`](traits/trait.Data.html) nodes of the tree.
+//!
+//! A `Branch` node contains first a `split_index`
+//! which indicates which bit of a given hash should be used to traverse the tree.  This is an optimisation
+//! that makes this a *sparse* merkle tree.  It then contains pointers
+//! to either the `one` side of the tree or the `zero` side of the tree.  Additionally, a branch contains
+//! a copy of the `key` used during creation to determine if a branch should be inserted before it, and
+//! a `count` of the nodes under that branch.
+//!
+//! A `Leaf` node contains an associated `key` for comparison, and a pointer to a `Data` node for retrieving
+//! information regarding access to the data.  This is separate from the `Data` node for the purpose of only
+//! accessing data information if data should be retrieved.
+//!
+//! A `Data` node contains the actual information to be retrieved.  `Data` nodes can be arbitrary in size
+//! and the only restriction is that the data must be serializable and deserializable.
+//!
+//! To illustrate these concepts, please refer to the diagram below:
+//!
+//! ```text
+//!                                                 ----------------------
+//!                                 branch  --->    | split_index: usize |
+//!                                   |             | zero: [u8]         |
+//!       ----------------           / \            | one:  [u8]         |
+//!       | key: [u8]    |          /   \           | count: u64         |
+//!       | data: [u8]   | <----  leaf   leaf       | key:   [u8]        |
+//!       ----------------         |                ----------------------
+//!                                |
+//!                                V
+//!                              data
+//!                                |
+//!                                V
+//!                         ------------------
+//!                         | value: Vec<u8> |
+//!                         ------------------
+//! ```
+//!
+//! The `MerkleBIT` can be extended to support a wide variety of backend storage solutions given that
+//! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
+
+#[cfg(feature = "serde")]
+use serde::de::{Error, SeqAccess, Visitor};
+#[cfg(feature = "serde")]
+use serde::ser::SerializeSeq;
+#[cfg(feature = "serde")]
+use serde::{Deserialize, Deserializer};
+#[cfg(feature = "serde")]
+use serde::{Serialize, Serializer};
+#[cfg(feature = "serde")]
+use std::array::IntoIter;
+#[cfg(feature = "serde")]
+use std::cmp::min;
+#[cfg(feature = "serde")]
+use std::fmt::Formatter;
+#[cfg(feature = "serde")]
+use std::ops::{Deref, DerefMut, Index, IndexMut};
+#[cfg(feature = "serde")]
+use std::slice::{Iter, SliceIndex};
+
+/// Defines constants for the tree.
+pub mod constants;
+/// An implementation of the `MerkleBIT` with a `HashMap` backend database.
+pub mod hash_tree;
+/// Contains the actual operations of inserting, getting, and removing items from a tree.
+pub mod merkle_bit;
+/// Contains the traits necessary for tree operations
+pub mod traits;
+/// Contains a collection of structs for representing locations within the tree.
+pub mod tree;
+/// Contains a collection of structs for implementing tree databases.
+pub mod tree_db;
+/// Contains a collection of structs for implementing hashing functions in the tree.
+pub mod tree_hasher;
+/// Contains a collection of useful structs and functions for tree operations.
+pub mod utils;
+
+#[cfg(feature = "rocksdb")]
+/// An implementation of the `MerkleBIT` with a `RocksDB` backend database.
+pub mod rocks_tree;
+
+/// Alias for a fixed sized array
+#[cfg(not(any(feature = "serde")))]
+pub type Array<const N: usize> = [u8; N];
+
+/// A fixed-size array.  Needed because not all of the serialization libraries can handle arbitrary
+/// sized arrays.  Can be converted to and from a `[u8; N]` via `into` and `from`.
+#[cfg(feature = "serde")]
+#[derive(Debug, Copy, Clone, PartialOrd, Ord, PartialEq, Eq, Hash)]
+pub struct Array<const N: usize>([u8; N]);
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Array<N> {
+    /// Produces an iterator through the underlying array.
+    #[inline]
+    pub fn iter(&self) -> Iter<u8> {
+        self.0.iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Default for Array<N> {
+    #[inline]
+    fn default() -> Self {
+        Self([0; N])
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<[u8; N]> for Array<N> {
+    #[inline]
+    fn from(array: [u8; N]) -> Self {
+        Self(array)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> From<Array<N>> for [u8; N] {
+    #[inline]
+    fn from(array: Array<N>) -> Self {
+        array.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> IntoIterator for Array<N> {
+    type Item = u8;
+    type IntoIter = IntoIter<u8, N>;
+
+    #[inline]
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> AsRef<[u8]> for Array<N> {
+    #[inline]
+    fn as_ref(&self) -> &[u8] {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Deref for Array<N> {
+    type Target = [u8; N];
+
+    #[inline]
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> DerefMut for Array<N> {
+    #[inline]
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> Index<Idx> for Array<N> {
+    type Output = Idx::Output;
+
+    #[inline]
+    fn index(&self, index: Idx) -> &Self::Output {
+        &self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize, Idx: SliceIndex<[u8]>> IndexMut<Idx> for Array<N> {
+    #[inline]
+    fn index_mut(&mut self, index: Idx) -> &mut Self::Output {
+        &mut self.0[index]
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<const N: usize> Serialize for Array<N> {
+    #[inline]
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        let mut seq = serializer.serialize_seq(Some(N))?;
+        for e in self.iter() {
+            seq.serialize_element(e)?;
+        }
+        seq.end()
+    }
+}
+
+#[cfg(feature = "serde")]
+/// Visitor for deserializing `Array<N>`s.
+struct ArrayVisitor<const N: usize>;
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
+    type Value = Array<N>;
+
+    #[inline]
+    fn expecting(&self, formatter: &mut Formatter) -> std::fmt::Result {
+        formatter.write_str("an unsigned integer from 0 to 255")
+    }
+
+    #[inline]
+    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+        let mut value = Array::default();
+        for i in 0..(min(N, v.len())) {
+            value[i] = v[i];
+        }
+
+        Ok(value)
+    }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        let mut i = 0;
+        while let Some(byte) = seq.next_element()? {
+            if i < N {
+                value[i] = byte;
+            }
+            i += 1;
+        }
+
+        Ok(value)
+    }
+}
+
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> Deserialize<'de> for Array<N> {
+    #[inline]
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_seq(ArrayVisitor)
+    }
+}
-- 
2.43.0

