From f4f00038b3214d5ccdbd8c859ce3a1c76ebeace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 01/36] fix: return iterator errors from
 try_from_iter_with_config

The documentation promises that the first error yielded by the iterator is
returned, but the population result was unwrapped with expect(), so any
iterator (or store) error panicked instead.
---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index ba17492..5543d8b 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1799,7 +1799,7 @@ impl<
         }
 
         populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .expect("failed to populate data");
+            .context("failed to populate data")?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
 
         Ok(MerkleTree {
-- 
2.43.0


From 231a95bcc6b4c99979d6d2a4e6a675695200d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 02/36] fix: refuse LevelCacheStore reads that touch discarded
 rows

Only the start of a requested range was checked (and off by one), so reading
the element right after the base layer, or a range crossing from the base
layer into the discarded rows, silently returned unrelated data.
---
 src/store/level_cache.rs | 45 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8275fef..2c7ebb0 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -351,10 +351,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_readable(start, end)?;
 
         Ok(E::from_slice(&self.store_read_range(start, end)?))
     }
@@ -366,10 +363,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_readable(start, end)?;
 
         self.store_read_into(start, end, buf)
     }
@@ -381,10 +375,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_readable(start, end)?;
 
         self.store_read_into(start, end, buf)
     }
@@ -396,10 +387,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_readable(start, end)?;
 
         Ok(self
             .store_read_range(start, end)?
@@ -703,15 +691,27 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(store_size == cache_size)
     }
 
+    // A range (in bytes) can only be served if it lies entirely within
+    // the base data layer or entirely within the cached rows, since the
+    // rows in between are discarded (and since the base layer may be
+    // held by an external reader).
+    fn ensure_readable(&self, start: usize, end: usize) -> Result<()> {
+        let data_end = self.data_width * self.elem_len;
+        let contiguous = self.reader.is_none() && self.cache_index_start == data_end;
+        ensure!(
+            contiguous || end <= data_end || start >= self.cache_index_start,
+            "out of bounds"
+        );
+
+        Ok(())
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
         let mut adjusted_start = start;
 
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        self.ensure_readable(start, end)?;
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
@@ -810,10 +810,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "Invalid read start"
-        );
+        self.ensure_readable(start, end)?;
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-- 
2.43.0


From f2a5493787964b5213431323ad12b625dffe41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 03/36] fix: return the target leaf from item() of compound
 proofs

For compound proofs, item() returned the root of a sibling sub-tree, which
also made validate_with_data reject the original leaf data.
---
 src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 2a56d9a..49662c8 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,6 +60,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
+        // The target leaf of a compound proof is the one of its base layer.
+        if let Some(sub_tree_proof) = &self.sub_tree_proof {
+            return sub_tree_proof.item();
+        }
+
         self.lemma
             .first()
             .expect("[item] requested element is empty")
-- 
2.43.0


From 42f0b70788444fa6c52cc54f8f04ece859fba51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 04/36] fix: validate proofs with the node heights used to
 build the tree

Proof validation passed the lemma offset (base layer) or 0 (compound layers)
as the height of a node, while trees are built with the row index and 1, so
proofs of trees using a height dependent algorithm were rejected for arities
above 2 and for compound trees.
---
 src/proof.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 49662c8..5907722 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -124,7 +124,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 return Ok(false);
             }
 
-            a.multi_node(&nodes, 0)
+            // Compound roots are built with height 1.
+            a.multi_node(&nodes, 1)
         };
 
         Ok(h == self.root())
@@ -191,8 +192,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                     return Ok(false);
                 }
 
+                // The height of a node is its row, as used when building the tree.
+                let height = path_index - 1;
                 path_index += 1;
-                a.multi_node(&nodes, i - 1)
+                a.multi_node(&nodes, height)
             };
         }
 
-- 
2.43.0


From d2c2da7b7fe1f2cb894fcb68ea7feac2b3219f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 05/36] fix: honour rows_to_discard above the default in
 gen_cached_proof

An explicit rows_to_discard was clamped to the arity's default instead of
what the tree supports, so cached proofs could not be generated for trees
compacted with more discarded rows than the default.
---
 src/merkle.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 5543d8b..90204c1 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1138,10 +1138,7 @@ impl<
                 // primarily affects tests because it only affects 'small' trees, entirely outside the
                 // scope of any 'production' tree width.
                 let rows_to_discard = if let Some(rows) = rows_to_discard {
-                    std::cmp::min(
-                        rows,
-                        StoreConfig::default_rows_to_discard(self.leafs, branches),
-                    )
+                    std::cmp::min(rows, self.row_count.saturating_sub(2))
                 } else {
                     StoreConfig::default_rows_to_discard(self.leafs, branches)
                 };
-- 
2.43.0


From 0c955248f60e088c553f71be9d727cd5b2b0dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 06/36] fix: report out of range leaf indices of compound trees
 as errors

gen_proof and read_at panicked on compound trees for indices past the last
leaf, where base trees (and gen_cached_proof) return an error.
---
 src/merkle.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 90204c1..0bc4951 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -866,6 +866,12 @@ impl<
         arity: usize,
     ) -> Result<Proof<E, BaseTreeArity>> {
         ensure!(arity != 0, "Invalid sub-tree arity");
+        ensure!(
+            i < self.leafs,
+            "{} is out of bounds (max: {})",
+            i,
+            self.leafs
+        ); // i in [0 .. self.leafs)
 
         // Locate the sub-tree the leaf is contained in.
         let tree_index = i / (self.leafs / arity);
@@ -1434,6 +1440,12 @@ impl<
                     TopTreeArity::to_usize() == sub_trees.len(),
                     "Top layer tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                ); // i in [0 .. self.leafs)
                 let tree_index = i / (self.leafs / TopTreeArity::to_usize());
                 let tree = &sub_trees[tree_index];
                 let tree_leafs = tree.leafs();
@@ -1449,6 +1461,12 @@ impl<
                     SubTreeArity::to_usize() == base_trees.len(),
                     "Sub-tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                ); // i in [0 .. self.leafs)
                 let tree_index = i / (self.leafs / SubTreeArity::to_usize());
                 let tree = &base_trees[tree_index];
                 let tree_leafs = tree.leafs();
-- 
2.43.0


From 2c3235d0dafd517a4679939d5cec53338b3f3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 07/36] fix: do not report compound trees as empty

---
 src/merkle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 0bc4951..a431acc 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1402,8 +1402,8 @@ impl<
     #[inline]
     pub fn is_empty(&self) -> bool {
         match &self.data {
-            Data::TopTree(_) => true,
-            Data::SubTree(_) => true,
+            Data::TopTree(trees) => trees.iter().all(|tree| tree.is_empty()),
+            Data::SubTree(trees) => trees.iter().all(|tree| tree.is_empty()),
             Data::BaseTree(store) => store.is_empty(),
         }
     }
-- 
2.43.0


From 95b5990efaf60debdebfc16aceff1a15aa85dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 08/36] fix: refuse even lengths of binary trees in
 get_merkle_tree_leafs

A binary tree has an odd number of nodes, but lengths such as 2, 6 or 14 were
accepted as trees of 2, 4 or 8 leafs.
---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index a431acc..7b25a89 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1984,6 +1984,10 @@ pub fn get_merkle_tree_leafs(len: usize, branches: usize) -> Result<usize> {
     let leafs = {
         // Optimization:
         if branches == 2 {
+            ensure!(
+                len % 2 == 1,
+                "Invalid tree length provided for the specified arity"
+            );
             (len >> 1) + 1
         } else {
             let mut leafs = 1;
-- 
2.43.0


From 1f037cfa5f9abb2f5ea655e2ee8be5481f6594c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 09/36] fix: detect short reads of the external reader

The number of bytes reported by an ExternalReader was ignored, so a short
read was returned as (zero filled) base layer data.
---
 src/store/level_cache.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 2c7ebb0..0a8b33c 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -715,7 +715,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let read = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, &mut read_data)
@@ -726,6 +727,12 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(
+                read == read_len,
+                "short read from the external reader ({} != {})",
+                read,
+                read_len
+            );
 
             return Ok(read_data);
         }
@@ -814,7 +821,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let read = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, buf)
@@ -825,6 +833,12 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(
+                read == end - start,
+                "short read from the external reader ({} != {})",
+                read,
+                end - start
+            );
         } else {
             // Adjust read index if in the cached ranged to be shifted
             // over since the data stored is compacted.
-- 
2.43.0


From dd5b2d4117e390882a14073b835c7ffb4e450785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 10/36] fix: refuse a number of configs that does not match the
 sub-tree shape

Constructing a compound tree from sub-tree store configs ignored the trailing
configs when their number did not match the shape, and divided by zero
without a top layer.
---
 src/merkle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 7b25a89..c095c9f 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -292,6 +292,10 @@ impl<
         );
 
         let sub_tree_count = TopTreeArity::to_usize();
+        ensure!(
+            sub_tree_count > 0 && configs.len() == sub_tree_count * SubTreeArity::to_usize(),
+            "Number of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / sub_tree_count;
@@ -805,6 +809,10 @@ impl<
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         let tree_count = TopTreeArity::to_usize();
+        ensure!(
+            tree_count > 0 && configs.len() == tree_count * SubTreeArity::to_usize(),
+            "Number of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / tree_count;
-- 
2.43.0


From 9882c49b74699164838b86966774e2cbfce8c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 11/36] fix: refuse leaf counts that do not form a tree of the
 arity up front

A leaf count which is not a power of the arity was only detected after the
tree had been built (leaving a persistent store behind, and mapping past the
end of it), and an arity of 1 never terminated.
---
 src/merkle.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index c095c9f..98be4a1 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1538,6 +1538,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
@@ -1580,6 +1584,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
@@ -1646,6 +1654,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1686,6 +1698,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1754,6 +1770,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1795,6 +1815,10 @@ impl<
             next_pow2(branches) == branches,
             "branches MUST be a power of 2"
         );
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
 
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
@@ -1948,7 +1972,7 @@ pub fn get_merkle_tree_cache_size(
 }
 
 pub fn is_merkle_tree_size_valid(leafs: usize, branches: usize) -> bool {
-    if branches == 0 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
+    if branches < 2 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
         return false;
     }
 
-- 
2.43.0


From 31d1f4a8676981a40addb647667c5af46a2d54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:23 +0000
Subject: [PATCH 12/36] fix: refuse to serve cached rows as base layer data

A LevelCacheStore whose file only holds the cached rows (built directly, or a
v2 store opened without an external reader) returned cached nodes when asked
for leafs before an external reader was set.
---
 src/store/level_cache.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 0a8b33c..d7169fd 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -575,6 +575,9 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         // The root isn't part of the previous loop so `row_count` is
         // missing one level.
 
+        // Only the cached rows are left on disk.
+        self.store_size = self.file.metadata()?.len() as usize;
+
         // Return the root.  Note that the offset is adjusted because
         // we've just built a store that says that it has the full
         // length of elements, when in fact only the cached portion is
@@ -703,6 +706,14 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
             "out of bounds"
         );
 
+        // Without an external reader, the base layer has to be on disk
+        // in addition to the cached rows.
+        let cache_size = (self.len * self.elem_len).saturating_sub(self.cache_index_start);
+        ensure!(
+            self.reader.is_some() || self.store_size >= data_end + cache_size,
+            "base layer data is not available without an external reader"
+        );
+
         Ok(())
     }
 
-- 
2.43.0


From 9ccfa211fcf90342fff609c41f3d2d99075eff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 13/36] fix: return store creation errors from from_par_iter

All other constructors report a failure to create the backing store as an
error; from_par_iter panicked.
---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 98be4a1..d5c60cd 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1662,7 +1662,7 @@ impl<
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
-        let mut data = S::new(size).expect("failed to create data store");
+        let mut data = S::new(size).context("failed to create data store")?;
 
         populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, None)?;
-- 
2.43.0


From 121cea8602bb6d133a3fbd9e511a9a64f26de7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:21 +0000
Subject: [PATCH 14/36] fix: refuse mismatched data and config lists in
 from_slices_with_configs

Missing configs caused an out of bounds panic, and excess ones were silently
ignored.
---
 src/merkle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index d5c60cd..cda32fa 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -739,6 +739,11 @@ impl<
         leafs: usize,
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
+        ensure!(
+            tree_data.len() == configs.len(),
+            "Tree data and config list lengths are invalid"
+        );
+
         let mut trees = Vec::with_capacity(tree_data.len());
         for i in 0..tree_data.len() {
             trees.push(
-- 
2.43.0


From c35dffc3244a851063d47e4d173e980e8f5f5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:39 +0000
Subject: [PATCH 15/36] fix: remove the backing file in MmapStore::delete

A persisted MmapStore reported a successful deletion but kept its file, so the
tree could not be created again under the same config.
---
 src/store/mmap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index b2abbd3..84edc5a 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -1,4 +1,4 @@
-use std::fs::{File, OpenOptions};
+use std::fs::{remove_file, File, OpenOptions};
 use std::marker::PhantomData;
 use std::ops;
 use std::path::Path;
@@ -279,8 +279,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
         Ok(())
     }
 
-    fn delete(_config: StoreConfig) -> Result<()> {
-        Ok(())
+    fn delete(config: StoreConfig) -> Result<()> {
+        let path = StoreConfig::data_path(&config.path, &config.id);
+        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From cd6efb3228e8ec75ae3fedf261d6261eab4b9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:05 +0000
Subject: [PATCH 16/36] fix: reject proofs whose lemma does not match their
 path

Surplus lemma or path entries of a compound layer were ignored, so such a
proof still validated, and a base proof whose lemma was extended (or a
compound proof without a path) made validation panic.
---
 src/proof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 5907722..2c019b6 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -88,6 +88,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Validates sub-tree proofs with the specified arity.
     fn validate_sub_tree_proof<A: Algorithm<T>>(&self, arity: usize) -> Result<bool> {
+        // The layer consists of the sibling roots, followed by the root.
+        if self.path.len() != 1 || self.lemma.len() != arity {
+            return Ok(false);
+        }
+
         // Ensure that the sub_tree validates to the root of that
         // sub_tree.
         let valid = self
@@ -170,6 +175,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         }
 
         let branches = BaseTreeArity::to_usize();
+        if size != get_merkle_proof_lemma_len(self.path.len() + 1, branches) {
+            return Ok(false);
+        }
+
         let mut a = A::default();
         let mut h = self.item();
         let mut path_index = 1;
-- 
2.43.0


From 347563113ab5bdd1c6171eca7fdbadc8bc31d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:31 +0000
Subject: [PATCH 17/36] fix: do not create empty stores in from_store_configs

---
 src/merkle.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index cda32fa..3987104 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -789,6 +789,13 @@ impl<
         let branches = BaseTreeArity::to_usize();
         let mut trees = Vec::with_capacity(configs.len());
         for config in configs {
+            // The stores must already exist, never create an empty one.
+            let data_path = StoreConfig::data_path(&config.path, &config.id);
+            ensure!(
+                data_path.exists(),
+                "store to be opened does not exist: {:?}",
+                data_path
+            );
             let data = S::new_with_config(
                 get_merkle_tree_len(leafs, branches)?,
                 branches,
-- 
2.43.0


From ba6782427a41ac1e206e7efe3d5cc64cd3aa280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:31 +0000
Subject: [PATCH 18/36] fix: refuse files of a wrong size in
 LevelCacheStore::new_from_disk

---
 src/store/level_cache.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index d7169fd..5d4a45d 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -298,19 +298,18 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             get_merkle_tree_cache_size(size, branches, config.rows_to_discard)? * E::byte_len();
         let cache_index_start = store_range - cache_size;
 
-        // For a true v1 compatible store, this check should remain,
-        // but since the store structure is identical otherwise this
-        // method can be re-used to open v2 stores, so long as an
-        // external_reader is set afterward.
+        // For a true v1 compatible store, the file consists of the
+        // base data and the cached data, but since the store structure
+        // is identical otherwise this method can be re-used to open v2
+        // stores (only the cached data), so long as an external_reader
+        // is set afterward.
 
         // Sanity checks that the StoreConfig rows_to_discard matches this
         // particular on-disk file.
-        /*
         ensure!(
-            store_size == size * E::byte_len() + cache_size,
+            store_size == size * E::byte_len() + cache_size || store_size == cache_size,
             "Inconsistent store size detected"
         );
-         */
 
         Ok(LevelCacheStore {
             len: store_range / E::byte_len(),
-- 
2.43.0


From e1a843c3cbd2d75cd62526f36306caa5561b352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:18 +0000
Subject: [PATCH 19/36] fix: store complete trees compacted in
 LevelCacheStore::new_from_slice_with_config

---
 src/store/level_cache.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 5d4a45d..67b3785 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -235,7 +235,19 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         // since it can be assumed by the config that the data is
         // already correct).
         if !store.loaded_from_disk {
-            store.store_copy_from_slice(0, data)?;
+            if data.len() == size * E::byte_len() {
+                // A complete tree is stored in the (v1) compacted
+                // form, since that's how it is read: the base data,
+                // followed by the cached data.
+                let data_end = store.data_width * store.elem_len;
+                let cached = &data[store.cache_index_start..];
+                store.store_copy_from_slice(0, &data[..data_end])?;
+                store.store_copy_from_slice(data_end, cached)?;
+                store.store_size = data_end + cached.len();
+                store.file.set_len(store.store_size as u64)?;
+            } else {
+                store.store_copy_from_slice(0, data)?;
+            }
             store.len = data.len() / store.elem_len;
         }
 
-- 
2.43.0


From b018e9bac36d64734240bf85df34fb1c28689df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 20/36] fix: locate the cached rows of a LevelCacheStore by its
 layout, not by its reader

---
 src/store/level_cache.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 67b3785..4475643 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -719,15 +719,21 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // Without an external reader, the base layer has to be on disk
         // in addition to the cached rows.
-        let cache_size = (self.len * self.elem_len).saturating_sub(self.cache_index_start);
         ensure!(
-            self.reader.is_some() || self.store_size >= data_end + cache_size,
+            self.reader.is_some() || self.has_base_data(),
             "base layer data is not available without an external reader"
         );
 
         Ok(())
     }
 
+    // Whether the base data layer precedes the cached rows on disk (v1),
+    // or only the cached rows are on disk (v2).
+    fn has_base_data(&self) -> bool {
+        let cache_size = (self.len * self.elem_len).saturating_sub(self.cache_index_start);
+        self.store_size >= self.data_width * self.elem_len + cache_size
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
@@ -762,8 +768,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         // Adjust read index if in the cached ranged to be shifted
         // over since the data stored is compacted.
         if start >= self.cache_index_start {
-            let v1 = self.reader.is_none();
-            adjusted_start = if v1 {
+            adjusted_start = if self.has_base_data() {
                 start - self.cache_index_start + (self.data_width * self.elem_len)
             } else {
                 start - self.cache_index_start
@@ -865,7 +870,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
             // Adjust read index if in the cached ranged to be shifted
             // over since the data stored is compacted.
             let adjusted_start = if start >= self.cache_index_start {
-                if self.reader.is_none() {
+                if self.has_base_data() {
                     // if v1
                     start - self.cache_index_start + (self.data_width * self.elem_len)
                 } else {
-- 
2.43.0


From 3b5c10d3a1f15b2ac906ad652c680b177236fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:21 +0000
Subject: [PATCH 21/36] fix: refuse fractions of elements in
 VecStore::new_from_slice

The other stores return an error, the VecStore dropped the remainder.
---
 src/store/vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/vec.rs b/src/store/vec.rs
index 9bf42a1..08c5da4 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -68,6 +68,12 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn new_from_slice(size: usize, data: &[u8]) -> Result<Self> {
+        ensure!(
+            data.len() % E::byte_len() == 0,
+            "data size must be a multiple of {}",
+            E::byte_len()
+        );
+
         let mut v: Vec<_> = data
             .chunks_exact(E::byte_len())
             .map(E::from_slice)
-- 
2.43.0


From aaa2f482fb7406006f6c667b74152c0168ad17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 22/36] fix: refuse layered tree shapes in the constructors of
 base trees

from_data_store and from_tree_slice refuse them, the other constructors
returned a tree that cannot generate any proof.
---
 src/merkle.rs | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 3987104..3e08422 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1532,6 +1532,15 @@ impl<
 
     /// Build the tree given a slice of all leafs, in bytes form.
     pub fn from_byte_slice_with_config(leafs: &[u8], config: StoreConfig) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Data slice must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Data slice must not have a top layer"
+        );
+
         ensure!(
             leafs.len() % E::byte_len() == 0,
             "{} ist not a multiple of {}",
@@ -1578,6 +1587,15 @@ impl<
 
     /// Build the tree given a slice of all leafs, in bytes form.
     pub fn from_byte_slice(leafs: &[u8]) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Data slice must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Data slice must not have a top layer"
+        );
+
         ensure!(
             leafs.len() % E::byte_len() == 0,
             "{} is not a multiple of {}",
@@ -1656,6 +1674,15 @@ impl<
         I: IntoParallelIterator<Item = E>,
         I::Iter: IndexedParallelIterator,
     {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Data iterator must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Data iterator must not have a top layer"
+        );
+
         let iter = into.into_par_iter();
 
         let leafs = iter.opt_len().expect("must be sized");
@@ -1700,6 +1727,15 @@ impl<
         I: IntoParallelIterator<Item = E>,
         I::Iter: IndexedParallelIterator,
     {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Data iterator must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Data iterator must not have a top layer"
+        );
+
         let iter = into.into_par_iter();
 
         let leafs = iter.opt_len().expect("must be sized");
@@ -1771,6 +1807,15 @@ impl<
     /// the provided iterator. This method returns the first error yielded by
     /// the iterator, if the iterator yielded an error.
     pub fn try_from_iter<I: IntoIterator<Item = Result<E>>>(into: I) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Data iterator must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Data iterator must not have a top layer"
+        );
+
         let iter = into.into_iter();
 
         let (_, n) = iter.size_hint();
@@ -1816,6 +1861,15 @@ impl<
         into: I,
         config: StoreConfig,
     ) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Data iterator must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Data iterator must not have a top layer"
+        );
+
         let iter = into.into_iter();
 
         let (_, n) = iter.size_hint();
-- 
2.43.0


From e288e62aa2c4ef5d6916d503c993ec9a97700b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 23/36] fix: return an error for writes beyond the end of a
 MmapStore

As the DiskStore does, instead of panicking.
---
 src/store/mmap.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 84edc5a..bd6c603 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -120,7 +120,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
         }
 
         //unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[start..end].copy_from_slice(el.as_ref());
+        let map = self.map.as_mut().unwrap();
+        ensure!(end <= map.len(), "not enough space");
+        map[start..end].copy_from_slice(el.as_ref());
         self.len = std::cmp::max(self.len, index + 1);
 
         Ok(())
@@ -141,7 +143,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
         }
 
         // unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[map_start..map_end].copy_from_slice(buf);
+        let map = self.map.as_mut().unwrap();
+        ensure!(map_end <= map.len(), "not enough space");
+        map[map_start..map_end].copy_from_slice(buf);
         self.len = std::cmp::max(self.len, start + (buf.len() / E::byte_len()));
 
         Ok(())
-- 
2.43.0


From 0405e434d8dc08bd21e2d0124f6b05c57a11ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 24/36] fix: return errors for reads beyond the end of a
 VecStore

As the other stores do, instead of panicking.
---
 src/store/vec.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/store/vec.rs b/src/store/vec.rs
index 08c5da4..4b01b2a 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -1,6 +1,6 @@
-use std::ops::{self, Index};
+use std::ops;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 use crate::merkle::Element;
 use crate::store::{Store, StoreConfig};
@@ -89,11 +89,13 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
-        Ok(self.0[index].clone())
+        let el = self.0.get(index).context("index out of range")?;
+        Ok(el.clone())
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
-        self.0[index].copy_to_slice(buf);
+        let el = self.0.get(index).context("index out of range")?;
+        el.copy_to_slice(buf);
         Ok(())
     }
 
@@ -102,7 +104,7 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
-        Ok(self.0.index(r).to_vec())
+        Ok(self.0.get(r).context("range out of range")?.to_vec())
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From ffbaac6ff1925a5272e3552aed553b413ed89444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:11 +0000
Subject: [PATCH 25/36] fix: refuse leaf counts that form no tree in
 get_merkle_tree_len for all arities

As is already done for binary trees.
---
 src/merkle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 3e08422..d57a266 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1996,6 +1996,11 @@ pub fn get_merkle_tree_len(leafs: usize, branches: usize) -> Result<usize> {
         return Ok(len);
     }
 
+    ensure!(
+        is_merkle_tree_size_valid(leafs, branches),
+        "leafs must be a power of branches"
+    );
+
     while cur > 0 {
         cur >>= shift; // cur /= branches
         ensure!(cur < leafs, "invalid input provided");
-- 
2.43.0


From 509928287258144f1cd2e650b36b187c781cd259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:43 +0000
Subject: [PATCH 26/36] fix: report a MmapStore file that cannot be opened as
 an error instead of a panic

---
 src/store/mmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index bd6c603..6853d42 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -86,7 +86,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
                 if e.kind() == std::io::ErrorKind::PermissionDenied {
                     error!("MmapStore doesn't support read-only storages");
                 }
-                panic!("{}", e)
+                return Err(e.into());
             }
         };
 
-- 
2.43.0


From 3fdbaa5fea73dddada1a51f3e3017f007c053107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 27/36] fix: a store iterator ends after a failed read instead
 of running past its end

---
 src/store/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 4e6aae7..e0d91b4 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -571,7 +571,7 @@ macro_rules! impl_parallel_iter {
 
         impl<'data, E: 'data + Element> $iter<'data, E> {
             fn is_done(&self) -> bool {
-                !self.err && self.len() == 0
+                self.err || self.len() == 0
             }
         }
 
-- 
2.43.0


From 4ad057ffb6463edf3727db174dcfc6ae5d6d2f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:12 +0000
Subject: [PATCH 28/36] fix: a DiskStore serves no data after a compaction that
 failed halfway

---
 src/store/disk.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 592c2ec..02a182b 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -257,23 +257,22 @@ impl<E: Element> Store<E> for DiskStore<E> {
         // Seek the writer.
         self.file.seek(SeekFrom::Start(start))?;
 
+        // From here on the data is replaced in place, so that no data is
+        // available from this store unless the compaction succeeds.
+        self.len = 0;
+
         // Copy the data from the cached region to the writer.
         let written = copy(&mut reader, &mut self.file)?;
         ensure!(written == cache_size as u64, "Failed to copy all data");
-        if v1 {
-            // Truncate the data on-disk to be the base layer data
-            // followed by the cached data.
-            self.file.set_len((data_width + cache_size) as u64)?;
-            // Adjust our length for internal consistency.
-            self.len = (data_width + cache_size) / self.elem_len;
-        } else {
-            // Truncate the data on-disk to be only the cached data.
-            self.file.set_len(cache_size as u64)?;
 
-            // Adjust our length to be the cached elements only for
-            // internal consistency.
-            self.len = cache_size / self.elem_len;
-        }
+        // Truncate the data on-disk to be the base layer data followed
+        // by the cached data (v1), or only the cached data (v2).
+        let compacted_size = if v1 {
+            data_width + cache_size
+        } else {
+            cache_size
+        };
+        self.file.set_len(compacted_size as u64)?;
 
         // Sync and sanity check that we match on disk (this can be
         // removed if needed).
@@ -281,10 +280,13 @@ impl<E: Element> Store<E> for DiskStore<E> {
         let metadata = self.file.metadata()?;
         let store_size = metadata.len() as usize;
         ensure!(
-            self.len * self.elem_len == store_size,
+            compacted_size == store_size,
             "Inconsistent metadata detected"
         );
 
+        // Adjust our length for internal consistency.
+        self.len = compacted_size / self.elem_len;
+
         Ok(true)
     }
 
-- 
2.43.0


From 0d34a592ebdca609243096315bc7b84141b039a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 29/36] fix: report a top layer proof without a sub-tree layer
 as an error

---
 src/proof.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 2c019b6..c2c4125 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -144,6 +144,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 self.sub_tree_proof.is_some(),
                 "Sub tree proof must be present for validation"
             );
+            ensure!(
+                self.sub_tree_layer_nodes > 0,
+                "Top layer proof must have a sub-tree layer"
+            );
 
             return self.validate_sub_tree_proof::<A>(self.top_layer_nodes);
         }
-- 
2.43.0


From c9adc5b0fca91a4ce50d1b2d1678fbfc8f225a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 30/36] fix: refuse compound trees made from parts of another
 layer

---
 src/merkle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index d57a266..ac8dfd4 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -525,6 +525,10 @@ impl<
             SubTreeArity::to_usize() > 0,
             "Cannot use from_trees if not constructing a structure with sub-trees"
         );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Cannot use from_trees if constructing a structure with a top layer"
+        );
         ensure!(
             trees
                 .iter()
@@ -591,6 +595,10 @@ impl<
             TopTreeArity::to_usize() > 0,
             "Cannot use from_sub_trees if not constructing a structure with sub-trees"
         );
+        ensure!(
+            SubTreeArity::to_usize() > 0,
+            "Cannot use from_sub_trees without a sub-tree layer"
+        );
         ensure!(
             trees
                 .iter()
-- 
2.43.0


From f64312efcad6c1df33330ecd23fc70048819b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 31/36] fix: report the last element of an empty store as an
 error instead of an underflow

---
 src/store/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index e0d91b4..289a8bb 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -248,6 +248,7 @@ pub trait Store<E: Element>: std::fmt::Debug + Send + Sync + Sized {
     fn is_empty(&self) -> bool;
     fn push(&mut self, el: E) -> Result<()>;
     fn last(&self) -> Result<E> {
+        ensure!(!self.is_empty(), "an empty store has no last element");
         self.read_at(self.len() - 1)
     }
 
-- 
2.43.0


From 062644634d86c4a06caaf3f97a672e00e6ba72f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 32/36] fix: refuse element indices whose byte offset overflows

---
 src/store/disk.rs        | 38 ++++++++++++++++++++++++++++++++++++++
 src/store/level_cache.rs | 38 ++++++++++++++++++++++++++++++++++++++
 src/store/mmap.rs        | 34 +++++++++++++++++++++++++++-------
 3 files changed, 103 insertions(+), 7 deletions(-)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 02a182b..d91dfec 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -133,6 +133,12 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn write_at(&mut self, el: E, index: usize) -> Result<()> {
+        ensure!(
+            index < self.store_size / self.elem_len,
+            "index out of range {} (max: {} bytes)",
+            index,
+            self.store_size
+        );
         self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
         self.len = std::cmp::max(self.len, index + 1);
         Ok(())
@@ -144,6 +150,12 @@ impl<E: Element> Store<E> for DiskStore<E> {
             "buf size must be a multiple of {}",
             self.elem_len
         );
+        ensure!(
+            start <= self.store_size / self.elem_len,
+            "start out of range {} (max: {} bytes)",
+            start,
+            self.store_size
+        );
         self.store_copy_from_slice(start * self.elem_len, buf)?;
         self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);
 
@@ -151,6 +163,12 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
+        ensure!(
+            index < self.len,
+            "index out of range {} >= {}",
+            index,
+            self.len
+        );
         let start = index * self.elem_len;
         let end = start + self.elem_len;
 
@@ -162,6 +180,12 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            index < self.len,
+            "index out of range {} >= {}",
+            index,
+            self.len
+        );
         let start = index * self.elem_len;
         let end = start + self.elem_len;
 
@@ -173,6 +197,13 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            start <= end && end <= self.len,
+            "range out of range {}..{} (max: {})",
+            start,
+            end,
+            self.len
+        );
         let start = start * self.elem_len;
         let end = end * self.elem_len;
 
@@ -184,6 +215,13 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
+        ensure!(
+            r.start <= r.end && r.end <= self.len,
+            "range out of range {}..{} (max: {})",
+            r.start,
+            r.end,
+            self.len
+        );
         let start = r.start * self.elem_len;
         let end = r.end * self.elem_len;
 
diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 4475643..1beedac 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -337,6 +337,12 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn write_at(&mut self, el: E, index: usize) -> Result<()> {
+        ensure!(
+            index < self.store_size / self.elem_len,
+            "index out of range {} (max: {} bytes)",
+            index,
+            self.store_size
+        );
         self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
         self.len = std::cmp::max(self.len, index + 1);
 
@@ -349,6 +355,12 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             "buf size must be a multiple of {}",
             self.elem_len
         );
+        ensure!(
+            start <= self.store_size / self.elem_len,
+            "start out of range {} (max: {} bytes)",
+            start,
+            self.store_size
+        );
         self.store_copy_from_slice(start * self.elem_len, buf)?;
         self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);
 
@@ -356,6 +368,12 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
+        ensure!(
+            index < self.len,
+            "index out of range {} >= {}",
+            index,
+            self.len
+        );
         let start = index * self.elem_len;
         let end = start + self.elem_len;
 
@@ -368,6 +386,12 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            index < self.len,
+            "index out of range {} >= {}",
+            index,
+            self.len
+        );
         let start = index * self.elem_len;
         let end = start + self.elem_len;
 
@@ -380,6 +404,13 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            start <= end && end <= self.len,
+            "range out of range {}..{} (max: {})",
+            start,
+            end,
+            self.len
+        );
         let start = start * self.elem_len;
         let end = end * self.elem_len;
 
@@ -392,6 +423,13 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
+        ensure!(
+            r.start <= r.end && r.end <= self.len,
+            "range out of range {}..{} (max: {})",
+            r.start,
+            r.end,
+            self.len
+        );
         let start = r.start * self.elem_len;
         let end = r.end * self.elem_len;
 
diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 6853d42..4f207c0 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -112,16 +112,16 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn write_at(&mut self, el: E, index: usize) -> Result<()> {
-        let start = index * E::byte_len();
-        let end = start + E::byte_len();
-
         if self.map.is_none() {
             self.reinit()?;
         }
 
         //unwrap is safe as we checked map to be initialised
         let map = self.map.as_mut().unwrap();
-        ensure!(end <= map.len(), "not enough space");
+        ensure!(index < map.len() / E::byte_len(), "not enough space");
+
+        let start = index * E::byte_len();
+        let end = start + E::byte_len();
         map[start..end].copy_from_slice(el.as_ref());
         self.len = std::cmp::max(self.len, index + 1);
 
@@ -135,15 +135,16 @@ impl<E: Element> Store<E> for MmapStore<E> {
             E::byte_len()
         );
 
-        let map_start = start * E::byte_len();
-        let map_end = map_start + buf.len();
-
         if self.map.is_none() {
             self.reinit()?;
         }
 
         // unwrap is safe as we checked map to be initialised
         let map = self.map.as_mut().unwrap();
+        ensure!(start <= map.len() / E::byte_len(), "not enough space");
+
+        let map_start = start * E::byte_len();
+        let map_end = map_start + buf.len();
         ensure!(map_end <= map.len(), "not enough space");
         map[map_start..map_end].copy_from_slice(buf);
         self.len = std::cmp::max(self.len, start + (buf.len() / E::byte_len()));
@@ -203,6 +204,12 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
+        ensure!(
+            index < self.len,
+            "index out of range {} >= {}",
+            index,
+            self.len
+        );
         let start = index * E::byte_len();
         let end = start + E::byte_len();
         let len = self.len * E::byte_len();
@@ -218,6 +225,12 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            index < self.len,
+            "index out of range {} >= {}",
+            index,
+            self.len
+        );
         let start = index * E::byte_len();
         let end = start + E::byte_len();
         let len = self.len * E::byte_len();
@@ -239,6 +252,13 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
+        ensure!(
+            r.start <= r.end && r.end <= self.len,
+            "range out of range {}..{} (max: {})",
+            r.start,
+            r.end,
+            self.len
+        );
         let start = r.start * E::byte_len();
         let end = r.end * E::byte_len();
         let len = self.len * E::byte_len();
-- 
2.43.0


From 99f2334c4cbef7165d5690949d2388553da173ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:59 +0000
Subject: [PATCH 33/36] fix: refuse initial data larger than the store

---
 src/store/mmap.rs | 8 ++++++--
 src/store/vec.rs  | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 4f207c0..8e717e9 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -178,7 +178,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
             let len = data.len();
 
             // unwrap is safe as we checked map to be initialised
-            store.map.as_mut().unwrap()[0..len].copy_from_slice(data);
+            let map = store.map.as_mut().unwrap();
+            ensure!(len <= map.len(), "not enough space");
+            map[0..len].copy_from_slice(data);
             store.len = len / E::byte_len();
         }
 
@@ -197,7 +199,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
 
         let len = data.len();
         // unwrap is safe as we checked map to be initialised
-        store.map.as_mut().unwrap()[0..len].copy_from_slice(data);
+        let map = store.map.as_mut().unwrap();
+        ensure!(len <= map.len(), "not enough space");
+        map[0..len].copy_from_slice(data);
         store.len = len / E::byte_len();
 
         Ok(store)
diff --git a/src/store/vec.rs b/src/store/vec.rs
index 4b01b2a..84574a1 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -78,6 +78,7 @@ impl<E: Element> Store<E> for VecStore<E> {
             .chunks_exact(E::byte_len())
             .map(E::from_slice)
             .collect();
+        ensure!(v.len() <= size, "not enough space");
         let additional = size - v.len();
         v.reserve(additional);
 
-- 
2.43.0


From bb194640e3abf1ae4c7082812f06a6985ddebbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:04 +0000
Subject: [PATCH 34/36] fix: validating a proof with an empty lemma against
 data is an error instead of a panic

---
 src/proof.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index c2c4125..fa9f7b9 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -223,11 +223,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         a.reset();
         let leaf_hash = a.leaf(item);
 
-        if leaf_hash == self.item() {
-            self.validate::<A>()
-        } else {
-            Ok(false)
-        }
+        // Only a valid proof is known to have an item.
+        Ok(self.validate::<A>()? && leaf_hash == self.item())
     }
 
     /// Returns the path of this proof.
-- 
2.43.0


From faa6bbd761e77f338ff02913f318f879b9858c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 35/36] fix: refuse reads into a buffer of another size than
 the requested elements

---
 src/store/disk.rs        | 7 +++++++
 src/store/level_cache.rs | 7 +++++++
 src/store/mmap.rs        | 6 ++++++
 src/store/vec.rs         | 8 +++++++-
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index d91dfec..7d5375c 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -564,6 +564,13 @@ impl<E: Element> DiskStore<E> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            start <= end && buf.len() == end - start,
+            "buffer of {} bytes for the range {}..{}",
+            buf.len(),
+            start,
+            end
+        );
         self.file
             .read_exact_at(start as u64, buf)
             .with_context(|| {
diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 1beedac..847e763 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -882,6 +882,13 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
+        ensure!(
+            start <= end && buf.len() == end - start,
+            "buffer of {} bytes for the range {}..{}",
+            buf.len(),
+            start,
+            end
+        );
         self.ensure_readable(start, end)?;
 
         // If an external reader was specified for the base layer, use it.
diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 8e717e9..528d7e1 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -246,6 +246,12 @@ impl<E: Element> Store<E> for MmapStore<E> {
             .map
             .as_ref()
             .context("Internal map needs to be initialized")?;
+        ensure!(
+            buf.len() == end - start,
+            "buffer of {} bytes for an element of {} bytes",
+            buf.len(),
+            end - start
+        );
         buf.copy_from_slice(&data[start..end]);
 
         Ok(())
diff --git a/src/store/vec.rs b/src/store/vec.rs
index 84574a1..838370c 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -1,6 +1,6 @@
 use std::ops;
 
-use anyhow::{Context, Result};
+use anyhow::{ensure, Context, Result};
 
 use crate::merkle::Element;
 use crate::store::{Store, StoreConfig};
@@ -96,6 +96,12 @@ impl<E: Element> Store<E> for VecStore<E> {
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
         let el = self.0.get(index).context("index out of range")?;
+        ensure!(
+            buf.len() == E::byte_len(),
+            "buffer of {} bytes for an element of {} bytes",
+            buf.len(),
+            E::byte_len()
+        );
         el.copy_to_slice(buf);
         Ok(())
     }
-- 
2.43.0


From 9b328389fb5348e17b64960df1ea9b23d10a740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 36/36] fix: syncing a mapped store writes it to disk

---
 src/store/mmap.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 528d7e1..ca32ced 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -322,6 +322,14 @@ impl<E: Element> Store<E> for MmapStore<E> {
         self.len == 0
     }
 
+    fn sync(&self) -> Result<()> {
+        if let Some(map) = &self.map {
+            map.flush().context("failed to sync map")?;
+        }
+
+        self.file.sync_all().context("failed to sync file")
+    }
+
     fn push(&mut self, el: E) -> Result<()> {
         let l = self.len;
 
-- 
2.43.0

