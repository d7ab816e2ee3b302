From a0f3819d01a78610e0800b259f82651ce302f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 01/40] fix: change queries by object only return triples with
 that object

For an object that a layer did not change, the by-object additions and
removals of a loaded layer returned the triples of the next object.
---
 src/layer/internal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index dfb342f..895242d 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -416,7 +416,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_additions_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
@@ -437,7 +438,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_removals_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
-- 
2.43.0


From 4d9d7e40c98af6481b3ade7584dd5401efed731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 02/40] fix: allow partial rollups of a layer that has been
 rolled up completely

The rollup of such a layer is a base layer, which has no parent file to
read.
---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 97c669d..82d6b00 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1770,7 +1770,7 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            if Some(upto) == self.layer_parent(rollup).await? {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
@@ -1805,7 +1805,7 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            if Some(upto) == self.layer_parent(rollup).await? {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
-- 
2.43.0


From 45323d1469cabb0c9f91d8afe354e7aa1654e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 03/40] fix: partial rollup of a layer whose rollup goes beyond
 the requested ancestor

If the layer to roll up was itself loaded as such a rollup, none of the
layers in memory are usable, and the code panicked. Everything is now
read from disk in that case.
---
 src/storage/delta.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 033c510..d734d4c 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -44,6 +44,19 @@ async fn safe_upto_bound<S: LayerStore>(
     }
 }
 
+/// The in-memory layers above the bound that was found by `safe_upto_bound`.
+///
+/// If the layer is itself a rollup layer that goes beyond the layer we
+/// are interested in, the bound is the layer itself, and nothing can be
+/// used from memory.
+fn memory_layers_upto(layer: &InternalLayer, bound: [u32; 5]) -> Vec<&InternalLayer> {
+    if layer.name() == bound {
+        Vec::new()
+    } else {
+        layer.immediate_layers_upto(bound)
+    }
+}
+
 async fn get_node_dicts_from_disk<S: LayerStore>(
     store: &S,
     name: [u32; 5],
@@ -154,8 +167,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let node_dicts: Vec<_> = disk_node_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
+            memory_layers_upto(layer, memory_upto)
                 .into_iter()
                 .map(|l| l.node_dictionary().clone()),
         )
@@ -163,8 +175,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let predicate_dicts: Vec<_> = disk_predicate_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
+            memory_layers_upto(layer, memory_upto)
                 .into_iter()
                 .map(|l| l.predicate_dictionary().clone()),
         )
@@ -172,8 +183,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let value_dicts: Vec<_> = disk_value_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
+            memory_layers_upto(layer, memory_upto)
                 .into_iter()
                 .map(|l| l.value_dictionary().clone()),
         )
@@ -182,8 +192,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let node_value_idmaps: Vec<_> = disk_node_value_idmaps
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
+            memory_layers_upto(layer, memory_upto)
                 .into_iter()
                 .map(|l| l.node_value_id_map().clone()),
         )
@@ -192,8 +201,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let predicate_idmaps: Vec<_> = disk_predicate_idmaps
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
+            memory_layers_upto(layer, memory_upto)
                 .into_iter()
                 .map(|l| l.node_value_id_map().clone()),
         )
@@ -396,9 +404,13 @@ pub async fn delta_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore>
     .await?;
 
     let disk_changes = store.layer_changes_upto(bound, upto).await?;
-    let memory_changes =
-        InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found");
-    let changes = InternalTripleStackIterator::merge(vec![disk_changes, memory_changes]);
+    let mut parts = vec![disk_changes];
+    if bound != layer.name() {
+        parts.push(
+            InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found"),
+        );
+    }
+    let changes = InternalTripleStackIterator::merge(parts);
     let additions = changes
         .clone()
         .filter(|(sort, _)| *sort == TripleChange::Addition)
-- 
2.43.0


From 09d25d64056369827d72f5ed0a9d42af1ac428a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 04/40] fix: use the predicate id maps when building those of a
 partial rollup

The node and value id maps of the layers in memory were used for the
predicates, so that predicates were confused after rolling up a layer
with such maps once more.
---
 src/storage/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index d734d4c..5a2b4e3 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -203,7 +203,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
         .chain(
             memory_layers_upto(layer, memory_upto)
                 .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
+                .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
 
-- 
2.43.0


From f54082f1c41549bc81a1dc7dd5baf219b5386a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 05/40] fix: imprecise rollups are children of the layer they
 were rolled up to

When a rollup layer in memory inhibited rolling up all the way to the
requested ancestor, the triples and terms were collected down to that
rollup layer, but the parent recorded was the requested ancestor, which
lost all changes in between. When nothing was left to be rolled up the
code panicked.
---
 src/storage/delta.rs |  2 +-
 src/storage/layer.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 5a2b4e3..745389f 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -5,7 +5,7 @@ use crate::layer::*;
 use crate::storage::*;
 use tdb_succinct::*;
 
-async fn safe_upto_bound<S: LayerStore>(
+pub(crate) async fn safe_upto_bound<S: LayerStore>(
     store: &S,
     layer: &InternalLayer,
     upto: [u32; 5],
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 82d6b00..91e4c08 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1811,10 +1811,19 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             }
         }
 
+        // The triples and dictionaries we roll up are those in memory,
+        // above this bound. The bound is therefore what has to become
+        // the parent of the rollup layer.
+        let bound = safe_upto_bound(self, &layer, upto).await?;
+        if layer.name() == bound || layer.parent_name() == Some(bound) {
+            // nothing is left to be rolled up.
+            return Ok(layer.name());
+        }
+
         let (layer_dir, _parent_layer, child_layer_files) = self
-            .create_child_layer_files_with_cache(upto, cache)
+            .create_child_layer_files_with_cache(bound, cache)
             .await?;
-        imprecise_delta_rollup_upto(self, &layer, upto, child_layer_files).await?;
+        imprecise_delta_rollup_upto(self, &layer, bound, child_layer_files).await?;
         self.finalize(layer_dir).await?;
         Ok(layer_dir)
     }
-- 
2.43.0


From 4e06fe44797cb1497ae44daeda9e6873a7d4b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 06/40] fix: CachedLayerStore reports the predicate count of
 uncached layers

It reported their value count.
---
 src/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index f49565b..2cec0e7 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -197,7 +197,7 @@ impl LayerStore for CachedLayerStore {
             }
         }
 
-        self.inner.get_value_count(name).await
+        self.inner.get_predicate_count(name).await
     }
 
     async fn get_value_count(&self, name: [u32; 5]) -> io::Result<Option<u64>> {
-- 
2.43.0


From 744a08847a7ea0e03471016ddf137cecbf312521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 07/40] fix: layer_changes collects the changes of every layer
 on the way

It collected those of the first layer over and over.
---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 91e4c08..26be9ce 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -321,8 +321,8 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         let mut positives = Vec::new();
         let mut negatives = Vec::new();
         walk_backwards_from_disk!(self, name, current, {
-            positives.push(self.triple_additions(name).await?);
-            negatives.push(self.triple_removals(name).await?);
+            positives.push(self.triple_additions(current).await?);
+            negatives.push(self.triple_removals(current).await?);
         });
         positives.reverse();
         negatives.reverse();
-- 
2.43.0


From a62ad334b6d42aec0ff86d4f86be065e0f1df969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 08/40] fix: clearing a label in the cached directory label
 store left the old layer name in the file

---
 src/storage/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 723e8f1..6d2f697 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -427,6 +427,7 @@ impl LabelStore for CachedDirectoryLabelStore {
                 let mut options = fs::OpenOptions::new();
                 options.create(false);
                 options.write(true);
+                options.truncate(true);
                 let mut file = options.open(p).await?;
                 file.write_all(&contents).await?;
                 file.flush().await?;
-- 
2.43.0


From 99f75e644b942e4aa252979c16808685ba2ed44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 09/40] fix: memory label store accepted a stale label of the
 same version in compare-and-set

---
 src/storage/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 0d8fbfc..75f0b61 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -130,7 +130,7 @@ impl LabelStore for MemoryLabelStore {
                 "label does not exist",
             )),
             Some(old_label) => {
-                if old_label.version + 1 != new_label.version {
+                if old_label != label {
                     Ok(None)
                 } else {
                     labels.insert(new_label.name.clone(), new_label.clone());
-- 
2.43.0


From 537662be388205e5f0d28f2ac680803899b7e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 10/40] fix: apply_delta and apply_diff report errors of the
 builder instead of ignoring them or panicking

---
 src/store/mod.rs | 58 ++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 9df6b32..c7a547b 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -169,58 +169,58 @@ impl StoreLayerBuilder {
         // first check what dictionary entries we don't know about, add those
         let triple_additions = delta.triple_additions().await?;
         let triple_removals = delta.triple_removals().await?;
-        rayon::join(
+        let (additions_result, removals_result) = rayon::join(
             move || {
-                triple_additions.par_bridge().for_each(|t| {
+                triple_additions.par_bridge().try_for_each(|t| {
                     delta
                         .id_triple_to_string(&t)
-                        .map(|st| self.add_value_triple(st));
-                });
+                        .map_or(Ok(()), |st| self.add_value_triple(st))
+                })
             },
             move || {
-                triple_removals.par_bridge().for_each(|t| {
+                triple_removals.par_bridge().try_for_each(|t| {
                     delta
                         .id_triple_to_string(&t)
-                        .map(|st| self.remove_value_triple(st));
+                        .map_or(Ok(()), |st| self.remove_value_triple(st))
                 })
             },
         );
 
-        Ok(())
+        additions_result.and(removals_result)
     }
 
     /// Apply the changes required to change our parent layer into the given layer.
     pub fn apply_diff(&self, other: &StoreLayer) -> Result<(), io::Error> {
         // create a child builder and use it directly
         // first check what dictionary entries we don't know about, add those
-        rayon::join(
+        let (removals_result, additions_result) = rayon::join(
+            || match self.parent() {
+                Some(this) => this.triples().par_bridge().try_for_each(|t| {
+                    match this.id_triple_to_string(&t) {
+                        Some(st) if !other.value_triple_exists(&st) => self.remove_value_triple(st),
+                        _ => Ok(()),
+                    }
+                }),
+                None => Ok(()),
+            },
             || {
-                if let Some(this) = self.parent() {
-                    this.triples().par_bridge().for_each(|t| {
-                        if let Some(st) = this.id_triple_to_string(&t) {
-                            if !other.value_triple_exists(&st) {
-                                self.remove_value_triple(st).unwrap()
-                            }
+                other
+                    .triples()
+                    .par_bridge()
+                    .try_for_each(|t| match other.id_triple_to_string(&t) {
+                        Some(st)
+                            if !self
+                                .parent()
+                                .map_or(false, |this| this.value_triple_exists(&st)) =>
+                        {
+                            self.add_value_triple(st)
                         }
+                        _ => Ok(()),
                     })
-                };
-            },
-            || {
-                other.triples().par_bridge().for_each(|t| {
-                    if let Some(st) = other.id_triple_to_string(&t) {
-                        if let Some(this) = self.parent() {
-                            if !this.value_triple_exists(&st) {
-                                self.add_value_triple(st).unwrap()
-                            }
-                        } else {
-                            self.add_value_triple(st).unwrap()
-                        };
-                    }
-                })
             },
         );
 
-        Ok(())
+        removals_result.and(additions_result)
     }
 }
 
-- 
2.43.0


From 119d000a9da6992a8b86791fc3f494ead49cf5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 11/40] fix: listing the layers of a directory store descends
 into the prefix directories

---
 src/storage/directory.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 6d2f697..5a14463 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -32,18 +32,25 @@ impl DirectoryLayerStore {
 impl PersistentLayerStore for DirectoryLayerStore {
     type File = FileBackedStore;
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
+        // layer directories are grouped by the first characters of their name
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_dir() {
-                let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                result.push(string_to_name(name)?);
+        while let Some(prefix_entry) = stream.next_entry().await? {
+            if !prefix_entry.file_type().await?.is_dir() {
+                continue;
+            }
+            let mut prefix_stream = fs::read_dir(prefix_entry.path()).await?;
+            while let Some(direntry) = prefix_stream.next_entry().await? {
+                if direntry.file_type().await?.is_dir() {
+                    let os_name = direntry.file_name();
+                    let name = os_name.to_str().ok_or_else(|| {
+                        io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "unexpected non-utf8 directory name",
+                        )
+                    })?;
+                    result.push(string_to_name(name)?);
+                }
             }
         }
 
-- 
2.43.0


From 0555cfede03e49add1e5e1947adc21e62c213d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 12/40] fix: listing the layers of an archive store descends
 into the prefix directories

---
 src/storage/archive.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index d12b42f..ce6498e 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -223,19 +223,26 @@ impl ArchiveBackend for DirectoryArchiveBackend {
 #[async_trait]
 impl ArchiveMetadataBackend for DirectoryArchiveBackend {
     async fn get_layer_names(&self) -> io::Result<Vec<[u32; 5]>> {
+        // archives are grouped in directories by the first characters of their name
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            let os_name = direntry.file_name();
-            let name = os_name.to_str().ok_or_else(|| {
-                io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "unexpected non-utf8 directory name",
-                )
-            })?;
-            if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
-                let name_component = &name[..name.len() - 6];
-                result.push(string_to_name(name_component)?);
+        while let Some(prefix_entry) = stream.next_entry().await? {
+            if !prefix_entry.file_type().await?.is_dir() {
+                continue;
+            }
+            let mut prefix_stream = fs::read_dir(prefix_entry.path()).await?;
+            while let Some(direntry) = prefix_stream.next_entry().await? {
+                let os_name = direntry.file_name();
+                let name = os_name.to_str().ok_or_else(|| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "unexpected non-utf8 directory name",
+                    )
+                })?;
+                if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
+                    let name_component = &name[..name.len() - 6];
+                    result.push(string_to_name(name_component)?);
+                }
             }
         }
 
-- 
2.43.0


From d823d1f3c085f9d363b8a7b8f027dfc8b4bb2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 13/40] fix: parsing a layer name that is not hexadecimal
 returns an error instead of panicking

---
 src/storage/layer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 26be9ce..1ef158b 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1398,6 +1398,12 @@ pub fn string_to_name(string: &str) -> Result<[u32; 5], std::io::Error> {
             format!("string not len 40: {}", string),
         ));
     }
+    if !string.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("string not hexadecimal: {}", string),
+        ));
+    }
     let n1 = u32::from_str_radix(&string[..8], 16)
         .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
     let n2 = u32::from_str_radix(&string[8..16], 16)
-- 
2.43.0


From 0331553d3783d05d49fbaa30dd893eab89440d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 14/40] fix: creating an existing layer directory in an archive
 store is an error instead of a panic

---
 src/storage/archive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index ce6498e..531518c 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1393,7 +1393,10 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
             let mut guard = self.construction.write().unwrap();
             if guard.contains_key(&name) {
                 // whoops! Looks like layer is already under construction!
-                panic!("tried to create a new layer which is already under construction");
+                return Err(io::Error::new(
+                    io::ErrorKind::AlreadyExists,
+                    "tried to create a new layer which is already under construction",
+                ));
             }
 
             // layer is neither on disk nor in the construction map. Let's create it.
@@ -1401,7 +1404,10 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
             return Ok(name);
         } else {
             // still here? That means the file existed, even though it shouldn't!
-            panic!("tried to create a new layer which already exists");
+            Err(io::Error::new(
+                io::ErrorKind::AlreadyExists,
+                "tried to create a new layer which already exists",
+            ))
         }
     }
 
-- 
2.43.0


From f6afae44113c4476230c86e863f0c0654146cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 15/40] fix: import packs completely or not at all, and leave
 existing and absent layers alone

---
 src/storage/pack.rs | 209 ++++++++++++++++++++++++++++++--------------
 1 file changed, 144 insertions(+), 65 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 88002a8..21567df 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -65,73 +65,153 @@ impl<T: PersistentLayerStore> Packable for T {
         pack: &[u8],
         layer_ids: Box<dyn Iterator<Item = [u32; 5]> + Send>,
     ) -> io::Result<()> {
-        let mut layer_id_set = HashSet::new();
-        for id in layer_ids {
-            layer_id_set.insert(name_to_string(id));
-            self.create_named_directory(id).await?;
+        let requested: HashSet<String> = layer_ids.map(name_to_string).collect();
+
+        // Read everything we need from the pack before touching the
+        // store, so that a pack which turns out to be malformed has
+        // no effect.
+        //
+        // TODO we actually need to validate that these layers, when extracted, will make for a valid store.
+        // In terminus-server we are currently already doing this validation. Due to time constraints, we're not implementing it here.
+        //
+        // This should definitely be done in the future though, to make this part of the library independently usable in a safe manner.
+        let layers = tokio::task::block_in_place(|| read_pack_layers(pack, &requested))?;
+
+        // layers are immutable, so what is already there stays as it is.
+        let mut missing = Vec::with_capacity(layers.len());
+        for (id, files) in layers {
+            if !layer_is_present(self, id, &files).await? {
+                missing.push((id, files));
+            }
         }
 
-        let handle = tokio::runtime::Handle::current();
-        tokio::task::block_in_place(|| {
-            let cursor = io::Cursor::new(pack);
-            let tar = GzDecoder::new(cursor);
-            let mut archive = Archive::new(tar);
-
-            // TODO we actually need to validate that these layers, when extracted, will make for a valid store.
-            // In terminus-server we are currently already doing this validation. Due to time constraints, we're not implementing it here.
-            //
-            // This should definitely be done in the future though, to make this part of the library independently usable in a safe manner.
-            for e in archive.entries()? {
-                let mut entry = e?;
-                let path = entry.path()?;
-                let os_file_name = path.file_name().unwrap();
-                let file_name = os_file_name
-                    .to_str()
-                    .ok_or_else(|| {
-                        io::Error::new(
-                            io::ErrorKind::InvalidData,
-                            "unexpected non-utf8 directory name",
-                        )
-                    })?
-                    .to_owned();
-
-                // check if entry is prefixed with a layer id we are interested in
-                let layer_id = path.iter().next().and_then(|p| p.to_str()).unwrap_or("");
-
-                if layer_id_set.contains(layer_id) {
-                    // this conversion should always work cause we are
-                    // only able to match things that went through the
-                    // conversion in the opposite direction.
-                    let layer_id_arr = string_to_name(layer_id).unwrap();
-
-                    let header = entry.header();
-                    if !header.entry_type().is_file() {
-                        continue;
-                    }
-
-                    let mut content = Vec::with_capacity(header.size()? as usize);
-                    entry.read_to_end(&mut content)?;
-
-                    handle.block_on(async move {
-                        let file = self.get_file(layer_id_arr, &file_name).await?;
-                        let mut writer = file.open_write().await?;
-                        writer.write_all(&content).await?;
-                        writer.flush().await?;
-                        writer.sync_all().await?;
-
-                        Ok::<_, io::Error>(())
-                    })?;
-                }
+        for (id, files) in missing {
+            self.create_named_directory(id).await?;
+            for (file_name, content) in files {
+                let file = self.get_file(id, &file_name).await?;
+                let mut writer = file.open_write().await?;
+                writer.write_all(&content).await?;
+                writer.flush().await?;
+                writer.sync_all().await?;
             }
+            self.finalize_layer(id).await?;
+        }
 
-            for layer_id in layer_id_set {
-                let layer_id_arr = string_to_name(&layer_id).unwrap();
-                handle.block_on(self.finalize_layer(layer_id_arr))?;
-            }
+        Ok(())
+    }
+}
+
+/// The files of a layer by name.
+type PackedLayerFiles = HashMap<String, Vec<u8>>;
+
+fn invalid_pack<M: Into<String>>(message: M) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, message.into())
+}
+
+/// All files that have to be there in a layer.
+fn required_layer_files(is_child: bool) -> impl Iterator<Item = &'static str> {
+    let specific: &'static [&'static str] = if is_child {
+        &CHILD_LAYER_REQUIRED_FILES
+    } else {
+        &BASE_LAYER_REQUIRED_FILES
+    };
+
+    SHARED_REQUIRED_FILES.iter().chain(specific).copied()
+}
+
+/// Read the files of all requested layers that are in this pack.
+fn read_pack_layers(
+    pack: &[u8],
+    requested: &HashSet<String>,
+) -> io::Result<HashMap<[u32; 5], PackedLayerFiles>> {
+    let mut archive = Archive::new(GzDecoder::new(pack));
+    let mut layers: HashMap<[u32; 5], PackedLayerFiles> = HashMap::new();
+
+    for e in archive.entries()? {
+        let mut entry = e?;
+        if !entry.header().entry_type().is_file() {
+            continue;
+        }
+
+        // we're interested in files directly inside of a directory named after a requested layer
+        let path = entry.path()?.into_owned();
+        let components: Vec<_> = path.iter().collect();
+        if components.len() != 2 {
+            continue;
+        }
+        let layer_id = match components[0].to_str() {
+            Some(layer_id) if requested.contains(layer_id) => string_to_name(layer_id)?,
+            _ => continue,
+        };
+        let file_name = components[1]
+            .to_str()
+            .ok_or_else(|| invalid_pack("unexpected non-utf8 file name"))?;
+        if !FILENAME_ENUM_MAP.contains_key(file_name) || file_name == FILENAMES.rollup {
+            // not a file that can be part of an exported layer.
+            continue;
+        }
+
+        let mut content = Vec::new();
+        entry.read_to_end(&mut content)?;
+        layers
+            .entry(layer_id)
+            .or_default()
+            .insert(file_name.to_owned(), content);
+    }
+
+    // the archive ends before the compressed stream does. Read on to have its checksum verified.
+    io::copy(&mut archive.into_inner(), &mut io::sink())?;
+
+    for (id, files) in layers.iter() {
+        let parent = files.get(FILENAMES.parent);
+        if let Some(parent) = parent {
+            bytes_to_name(parent)?;
+        }
+        if let Some(file) = required_layer_files(parent.is_some()).find(|f| !files.contains_key(*f))
+        {
+            return Err(invalid_pack(format!(
+                "layer {} in pack lacks file {}",
+                name_to_string(*id),
+                file
+            )));
+        }
+    }
+
+    Ok(layers)
+}
 
-            Ok(())
-        })
+/// Returns true if the store already has the given layer, and false
+/// if it doesn't, or if only part of it is there.
+async fn layer_is_present<S: PersistentLayerStore>(
+    store: &S,
+    id: [u32; 5],
+    files: &PackedLayerFiles,
+) -> io::Result<bool> {
+    if !store.directory_exists(id).await? {
+        return Ok(false);
+    }
+    let is_child = store.file_exists(id, FILENAMES.parent).await?;
+    for file_name in required_layer_files(is_child) {
+        if !store.file_exists(id, file_name).await? {
+            return Ok(false);
+        }
     }
+
+    for (file_name, content) in files.iter() {
+        if !store.file_exists(id, file_name).await?
+            || store.get_file(id, file_name).await?.size().await? != content.len()
+        {
+            return Err(io::Error::new(
+                io::ErrorKind::AlreadyExists,
+                format!(
+                    "layer {} already exists with different contents",
+                    name_to_string(id)
+                ),
+            ));
+        }
+    }
+
+    Ok(true)
 }
 
 async fn tar_append_file<S: PersistentLayerStore, W: io::Write>(
@@ -279,12 +359,11 @@ pub fn pack_layer_parents<R: io::Read>(
         let id = string_to_name(
             path.iter()
                 .next()
-                .expect("expected path to have at least one component")
-                .to_str()
-                .expect("expected proper unicode path"),
+                .and_then(|component| component.to_str())
+                .ok_or_else(|| invalid_pack("unexpected entry name in pack"))?,
         )?;
 
-        if path.file_name().expect("expected path to have a filename") == "parent.hex" {
+        if path.file_name().map_or(false, |name| name == "parent.hex") {
             // this is an element we want to know the parent of
             // lets read it
             let mut parent_id_bytes = [0u8; 40];
-- 
2.43.0


From a1dd77a72df81443e2575fe80cc642b018435b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 16/40] fix: a failing file lock is an error instead of a panic

---
 src/storage/locking.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index d55fe33..bd28005 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -13,7 +13,7 @@ use tokio::task::{spawn_blocking, JoinHandle};
 
 pub struct LockedFileLockFuture {
     file: Option<std::fs::File>,
-    spawn: Option<JoinHandle<()>>,
+    spawn: Option<JoinHandle<io::Result<()>>>,
     exclusive: bool,
 }
 
@@ -41,28 +41,22 @@ impl Future for LockedFileLockFuture {
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<std::fs::File>> {
         if self.file.is_some() {
             if self.spawn.is_none() {
-                let file = self
-                    .file
-                    .as_ref()
-                    .unwrap()
-                    .try_clone()
-                    .expect("file clone failed");
+                let file = self.file.as_ref().unwrap().try_clone()?;
                 let exclusive = self.exclusive;
                 self.spawn = Some(spawn_blocking(move || {
                     if exclusive {
                         file.lock_exclusive()
-                            .expect("failed to acquire exclusive lock")
+                    } else if !cfg!(feature = "noreadlock") {
+                        file.lock_shared()
                     } else {
-                        if !cfg!(feature = "noreadlock") {
-                            file.lock_shared()
-                                .expect("failed to acquire exclusive lock")
-                        }
+                        Ok(())
                     }
                 }));
             }
 
             match Pin::new(&mut self.spawn.as_mut().unwrap()).poll(cx) {
-                Poll::Ready(Ok(_)) => {
+                Poll::Ready(Ok(Err(e))) => Poll::Ready(Err(e)),
+                Poll::Ready(Ok(Ok(()))) => {
                     let mut file = None;
                     std::mem::swap(&mut file, &mut self.file);
                     Poll::Ready(Ok(file.unwrap()))
-- 
2.43.0


From 47989e1cf5eca16731a48ef5defb253ae1aad91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 17/40] fix: a directory store that can not access a layer file
 does not take it for absent

---
 src/storage/directory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 5a14463..faec791 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -76,7 +76,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_dir()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
 
@@ -98,7 +99,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_file()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
-- 
2.43.0


From aaccad08998b0eac5a95ff48cdd722894a11800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 18/40] fix: failing to look up the rollup of an archive layer
 is an error instead of a panic

---
 src/storage/archive.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 531518c..cefebeb 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -313,7 +313,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             // no such layer - therefore no such rollup
             return Ok(None);
         }
-        let _layer_lock = layer_lock.unwrap();
+        let _layer_lock = layer_lock?;
 
         let path = self.path_for_rollup(id);
         let result = fs::read_to_string(path).await;
@@ -322,9 +322,12 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             return Ok(None);
         }
         let data = result?;
-        let name = data.lines().skip(1).next().expect(
-            "Expected rollup file to have two lines but was unable to skip to the second line",
-        );
+        let name = data.lines().skip(1).next().ok_or_else(|| {
+            io::Error::new(
+                ErrorKind::InvalidData,
+                format!("expected rollup file to have two lines. contents were ({data:?})"),
+            )
+        })?;
         Ok(Some(string_to_name(&name)?))
     }
 
-- 
2.43.0


From 495f79be72195b955978d389e70269816d3e1f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 19/40] fix: an error while reading a slice of an archive is
 not the end of the slice

---
 src/storage/archive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index cefebeb..4665c83 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1034,8 +1034,8 @@ impl AsyncRead for ArchiveSliceReader {
 
         let before_len = buf.filled().len();
         let read = AsyncRead::poll_read(Pin::new(&mut self.file), cx, buf);
-        if let Poll::Pending = read {
-            return Poll::Pending;
+        if !matches!(read, Poll::Ready(Ok(()))) {
+            return read;
         }
 
         let after_len = buf.filled().len();
-- 
2.43.0


From 8096897037fa33ca38872292cba90bda47ee9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:07 +0000
Subject: [PATCH 20/40] fix: archive layers and their rollup files are stored
 completely or not at all

---
 src/storage/archive.rs   | 38 ++++++-------------------------
 src/storage/directory.rs | 49 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 4665c83..914b52e 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -24,7 +24,7 @@ use bytes::{Buf, BufMut, Bytes, BytesMut};
 use lru::LruCache;
 use tokio::{
     fs::{self, File},
-    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite},
 };
 use tokio_util::either::Either;
 
@@ -35,6 +35,7 @@ use tdb_succinct::{
 
 use super::{
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
+    directory::{sync_directory, write_file_atomically},
     locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
 };
@@ -164,36 +165,16 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         }
     }
 
-    async fn store_layer_file(&self, id: [u32; 5], mut bytes: Bytes) -> io::Result<()> {
+    async fn store_layer_file(&self, id: [u32; 5], bytes: Bytes) -> io::Result<()> {
         let path = self.path_for_layer(id);
         let mut directory_path = path.clone();
         directory_path.pop();
         fs::create_dir_all(&directory_path).await?;
 
-        let mut options = tokio::fs::OpenOptions::new();
-        options.create(true);
-        options.write(true);
-        let mut file = options.open(path).await?;
-        while bytes.remaining() > 0 {
-            let chunk = bytes.chunk();
-            let written = file.write(chunk).await?;
-            bytes.advance(written);
-        }
+        write_file_atomically(&path, &bytes).await?;
 
-        file.flush().await?;
-        file.sync_all().await?;
-
-        if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
-        }
-
-        Ok(())
+        // the directory with the layer may be new as well
+        sync_directory(&self.path).await
     }
 
     async fn read_layer_structure_bytes_from(
@@ -341,12 +322,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
         data.extend_from_slice(b"1\n");
         data.extend_from_slice(name_to_string(rollup).as_bytes());
         data.extend_from_slice(b"\n");
-        let mut file = fs::File::create(path).await?;
-        file.write_all(&data).await?;
-        file.flush().await?;
-        file.sync_all().await?;
-
-        Ok(())
+        write_file_atomically(&path, &data).await
     }
 
     async fn get_parent(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>> {
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index faec791..543cf4c 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -3,7 +3,7 @@
 use locking::*;
 use std::collections::HashMap;
 use std::io::{self, SeekFrom};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -17,6 +17,53 @@ use super::*;
 
 const PREFIX_DIR_SIZE: usize = 3;
 
+/// Ensure that what was created, renamed or removed in this directory stays that way.
+pub(super) async fn sync_directory(path: &Path) -> io::Result<()> {
+    if cfg!(unix) {
+        fs::File::open(path).await?.sync_all().await?;
+    }
+
+    Ok(())
+}
+
+async fn write_temporary_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let mut options = fs::OpenOptions::new();
+    options.create_new(true);
+    options.write(true);
+    let mut file = options.open(path).await?;
+    file.write_all(contents).await?;
+    file.flush().await?;
+    file.sync_all().await
+}
+
+/// A path in the same directory that nobody else uses.
+fn temporary_path(path: &Path) -> PathBuf {
+    let mut file_name = path.file_name().unwrap_or_default().to_os_string();
+    file_name.push(format!(".{:016x}.tmp", rand::random::<u64>()));
+
+    path.with_file_name(file_name)
+}
+
+/// Create a file, or replace the one that's there, such that it has
+/// either its old or its new contents, whatever happens along the
+/// way.
+pub(super) async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let temporary = temporary_path(path);
+    let mut result = write_temporary_file(&temporary, contents).await;
+    if result.is_ok() {
+        result = fs::rename(&temporary, path).await;
+    }
+    if result.is_err() {
+        let _ = fs::remove_file(&temporary).await;
+        return result;
+    }
+
+    match path.parent() {
+        Some(directory) => sync_directory(directory).await,
+        None => Ok(()),
+    }
+}
+
 #[derive(Clone)]
 pub struct DirectoryLayerStore {
     path: PathBuf,
-- 
2.43.0


From 917284ee32ae319b0a477f1e1a2e89a5c2fe145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 21/40] fix: the directories of a layer and its rollup file
 survive a crash once they are acknowledged

---
 src/storage/directory.rs | 41 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 543cf4c..b46895c 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -13,7 +13,7 @@ use async_trait::async_trait;
 
 pub use tdb_succinct::storage::file::*;
 
-use super::*;
+use super::{consts::FILENAMES, *};
 
 const PREFIX_DIR_SIZE: usize = 3;
 
@@ -151,22 +151,29 @@ impl PersistentLayerStore for DirectoryLayerStore {
         }
     }
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
-        if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
-            let mut directory_path = self.path.clone();
-            let dir_name = name_to_string(directory);
-            directory_path.push(&dir_name[0..PREFIX_DIR_SIZE]);
-            directory_path.push(dir_name);
-
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
-        }
-
-        Ok(())
+        // ensure the underlying directory records are properly synchronized
+        let mut path = self.path.clone();
+        let dir_name = name_to_string(directory);
+        path.push(&dir_name[0..PREFIX_DIR_SIZE]);
+        path.push(dir_name);
+
+        sync_directory(&path).await?;
+        path.pop();
+        sync_directory(&path).await?;
+        sync_directory(&self.path).await
+    }
+
+    async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
+        // unlike the files of a layer under construction, this one
+        // has to appear with all of its contents.
+        let contents = format!("{}\n{}\n", 1, name_to_string(rollup_name));
+        let mut path = self.path.clone();
+        let dir_name = name_to_string(dir_name);
+        path.push(&dir_name[0..PREFIX_DIR_SIZE]);
+        path.push(dir_name);
+        path.push(FILENAMES.rollup);
+
+        write_file_atomically(&path, contents.as_bytes()).await
     }
 }
 
-- 
2.43.0


From de9423ce758c8bc058faffbdc3191d64b4ce1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 22/40] fix: an interrupted change of a label leaves its old or
 its new value, and completed changes survive a crash

---
 src/storage/directory.rs | 41 +++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index b46895c..d3b0324 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -64,6 +64,24 @@ pub(super) async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::R
     }
 }
 
+/// Create a file such that it either has all of its contents or isn't
+/// there, whatever happens along the way. A file that exists already
+/// stays as it is.
+async fn create_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let temporary = temporary_path(path);
+    let mut result = write_temporary_file(&temporary, contents).await;
+    if result.is_ok() {
+        result = fs::hard_link(&temporary, path).await;
+    }
+    let _ = fs::remove_file(&temporary).await;
+    result?;
+
+    match path.parent() {
+        Some(directory) => sync_directory(directory).await,
+        None => Ok(()),
+    }
+}
+
 #[derive(Clone)]
 pub struct DirectoryLayerStore {
     path: PathBuf,
@@ -191,7 +209,8 @@ impl DirectoryLabelStore {
 fn get_label_from_data(name: String, data: &[u8]) -> io::Result<Label> {
     let s = String::from_utf8_lossy(&data);
     let lines: Vec<&str> = s.lines().collect();
-    if lines.len() != 2 {
+    // an interrupted write may have left some of the old contents behind the new contents
+    if lines.len() < 2 {
         return Err(io::Error::new(
             io::ErrorKind::InvalidData,
             format!(
@@ -293,10 +312,15 @@ impl LabelStore for DirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    let mut file = ExclusiveLockedFile::create_and_open(p).await?;
-                    file.write_all(&contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
+                    create_file_atomically(&p, &contents)
+                        .await
+                        .map_err(|e| match e.kind() {
+                            io::ErrorKind::AlreadyExists => io::Error::new(
+                                io::ErrorKind::InvalidInput,
+                                "database already exists",
+                            ),
+                            _ => e,
+                        })?;
 
                     Ok(Label::new_empty(label))
                 }
@@ -336,9 +360,9 @@ impl LabelStore for DirectoryLabelStore {
         let (retrieved_label, mut file) = get_label_from_exclusive_locked_file(p).await?;
         if retrieved_label == *label {
             // all good, let's a go
-            file.truncate().await?;
             file.write_all(&contents).await?;
             file.flush().await?;
+            file.truncate().await?;
             file.sync_all().await?;
             Ok(Some(new_label))
         } else {
@@ -360,7 +384,10 @@ impl LabelStore for DirectoryLabelStore {
         // indistinguishable from the case where the read/write and
         // the remove happened in reverse order.
         match tokio::fs::remove_file(p).await {
-            Ok(()) => Ok(true),
+            Ok(()) => {
+                sync_directory(&self.path).await?;
+                Ok(true)
+            }
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => Ok(false),
                 _ => Err(e),
-- 
2.43.0


From a07ba6e1533d256932cfd12e6dede13a522b3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 23/40] fix: listing labels while one of them is deleted does
 not fail

---
 src/storage/directory.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index d3b0324..ccd32df 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -292,8 +292,12 @@ impl LabelStore for DirectoryLabelStore {
                     )
                 })?;
                 if name.ends_with(".label") {
-                    let label = get_label_from_file(direntry.path()).await?;
-                    result.push(label);
+                    match get_label_from_file(direntry.path()).await {
+                        Ok(label) => result.push(label),
+                        // deleted since we started listing
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+                        Err(e) => return Err(e),
+                    }
                 }
             }
         }
-- 
2.43.0


From 64578986010d584c2e62f3565afc778b71af4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:47 +0000
Subject: [PATCH 24/40] fix: an interrupted change of a label in a cached label
 store leaves its old or its new value

---
 src/storage/directory.rs | 52 ++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index ccd32df..0f0c3b5 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -46,8 +46,8 @@ fn temporary_path(path: &Path) -> PathBuf {
 
 /// Create a file, or replace the one that's there, such that it has
 /// either its old or its new contents, whatever happens along the
-/// way.
-pub(super) async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+/// way. To make it last, the directory has to be synced.
+async fn replace_file(path: &Path, contents: &[u8]) -> io::Result<()> {
     let temporary = temporary_path(path);
     let mut result = write_temporary_file(&temporary, contents).await;
     if result.is_ok() {
@@ -55,26 +55,28 @@ pub(super) async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::R
     }
     if result.is_err() {
         let _ = fs::remove_file(&temporary).await;
-        return result;
     }
 
-    match path.parent() {
-        Some(directory) => sync_directory(directory).await,
-        None => Ok(()),
-    }
+    result
 }
 
 /// Create a file such that it either has all of its contents or isn't
 /// there, whatever happens along the way. A file that exists already
-/// stays as it is.
-async fn create_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+/// stays as it is. To make it last, the directory has to be synced.
+async fn create_file(path: &Path, contents: &[u8]) -> io::Result<()> {
     let temporary = temporary_path(path);
     let mut result = write_temporary_file(&temporary, contents).await;
     if result.is_ok() {
         result = fs::hard_link(&temporary, path).await;
     }
     let _ = fs::remove_file(&temporary).await;
-    result?;
+
+    result
+}
+
+/// Replace a file, and make that last.
+pub(super) async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+    replace_file(path, contents).await?;
 
     match path.parent() {
         Some(directory) => sync_directory(directory).await,
@@ -316,7 +318,7 @@ impl LabelStore for DirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    create_file_atomically(&p, &contents)
+                    create_file(&p, &contents)
                         .await
                         .map_err(|e| match e.kind() {
                             io::ErrorKind::AlreadyExists => io::Error::new(
@@ -325,6 +327,7 @@ impl LabelStore for DirectoryLabelStore {
                             ),
                             _ => e,
                         })?;
+                    sync_directory(&self.path).await?;
 
                     Ok(Label::new_empty(label))
                 }
@@ -366,6 +369,7 @@ impl LabelStore for DirectoryLabelStore {
             // all good, let's a go
             file.write_all(&contents).await?;
             file.flush().await?;
+            file.sync_all().await?;
             file.truncate().await?;
             file.sync_all().await?;
             Ok(Some(new_label))
@@ -478,16 +482,10 @@ impl LabelStore for CachedDirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    let mut options = fs::OpenOptions::new();
-                    options.create_new(true);
-                    options.write(true);
-                    let mut file = options.open(p).await?;
-                    file.write_all(contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
-
+                    create_file(&p, contents).await?;
                     let l = Label::new_empty(label);
                     labels.insert(label.to_string(), l.clone());
+                    sync_directory(&self.path).await?;
 
                     Ok(l)
                 }
@@ -518,16 +516,10 @@ impl LabelStore for CachedDirectoryLabelStore {
                 // all good, let's a go
                 let mut p = self.path.clone();
                 p.push(format!("{}.label", label.name));
-                let mut options = fs::OpenOptions::new();
-                options.create(false);
-                options.write(true);
-                options.truncate(true);
-                let mut file = options.open(p).await?;
-                file.write_all(&contents).await?;
-                file.flush().await?;
-                file.sync_data().await?;
-
+                replace_file(&p, &contents).await?;
                 labels.insert(label.name.clone(), new_label.clone());
+                sync_directory(&self.path).await?;
+
                 Ok(Some(new_label))
             } else {
                 Ok(None)
@@ -539,10 +531,12 @@ impl LabelStore for CachedDirectoryLabelStore {
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
         let mut labels = self.labels.write().await;
-        if labels.remove(name).is_some() {
+        if labels.contains_key(name) {
             let mut p = self.path.clone();
             p.push(format!("{}.label", name));
             tokio::fs::remove_file(p).await?;
+            labels.remove(name);
+            sync_directory(&self.path).await?;
 
             Ok(true)
         } else {
-- 
2.43.0


From a6940abef14dc0c6360f28b6791f260a68febfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 25/40] fix: an interrupted import leaves no partial layers in
 a directory store

---
 src/storage/directory.rs | 50 +++++++++++++++++++++++++++++++++++++++-
 src/storage/layer.rs     | 19 +++++++++++++++
 src/storage/pack.rs      | 11 +--------
 3 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 0f0c3b5..8c39243 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -84,6 +84,23 @@ pub(super) async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::R
     }
 }
 
+async fn write_directory(path: &Path, files: &HashMap<String, Vec<u8>>) -> io::Result<()> {
+    fs::create_dir(path).await?;
+    for (name, contents) in files {
+        write_temporary_file(&path.join(name), contents).await?;
+    }
+
+    sync_directory(path).await
+}
+
+async fn move_files(from: &Path, to: &Path, files: &HashMap<String, Vec<u8>>) -> io::Result<()> {
+    for name in files.keys() {
+        fs::rename(from.join(name), to.join(name)).await?;
+    }
+
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct DirectoryLayerStore {
     path: PathBuf,
@@ -103,7 +120,9 @@ impl PersistentLayerStore for DirectoryLayerStore {
         let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
         while let Some(prefix_entry) = stream.next_entry().await? {
-            if !prefix_entry.file_type().await?.is_dir() {
+            if !prefix_entry.file_type().await?.is_dir()
+                || prefix_entry.file_name().len() != PREFIX_DIR_SIZE
+            {
                 continue;
             }
             let mut prefix_stream = fs::read_dir(prefix_entry.path()).await?;
@@ -183,6 +202,35 @@ impl PersistentLayerStore for DirectoryLayerStore {
         sync_directory(&self.path).await
     }
 
+    async fn store_layer_files(
+        &self,
+        name: [u32; 5],
+        files: &HashMap<String, Vec<u8>>,
+    ) -> io::Result<()> {
+        let name_string = name_to_string(name);
+        let mut path = self.path.clone();
+        path.push(&name_string[0..PREFIX_DIR_SIZE]);
+        fs::create_dir_all(&path).await?;
+        path.push(&name_string);
+
+        // Write the files to another directory, which then becomes
+        // the layer, so that an interruption leaves no partial layer.
+        let staging = temporary_path(&self.path.join(&name_string));
+        let mut result = write_directory(&staging, files).await;
+        if result.is_ok() {
+            result = fs::rename(&staging, &path).await;
+            if result.is_err() && fs::metadata(&path).await.is_ok() {
+                // something is there already, but it is not a complete layer.
+                result = move_files(&staging, &path, files).await;
+            }
+        }
+        // whatever is left of it
+        let _ = fs::remove_dir_all(&staging).await;
+        result?;
+
+        self.finalize(name).await
+    }
+
     async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
         // unlike the files of a layer under construction, this one
         // has to appear with all of its contents.
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 1ef158b..96ef419 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -24,6 +24,7 @@ use tdb_succinct::TypedDict;
 use tdb_succinct::{util, AdjacencyList, BitIndex, LogArray, MonotonicLogArray, WaveletTree};
 
 use bitvec::prelude::*;
+use std::collections::HashMap;
 use std::convert::TryInto;
 use std::io;
 use std::path::Path;
@@ -370,6 +371,24 @@ pub trait PersistentLayerStore: 'static + Send + Sync + Clone {
         Ok(())
     }
 
+    /// Store a complete layer given the contents of its files.
+    async fn store_layer_files(
+        &self,
+        name: [u32; 5],
+        files: &HashMap<String, Vec<u8>>,
+    ) -> io::Result<()> {
+        self.create_named_directory(name).await?;
+        for (file_name, contents) in files {
+            let file = self.get_file(name, file_name).await?;
+            let mut writer = file.open_write().await?;
+            writer.write_all(contents).await?;
+            writer.flush().await?;
+            writer.sync_all().await?;
+        }
+
+        self.finalize(name).await
+    }
+
     async fn layer_has_rollup(&self, name: [u32; 5]) -> io::Result<bool> {
         self.file_exists(name, FILENAMES.rollup).await
     }
diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 21567df..8813ec6 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -15,7 +15,6 @@ use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use tar::*;
-use tokio::io::AsyncWriteExt;
 
 #[async_trait]
 pub trait Packable {
@@ -86,15 +85,7 @@ impl<T: PersistentLayerStore> Packable for T {
         }
 
         for (id, files) in missing {
-            self.create_named_directory(id).await?;
-            for (file_name, content) in files {
-                let file = self.get_file(id, &file_name).await?;
-                let mut writer = file.open_write().await?;
-                writer.write_all(&content).await?;
-                writer.flush().await?;
-                writer.sync_all().await?;
-            }
-            self.finalize_layer(id).await?;
+            self.store_layer_files(id, &files).await?;
         }
 
         Ok(())
-- 
2.43.0


From f9083c6abb08a395e3151caa06448914838feee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 26/40] fix: waiting for file locks does not use up the threads
 the lock holder needs

---
 src/storage/locking.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index bd28005..c0cdd8a 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -9,11 +9,11 @@ use std::path::*;
 use std::pin::Pin;
 use tokio::fs;
 use tokio::io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, ReadBuf};
-use tokio::task::{spawn_blocking, JoinHandle};
+use tokio::sync::oneshot;
 
 pub struct LockedFileLockFuture {
     file: Option<std::fs::File>,
-    spawn: Option<JoinHandle<io::Result<()>>>,
+    spawn: Option<oneshot::Receiver<io::Result<()>>>,
     exclusive: bool,
 }
 
@@ -43,15 +43,24 @@ impl Future for LockedFileLockFuture {
             if self.spawn.is_none() {
                 let file = self.file.as_ref().unwrap().try_clone()?;
                 let exclusive = self.exclusive;
-                self.spawn = Some(spawn_blocking(move || {
-                    if exclusive {
+                let (sender, receiver) = oneshot::channel();
+                // Whoever holds the lock needs the blocking thread
+                // pool to get to the point where it releases the
+                // lock, so waiting must not take up threads from that
+                // pool.
+                std::thread::Builder::new().spawn(move || {
+                    let result = if exclusive {
                         file.lock_exclusive()
                     } else if !cfg!(feature = "noreadlock") {
                         file.lock_shared()
                     } else {
                         Ok(())
-                    }
-                }));
+                    };
+                    drop(file);
+                    // nobody is listening if the future was dropped
+                    let _ = sender.send(result);
+                })?;
+                self.spawn = Some(receiver);
             }
 
             match Pin::new(&mut self.spawn.as_mut().unwrap()).poll(cx) {
@@ -63,7 +72,7 @@ impl Future for LockedFileLockFuture {
                 }
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(_)) => {
-                    panic!("polled LockedFileLockFuture outside of a tokio context")
+                    panic!("the thread waiting for a file lock disappeared")
                 }
             }
         } else {
-- 
2.43.0


From 189b9464545cb0c0f31900244afd5512fbb6860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 27/40] fix: abandoning an operation on a label does not panic

---
 src/storage/locking.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index c0cdd8a..bcd6f90 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -154,10 +154,12 @@ impl Drop for LockedFile {
         let mut file = None;
         std::mem::swap(&mut file, &mut self.file);
         if let Some(file) = file {
-            file.try_into_std()
-                .expect("could not convert tokio file into std")
-                .unlock()
-                .unwrap();
+            // If an operation on this file was abandoned halfway, the
+            // file cannot be converted. It is then closed as soon as
+            // that operation is done. Closing gives up the lock too.
+            if let Ok(file) = file.try_into_std() {
+                let _ = file.unlock();
+            }
         }
     }
 }
@@ -281,10 +283,12 @@ impl Drop for ExclusiveLockedFile {
         let mut file = None;
         std::mem::swap(&mut file, &mut self.file);
         if let Some(file) = file {
-            file.try_into_std()
-                .expect("could not convert tokio file into std")
-                .unlock()
-                .unwrap();
+            // If an operation on this file was abandoned halfway, the
+            // file cannot be converted. It is then closed as soon as
+            // that operation is done. Closing gives up the lock too.
+            if let Ok(file) = file.try_into_std() {
+                let _ = file.unlock();
+            }
         }
     }
 }
-- 
2.43.0


From 15e6907382c4f1227437915a816c44d21c66f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 28/40] fix: abandoning a change of a cached label leaves cache
 and disk the same

---
 src/storage/directory.rs | 65 +++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 8c39243..559c237 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -2,6 +2,7 @@
 
 use locking::*;
 use std::collections::HashMap;
+use std::future::Future;
 use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -504,6 +505,23 @@ async fn get_all_labels_from_dir(p: &PathBuf) -> io::Result<HashMap<String, Labe
     Ok(result)
 }
 
+/// Perform a change, even if nobody waits for it anymore. A change that
+/// stops halfway would leave the cached labels different from the label
+/// files.
+async fn run_to_completion<T, F>(change: F) -> io::Result<T>
+where
+    T: Send + 'static,
+    F: Future<Output = io::Result<T>> + Send + 'static,
+{
+    match tokio::spawn(change).await {
+        Ok(result) => result,
+        Err(e) => match e.try_into_panic() {
+            Ok(panic) => std::panic::resume_unwind(panic),
+            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+        },
+    }
+}
+
 #[async_trait]
 impl LabelStore for CachedDirectoryLabelStore {
     async fn labels(&self) -> io::Result<Vec<Label>> {
@@ -512,7 +530,7 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
-        let mut labels = self.labels.write().await;
+        let mut labels = self.labels.clone().write_owned().await;
         if labels.contains_key(label) {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
@@ -530,12 +548,16 @@ impl LabelStore for CachedDirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    create_file(&p, contents).await?;
                     let l = Label::new_empty(label);
-                    labels.insert(label.to_string(), l.clone());
-                    sync_directory(&self.path).await?;
-
-                    Ok(l)
+                    let path = self.path.clone();
+                    run_to_completion(async move {
+                        create_file(&p, contents).await?;
+                        labels.insert(l.name.clone(), l.clone());
+                        sync_directory(&path).await?;
+
+                        Ok(l)
+                    })
+                    .await
                 }
                 _ => Err(e),
             },
@@ -558,17 +580,21 @@ impl LabelStore for CachedDirectoryLabelStore {
             }
         };
 
-        let mut labels = self.labels.write().await;
+        let mut labels = self.labels.clone().write_owned().await;
         if let Some(retrieved_label) = labels.get(&label.name) {
             if retrieved_label == label {
                 // all good, let's a go
                 let mut p = self.path.clone();
                 p.push(format!("{}.label", label.name));
-                replace_file(&p, &contents).await?;
-                labels.insert(label.name.clone(), new_label.clone());
-                sync_directory(&self.path).await?;
-
-                Ok(Some(new_label))
+                let path = self.path.clone();
+                run_to_completion(async move {
+                    replace_file(&p, &contents).await?;
+                    labels.insert(new_label.name.clone(), new_label.clone());
+                    sync_directory(&path).await?;
+
+                    Ok(Some(new_label))
+                })
+                .await
             } else {
                 Ok(None)
             }
@@ -578,15 +604,20 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
-        let mut labels = self.labels.write().await;
+        let mut labels = self.labels.clone().write_owned().await;
         if labels.contains_key(name) {
             let mut p = self.path.clone();
             p.push(format!("{}.label", name));
-            tokio::fs::remove_file(p).await?;
-            labels.remove(name);
-            sync_directory(&self.path).await?;
+            let name = name.to_string();
+            let path = self.path.clone();
+            run_to_completion(async move {
+                tokio::fs::remove_file(p).await?;
+                labels.remove(&name);
+                sync_directory(&path).await?;
 
-            Ok(true)
+                Ok(true)
+            })
+            .await
         } else {
             Ok(false)
         }
-- 
2.43.0


From 491bf842fd48384a5b66bc0986e33a22fc9afdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 29/40] fix: the LRU archive cache keeps to its limit and
 always shows layers that were stored

---
 src/storage/archive.rs | 85 ++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 914b52e..bd26557 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -342,7 +342,6 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
 pub struct LruArchiveBackend<M, D> {
     cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
     limit: usize,
-    current: usize,
     metadata_origin: M,
     data_origin: D,
 }
@@ -370,14 +369,13 @@ impl<M, D> LruArchiveBackend<M, D> {
         Self {
             cache,
             limit,
-            current: 0,
             metadata_origin,
             data_origin,
         }
     }
 
     fn limit_bytes(&self) -> usize {
-        self.limit * 1024 * 1024
+        self.limit.saturating_mul(1024 * 1024)
     }
 }
 
@@ -388,36 +386,28 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> LruArchiveBackend<M, D> {
     }
 }
 
-fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut required: usize) {
-    if required == 0 {
-        return;
-    }
+fn cache_size(cache: &LruCache<[u32; 5], CacheEntry>) -> usize {
+    cache
+        .iter()
+        .map(|(_, entry)| match entry {
+            CacheEntry::Resolved(bytes) => bytes.len(),
+            CacheEntry::Resolving(_) => 0,
+        })
+        .sum()
+}
 
-    loop {
-        let peek = cache
-            .peek_lru()
+fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut required: usize) {
+    while required != 0 {
+        // resolving entries take no space yet, and have to stay.
+        let id = cache
+            .iter()
+            .rev()
+            .find(|(_, entry)| !entry.is_resolving())
+            .map(|(id, _)| *id)
             .expect("cache is empty but stored entries were expected");
-        if peek.1.is_resolving() {
-            // this is a resolving entry, we don't want to pop it.
-            let id = peek.0.clone();
-            cache.promote(&id);
-            continue;
-        }
-        // at this point the lru item is not resolving
-        let entry = cache
-            .pop_lru()
-            .expect("cache is empty but stored entries were expected")
-            .1;
-        if let CacheEntry::Resolved(entry) = entry {
-            if entry.len() >= required {
-                // done!
-                return;
-            }
-
-            // more needs to be popped
-            required -= entry.len();
-        } else {
-            panic!("expected resolved entry but got a resolving");
+        if let Some(CacheEntry::Resolved(entry)) = cache.pop(&id) {
+            // possibly more needs to be popped
+            required = required.saturating_sub(entry.len());
         }
     }
 }
@@ -425,7 +415,6 @@ fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut
 fn ensure_enough_cache_space(
     cache: &mut LruCache<[u32; 5], CacheEntry>,
     limit: usize,
-    current: usize,
     required: usize,
 ) -> bool {
     if required > limit {
@@ -433,7 +422,7 @@ fn ensure_enough_cache_space(
         return false;
     }
 
-    let remaining = limit - current;
+    let remaining = limit - cache_size(cache);
     if remaining < required {
         // we need to clean up some cache spacew to fit this entry
         ensure_additional_cache_space(cache, required - remaining);
@@ -442,6 +431,18 @@ fn ensure_enough_cache_space(
     true
 }
 
+/// Whether the lookup with this barrier is the one that will resolve the cache entry.
+fn is_resolved_by(
+    cache: &LruCache<[u32; 5], CacheEntry>,
+    id: [u32; 5],
+    barrier: &Arc<tokio::sync::RwLock<Option<Result<Bytes, io::ErrorKind>>>>,
+) -> bool {
+    match cache.peek(&id) {
+        Some(CacheEntry::Resolving(current)) => Arc::ptr_eq(current, barrier),
+        _ => false,
+    }
+}
+
 fn drop_from_cache(cache: &mut LruCache<[u32; 5], CacheEntry>, id: [u32; 5]) {
     assert!(cache.contains(&id));
     cache.demote(&id);
@@ -480,14 +481,13 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
 
                 // reacquire cache
                 let mut cache = self.cache.lock().await;
+                if !is_resolved_by(&*cache, id, &barrier) {
+                    // the layer was stored in the meantime, the cache already knows.
+                    return lookup;
+                }
                 match lookup {
                     Ok(bytes) => {
-                        if ensure_enough_cache_space(
-                            &mut *cache,
-                            self.limit_bytes(),
-                            self.current,
-                            bytes.len(),
-                        ) {
+                        if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
                             let cached = cache
                                 .get_mut(&id)
                                 .expect("layer resolving entry not found in cache");
@@ -526,7 +526,12 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
         self.data_origin.store_layer_file(id, bytes.clone()).await?;
 
         let mut cache = self.cache.lock().await;
-        cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        // Whatever is there is about the layer before it was stored,
+        // and that includes a lookup that is still going on.
+        cache.pop(&id);
+        if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
+            cache.put(id, CacheEntry::Resolved(bytes));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 37668d544ec032b32a4a127339d405f9fec69b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 30/40] fix: waiters of an abandoned archive lookup take it
 over instead of panicking

---
 src/storage/archive.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index bd26557..c19b77f 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -462,9 +462,20 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 // someone is already looking up this layer. we'll wait for them to be done.
                 std::mem::drop(cache);
                 let guard = barrier.read().await;
-                match guard.as_ref().unwrap() {
-                    Ok(bytes) => Ok(bytes.clone()),
-                    Err(kind) => Err(io::Error::new(*kind, "layer resolve failed")),
+                match guard.as_ref() {
+                    Some(Ok(bytes)) => Ok(bytes.clone()),
+                    Some(Err(kind)) => Err(io::Error::new(*kind, "layer resolve failed")),
+                    None => {
+                        // they gave up without a result. Clean up after them and start over.
+                        let mut cache = self.cache.lock().await;
+                        if is_resolved_by(&*cache, id, &barrier) {
+                            cache.pop(&id);
+                        }
+                        std::mem::drop(cache);
+                        std::mem::drop(guard);
+
+                        self.get_layer_bytes(id).await
+                    }
                 }
             }
             None => {
@@ -477,10 +488,11 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 std::mem::drop(cache);
                 let lookup = self.data_origin.get_layer_bytes(id).await;
 
-                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
-
                 // reacquire cache
                 let mut cache = self.cache.lock().await;
+                // From here on there's no more waiting, so this
+                // lookup cannot be abandoned anymore.
+                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
                 if !is_resolved_by(&*cache, id, &barrier) {
                     // the layer was stored in the meantime, the cache already knows.
                     return lookup;
-- 
2.43.0


From 9c78ee4e668ecf8630218b4aad1dcfeaa7fe060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 31/40] fix: reading an archive file from past its end fails
 instead of panicking

---
 src/storage/archive.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index c19b77f..1bd7ba5 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -74,6 +74,10 @@ pub trait ArchiveMetadataBackend: Clone + Send + Sync {
     async fn get_parent(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>>;
 }
 
+fn beyond_end() -> io::Error {
+    io::Error::new(io::ErrorKind::UnexpectedEof, "offset is beyond end of file")
+}
+
 pub struct BytesAsyncReader(Bytes);
 
 impl AsyncRead for BytesAsyncReader {
@@ -193,7 +197,7 @@ impl ArchiveBackend for DirectoryArchiveBackend {
             .range_for(file_type)
             .ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "slice not found in archive"))?;
 
-        let remaining = range.len() - read_from;
+        let remaining = range.len().checked_sub(read_from).ok_or_else(beyond_end)?;
         file.seek(SeekFrom::Current((range.start + read_from) as i64))
             .await?;
 
@@ -560,6 +564,9 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 .ok_or_else(|| {
                     io::Error::new(io::ErrorKind::NotFound, "slice not found in archive")
                 })?;
+            if bytes.len() < read_from {
+                return Err(beyond_end());
+            }
             bytes.advance(read_from);
 
             Ok(Either::Left(BytesAsyncReader(bytes)))
@@ -806,10 +813,7 @@ impl FileLoad for ConstructionFile {
             ConstructionFileState::Finalized(data) => {
                 let mut data = data.clone();
                 if data.len() < offset {
-                    Err(io::Error::new(
-                        io::ErrorKind::UnexpectedEof,
-                        "offset is beyond end of file",
-                    ))
+                    Err(beyond_end())
                 } else {
                     data.advance(offset);
                     // this is suspicious, why would we need a lock here? Maybe we should have a different reader type from the file type
@@ -1118,6 +1122,9 @@ impl<M: ArchiveMetadataBackend> FileLoad for ArchiveRollupFile<M> {
 
     async fn open_read_from(&self, offset: usize) -> io::Result<Self::Read> {
         let mut bytes = self.map().await?;
+        if bytes.len() < offset {
+            return Err(beyond_end());
+        }
         bytes.advance(offset);
         Ok(BytesAsyncReader(bytes))
     }
-- 
2.43.0


From 507687de609a5a529928a3233e88d1c00c05fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 32/40] fix: the size of a rollup file is the size of its
 contents

---
 src/storage/archive.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 1bd7ba5..edbad68 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1105,19 +1105,7 @@ impl<M: ArchiveMetadataBackend> FileLoad for ArchiveRollupFile<M> {
     }
 
     async fn size(&self) -> io::Result<usize> {
-        if self
-            .metadata_backend
-            .get_rollup(self.layer_id)
-            .await?
-            .is_some()
-        {
-            Ok(std::mem::size_of::<[u32; 5]>() + 2)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::NotFound,
-                "layer has no rollup",
-            ))
-        }
+        Ok(self.map().await?.len())
     }
 
     async fn open_read_from(&self, offset: usize) -> io::Result<Self::Read> {
-- 
2.43.0


From 0b11508c8dfa1ee582cd3a4bed1bdc787d9d30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 33/40] fix: asking for a file of a new layer at the same time
 gives everyone the same file

---
 src/storage/archive.rs | 36 +++++++++++++-----------------------
 src/storage/memory.rs  |  9 +++++----
 2 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index edbad68..7f0c9e9 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1423,30 +1423,20 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
             }));
         }
 
-        {
-            let guard = self.construction.read().unwrap();
-            if let Some(map) = guard.get(&directory) {
-                if let Some(file) = map.get(&file_type) {
-                    return Ok(ArchiveLayerHandle::Construction(file.clone()));
-                }
-
-                // the directory is there but the file is not. We'll have to construct it.
-                std::mem::drop(guard);
-                let mut guard = self.construction.write().unwrap();
-                let map = guard.get_mut(&directory).unwrap();
-                let file = ConstructionFile::new();
-                map.insert(file_type, file.clone());
+        let mut guard = self.construction.write().unwrap();
+        if let Some(map) = guard.get_mut(&directory) {
+            // if the file is not there yet, we'll have to construct it.
+            let file = map.entry(file_type).or_insert_with(ConstructionFile::new);
 
-                Ok(ArchiveLayerHandle::Construction(file))
-            } else {
-                // layer does not appear to be under construction so it has to be in persistent storage
-                Ok(ArchiveLayerHandle::Persistent(PersistentFileSlice::new(
-                    self.metadata_backend.clone(),
-                    self.data_backend.clone(),
-                    directory,
-                    file_type,
-                )))
-            }
+            Ok(ArchiveLayerHandle::Construction(file.clone()))
+        } else {
+            // layer does not appear to be under construction so it has to be in persistent storage
+            Ok(ArchiveLayerHandle::Persistent(PersistentFileSlice::new(
+                self.metadata_backend.clone(),
+                self.data_backend.clone(),
+                directory,
+                file_type,
+            )))
         }
     }
 
diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 75f0b61..7a975f4 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -65,10 +65,11 @@ impl PersistentLayerStore for MemoryLayerStore {
                 std::mem::drop(guard); // release read lock cause it is time to write
                 let mut guard = self.layers.write().await;
                 let files = guard.get_mut(&directory).unwrap();
-                let file = MemoryBackedStore::new();
-                let result = file.clone();
-                files.insert(name.to_string(), file);
-                Ok(result)
+                // someone else may have been here in the meantime
+                let file = files
+                    .entry(name.to_string())
+                    .or_insert_with(MemoryBackedStore::new);
+                Ok(file.clone())
             }
         } else {
             Err(io::Error::new(io::ErrorKind::NotFound, "layer not found"))
-- 
2.43.0


From c49fc4f328b99eeb7dcf3b5e568a54e86f04c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 34/40] fix: layers imported more than once at the same time
 stay whole

---
 src/storage/archive.rs | 65 ++++++++++++++++++++++++++++++------------
 src/storage/memory.rs  | 24 ++++++++++++++++
 2 files changed, 70 insertions(+), 19 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 7f0c9e9..035fbc8 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1355,6 +1355,30 @@ impl<M, D> ArchiveLayerStore<M, D> {
 
 const PREFIX_DIR_SIZE: usize = 3;
 
+fn build_archive(mut files: Vec<(LayerFileEnum, Bytes)>) -> Bytes {
+    files.sort();
+    let presence_header =
+        ArchiveFilePresenceHeader::from_present(files.iter().map(|(t, _)| t).cloned());
+
+    let mut offsets = LateLogArrayBufBuilder::new(BytesMut::new());
+    let mut tally = 0;
+    for (_file_type, data) in files.iter() {
+        tally += data.len();
+        offsets.push(tally as u64);
+    }
+
+    let offsets_buf = offsets.finalize_header_first();
+
+    let mut data_buf = BytesMut::with_capacity(tally + 8 + offsets_buf.len());
+    data_buf.put_u64(presence_header.inner());
+    data_buf.extend(offsets_buf);
+    for (_file_type, data) in files {
+        data_buf.extend(data);
+    }
+
+    data_buf.freeze()
+}
+
 #[async_trait]
 impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> PersistentLayerStore
     for ArchiveLayerStore<M, D>
@@ -1467,33 +1491,36 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
                 .expect("layer to be finalized was not found in construction map")
         };
 
-        let mut files: Vec<(_, _)> = files
+        let files: Vec<(_, _)> = files
             .into_iter()
             .filter(|(_file_type, file)| file.is_finalized())
             .map(|(file_type, file)| (file_type, file.finalized_buf()))
             .collect();
-        files.sort();
-        let presence_header =
-            ArchiveFilePresenceHeader::from_present(files.iter().map(|(t, _)| t).cloned());
-
-        let mut offsets = LateLogArrayBufBuilder::new(BytesMut::new());
-        let mut tally = 0;
-        for (_file_type, data) in files.iter() {
-            tally += data.len();
-            offsets.push(tally as u64);
-        }
 
-        let offsets_buf = offsets.finalize_header_first();
+        self.data_backend
+            .store_layer_file(directory, build_archive(files))
+            .await
+    }
 
-        let mut data_buf = BytesMut::with_capacity(tally + 8 + offsets_buf.len());
-        data_buf.put_u64(presence_header.inner());
-        data_buf.extend(offsets_buf);
-        for (_file_type, data) in files {
-            data_buf.extend(data);
-        }
+    async fn store_layer_files(
+        &self,
+        name: [u32; 5],
+        files: &HashMap<String, Vec<u8>>,
+    ) -> io::Result<()> {
+        // we have everything, so there's no need to go through
+        // construction, where others may be storing the same layer.
+        let files: Vec<(_, _)> = files
+            .iter()
+            .map(|(file_name, contents)| {
+                (
+                    FILENAME_ENUM_MAP[file_name.as_str()],
+                    Bytes::copy_from_slice(contents),
+                )
+            })
+            .collect();
 
         self.data_backend
-            .store_layer_file(directory, data_buf.freeze())
+            .store_layer_file(name, build_archive(files))
             .await
     }
 
diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 7a975f4..ceaaca7 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -4,6 +4,7 @@ use std::collections::HashMap;
 use std::io;
 
 use async_trait::async_trait;
+use tokio::io::AsyncWriteExt;
 
 use super::file::*;
 use super::label::*;
@@ -56,6 +57,29 @@ impl PersistentLayerStore for MemoryLayerStore {
         }
     }
 
+    async fn store_layer_files(
+        &self,
+        name: [u32; 5],
+        files: &HashMap<String, Vec<u8>>,
+    ) -> io::Result<()> {
+        let mut layer = HashMap::with_capacity(files.len());
+        for (file_name, contents) in files {
+            let file = MemoryBackedStore::new();
+            let mut writer = file.open_write().await?;
+            writer.write_all(contents).await?;
+            writer.flush().await?;
+            writer.sync_all().await?;
+            layer.insert(file_name.clone(), file);
+        }
+
+        // the layer appears with all of its files. If someone else
+        // stored it in the meantime, theirs are the same.
+        let mut guard = self.layers.write().await;
+        guard.entry(name).or_default().extend(layer);
+
+        Ok(())
+    }
+
     async fn get_file(&self, directory: [u32; 5], name: &str) -> io::Result<Self::File> {
         let guard = self.layers.read().await;
         if let Some(files) = guard.get(&directory) {
-- 
2.43.0


From 0eacf14b0c0bb9fdf016d050123dadede9d7cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 35/40] fix: loading a layer whose rollup was rolled up itself
 loads that layer

---
 src/storage/layer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 96ef419..2a7f190 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1521,14 +1521,19 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
                         }
 
                         let original_parent;
-                        if self.layer_has_parent(current_layer).await? {
+                        if let Some((_, parent)) = rollup_option {
+                            // this is a rollup that was itself rolled
+                            // up. It is still the original layer that
+                            // we're loading.
+                            original_parent = parent;
+                        } else if self.layer_has_parent(current_layer).await? {
                             original_parent = Some(self.read_parent_file(current_layer).await?);
                         } else {
                             original_parent = None;
                         }
 
                         layers_to_load.pop().unwrap(); // we don't want to load this, we want to load the rollup instead!
-                        layers_to_load.push((current_layer, Some((rollup, original_parent))));
+                        layers_to_load.push((original_layer, Some((rollup, original_parent))));
                     } else if self.layer_has_parent(current_layer).await? {
                         let parent = self.read_parent_file(current_layer).await?;
                         layers_to_load.push((parent, None));
-- 
2.43.0


From 28dbe97cee2cdedb11fca6a99a35bc204df337ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 36/40] fix: merging base layers uses the id maps of rollups

---
 src/layer/internal/base_merge.rs | 58 +++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/layer/internal/base_merge.rs b/src/layer/internal/base_merge.rs
index bc1d362..14f6cac 100644
--- a/src/layer/internal/base_merge.rs
+++ b/src/layer/internal/base_merge.rs
@@ -3,13 +3,13 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use futures::{Stream, StreamExt, TryStreamExt};
+use futures::{stream, Stream, StreamExt, TryStreamExt};
 use tempfile::TempDir;
 use tokio::{fs::OpenOptions, io::AsyncWriteExt};
 
 use crate::{
     chrono_log,
-    layer::{builder::build_indexes, open_base_triple_stream, BaseLayerFileBuilderPhase2},
+    layer::{builder::build_indexes, open_base_triple_stream, BaseLayerFileBuilderPhase2, IdMap},
     storage::{
         directory::DirectoryLayerStore, AdjacencyListFiles, BaseLayerFiles, DictionaryFiles,
         FileLoad, FileStore, PersistentLayerStore, TypedDictionaryFiles,
@@ -18,7 +18,7 @@ use crate::{
 use tdb_succinct::{
     dedup_merge_string_dictionaries_stream, dedup_merge_typed_dictionary_streams,
     stream::{TfcDictStream, TfcTypedDictStream},
-    util::heap_sorted_stream,
+    util::{calculate_width, heap_sorted_stream},
 };
 
 #[allow(unused)]
@@ -95,6 +95,32 @@ fn map_triple(
     (s, p, o)
 }
 
+/// Retrieve the id maps of a base layer, if it has any.
+///
+/// Only layers that were created by a rollup do. In all other base
+/// layers, ids are in dictionary order.
+async fn base_id_maps<F: FileLoad + FileStore + 'static>(
+    input: &BaseLayerFiles<F>,
+    node_value_count: usize,
+    predicate_count: usize,
+) -> io::Result<Option<(IdMap, IdMap)>> {
+    let maps = input.id_map_files.map_all().await?;
+    if maps.node_value_idmap_maps.is_none() && maps.predicate_idmap_maps.is_none() {
+        return Ok(None);
+    }
+
+    let node_value_id_map = maps
+        .node_value_idmap_maps
+        .map(|m| IdMap::from_maps(m, calculate_width(node_value_count as u64)))
+        .unwrap_or_default();
+    let predicate_id_map = maps
+        .predicate_idmap_maps
+        .map(|m| IdMap::from_maps(m, calculate_width(predicate_count as u64)))
+        .unwrap_or_default();
+
+    Ok(Some((node_value_id_map, predicate_id_map)))
+}
+
 async fn test_write_file<F: FileLoad + FileStore + 'static, P: Into<PathBuf>>(
     file: &F,
     to: P,
@@ -229,7 +255,22 @@ pub async fn merge_base_layers<F: FileLoad + FileStore + 'static, P: AsRef<Path>
         let inner_node_map = &node_map[ix];
         let inner_predicate_map = &predicate_map[ix];
         let inner_value_map = &value_map[ix];
-        let stream = raw_stream.map_ok(move |triple| {
+        let id_maps = base_id_maps(
+            input,
+            inner_node_map.len() + inner_value_map.len(),
+            inner_predicate_map.len(),
+        )
+        .await?;
+        let has_id_maps = id_maps.is_some();
+        let stream = raw_stream.map_ok(move |(s, p, o)| {
+            let triple = match &id_maps {
+                None => (s, p, o),
+                Some((node_value_id_map, predicate_id_map)) => (
+                    node_value_id_map.outer_to_inner(s),
+                    predicate_id_map.outer_to_inner(p),
+                    node_value_id_map.outer_to_inner(o),
+                ),
+            };
             map_triple(
                 triple,
                 inner_node_map,
@@ -238,7 +279,14 @@ pub async fn merge_base_layers<F: FileLoad + FileStore + 'static, P: AsRef<Path>
                 node_count,
             )
         });
-        triple_streams.push(stream);
+        if has_id_maps {
+            // ids are not in dictionary order here, so mapping changes the order of the triples
+            let mut triples: Vec<_> = stream.try_collect().await?;
+            triples.sort();
+            triple_streams.push(stream::iter(triples.into_iter().map(Ok)).right_stream());
+        } else {
+            triple_streams.push(stream.left_stream());
+        }
     }
 
     let mut merged_triples = heap_sorted_stream(triple_streams).await?;
-- 
2.43.0


From e7425a0f7f21f3d789908f001802274c6730dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 37/40] fix: an archive store shows a layer only once it is
 complete

---
 src/storage/archive.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 035fbc8..ccb238d 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1386,20 +1386,7 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
     type File = ArchiveLayerHandle<M, D>;
 
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
-        let mut result = self.metadata_backend.get_layer_names().await?;
-
-        {
-            let guard = self.construction.read().unwrap();
-
-            for name in guard.keys() {
-                result.push(*name);
-            }
-        }
-
-        result.sort();
-        result.dedup();
-
-        Ok(result)
+        self.metadata_backend.get_layer_names().await
     }
 
     async fn create_named_directory(&self, name: [u32; 5]) -> io::Result<[u32; 5]> {
@@ -1427,13 +1414,6 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
     }
 
     async fn directory_exists(&self, name: [u32; 5]) -> io::Result<bool> {
-        {
-            let guard = self.construction.read().unwrap();
-            if guard.contains_key(&name) {
-                return Ok(true);
-            }
-        }
-
         self.metadata_backend.layer_exists(name).await
     }
 
-- 
2.43.0


From 8c67241c6c2337202e582a955b97e783a17f57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:44 +0000
Subject: [PATCH 38/40] fix: reading an archive without files from a stream

---
 src/storage/archive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index ccb238d..60bfea5 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -957,7 +957,10 @@ impl Archive {
 
     pub async fn parse_from_reader<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let header = ArchiveHeader::parse_from_reader(reader).await?;
-        let data_len = header.file_offsets.entry(header.file_offsets.len() - 1) as usize;
+        let data_len = match header.file_offsets.len() {
+            0 => 0,
+            n => header.file_offsets.entry(n - 1) as usize,
+        };
         let mut data = BytesMut::with_capacity(data_len);
         data.reserve(data_len);
         unsafe { data.set_len(data_len) };
-- 
2.43.0


From 5e745be01b1e71c7bfa9bd2951b46f9c4e7fbbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 39/40] fix: a label with an empty name was listed under
 another name

---
 src/storage/directory.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 559c237..405ebbe 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -301,9 +301,21 @@ fn get_label_from_data(name: String, data: &[u8]) -> io::Result<Label> {
     }
 }
 
+/// The name of the label that is stored in the given label file.
+///
+/// This is all of the file name up to the extension, which may be
+/// nothing at all.
+fn label_name_from_path(path: &Path) -> String {
+    let file_name = path.file_name().unwrap().to_str().unwrap();
+    file_name
+        .strip_suffix(".label")
+        .unwrap_or(file_name)
+        .to_owned()
+}
+
 async fn get_label_from_file<P: Into<PathBuf>>(path: P) -> io::Result<Label> {
     let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
+    let label = label_name_from_path(&path);
 
     let mut file = LockedFile::open(path).await?;
     let mut data = Vec::new();
@@ -316,7 +328,7 @@ async fn get_label_from_exclusive_locked_file<P: Into<PathBuf>>(
     path: P,
 ) -> io::Result<(Label, ExclusiveLockedFile)> {
     let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
+    let label = label_name_from_path(&path);
 
     let mut file = ExclusiveLockedFile::open(path).await?;
     let mut data = Vec::new();
-- 
2.43.0


From f3cb3538f779c09a533c6df3f9bac7aae0ca222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 40/40] fix: label names with a path separator led out of the
 store

---
 src/storage/directory.rs | 43 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 405ebbe..32501c0 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -301,6 +301,27 @@ fn get_label_from_data(name: String, data: &[u8]) -> io::Result<Label> {
     }
 }
 
+/// The path of the file of the label with the given name.
+///
+/// There is no such file, and thus no such label, when the name would
+/// lead into another directory.
+fn label_path(directory: &Path, name: &str) -> Option<PathBuf> {
+    if name.contains(std::path::is_separator) {
+        None
+    } else {
+        Some(directory.join(format!("{}.label", name)))
+    }
+}
+
+fn label_path_to_create(directory: &Path, name: &str) -> io::Result<PathBuf> {
+    label_path(directory, name).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("label name contains a path separator: {:?}", name),
+        )
+    })
+}
+
 /// The name of the label that is stored in the given label file.
 ///
 /// This is all of the file name up to the extension, which may be
@@ -369,8 +390,7 @@ impl LabelStore for DirectoryLabelStore {
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label));
+        let p = label_path_to_create(&self.path, label)?;
         let contents = "0\n\n".to_string().into_bytes();
         match fs::metadata(&p).await {
             Ok(_) => Err(io::Error::new(
@@ -398,8 +418,10 @@ impl LabelStore for DirectoryLabelStore {
     }
 
     async fn get_label(&self, label: &str) -> io::Result<Option<Label>> {
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label));
+        let p = match label_path(&self.path, label) {
+            Some(p) => p,
+            None => return Ok(None),
+        };
 
         match get_label_from_file(p).await {
             Ok(label) => Ok(Some(label)),
@@ -423,8 +445,8 @@ impl LabelStore for DirectoryLabelStore {
             }
         };
 
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label.name));
+        let p = label_path(&self.path, &label.name)
+            .ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "label not found"))?;
         let (retrieved_label, mut file) = get_label_from_exclusive_locked_file(p).await?;
         if retrieved_label == *label {
             // all good, let's a go
@@ -440,8 +462,10 @@ impl LabelStore for DirectoryLabelStore {
     }
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", name));
+        let p = match label_path(&self.path, name) {
+            Some(p) => p,
+            None => return Ok(false),
+        };
 
         // We're not locking here to remove the file. The assumption
         // is that any concurrent operation that is done on the label
@@ -550,8 +574,7 @@ impl LabelStore for CachedDirectoryLabelStore {
             ));
         }
 
-        let mut p = self.path.clone();
-        p.push(format!("{}.label", label));
+        let p = label_path_to_create(&self.path, label)?;
         let contents = b"0\n\n";
         match fs::metadata(&p).await {
             Ok(_) => Err(io::Error::new(
-- 
2.43.0

