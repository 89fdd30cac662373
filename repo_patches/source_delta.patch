From 21af9ad119d113d92aef0e60339cce882f94f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 01/12] fix: serialize writes on one hyperbee

Concurrent put, del and create_header calls read the same root and version and
then appended blocks that ignored each other: lost updates, entries recorded
under the wrong seq, two headers.
---
 src/del.rs  |  2 ++
 src/put.rs  |  2 ++
 src/tree.rs | 19 +++++++++++++++++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/del.rs b/src/del.rs
index 8327cbf..52d7028 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -414,6 +414,8 @@ impl Tree {
         key: &[u8],
         compare_and_swap: impl FnOnce(&KeyValueData) -> bool,
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
+        // Only one write at a time: the root must not change until we append
+        let _write_guard = self.write_lock.lock().await;
         let Some(root) = self.get_root(false).await? else {
             return Ok(None);
         };
diff --git a/src/put.rs b/src/put.rs
index d0bd6c2..8ea98d9 100644
--- a/src/put.rs
+++ b/src/put.rs
@@ -77,6 +77,8 @@ impl Tree {
         value: Option<&[u8]>,
         cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
+        // Only one write at a time: `seq` and the root must not change until we append
+        let _write_guard = self.write_lock.lock().await;
         // NB: do this before we call `version` because it can add the header block
         let maybe_root = self.get_root(true).await?;
 
diff --git a/src/tree.rs b/src/tree.rs
index b6a0f71..a311454 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -16,7 +16,7 @@ use std::{
     path::{Path, PathBuf},
     sync::Arc,
 };
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 
 /// A key/value store built on [`hypercore::Hypercore`]. It uses an append only
 /// [B-Tree](https://en.wikipedia.org/wiki/B-tree) and is compatible with the [JavaScript Hyperbee
@@ -25,6 +25,10 @@ use tokio::sync::RwLock;
 #[builder(pattern = "owned", derive(Debug))]
 pub struct Tree {
     pub blocks: Shared<Blocks>,
+    /// Held by everything that writes, from reading the current root until the new block is
+    /// appended. Shared by all clones.
+    #[builder(default)]
+    pub(crate) write_lock: Arc<Mutex<()>>,
 }
 
 impl Tree {
@@ -50,6 +54,7 @@ impl Tree {
     }
     /// Gets the root of the tree.
     /// When `ensure_header == true` write the hyperbee header onto the hypercore if it does not exist.
+    /// In that case the caller must hold the `write_lock`.
     pub(crate) async fn get_root(
         &self,
         ensure_header: bool,
@@ -105,7 +110,7 @@ impl Tree {
 
     /// Ensure the tree has a header
     async fn ensure_header(&self) -> Result<bool, HyperbeeError> {
-        match self.create_header(None).await {
+        match self.create_header_unlocked(None).await {
             Ok(_) => Ok(true),
             Err(e) => match e {
                 HyperbeeError::HeaderAlreadyExists => Ok(false),
@@ -119,6 +124,15 @@ impl Tree {
     pub async fn create_header(
         &self,
         metadata: Option<Metadata>,
+    ) -> Result<AppendOutcome, HyperbeeError> {
+        let _write_guard = self.write_lock.lock().await;
+        self.create_header_unlocked(metadata).await
+    }
+
+    /// [`Tree::create_header`] for callers that already hold the `write_lock`
+    async fn create_header_unlocked(
+        &self,
+        metadata: Option<Metadata>,
     ) -> Result<AppendOutcome, HyperbeeError> {
         if self.blocks.read().await.info().await.length != 0 {
             return Err(HyperbeeError::HeaderAlreadyExists);
@@ -193,6 +207,7 @@ impl Clone for Tree {
     fn clone(&self) -> Self {
         Self {
             blocks: self.blocks.clone(),
+            write_lock: self.write_lock.clone(),
         }
     }
 }
-- 
2.43.0


From 97c56e081748227de646695384dbbff1f0d7dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:10 +0000
Subject: [PATCH 02/12] fix: do not change cached nodes before the write is
 stored

put and del changed the nodes of the cached blocks in place. A write that then
failed, or was cancelled, left its changes visible; readers and open traversals
saw half-made changes; a repair could miss a change made to a node whose block
had been loaded twice.
---
 src/del.rs | 22 +++++++++++++++-------
 src/lib.rs | 19 +++++++++++++++++++
 src/put.rs |  9 ++++++---
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/del.rs b/src/del.rs
index 52d7028..5f95832 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -1,6 +1,7 @@
 use crate::{
-    changes::Changes, keys::InfiniteKeys, min_keys, nearest_node, put::propagate_changes_up_tree,
-    wchildren, Child, HyperbeeError, KeyValue, KeyValueData, NodePath, SharedNode, Tree, MAX_KEYS,
+    changes::Changes, copy_path, keys::InfiniteKeys, min_keys, nearest_node,
+    put::propagate_changes_up_tree, wchildren, Child, HyperbeeError, KeyValue, KeyValueData,
+    NodePath, SharedNode, Tree, MAX_KEYS,
 };
 
 use tracing::info;
@@ -48,9 +49,11 @@ impl Side {
         let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
 
         let (child_index, replacement_key, mut path_to_bottom) = if num_left_keys < num_right_keys {
+            let right_path = copy_path(right_path).await;
             let donor = right_path.last().unwrap().0.write().await.keys.remove(0);
             (right_child_index, donor, right_path)
         } else {
+            let left_path = copy_path(left_path).await;
             let donor = left_path
                 .last()
                 .unwrap()
@@ -166,6 +169,7 @@ impl Side {
         let donor_child = father.read().await.get_child(donor_index).await?;
         let can_rotate = min_keys(order) < donor_child.read().await.keys.len();
         if can_rotate {
+            let donor_child = donor_child.read().await.copy().await;
             Ok(Some((donor_index, donor_child)))
         } else {
             Ok(None)
@@ -246,6 +250,7 @@ impl Side {
         // Order donor child and deficient child from lowest to highest.
         let (left, right) = {
             let donor_child = father.read().await.get_child(donor_index).await?;
+            let donor_child = donor_child.read().await.copy().await;
             match self {
                 Right => (deficient_child, donor_child),
                 Left => (donor_child, deficient_child),
@@ -354,16 +359,16 @@ async fn repair_one(
     }
     panic!("this should never happen");
 }
-/// must be given a path who's last element has a deficient child...
-#[tracing::instrument(skip(path, changes))]
+/// must be given a path who's last element has the deficient child `deficient_child`...
+#[tracing::instrument(skip(path, deficient_child, changes))]
 async fn repair(
     path: &mut NodePath,
+    mut deficient_child: SharedNode,
     order: usize,
     changes: &mut Changes,
 ) -> Result<Child, HyperbeeError> {
     let (mut father, mut deficient_index) =
         path.pop().expect("path.len() > 0 should be checked before");
-    let mut deficient_child = father.read().await.get_child(deficient_index).await?;
 
     let father_ref = loop {
         let father_with_repaired_child =
@@ -420,7 +425,7 @@ impl Tree {
             return Ok(None);
         };
 
-        let (matched, mut path) = nearest_node(root.clone(), key).await?;
+        let (matched, path) = nearest_node(root.clone(), key).await?;
 
         let Some(seq) = matched else {
             return Ok(None);
@@ -435,6 +440,9 @@ impl Tree {
                 return Ok(Some((false, seq)));
             }
         }
+        // Stored blocks never change, so neither may the nodes cached for them: this delete can
+        // still fail or be cancelled, and others may be reading them
+        let mut path = copy_path(path).await;
         // NB: js hyperbee stores the "key" the deleted "key" in the created BlockEntry. So we are
         // doing that too
         let mut changes: Changes = Changes::new(self.version().await, key, None);
@@ -462,7 +470,7 @@ impl Tree {
         let child_ref =
             if !path.is_empty() && bottom_node.read().await.keys.len() < min_keys(MAX_KEYS) {
                 info!("del requires a rebalance");
-                repair(&mut path, MAX_KEYS, &mut changes).await?
+                repair(&mut path, bottom_node, MAX_KEYS, &mut changes).await?
             } else {
                 info!("del does not require a rebalance");
                 changes.add_node(bottom_node.clone())
diff --git a/src/lib.rs b/src/lib.rs
index 4592306..8c3820c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -190,6 +190,15 @@ impl Node {
         }
     }
 
+    /// A copy that can be changed without changing the cached node of a stored block
+    async fn copy(&self) -> SharedNode {
+        Arc::new(RwLock::new(Node::new(
+            self.keys.clone(),
+            self.children.children.read().await.clone(),
+            self.blocks.clone(),
+        )))
+    }
+
     pub async fn n_children(&self) -> usize {
         self.children.len().await
     }
@@ -395,6 +404,16 @@ where
     }
 }
 
+/// Copy every node of a path, see [`Node::copy`]
+async fn copy_path(path: NodePath) -> NodePath {
+    let mut out = Vec::with_capacity(path.len());
+    for (node, index) in path {
+        let copied = node.read().await.copy().await;
+        out.push((copied, index));
+    }
+    out
+}
+
 #[cfg(feature = "ffi")]
 mod uniffi_scaffolding {
     uniffi::setup_scaffolding!();
diff --git a/src/put.rs b/src/put.rs
index 8ea98d9..200709c 100644
--- a/src/put.rs
+++ b/src/put.rs
@@ -4,8 +4,8 @@ use tokio::sync::RwLock;
 use tracing::trace;
 
 use crate::{
-    changes::Changes, nearest_node, wchildren, Child, HyperbeeError, KeyValue, KeyValueData, Node,
-    NodePath, SharedNode, Tree, MAX_KEYS,
+    changes::Changes, copy_path, nearest_node, wchildren, Child, HyperbeeError, KeyValue,
+    KeyValueData, Node, NodePath, SharedNode, Tree, MAX_KEYS,
 };
 
 /// After making changes to a tree, this function updates parent references all the way to the
@@ -105,7 +105,7 @@ impl Tree {
                 Some(node) => node,
             };
 
-            let (matched, mut path) = nearest_node(root, key).await?;
+            let (matched, path) = nearest_node(root, key).await?;
 
             let old_key_data = if matched.is_some() {
                 let (node, index) = &path[path.len() - 1];
@@ -118,6 +118,9 @@ impl Tree {
                 return Ok((matched, None));
             }
 
+            // Stored blocks never change, so neither may the nodes cached for them: this write
+            // can still fail or be cancelled, and others may be reading them
+            let mut path = copy_path(path).await;
             loop {
                 let (cur_node, cur_index) = match path.pop() {
                     None => break 'new_root matched,
-- 
2.43.0


From 19b89b330e3cb5aa2d5ffcd34e7e979b654cd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 03/12] fix: end a traversal of a node after reporting that it
 could not be searched

Polling the stream on after the error polled a completed future, which panics.
---
 src/traverse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/traverse.rs b/src/traverse.rs
index dbb21f7..ee6296c 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -407,6 +407,10 @@ impl Stream for Traverse<'_> {
                             return Poll::Pending;
                         }
                         Err(e) => {
+                            // Nothing more can be taken from this node. The finished `iter_fut`
+                            // must not be polled again.
+                            self.iter_fut = None;
+                            self.iter = Some(Box::pin(0..0));
                             // Push error into stream
                             return Poll::Ready(Some((
                                 Err(HyperbeeError::BuildIteratorInTraverseError(Box::new(e))),
-- 
2.43.0


From b70b7a7ea6d8c5c237f7d0321f429bfcb73c4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 04/12] fix: bound traversals of a sub bee by prefix and
 separator

They ran from the prefix without separator to the incremented prefix, so they
yielded keys of the parent that only start with the prefix, panicked on keys
shorter than prefix and separator, and missed keys of prefixes ending in 0xff
and of the empty prefix.
---
 src/prefixed.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/prefixed.rs b/src/prefixed.rs
index 68ac21d..ca70ed8 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -5,9 +5,10 @@ use futures_lite::{Stream, StreamExt};
 
 use crate::{
     error::HyperbeeError,
+    keys::InfiniteKeys::{Negative, Positive},
     traverse::{
         KeyDataResult,
-        LimitValue::{Finite, Infinite},
+        LimitValue::{self, Finite, Infinite},
         TraverseConfig,
     },
     KeyValueData, Shared, Tree,
@@ -135,10 +136,11 @@ impl Prefixed {
         &self,
         conf: &TraverseConfig,
     ) -> Result<impl Stream<Item = KeyDataResult> + 'a, HyperbeeError> {
-        let end_of_prefix = increment_bytes(&self.prefix);
+        let full_prefix = [self.prefix.as_slice(), self.conf.seperator.as_slice()].concat();
 
         let (min_value, min_inclusive) = match &conf.min_value {
-            Infinite(_) => (Finite(self.prefix.clone()), true),
+            Infinite(Negative) => (Finite(full_prefix.clone()), true),
+            Infinite(Positive) => (Infinite(Positive), conf.min_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.min_inclusive,
@@ -146,8 +148,9 @@ impl Prefixed {
         };
 
         let (max_value, max_inclusive) = match &conf.max_value {
-            // inclusive = false because we don't want to include end_of_prefix if it is a key
-            Infinite(_) => (Finite(end_of_prefix.clone()), false),
+            // inclusive = false because we don't want to include the end of the prefix if it is a key
+            Infinite(Positive) => (end_of_prefix(&full_prefix), false),
+            Infinite(Negative) => (Infinite(Negative), conf.max_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.max_inclusive,
@@ -176,6 +179,14 @@ impl Prefixed {
     }
 }
 
+/// The smallest limit that is greater than every key starting with `prefix`
+fn end_of_prefix(prefix: &[u8]) -> LimitValue {
+    match prefix.iter().rposition(|byte| *byte != u8::MAX) {
+        Some(index) => Finite(increment_bytes(&prefix[..=index])),
+        None => Infinite(Positive),
+    }
+}
+
 fn increment_bytes(pref: &[u8]) -> Vec<u8> {
     let len = pref.len();
     if len == 0 {
-- 
2.43.0


From 8ee394ec72f3cdcfeeb0cd01d810752246fdda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 05/12] fix: answer gets of the C interface that find no value
 or fail

hb_get hit todo!() in the spawned task, so the callback was never called.
---
 src/external.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 137ce7a..5542abf 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -142,8 +142,22 @@ pub extern "C" fn hb_get(
                     callback(0, no_error_msg, seq, vec, size);
                 }
             }
-            Ok(_) => todo!(),
-            Err(_e) => todo!(),
+            Ok(not_a_value) => {
+                // seq == 0: the key was not found, otherwise it has no value
+                let seq = not_a_value.map_or(0, |(seq, _)| seq);
+                let no_error_msg = CString::new("").unwrap().into_raw();
+                unsafe {
+                    callback(0, no_error_msg, seq, ptr::null_mut(), 0);
+                }
+            }
+            Err(e) => {
+                let error_msg = CString::new(e.to_string().replace('\0', " "))
+                    .unwrap()
+                    .into_raw();
+                unsafe {
+                    callback(-1, error_msg, 0, ptr::null_mut(), 0);
+                }
+            }
         };
     });
     0
-- 
2.43.0


From a2baa0150e91a5127b98e7241ea1b3370d8042be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 06/12] fix: accept traversal bounds that are open on one or
 both sides

An explicit infinite bound together with a finite one, or two infinite bounds,
was rejected although the defaults mean the same, and an impossible infinite
bound was accepted when the other bound was left at its default.
---
 src/traverse.rs | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index ee6296c..bced772 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -58,37 +58,35 @@ impl PartialOrd<[u8]> for LimitValue {
 
 fn validate_traverse_config_builder(builder: &TraverseConfigBuilder) -> Result<(), String> {
     match (&builder.min_value, &builder.max_value) {
-        (Some(min), Some(max)) => match (min, max) {
-            (_, Infinite(Negative)) => return Err("Maximum value is negative infinity".to_string()),
-            (Infinite(Positive), _) => return Err("Minimum value is positive infinity".to_string()),
-            (Finite(min), Finite(max)) => {
-                if max < min {
+        (_, Some(Infinite(Negative))) => {
+            return Err("Maximum value is negative infinity".to_string())
+        }
+        (Some(Infinite(Positive)), _) => {
+            return Err("Minimum value is positive infinity".to_string())
+        }
+        (Some(Finite(min)), Some(Finite(max))) => {
+            if max < min {
+                return Err(format!(
+                    "Minimum value [{min:?}] is greater than max [{max:?}]"
+                ));
+            }
+            if min == max {
+                #[allow(clippy::match_like_matches_macro)]
+                if match (builder.min_inclusive, builder.max_inclusive) {
+                    (Some(false), _) => true,
+                    (_, Some(false)) => true,
+                    _ => false,
+                } {
                     return Err(format!(
-                        "Minimum value [{min:?}] is greater than max [{max:?}]"
-                    ));
-                }
-                if min == max {
-                    #[allow(clippy::match_like_matches_macro)]
-                    if match (builder.min_inclusive, builder.max_inclusive) {
-                        (Some(false), _) => true,
-                        (_, Some(false)) => true,
-                        _ => false,
-                    } {
-                        return Err(format!(
                         "Minimum and maximum are equal [{min:?}] but the bounds are not both both inclusive min_inclusive = [{:?}] max_inclusive = [{:?}]",
                         builder.min_inclusive,
                         builder.max_inclusive
                     ));
-                    }
-                    return Ok(());
                 }
+                return Ok(());
             }
-            (min, max) => {
-                return Err(format!(
-                    "Min limit [{min:?}] is greater than max limit [{max:?}]!"
-                ))
-            }
-        },
+        }
+        // an infinite lower or upper bound (given or by default) does not exclude any key
         (_, _) => return Ok(()),
     }
     Ok(())
-- 
2.43.0


From b7b81ceb4c12bfe334cf9270295c32bebbb83f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:19 +0000
Subject: [PATCH 07/12] fix: report malformed blocks as errors

Stored blocks with incomplete, impossible or circular references made reads and
deletes panic or never return.
---
 src/blocks.rs   | 56 ++++++++++++++++++++++++++++++++++++++++++-------
 src/del.rs      | 24 ++++++++++++++++++---
 src/error.rs    |  2 ++
 src/lib.rs      |  7 +++++++
 src/traverse.rs |  2 +-
 5 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index daf94a1..aa1a00a 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -6,7 +6,7 @@ use hypercore::{
     replication::{CoreInfo, CoreMethods},
     AppendOutcome,
 };
-use prost::{bytes::Buf, DecodeError, Message};
+use prost::{bytes::Buf, Message};
 use replicator::ReplicatingCore;
 use tokio::sync::RwLock;
 use tracing::trace;
@@ -81,7 +81,7 @@ impl Blocks {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node, blocks)?))
+                Ok(Some(BlockEntry::new(*seq, node, blocks)?))
             }
             None => Ok(None),
         }
@@ -176,9 +176,44 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from a Hypercore block into [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNode>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?
+/// Check that `index` can be stored in the block at `seq`: every node is a leaf or has one more
+/// child than keys, keys are in blocks up to `seq`, and children are in earlier blocks or behind
+/// their parent in the same block. So following the references of checked nodes always ends.
+fn validate_index(seq: u64, index: &YoloIndex) -> Result<(), HyperbeeError> {
+    let malformed = |msg: &str| Err(HyperbeeError::MalformedBlockError(seq, msg.to_string()));
+    let n_nodes = index.levels.len() as u64;
+    for (level, offset) in index.levels.iter().zip(0u64..) {
+        let n_children = level.children.len();
+        if n_children % 2 != 0 {
+            return malformed("incomplete reference to a child");
+        }
+        let n_children = n_children / 2;
+        if n_children != 0 && (level.keys.is_empty() || n_children != level.keys.len() + 1) {
+            return malformed("number of children does not fit number of keys");
+        }
+        if level.keys.iter().any(|key| *key == 0 || *key > seq) {
+            return malformed("reference to an impossible key");
+        }
+        for child in level.children.chunks_exact(2) {
+            let in_earlier_block = child[0] != 0 && child[0] < seq;
+            let later_in_this_block = child[0] == seq && child[1] > offset && child[1] < n_nodes;
+            if !in_earlier_block && !later_in_this_block {
+                return malformed("reference to an impossible child");
+            }
+        }
+    }
+    Ok(())
+}
+
+/// Deserialize bytes from the Hypercore block at `seq` into [`Node`]s.
+fn make_node_vec<B: Buf>(
+    seq: u64,
+    buf: B,
+    blocks: Shared<Blocks>,
+) -> Result<Vec<SharedNode>, HyperbeeError> {
+    let index = YoloIndex::decode(buf)?;
+    validate_index(seq, &index)?;
+    Ok(index
         .levels
         .iter()
         .map(|level| {
@@ -195,6 +230,8 @@ fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNod
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
 /// Hyperbee
 pub(crate) struct BlockEntry {
+    /// Index of this block within the hypercore
+    seq: u64,
     /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
     nodes: Vec<SharedNode>,
     /// NodeSchema::new(hypercore.get(seq)).key
@@ -204,9 +241,10 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(seq: u64, entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..], blocks)?,
+            seq,
+            nodes: make_node_vec(seq, &entry.index[..], blocks)?,
             key: entry.key,
             value: entry.value,
         })
@@ -221,7 +259,9 @@ impl BlockEntry {
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node")
+            .ok_or_else(|| {
+                HyperbeeError::MalformedBlockError(self.seq, format!("no node at offset {offset}"))
+            })?
             .clone())
     }
 }
diff --git a/src/del.rs b/src/del.rs
index 5f95832..6c98717 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -88,6 +88,23 @@ impl Side {
         }
     }
 
+    /// Get the child of `father` that donates to, or is merged with the deficient child
+    async fn get_donor(
+        father: &SharedNode,
+        donor_index: usize,
+        deficient_child: &SharedNode,
+    ) -> Result<SharedNode, HyperbeeError> {
+        let donor = father.read().await.get_child(donor_index).await?;
+        if donor.read().await.is_leaf().await != deficient_child.read().await.is_leaf().await {
+            let seq = father.read().await.children.children.read().await[donor_index].seq;
+            return Err(HyperbeeError::MalformedBlockError(
+                seq,
+                "leaves have different depths".to_string(),
+            ));
+        }
+        Ok(donor)
+    }
+
     /// In both rotation and merge we need a key from the father
     fn get_key_index(&self, deficient_index: usize) -> usize {
         match self {
@@ -161,12 +178,13 @@ impl Side {
         &self,
         father: SharedNode,
         deficient_index: usize,
+        deficient_child: &SharedNode,
         order: usize,
     ) -> Result<Option<(usize, SharedNode)>, HyperbeeError> {
         let Some(donor_index) = self.get_donor_index(father.clone(), deficient_index).await else {
             return Ok(None);
         };
-        let donor_child = father.read().await.get_child(donor_index).await?;
+        let donor_child = Self::get_donor(&father, donor_index, deficient_child).await?;
         let can_rotate = min_keys(order) < donor_child.read().await.keys.len();
         if can_rotate {
             let donor_child = donor_child.read().await.copy().await;
@@ -217,7 +235,7 @@ impl Side {
         changes: &mut Changes,
     ) -> Result<Option<SharedNode>, HyperbeeError> {
         let Some((donor_index, donor_child)) = self
-            .can_rotate(father.clone(), deficient_index, order)
+            .can_rotate(father.clone(), deficient_index, &deficient_child, order)
             .await?
         else {
             return Ok(None);
@@ -249,7 +267,7 @@ impl Side {
 
         // Order donor child and deficient child from lowest to highest.
         let (left, right) = {
-            let donor_child = father.read().await.get_child(donor_index).await?;
+            let donor_child = Self::get_donor(&father, donor_index, &deficient_child).await?;
             let donor_child = donor_child.read().await.copy().await;
             match self {
                 Right => (deficient_child, donor_child),
diff --git a/src/error.rs b/src/error.rs
index 6da12f9..29c8505 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,8 @@ use crate::{
 #[derive(Error, Debug)]
 #[non_exhaustive]
 pub enum HyperbeeError {
+    #[error("The block at seq `{0}` is malformed: {1}")]
+    MalformedBlockError(u64, String),
     #[error("There was an error in the underlying Hypercore")]
     HypercoreError(#[from] HypercoreError),
     #[error("There was an error decoding Hypercore data")]
diff --git a/src/lib.rs b/src/lib.rs
index 8c3820c..bb9b864 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,6 +144,13 @@ impl Children {
             .get(&seq, self.blocks.clone())
             .await?;
         let node = block.read().await.get_tree_node(offset)?;
+        if node.read().await.keys.is_empty() {
+            // only the root of an empty tree has no keys
+            return Err(HyperbeeError::MalformedBlockError(
+                seq,
+                format!("child at offset {offset} has no keys"),
+            ));
+        }
         Ok(node)
     }
 
diff --git a/src/traverse.rs b/src/traverse.rs
index bced772..941bfbb 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -461,7 +461,7 @@ pub(crate) async fn print(node: SharedNode) -> Result<String, HyperbeeError> {
     tokio::pin!(stream);
     while let Some((key_data, node)) = stream.next().await {
         let h = node.read().await.height().await?;
-        out += &LEADER.repeat(starting_height - h);
+        out += &LEADER.repeat(starting_height.saturating_sub(h));
         let k = key_data?.key;
         let decoded_k = String::from_utf8(k)?;
         out += &decoded_k;
-- 
2.43.0


From 49d99f9a22dc78699aa13b4c24e5d6a9e12bf2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:07 +0000
Subject: [PATCH 08/12] fix: check both bounds of every traversed key

A key equal to an inclusive lower bound was yielded without looking at the
upper bound.
---
 src/traverse.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index 941bfbb..bebc783 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -216,23 +216,25 @@ async fn make_child_key_index_iter(
 impl TraverseConfig {
     fn in_bounds(&self, value: &[u8]) -> bool {
         // TODO impl Ord for LimitValue and remove the expects
-        match self
+        let above_min = match self
             .min_value
             .partial_cmp(value)
             .expect("partial_cmp never returns none")
         {
             std::cmp::Ordering::Greater => false,
             std::cmp::Ordering::Equal => self.min_inclusive,
-            std::cmp::Ordering::Less => match self
-                .max_value
-                .partial_cmp(value)
-                .expect("partial_cmp never returns none")
-            {
-                std::cmp::Ordering::Greater => true,
-                std::cmp::Ordering::Equal => self.max_inclusive,
-                std::cmp::Ordering::Less => false,
-            },
-        }
+            std::cmp::Ordering::Less => true,
+        };
+        let below_max = match self
+            .max_value
+            .partial_cmp(value)
+            .expect("partial_cmp never returns none")
+        {
+            std::cmp::Ordering::Greater => true,
+            std::cmp::Ordering::Equal => self.max_inclusive,
+            std::cmp::Ordering::Less => false,
+        };
+        above_min && below_max
     }
 }
 
-- 
2.43.0


From a5d11acc5ae0ee920a2884ca4269940e8cc343bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:28 +0000
Subject: [PATCH 09/12] fix: accept a null pointer as the buffer of an empty
 key in the C interface

slice::from_raw_parts must not be given a null pointer, whatever the length.
---
 src/external.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/external.rs b/src/external.rs
index 5542abf..7b6ca26 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -117,6 +117,10 @@ pub extern "C" fn hyperbee_from_storage_directory(
 }
 
 fn vec_from_c_vec(bytes: *const c_uchar, bytes_length: size_t) -> Vec<u8> {
+    if bytes_length == 0 {
+        // the pointer to an empty buffer may be null
+        return vec![];
+    }
     let bytes = unsafe { slice::from_raw_parts(bytes, bytes_length) };
     Vec::from(bytes)
 }
-- 
2.43.0


From e29e0bcb5faa992c27a4be25d96a8d899a326fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:47 +0000
Subject: [PATCH 10/12] fix: release the core when the last handle on a bee is
 dropped

The cache of blocks kept decoded nodes, each with a reference to the blocks
they were cached in. So the blocks, and with them the Hypercore, its storage
and its streams, stayed alive for ever once anything had been read.
---
 src/blocks.rs | 50 ++++++++++++++++++++++----------------------------
 src/lib.rs    | 12 +++++-------
 src/tree.rs   |  4 ++--
 3 files changed, 29 insertions(+), 37 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index aa1a00a..4d3cae2 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -49,19 +49,15 @@ impl Blocks {
     /// # Errors
     /// when the provided `seq` is not in the Hypercore
     /// when the data in the Hypercore block cannot be decoded
-    #[tracing::instrument(skip(self, blocks))]
-    pub async fn get(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Shared<BlockEntry>, HyperbeeError> {
+    #[tracing::instrument(skip(self))]
+    pub async fn get(&self, seq: &u64) -> Result<Shared<BlockEntry>, HyperbeeError> {
         if let Some(block) = self.get_from_cache(seq).await {
             trace!("from cache");
             Ok(block)
         } else {
             trace!("from Hypercore");
             let block_entry = self
-                .get_from_core(seq, blocks)
+                .get_from_core(seq)
                 .await?
                 .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
             let block_entry = Arc::new(RwLock::new(block_entry));
@@ -73,15 +69,11 @@ impl Blocks {
         self.cache.read().await.get(seq).cloned()
     }
 
-    async fn get_from_core(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Option<BlockEntry>, HyperbeeError> {
+    async fn get_from_core(&self, seq: &u64) -> Result<Option<BlockEntry>, HyperbeeError> {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(*seq, node, blocks)?))
+                Ok(Some(BlockEntry::new(*seq, node)?))
             }
             None => Ok(None),
         }
@@ -205,12 +197,11 @@ fn validate_index(seq: u64, index: &YoloIndex) -> Result<(), HyperbeeError> {
     Ok(())
 }
 
-/// Deserialize bytes from the Hypercore block at `seq` into [`Node`]s.
+/// Deserialize bytes from the Hypercore block at `seq` into the keys and children of [`Node`]s.
 fn make_node_vec<B: Buf>(
     seq: u64,
     buf: B,
-    blocks: Shared<Blocks>,
-) -> Result<Vec<SharedNode>, HyperbeeError> {
+) -> Result<Vec<(Vec<KeyValue>, Vec<Child>)>, HyperbeeError> {
     let index = YoloIndex::decode(buf)?;
     validate_index(seq, &index)?;
     Ok(index
@@ -222,7 +213,7 @@ fn make_node_vec<B: Buf>(
             for i in (0..(level.children.len())).step_by(2) {
                 children.push(Child::new(level.children[i], level.children[i + 1]));
             }
-            Arc::new(RwLock::new(Node::new(keys, children, blocks.clone())))
+            (keys, children)
         })
         .collect())
 }
@@ -233,7 +224,9 @@ pub(crate) struct BlockEntry {
     /// Index of this block within the hypercore
     seq: u64,
     /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
-    nodes: Vec<SharedNode>,
+    /// NB: these are not [`Node`]s, as a cached [`Node`] would keep the [`Blocks`] it is cached in,
+    /// and so the Hypercore, alive for ever.
+    nodes: Vec<(Vec<KeyValue>, Vec<Child>)>,
     /// NodeSchema::new(hypercore.get(seq)).key
     pub key: Vec<u8>,
     /// NodeSchema::new(hypercore.get(seq)).value
@@ -241,10 +234,10 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(seq: u64, entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(seq: u64, entry: NodeSchema) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
             seq,
-            nodes: make_node_vec(seq, &entry.index[..], blocks)?,
+            nodes: make_node_vec(seq, &entry.index[..])?,
             key: entry.key,
             value: entry.value,
         })
@@ -252,8 +245,12 @@ impl BlockEntry {
 
     /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`.
     /// offset is the offset of the node within the hypercore block
-    pub fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
-        Ok(self
+    pub fn get_tree_node(
+        &self,
+        offset: u64,
+        blocks: Shared<Blocks>,
+    ) -> Result<SharedNode, HyperbeeError> {
+        let (keys, children) = self
             .nodes
             .get(
                 usize::try_from(offset)
@@ -262,18 +259,15 @@ impl BlockEntry {
             .ok_or_else(|| {
                 HyperbeeError::MalformedBlockError(self.seq, format!("no node at offset {offset}"))
             })?
-            .clone())
+            .clone();
+        Ok(Arc::new(RwLock::new(Node::new(keys, children, blocks))))
     }
 }
 
 impl Debug for BlockEntry {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "BlockEntry {{ ")?;
-        let mut nodes = vec![];
-        for node in self.nodes.iter() {
-            nodes.push(node.try_read().unwrap());
-        }
-        f.debug_list().entries(nodes).finish()?;
+        f.debug_list().entries(self.nodes.iter()).finish()?;
         write!(f, "}}")
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index bb9b864..3db6269 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -137,13 +137,11 @@ impl Children {
             let child_ref = &self.children.read().await[index].clone();
             (child_ref.seq, child_ref.offset)
         };
-        let block = self
-            .blocks
+        let block = self.blocks.read().await.get(&seq).await?;
+        let node = block
             .read()
             .await
-            .get(&seq, self.blocks.clone())
-            .await?;
-        let node = block.read().await.get_tree_node(offset)?;
+            .get_tree_node(offset, self.blocks.clone())?;
         if node.read().await.keys.is_empty() {
             // only the root of an empty tree has no keys
             return Err(HyperbeeError::MalformedBlockError(
@@ -253,7 +251,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
@@ -263,7 +261,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
diff --git a/src/tree.rs b/src/tree.rs
index a311454..a52ebbf 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -68,11 +68,11 @@ impl Tree {
             return Ok(None);
         }
         let root = blocks
-            .get(&(version - 1), self.blocks.clone())
+            .get(&(version - 1))
             .await?
             .read()
             .await
-            .get_tree_node(0)?;
+            .get_tree_node(0, self.blocks.clone())?;
         Ok(Some(root))
     }
 
-- 
2.43.0


From 95d19a42a9111bfbecfdd5dfe9185426723fe741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 11/12] fix: open exactly the directory named through the C
 interface

A path that is not UTF-8 was changed before it was used, so another, empty
store was opened.
---
 src/external.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/external.rs b/src/external.rs
index 7b6ca26..3f5fd63 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -6,6 +6,7 @@ use libc::size_t;
 use std::{
     ffi::{c_char, c_uchar, c_ulonglong, CStr, CString},
     mem::{forget, ManuallyDrop},
+    path::PathBuf,
     ptr, slice,
 };
 
@@ -58,6 +59,22 @@ pub fn string_from_c_str(c_str: *const c_char) -> Option<String> {
     unsafe { Some(CStr::from_ptr(c_str).to_string_lossy().into_owned()) }
 }
 
+/// The path with exactly the bytes given by C, which need not be UTF-8
+#[cfg(unix)]
+fn path_from_c_str(c_str: *const c_char) -> Option<PathBuf> {
+    use std::{ffi::OsStr, os::unix::ffi::OsStrExt};
+    if c_str.is_null() {
+        return None;
+    }
+    let bytes = unsafe { CStr::from_ptr(c_str).to_bytes() };
+    Some(PathBuf::from(OsStr::from_bytes(bytes)))
+}
+
+#[cfg(not(unix))]
+fn path_from_c_str(c_str: *const c_char) -> Option<PathBuf> {
+    string_from_c_str(c_str).map(PathBuf::from)
+}
+
 /// Initialize the async runtime
 #[no_mangle]
 // TODO handle errors
@@ -101,7 +118,7 @@ pub extern "C" fn hyperbee_from_storage_directory(
     storage_directory: *const c_char,
 ) -> HyperbeePointer {
     let rt = from_c(rt);
-    let storage_directory = match string_from_c_str(storage_directory) {
+    let storage_directory = match path_from_c_str(storage_directory) {
         None => {
             // TODO use tracing: println!("No `storage_directory` provided to connect to");
             return ptr::null_mut();
-- 
2.43.0


From 4817fc1be325c9ac79116e275420a0fbd5190100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:07 +0000
Subject: [PATCH 12/12] fix: let a traversal that waits for storage sleep until
 it is woken

---
 src/traverse.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index bebc783..9e3227e 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -345,9 +345,10 @@ impl Stream for Traverse<'_> {
                         )));
                     }
                 }
+                // go on with the child stream
+                cx.waker().wake_by_ref();
             }
             // waiting for child stream to resolve
-            cx.waker().wake_by_ref();
             return Poll::Pending;
         }
 
@@ -376,7 +377,7 @@ impl Stream for Traverse<'_> {
                 }
                 Some(fut) => {
                     match fut.poll(cx) {
-                        Poll::Pending => (),
+                        Poll::Pending => return Poll::Pending,
                         Poll::Ready(n_keys_and_children) => {
                             self.n_keys_and_children = Some(n_keys_and_children);
                         }
@@ -418,10 +419,7 @@ impl Stream for Traverse<'_> {
                             )));
                         }
                     },
-                    Poll::Pending => {
-                        cx.waker().wake_by_ref();
-                        return Poll::Pending;
-                    }
+                    Poll::Pending => return Poll::Pending,
                 },
             },
         };
-- 
2.43.0

