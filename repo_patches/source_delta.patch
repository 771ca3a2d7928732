From 63231a14336a777ae3241e1e38ed6f96c3b580c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:43 +0000
Subject: [PATCH 1/9] fix: hold the tree's lock exclusively while writing

Concurrent puts and deletes only shared the lock, so two writes could read the same
root and append under the same sequence number, losing or corrupting one of them.
---
 src/hb.rs       | 10 +++++-----
 src/prefixed.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hb.rs b/src/hb.rs
index a0a9287..92cced8 100644
--- a/src/hb.rs
+++ b/src/hb.rs
@@ -54,7 +54,7 @@ impl Hyperbee {
         &self,
         metadata: Option<Metadata>,
     ) -> Result<AppendOutcome, HyperbeeError> {
-        self.tree.read().await.create_header(metadata).await
+        self.tree.write().await.create_header(metadata).await
     }
 
     #[cfg(feature = "debug")]
@@ -85,7 +85,7 @@ impl Hyperbee {
         key: &[u8],
         value: Option<&[u8]>,
     ) -> Result<(Option<u64>, u64), HyperbeeError> {
-        self.tree.read().await.put(key, value).await
+        self.tree.write().await.put(key, value).await
     }
 
     /// Like [`Hyperbee::put`] but takes a `compare_and_swap` function.
@@ -99,7 +99,7 @@ impl Hyperbee {
         cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
         self.tree
-            .read()
+            .write()
             .await
             .put_compare_and_swap(key, value, cas)
             .await
@@ -108,7 +108,7 @@ impl Hyperbee {
     /// Delete the given key from the tree.
     /// Returns the `seq` from the key if it was deleted.
     pub async fn del(&self, key: &[u8]) -> Result<Option<u64>, HyperbeeError> {
-        self.tree.read().await.del(key).await
+        self.tree.write().await.del(key).await
     }
 
     /// Like [`Hyperbee::del`] but takes a `compare_and_swap` function.
@@ -121,7 +121,7 @@ impl Hyperbee {
         key: &[u8],
         cas: impl FnOnce(&KeyValueData) -> bool,
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
-        self.tree.read().await.del_compare_and_swap(key, cas).await
+        self.tree.write().await.del_compare_and_swap(key, cas).await
     }
 
     /// Create a new tree with all it's operation's prefixed by the provided `prefix`.
diff --git a/src/prefixed.rs b/src/prefixed.rs
index 68ac21d..7e3b0c9 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -81,7 +81,7 @@ impl Prefixed {
         value: Option<&[u8]>,
     ) -> Result<(Option<u64>, u64), HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
-        self.tree.read().await.put(prefixed_key, value).await
+        self.tree.write().await.put(prefixed_key, value).await
     }
 
     /// Like [`Prefixed::put`] but takes a `compare_and_swap` function.
@@ -96,7 +96,7 @@ impl Prefixed {
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
         self.tree
-            .read()
+            .write()
             .await
             .put_compare_and_swap(prefixed_key, value, cas)
             .await
@@ -106,7 +106,7 @@ impl Prefixed {
     /// Returns the `seq` from the key if it was deleted.
     pub async fn del(&self, key: &[u8]) -> Result<Option<u64>, HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
-        self.tree.read().await.del(prefixed_key).await
+        self.tree.write().await.del(prefixed_key).await
     }
 
     /// Like [`Prefixed::del`] but takes a `compare_and_swap` function.
@@ -121,7 +121,7 @@ impl Prefixed {
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
         self.tree
-            .read()
+            .write()
             .await
             .del_compare_and_swap(prefixed_key, cas)
             .await
-- 
2.43.0


From 874ec85736d60dbafde5510f759e8bb1d66ad5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:50 +0000
Subject: [PATCH 2/9] fix: never change stored nodes in place

Nodes handed out by the block cache were shared and then modified by put and del.
When a write failed part-way the cache kept the half-made change, and traversals
in progress saw nodes change under them. Hand out copies instead. repair() relied on
the sharing to get the deficient child, so it is now given it.
---
 src/blocks.rs | 53 +++++++++++++++++++++++++--------------------------
 src/del.rs    |  8 ++++----
 2 files changed, 30 insertions(+), 31 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index daf94a1..4583c4b 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -13,7 +13,7 @@ use tracing::trace;
 
 use crate::{
     changes::Changes,
-    messages::{Node as NodeSchema, YoloIndex},
+    messages::{yolo_index::Level, Node as NodeSchema, YoloIndex},
     wchildren, Child, HyperbeeError, KeyValue, Node, Shared, SharedNode,
 };
 
@@ -176,27 +176,28 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from a Hypercore block into [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNode>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?
-        .levels
-        .iter()
-        .map(|level| {
-            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
-            let mut children = vec![];
-            for i in (0..(level.children.len())).step_by(2) {
-                children.push(Child::new(level.children[i], level.children[i + 1]));
-            }
-            Arc::new(RwLock::new(Node::new(keys, children, blocks.clone())))
-        })
-        .collect())
+/// Deserialize bytes from a Hypercore block into the [`Level`]s that [`Node`]s are made from.
+fn decode_levels<B: Buf>(buf: B) -> Result<Vec<Level>, DecodeError> {
+    Ok(YoloIndex::decode(buf)?.levels)
+}
+
+/// Make a [`Node`] from it's serialized form.
+fn make_node(level: &Level, blocks: Shared<Blocks>) -> Node {
+    let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
+    let mut children = vec![];
+    for i in (0..(level.children.len())).step_by(2) {
+        children.push(Child::new(level.children[i], level.children[i + 1]));
+    }
+    Node::new(keys, children, blocks)
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
 /// Hyperbee
 pub(crate) struct BlockEntry {
-    /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
-    nodes: Vec<SharedNode>,
+    /// YoloIndex::decode(NodeSchema::new(hypercore.get(seq)).index).levels
+    levels: Vec<Level>,
+    /// The blocks that the nodes refer to
+    blocks: Shared<Blocks>,
     /// NodeSchema::new(hypercore.get(seq)).key
     pub key: Vec<u8>,
     /// NodeSchema::new(hypercore.get(seq)).value
@@ -206,7 +207,8 @@ pub(crate) struct BlockEntry {
 impl BlockEntry {
     fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..], blocks)?,
+            levels: decode_levels(&entry.index[..])?,
+            blocks,
             key: entry.key,
             value: entry.value,
         })
@@ -214,26 +216,23 @@ impl BlockEntry {
 
     /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`.
     /// offset is the offset of the node within the hypercore block
+    /// NB: this is always a new copy of the node, because nodes are changed in place when writing.
     pub fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
-        Ok(self
-            .nodes
+        let level = self
+            .levels
             .get(
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node")
-            .clone())
+            .expect("offset *should* always point to a real node");
+        Ok(Arc::new(RwLock::new(make_node(level, self.blocks.clone()))))
     }
 }
 
 impl Debug for BlockEntry {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "BlockEntry {{ ")?;
-        let mut nodes = vec![];
-        for node in self.nodes.iter() {
-            nodes.push(node.try_read().unwrap());
-        }
-        f.debug_list().entries(nodes).finish()?;
+        f.debug_list().entries(&self.levels).finish()?;
         write!(f, "}}")
     }
 }
diff --git a/src/del.rs b/src/del.rs
index 8327cbf..77e4147 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -354,16 +354,16 @@ async fn repair_one(
     }
     panic!("this should never happen");
 }
-/// must be given a path who's last element has a deficient child...
-#[tracing::instrument(skip(path, changes))]
+/// must be given a path who's last element has a deficient child, and that child
+#[tracing::instrument(skip(path, deficient_child, changes))]
 async fn repair(
     path: &mut NodePath,
+    mut deficient_child: SharedNode,
     order: usize,
     changes: &mut Changes,
 ) -> Result<Child, HyperbeeError> {
     let (mut father, mut deficient_index) =
         path.pop().expect("path.len() > 0 should be checked before");
-    let mut deficient_child = father.read().await.get_child(deficient_index).await?;
 
     let father_ref = loop {
         let father_with_repaired_child =
@@ -460,7 +460,7 @@ impl Tree {
         let child_ref =
             if !path.is_empty() && bottom_node.read().await.keys.len() < min_keys(MAX_KEYS) {
                 info!("del requires a rebalance");
-                repair(&mut path, MAX_KEYS, &mut changes).await?
+                repair(&mut path, bottom_node, MAX_KEYS, &mut changes).await?
             } else {
                 info!("del does not require a rebalance");
                 changes.add_node(bottom_node.clone())
-- 
2.43.0


From 511bebb91c612d6bd6e14aa9f8466a6d4355faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 3/9] fix: confine sub-tree traversal to keys with prefix and
 separator

Keys that only share the prefix's bytes, without the separator, were included (and
mangled, or panicked, when the prefix was stripped), and a prefix ending in 0xFF or an
empty one hid the keys of the sub-tree.
---
 src/prefixed.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/prefixed.rs b/src/prefixed.rs
index 7e3b0c9..b1ae50a 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -5,6 +5,7 @@ use futures_lite::{Stream, StreamExt};
 
 use crate::{
     error::HyperbeeError,
+    keys::InfiniteKeys::{Negative, Positive},
     traverse::{
         KeyDataResult,
         LimitValue::{Finite, Infinite},
@@ -135,10 +136,12 @@ impl Prefixed {
         &self,
         conf: &TraverseConfig,
     ) -> Result<impl Stream<Item = KeyDataResult> + 'a, HyperbeeError> {
-        let end_of_prefix = increment_bytes(&self.prefix);
+        // all the keys, and only the keys, that begin with this are in this "sub" tree
+        let full_prefix = [&self.prefix[..], &self.conf.seperator[..]].concat();
 
         let (min_value, min_inclusive) = match &conf.min_value {
-            Infinite(_) => (Finite(self.prefix.clone()), true),
+            Infinite(Negative) => (Finite(full_prefix.clone()), true),
+            Infinite(Positive) => (Infinite(Positive), conf.min_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.min_inclusive,
@@ -146,8 +149,13 @@ impl Prefixed {
         };
 
         let (max_value, max_inclusive) = match &conf.max_value {
-            // inclusive = false because we don't want to include end_of_prefix if it is a key
-            Infinite(_) => (Finite(end_of_prefix.clone()), false),
+            Infinite(Positive) => match end_of_prefix(&full_prefix) {
+                // inclusive = false because we don't want to include end_of_prefix if it is a key
+                Some(end) => (Finite(end), false),
+                // every key after `full_prefix` begins with it
+                None => (Infinite(Positive), conf.max_inclusive),
+            },
+            Infinite(Negative) => (Infinite(Negative), conf.max_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.max_inclusive,
@@ -163,7 +171,7 @@ impl Prefixed {
         };
 
         let stream = self.tree.read().await.traverse(bounded_conf).await?;
-        let len_drain = self.prefix.len() + self.conf.seperator.len();
+        let len_drain = full_prefix.len();
         // strip `self.prefix + self.conf.seperator` from the beggining of the key
         Ok(stream.map(move |res| {
             let len_drain = len_drain;
@@ -176,6 +184,13 @@ impl Prefixed {
     }
 }
 
+/// The smallest key that is greater than every key that begins with `prefix`.
+/// `None` if no key is.
+fn end_of_prefix(prefix: &[u8]) -> Option<Vec<u8>> {
+    let last = prefix.iter().rposition(|byte| *byte != u8::MAX)?;
+    Some(increment_bytes(&prefix[..=last]))
+}
+
 fn increment_bytes(pref: &[u8]) -> Vec<u8> {
     let len = pref.len();
     if len == 0 {
-- 
2.43.0


From 5e83d7c7f756cdb9f02ff91b165a45848383120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 4/9] fix: check the upper bound also for a key equal to the
 lower bound

A traversal with min_value == max_value, or with min_value > max_value, yielded the key
equal to min_value even when the upper bound excluded it.
---
 src/traverse.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index dbb21f7..a3ad63e 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -218,23 +218,25 @@ async fn make_child_key_index_iter(
 impl TraverseConfig {
     fn in_bounds(&self, value: &[u8]) -> bool {
         // TODO impl Ord for LimitValue and remove the expects
-        match self
+        let above_min = match self
             .min_value
             .partial_cmp(value)
             .expect("partial_cmp never returns none")
         {
             std::cmp::Ordering::Greater => false,
             std::cmp::Ordering::Equal => self.min_inclusive,
-            std::cmp::Ordering::Less => match self
-                .max_value
-                .partial_cmp(value)
-                .expect("partial_cmp never returns none")
-            {
-                std::cmp::Ordering::Greater => true,
-                std::cmp::Ordering::Equal => self.max_inclusive,
-                std::cmp::Ordering::Less => false,
-            },
-        }
+            std::cmp::Ordering::Less => true,
+        };
+        let below_max = match self
+            .max_value
+            .partial_cmp(value)
+            .expect("partial_cmp never returns none")
+        {
+            std::cmp::Ordering::Greater => true,
+            std::cmp::Ordering::Equal => self.max_inclusive,
+            std::cmp::Ordering::Less => false,
+        };
+        above_min && below_max
     }
 }
 
-- 
2.43.0


From ccb2035a40711580acc1c03703a91d0a9ed10645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 5/9] fix: accept explicitly infinite traversal bounds

(-inf, x), (x, +inf) and (-inf, +inf) given to the builder were refused as if the minimum
were greater than the maximum.
---
 src/traverse.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index a3ad63e..5e3da35 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -83,11 +83,8 @@ fn validate_traverse_config_builder(builder: &TraverseConfigBuilder) -> Result<(
                     return Ok(());
                 }
             }
-            (min, max) => {
-                return Err(format!(
-                    "Min limit [{min:?}] is greater than max limit [{max:?}]!"
-                ))
-            }
+            // an infinite bound is always on the right side of the other bound here
+            (_, _) => return Ok(()),
         },
         (_, _) => return Ok(()),
     }
-- 
2.43.0


From e1de1eaa5070564d9b4edd33ead37d90dbb87edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:45 +0000
Subject: [PATCH 6/9] fix: end a traversal after failing to build its iterator

The completed future was kept, so polling the stream again after it yielded the error
panicked with `async fn` resumed after completion.
---
 src/traverse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/traverse.rs b/src/traverse.rs
index 5e3da35..ed2f051 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -406,6 +406,10 @@ impl Stream for Traverse<'_> {
                             return Poll::Pending;
                         }
                         Err(e) => {
+                            // There is nothing to iterate over, and `iter_fut` is done and must
+                            // not be polled again. So the stream ends after the error.
+                            self.iter_fut = None;
+                            self.iter = Some(Box::pin(std::iter::empty()));
                             // Push error into stream
                             return Poll::Ready(Some((
                                 Err(HyperbeeError::BuildIteratorInTraverseError(Box::new(e))),
-- 
2.43.0


From 44aebdb27ef805da907c45ed15ad97d163526831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:15 +0000
Subject: [PATCH 7/9] fix: report malformed blocks as errors instead of
 panicking

The log may come from a remote peer or another implementation. An odd child list, a wrong
number of children, a child in a later block, an offset without a node, or an inner node
with an empty leaf below it made reads and writes panic.
---
 src/blocks.rs | 35 +++++++++++++++++++++++++++--------
 src/del.rs    |  2 +-
 src/error.rs  |  6 ++++++
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 4583c4b..92cbfde 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -6,7 +6,7 @@ use hypercore::{
     replication::{CoreInfo, CoreMethods},
     AppendOutcome,
 };
-use prost::{bytes::Buf, DecodeError, Message};
+use prost::{bytes::Buf, Message};
 use replicator::ReplicatingCore;
 use tokio::sync::RwLock;
 use tracing::trace;
@@ -81,7 +81,7 @@ impl Blocks {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node, blocks)?))
+                Ok(Some(BlockEntry::new(*seq, node, blocks)?))
             }
             None => Ok(None),
         }
@@ -176,9 +176,25 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from a Hypercore block into the [`Level`]s that [`Node`]s are made from.
-fn decode_levels<B: Buf>(buf: B) -> Result<Vec<Level>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?.levels)
+/// Deserialize bytes from the Hypercore block at `seq` into the [`Level`]s that [`Node`]s are made
+/// from.
+/// # Errors
+/// when the bytes cannot be decoded, or a level is not a well formed node
+fn decode_levels<B: Buf>(buf: B, seq: u64) -> Result<Vec<Level>, HyperbeeError> {
+    let levels = YoloIndex::decode(buf)?.levels;
+    for level in levels.iter() {
+        // children are pairs of seq and offset, there is one more child than there are keys
+        let is_leaf = level.children.is_empty();
+        if !is_leaf && (level.keys.is_empty() || level.children.len() != (level.keys.len() + 1) * 2)
+        {
+            return Err(HyperbeeError::MalformedBlockError(seq));
+        }
+        // a node can't have children in later blocks
+        if level.children.iter().step_by(2).any(|child| *child > seq) {
+            return Err(HyperbeeError::MalformedBlockError(seq));
+        }
+    }
+    Ok(levels)
 }
 
 /// Make a [`Node`] from it's serialized form.
@@ -194,6 +210,8 @@ fn make_node(level: &Level, blocks: Shared<Blocks>) -> Node {
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
 /// Hyperbee
 pub(crate) struct BlockEntry {
+    /// index of the block within the hypercore
+    seq: u64,
     /// YoloIndex::decode(NodeSchema::new(hypercore.get(seq)).index).levels
     levels: Vec<Level>,
     /// The blocks that the nodes refer to
@@ -205,9 +223,10 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(seq: u64, entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            levels: decode_levels(&entry.index[..])?,
+            seq,
+            levels: decode_levels(&entry.index[..], seq)?,
             blocks,
             key: entry.key,
             value: entry.value,
@@ -224,7 +243,7 @@ impl BlockEntry {
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node");
+            .ok_or(HyperbeeError::NoNodeAtOffsetError(self.seq, offset))?;
         Ok(Arc::new(RwLock::new(make_node(level, self.blocks.clone()))))
     }
 }
diff --git a/src/del.rs b/src/del.rs
index 77e4147..d904f00 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -59,7 +59,7 @@ impl Side {
                 .await
                 .keys
                 .pop()
-                .unwrap();
+                .ok_or(HyperbeeError::EmptyLeafError)?;
             (left_child_index, donor, left_path)
         };
         node.write().await.keys.insert(key_index, replacement_key);
diff --git a/src/error.rs b/src/error.rs
index 6da12f9..ab3b372 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,6 +21,12 @@ pub enum HyperbeeError {
     DecodeError(#[from] DecodeError),
     #[error("No block at seq  `{0}`")]
     NoBlockAtSeqError(u64),
+    #[error("The block at seq `{0}` does not hold well formed tree nodes")]
+    MalformedBlockError(u64),
+    #[error("The block at seq `{0}` holds no tree node at offset `{1}`")]
+    NoNodeAtOffsetError(u64, u64),
+    #[error("Cannot replace a key of an inner node because the leaf next to it has no keys")]
+    EmptyLeafError,
     #[error("There was an error building `crate::Hyperbee` from `crate::tree::Tree`")]
     TreeBuilderError(#[from] TreeBuilderError),
     #[error(
-- 
2.43.0


From 5d1595fd81dd670e5ec9151725952e8c29f1c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:36 +0000
Subject: [PATCH 8/9] fix: answer every hb_get

hb_get panicked inside its task, and the callback was never called, when the key was
absent, had no value, or the lookup failed.
---
 src/external.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 137ce7a..9440f58 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -19,6 +19,7 @@ type HbDiskPointer = HyperbeePointer;
 
 /// Type of callback we pass results to
 /// seq == 0 means the key was not found
+/// error_code != 0 means the lookup failed, and error_message says why
 pub type HbGetResultCallback = unsafe extern "C" fn(
     error_code: i64,
     error_message: *const c_char,
@@ -134,17 +135,16 @@ pub extern "C" fn hb_get(
     let rkey = vec_from_c_vec(key_buff, key_size);
 
     rt.spawn(async move {
-        match hb.get(&rkey).await {
-            Ok(Some((seq, Some(value)))) => {
-                let (vec, size) = c_vec_from_vec(value);
-                let no_error_msg = CString::new("").unwrap().into_raw();
-                unsafe {
-                    callback(0, no_error_msg, seq, vec, size);
-                }
-            }
-            Ok(_) => todo!(),
-            Err(_e) => todo!(),
+        let (error_code, error_msg, seq, value) = match hb.get(&rkey).await {
+            Ok(Some((seq, value))) => (0, String::new(), seq, value.unwrap_or_default()),
+            Ok(None) => (0, String::new(), 0, vec![]),
+            Err(e) => (1, e.to_string(), 0, vec![]),
         };
+        let (vec, size) = c_vec_from_vec(value);
+        let error_msg = CString::new(error_msg).unwrap_or_default().into_raw();
+        unsafe {
+            callback(error_code, error_msg, seq, vec, size);
+        }
     });
     0
 }
-- 
2.43.0


From f593891dbace9f4d952ddd0937051cd03401719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 9/9] fix: reject nodes that refer to themselves or to nodes
 before them in their block

A block of a log from a remote peer or another implementation may hold a node that is its own
child, or a child that refers back to its parent. Reading such a tree never came to an end.
Blocks that are written here and by the JavaScript implementation list a node before its
children.
---
 src/blocks.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 92cbfde..db6a4ff 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -182,15 +182,20 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
 /// when the bytes cannot be decoded, or a level is not a well formed node
 fn decode_levels<B: Buf>(buf: B, seq: u64) -> Result<Vec<Level>, HyperbeeError> {
     let levels = YoloIndex::decode(buf)?.levels;
-    for level in levels.iter() {
+    for (offset, level) in levels.iter().enumerate() {
         // children are pairs of seq and offset, there is one more child than there are keys
         let is_leaf = level.children.is_empty();
         if !is_leaf && (level.keys.is_empty() || level.children.len() != (level.keys.len() + 1) * 2)
         {
             return Err(HyperbeeError::MalformedBlockError(seq));
         }
-        // a node can't have children in later blocks
-        if level.children.iter().step_by(2).any(|child| *child > seq) {
+        // a node can't have children in later blocks, or at or before itself in its own block:
+        // going down the tree would not end
+        if level
+            .children
+            .chunks_exact(2)
+            .any(|child| child[0] > seq || (child[0] == seq && child[1] <= offset as u64))
+        {
             return Err(HyperbeeError::MalformedBlockError(seq));
         }
     }
-- 
2.43.0

