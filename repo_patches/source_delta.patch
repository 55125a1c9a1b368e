From 96121c5594c0ea9b7998670ae9640d6cca0e168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 01/17] fix: pack must be a noop for packed trees

packing an unsealed branch with a single sealed leaf turned the leaf into
the root of the builder, so that the tree could not be loaded from its root
link anymore.
---
 banyan/src/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..9b64fd8 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -531,6 +531,11 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     /// ![packing illustration](https://ipfs.io/ipfs/QmaEDTjHSdCKyGQ3cFMCf73kE67NvffLA5agquLW5qSEVn/packing.jpg)
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
+        if self.is_packed(&initial)? {
+            // nothing to do. In particular, a tree consisting of a single sealed leaf below the root
+            // must not be turned into a bare leaf, since that can not be loaded from its link.
+            return Ok(());
+        }
         let roots = self.roots(tree)?;
         self.tree_from_roots(roots, tree)?;
         let remainder: Vec<_> = self
-- 
2.43.0


From 76791448ebc699037532b2d7b408b23c33eab309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 02/17] fix: do not lose the unpacked part of a tree when pack
 fails

The builder was set to just the packed roots before the remainder was read
and appended, so an error while doing so left it truncated.
---
 banyan/src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 9b64fd8..f5c19e9 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -537,13 +537,16 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             return Ok(());
         }
         let roots = self.roots(tree)?;
-        self.tree_from_roots(roots, tree)?;
+        // roll back to the initial tree if anything goes wrong below
+        let mut tree = tree.transaction();
+        self.tree_from_roots(roots, &mut tree)?;
         let remainder: Vec<_> = self
             .collect_from(&initial, tree.count())?
             .into_iter()
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
-        self.extend(tree, remainder)?;
+        self.extend(&mut *tree, remainder)?;
+        tree.commit();
         Ok(())
     }
 
-- 
2.43.0


From 5459a86eed391073b2f6e94243dde9e77e8f0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 03/17] fix: extending an unpacked tree must not panic

extend assumed a packed tree and ran into the assertions of extend_branch
otherwise. Fall back to extend_unpacked for trees that are not packed.
---
 banyan/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index f5c19e9..f7835ad 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -562,6 +562,8 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
 
     /// extend the node with the given iterator of key/value pairs
     ///
+    /// If the tree is not packed, this will do the same as extend_unpacked.
+    ///
     /// ![extend illustration](https://ipfs.io/ipfs/QmaEDTjHSdCKyGQ3cFMCf73kE67NvffLA5agquLW5qSEVn/extend.jpg)
     pub fn extend<I, V>(&mut self, tree: &mut StreamBuilder<T, V>, from: I) -> Result<()>
     where
@@ -574,6 +576,10 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             // nothing to do
             return Ok(());
         }
+        if !self.is_packed(&tree.snapshot())? {
+            // only a packed tree can be extended in place
+            return self.extend_unpacked(tree, from);
+        }
         let index = tree.as_index_ref().cloned();
         let index = self.extend_above(
             index.as_ref(),
-- 
2.43.0


From b73be5c8067576c263ab06d4f150d3f9f9119bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:48 +0000
Subject: [PATCH 04/17] fix: end index iteration after an error

The iterator kept its state after an error and therefore yielded the same
error forever.
---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..8eed675 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // ensure we are done after the error
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From 8cd8d025eca0b2dc203fd55820de3a755a4df968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 05/17] fix: do not deliver the boundary element twice in the
 reverse stream

When the reverse stream continued with the next tree, the inclusive end of
the remaining range still contained the first element of the last chunk.
---
 banyan/src/forest/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..405b8ee 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,11 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the end offset from the start of what we got. The end offset is
+                            // inclusive, so it has to be below the start. For a start of 0, there is
+                            // nothing left to do and the stream ends.
+                            end_offset_ref
+                                .fetch_min(chunk.range.start.saturating_sub(1), Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0


From 3fb3d4b78986ae87a70405be40b4f3492e138981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:24 +0000
Subject: [PATCH 06/17] fix: decode the encrypted part of a block as plain
 bytes

Decoding it as arbitrary ipld recurses without bound, so that a crafted
block with a deeply nested value there overflowed the stack.
---
 banyan/src/store/zstd_dag_cbor_seq.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index baaf07d..c9af5a9 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -33,8 +33,10 @@ use libipld::{
     cbor::DagCborCodec,
     codec::Codec,
     prelude::{Decode, Encode},
-    Cid, DagCbor, Ipld,
+    Cid, DagCbor,
 };
+#[cfg(test)]
+use libipld::Ipld;
 use std::{
     collections::BTreeSet,
     convert::TryFrom,
@@ -431,7 +433,7 @@ impl ZstdDagCborSeq {
         key: &chacha20::Key,
         nonce: &chacha20::XNonce,
     ) -> anyhow::Result<(Self, Range<u64>)> {
-        let (offset, links, mut encrypted) = DagCborCodec.decode::<IpldNode>(data)?.into_data()?;
+        let (offset, links, mut encrypted) = DagCborCodec.decode::<IpldNode>(data)?.into_data();
         let mut cipher = XChaCha20::new(key, nonce);
         let end_offset = offset
             .checked_add(encrypted.len() as u64)
@@ -445,19 +447,16 @@ impl ZstdDagCborSeq {
 
 /// utility struct for encoding and decoding
 #[derive(DagCbor)]
-struct IpldNode(u64, Vec<Cid>, Ipld);
+struct IpldNode(u64, Vec<Cid>, Box<[u8]>);
 
 impl IpldNode {
     fn new(links: Vec<Cid>, data: impl Into<Vec<u8>>, offset: u64) -> Self {
-        Self(offset, links, Ipld::Bytes(data.into()))
+        let data: Vec<u8> = data.into();
+        Self(offset, links, data.into_boxed_slice())
     }
 
-    fn into_data(self) -> anyhow::Result<(u64, Vec<Cid>, Vec<u8>)> {
-        if let Ipld::Bytes(data) = self.2 {
-            Ok((self.0, self.1, data))
-        } else {
-            Err(anyhow::anyhow!("expected ipld bytes"))
-        }
+    fn into_data(self) -> (u64, Vec<Cid>, Vec<u8>) {
+        (self.0, self.1, self.2.into_vec())
     }
 }
 
-- 
2.43.0


From 69b32e3c9bfd7acfbc98565f139f94fde1d5c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:59 +0000
Subject: [PATCH 07/17] fix: remove all redundant terms when building a
 disjunctive normal form

insert_unless_redundant removed at most one of the terms that a new term makes
redundant, so (a | b) & (c | a) became a | b&c | a&c and the normal form was neither
minimal nor unique.
---
 banyan-utils/src/tag_index.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bc815f6..b8c4024 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -340,20 +340,15 @@ impl Dnf {
 }
 
 fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
-    let mut to_remove = None;
-    for a in aa.iter() {
-        if a.is_subset(&b) {
-            // a is larger than b. E.g. x | x&y
-            // keep a, b is redundant
-            return;
-        } else if a.is_superset(&b) {
-            // a is smaller than b, E.g. x&y | x
-            // remove a, keep b
-            to_remove = Some(a.clone());
-        }
-    }
-    if let Some(r) = to_remove {
-        aa.remove(&r);
+    if aa.iter().any(|a| a.is_subset(&b)) {
+        // a is larger than b. E.g. x | x&y
+        // keep a, b is redundant
+        return;
+    }
+    // remove every a that is smaller than b, E.g. x&y | x&z | x
+    let redundant: Vec<TagSet> = aa.iter().filter(|a| a.is_superset(&b)).cloned().collect();
+    for a in redundant {
+        aa.remove(&a);
     }
     aa.insert(b);
 }
-- 
2.43.0


From da078d3a7007f2c7187fdb3e335a1d5dddf424e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:59 +0000
Subject: [PATCH 08/17] fix: a tag that a node does not contain must not
 disable the whole DnfQuery

Translating a query to the tag table of a node gave an empty query as soon as any term
mentioned a tag that is not in the table, so entries matching that term or another one
were skipped depending on which node they are in.
---
 banyan-utils/src/tags.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..420d968 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -1,4 +1,4 @@
-use crate::{tag_index::map_to_index_set, tag_index::TagIndex, tag_index::TagSet};
+use crate::{tag_index::TagIndex, tag_index::TagSet};
 use banyan::query::Query;
 use banyan::{index::*, TreeTypes};
 use libipld::{
@@ -202,14 +202,17 @@ impl DnfQuery {
             query: self
                 .0
                 .iter()
-                .map(|key| {
-                    map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
-                        index_set,
-                        time: key.time,
-                    })
+                .map(|key| TranslatedKey {
+                    // a tag that is not in the table is not in any of the elements
+                    index_set: key
+                        .tags
+                        .iter()
+                        .filter_map(|tag| keyseq.tags.tags.as_ref().binary_search(tag).ok())
+                        .map(|index| index as u32)
+                        .collect(),
+                    time: key.time,
                 })
-                .collect::<Option<Vec<_>>>()
-                .unwrap_or_default(),
+                .collect(),
             seq: keyseq,
         }
     }
-- 
2.43.0


From b7b2876ba19ea64dfb19829ffa2fe6f7fe0f98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:59 +0000
Subject: [PATCH 09/17] fix: roots must end at an unsealed branch that is not
 accessible

After repair removed an unsealed branch from an unpacked tree, roots listed sealed nodes
behind the gap as if they followed the ones before it.
---
 banyan/src/forest/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..56aa00d 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -687,6 +687,9 @@ where
                     for child in branch.children.iter() {
                         self.roots0(secrets, child, level, res)?;
                     }
+                } else {
+                    // the roots below are not accessible, so what follows is not adjacent
+                    *level = -1;
                 }
             }
         }
-- 
2.43.0


From 895fd6ba396d555264056fb783c85d7bd444ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:36 +0000
Subject: [PATCH 10/17] fix: a block without children is an error when it is
 read as a branch

Loading a tree from, or reading, such a block panicked (unwrap on an empty iterator in
create_index_from_link, assertion in Branch::new) instead of returning an error.
---
 banyan/src/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 987eded..e261f3c 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -43,7 +43,7 @@ use crate::{
     store::{ReadOnlyStore, ZstdDagCborSeq},
     CipherOffset, Forest, Secrets,
 };
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 use cbor_data::codec::ReadCbor;
 use libipld::{
     cbor::{DagCbor, DagCborCodec},
@@ -446,6 +446,8 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
 ) -> Result<(Vec<Index<T>>, Range<u64>)> {
     let (seq, byte_range) = ZstdDagCborSeq::decrypt(ipld, key, nonce)?;
     let seq = seq.items_ipld::<Index<T>>()?;
+    // a branch has at least one child
+    ensure!(!seq.is_empty(), "branch without children");
     Ok((seq, byte_range))
 }
 
-- 
2.43.0


From f92b944480ba7167522304d638500382b8a25cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 11/17] fix: never write a block that is too large to be
 decompressed again

---
 banyan/src/store/mod.rs               |  2 +-
 banyan/src/store/thread_local_zstd.rs |  4 ++--
 banyan/src/store/zstd_dag_cbor_seq.rs | 23 ++++++++++++++++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/banyan/src/store/mod.rs b/banyan/src/store/mod.rs
index ae5c4ab..65097e6 100644
--- a/banyan/src/store/mod.rs
+++ b/banyan/src/store/mod.rs
@@ -9,7 +9,7 @@ mod zstd_dag_cbor_seq;
 pub use branch_cache::BranchCache;
 pub use mem_cache::{MemCache, MemWriter};
 pub use mem_store::MemStore;
-pub(crate) use thread_local_zstd::decompress_and_transform;
+pub(crate) use thread_local_zstd::{decompress_and_transform, MAX_CAPACITY};
 pub use zstd_dag_cbor_seq::ZstdDagCborSeq;
 
 use cbor_data::codec::ReadCbor;
diff --git a/banyan/src/store/thread_local_zstd.rs b/banyan/src/store/thread_local_zstd.rs
index 968b1a9..df7b06c 100644
--- a/banyan/src/store/thread_local_zstd.rs
+++ b/banyan/src/store/thread_local_zstd.rs
@@ -5,8 +5,8 @@ use zstd::block::Decompressor;
 /// The size of the thread local buffer
 const MIN_CAPACITY: usize = 1024 * 1024 * 4;
 
-/// Max capacity we are going to allocate.
-const MAX_CAPACITY: usize = 1024 * 1024 * 16;
+/// Max capacity we are going to allocate. Data that is larger when decompressed can not be read.
+pub(crate) const MAX_CAPACITY: usize = 1024 * 1024 * 16;
 
 /// thread-local decompression state
 pub(crate) struct DecompressionState {
diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index c9af5a9..d0b49e6 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -47,7 +47,10 @@ use std::{
     time::Instant,
 };
 
-use crate::{store::decompress_and_transform, stream_builder::CipherOffset};
+use crate::{
+    store::{decompress_and_transform, MAX_CAPACITY},
+    stream_builder::CipherOffset,
+};
 
 #[derive(Clone, PartialEq, Eq)]
 pub struct ZstdDagCborSeq {
@@ -80,6 +83,13 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // never produce something that can not be decompressed again
+        anyhow::ensure!(
+            size <= MAX_CAPACITY,
+            "uncompressed size {} is more than the maximum of {}",
+            size,
+            MAX_CAPACITY
+        );
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
@@ -108,6 +118,13 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // never produce something that can not be decompressed again
+        anyhow::ensure!(
+            size <= MAX_CAPACITY,
+            "uncompressed size {} is more than the maximum of {}",
+            size,
+            MAX_CAPACITY
+        );
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
@@ -156,6 +173,8 @@ impl ZstdDagCborSeq {
         uncompressed_size: usize,
         max_keys: usize,
     ) -> anyhow::Result<(Self, bool)> {
+        // more than this could not be decompressed again
+        let uncompressed_size = uncompressed_size.min(MAX_CAPACITY);
         let mut links = BTreeSet::new();
         let t0 = Instant::now();
         let mut encoder = zstd::Encoder::new(Vec::new(), zstd_level)?;
@@ -244,6 +263,8 @@ impl ZstdDagCborSeq {
         uncompressed_size: usize,
         max_keys: usize,
     ) -> anyhow::Result<(Self, bool)> {
+        // more than this could not be decompressed again
+        let uncompressed_size = uncompressed_size.min(MAX_CAPACITY);
         let mut links = BTreeSet::new();
         let t0 = Instant::now();
         let mut encoder = zstd::Encoder::new(Vec::new(), zstd_level)?;
-- 
2.43.0


From 15b690a35ee7158544d748ae50e2c8e2e691b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:25 +0000
Subject: [PATCH 12/17] fix: error responses of the ipfs node were taken for a
 block or for a published message

---
 banyan-utils/src/ipfs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index b875c4e..ea2c9ed 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -14,7 +14,7 @@ pub fn block_get(key: &Cid) -> Result<Box<[u8]>> {
         &[("arg", format!("{}", key))],
     )?;
     let client = reqwest::blocking::Client::new();
-    let data: Vec<u8> = client.post(url).send()?.bytes()?.to_vec();
+    let data: Vec<u8> = client.post(url).send()?.error_for_status()?.bytes()?.to_vec();
     Ok(data.into())
 }
 
@@ -103,7 +103,8 @@ pub async fn pubsub_pub(topic: &str, data: &[u8]) -> Result<()> {
         topic, data
     ))?;
     let client = reqwest::Client::new();
-    let _ = client.post(url).send().await?.bytes().await?.to_vec();
+    let response = client.post(url).send().await?.error_for_status()?;
+    let _ = response.bytes().await?;
     Ok(())
 }
 
-- 
2.43.0


From 071e80f471cb9d087496f92969af5bba53c45552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:12 +0000
Subject: [PATCH 13/17] fix: pubsub messages are lines, not chunks of the
 response; report unusable ones as errors

---
 banyan-utils/src/bin/cli.rs |  1 -
 banyan-utils/src/ipfs.rs    | 36 +++++++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 89dd1fb..61a2b1a 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -503,7 +503,6 @@ async fn main() -> Result<()> {
         Command::RecvStream { topic } => {
             let secrets = Secrets::default();
             let links = pubsub_sub(&topic)?
-                .map_err(anyhow::Error::new)
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
                 .and_then(|data| future::ready(Sha256Digest::from_str(&data)));
             let forest2 = forest.clone();
diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index ea2c9ed..d02029f 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -71,7 +71,11 @@ struct IpfsPubsubEventIo {
     _topic_ids: IgnoredAny,
 }
 
-pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<u8>>>> {
+/// Subscribe to a topic
+///
+/// The node sends one json object per line. Lines have nothing to do with the chunks in which the
+/// response arrives: a chunk can contain several of them, or just a part of one.
+pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = Result<Vec<u8>>>> {
     let url = reqwest::Url::parse_with_params(
         "http://localhost:5001/api/v0/pubsub/sub",
         &[("arg", topic)],
@@ -80,15 +84,29 @@ pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<
     let data = client
         .post(url)
         .send()
-        .map(|response| match response {
-            Ok(response) => response
-                .bytes_stream()
-                .map_ok(|bytes| {
-                    let data: IpfsPubsubEventIo = serde_json::from_slice(&bytes).unwrap();
-                    data.data.0
+        .map(|response| match response.and_then(|r| r.error_for_status()) {
+            Ok(response) => {
+                let state = (response.bytes_stream(), Vec::new());
+                // ends after the first error
+                futures::stream::try_unfold(state, |(mut chunks, mut buf)| async move {
+                    loop {
+                        if let Some(end) = buf.iter().position(|b| *b == b'\n') {
+                            let line: Vec<u8> = buf.drain(..=end).collect();
+                            let event: IpfsPubsubEventIo = serde_json::from_slice(&line)?;
+                            return Ok(Some((event.data.0, (chunks, buf))));
+                        }
+                        match chunks.try_next().await? {
+                            Some(chunk) => buf.extend_from_slice(&chunk),
+                            None => {
+                                anyhow::ensure!(buf.is_empty(), "response ends within a message");
+                                return Ok(None);
+                            }
+                        }
+                    }
                 })
-                .left_stream(),
-            Err(cause) => futures::stream::once(future::err(cause)).right_stream(),
+                .left_stream()
+            }
+            Err(cause) => futures::stream::once(future::err(cause.into())).right_stream(),
         })
         .flatten_stream();
     Ok(data)
-- 
2.43.0


From 39cc733595c879be3557e8cb4e3edf851b782403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:02 +0000
Subject: [PATCH 14/17] fix: panic when the ipfs node returned a link with
 another hash

---
 banyan-utils/src/ipfs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index d02029f..5f4d01b 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -167,8 +167,7 @@ impl BlockWriter<Sha256Digest> for IpfsStore {
         let cid = std::thread::spawn(move || crate::ipfs::block_put(&data, 0x71, false))
             .join()
             .map_err(|_| anyhow!("join error!"))??;
-        assert!(cid.hash().code() == 0x12);
-        assert!(cid.hash().digest().len() == 32);
+        // fails if this is not a sha256 link
         cid.try_into()
     }
 }
-- 
2.43.0


From 6de0caa3b54821ab7180a00bfbd479524fb36ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:06 +0000
Subject: [PATCH 15/17] fix: cli ignored the passwords when building,
 filtering, forgetting, packing and receiving

---
 banyan-utils/src/bin/cli.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 61a2b1a..970fdd3 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -226,8 +226,8 @@ async fn build_tree(
     count: u64,
     unbalanced: bool,
     print_every: u64,
+    secrets: Secrets,
 ) -> anyhow::Result<StreamBuilder<TT, String>> {
-    let secrets = Secrets::default();
     let config = Config::debug();
     let mut tagger = Tagger::new();
     // function to add some arbitrary tags to test out tag querying and compression
@@ -405,7 +405,16 @@ async fn main() -> Result<()> {
                 "building a tree with {} batches of {} values, unbalanced: {}",
                 batches, count, unbalanced
             );
-            let tree = build_tree(&mut forest, base, batches, count, unbalanced, 1000).await?;
+            let tree = build_tree(
+                &mut forest,
+                base,
+                batches,
+                count,
+                unbalanced,
+                1000,
+                secrets,
+            )
+            .await?;
             forest.dump(&tree.snapshot())?;
         }
         Command::Bench { count } => {
@@ -470,7 +479,6 @@ async fn main() -> Result<()> {
                 .map(|tag| Key::filter_tags(TagSet::single(Tag::from(tag))))
                 .collect::<Vec<_>>();
             let query = DnfQuery(tags).boxed();
-            let secrets = Secrets::default();
             let config = Config::debug();
             let tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -482,7 +490,6 @@ async fn main() -> Result<()> {
             }
         }
         Command::Forget { root, before } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.retain(&mut tree, &OffsetRangeQuery::from(before..))?;
@@ -490,7 +497,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::Pack { root } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -501,7 +507,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::RecvStream { topic } => {
-            let secrets = Secrets::default();
             let links = pubsub_sub(&topic)?
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
                 .and_then(|data| future::ready(Sha256Digest::from_str(&data)));
-- 
2.43.0


From abe2639584d0db3a1eea802dfa3746dd348e398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 16/17] fix: cli took a read error for the end of the stream

---
 banyan-utils/src/bin/cli.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 970fdd3..a51f8b5 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -389,7 +389,8 @@ async fn main() -> Result<()> {
         Command::Stream { root } => {
             let tree = forest.load_tree::<String>(secrets, root)?;
             let mut stream = forest.stream_filtered(&tree, AllQuery).enumerate();
-            while let Some((i, Ok(v))) = stream.next().await {
+            while let Some((i, v)) = stream.next().await {
+                let v = v?;
                 if i % 1000 == 0 {
                     println!("{:?}", v);
                 }
@@ -483,7 +484,8 @@ async fn main() -> Result<()> {
             let tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
             let mut stream = forest.stream_filtered(&tree.snapshot(), query).enumerate();
-            while let Some((i, Ok(v))) = stream.next().await {
+            while let Some((i, v)) = stream.next().await {
+                let v = v?;
                 if i % 1000 == 0 {
                     println!("{:?}", v);
                 }
-- 
2.43.0


From 042f6db8616e8289052b142aed8c220a1dac77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:56 +0000
Subject: [PATCH 17/17] fix: extending a tree whose end was lost and purged by
 repair panicked

A purged node that is not sealed can not be extended in place. Fall back to
extend_unpacked if the right edge of the tree ends in one.
---
 banyan/src/forest/read.rs | 16 ++++++++++++++++
 banyan/src/tree.rs        |  7 +++++++
 2 files changed, 23 insertions(+)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index 56aa00d..ce0c04c 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -778,4 +778,20 @@ where
             },
         )
     }
+
+    /// Checks that the right edge of a node does not end in purged data that is not sealed. Such data
+    /// can neither be extended nor be followed by something at the same level.
+    pub(crate) fn is_extensible0(&self, secrets: &Secrets, index: &Index<T>) -> Result<bool> {
+        if index.sealed() {
+            return Ok(true);
+        }
+        match self.node_info(secrets, index) {
+            NodeInfo::Branch(_, branch) => match branch.load_cached()?.children.last() {
+                Some(last) => self.is_extensible0(secrets, last),
+                None => Ok(true),
+            },
+            NodeInfo::Leaf(..) => Ok(true),
+            NodeInfo::PurgedBranch(_) | NodeInfo::PurgedLeaf(_) => Ok(false),
+        }
+    }
 }
diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index f7835ad..a3593a0 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -581,6 +581,13 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             return self.extend_unpacked(tree, from);
         }
         let index = tree.as_index_ref().cloned();
+        if let Some(index) = &index {
+            let secrets = tree.state().secrets();
+            if !self.is_extensible0(secrets, index)? {
+                // the end of the tree is lost, so there is nothing that could be extended
+                return self.extend_unpacked(tree, from);
+            }
+        }
         let index = self.extend_above(
             index.as_ref(),
             u32::max_value(),
-- 
2.43.0

