#!/usr/bin/env python3
"""Generates properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

W="banyan/src/forest/write.rs"; R="banyan/src/forest/read.rs"; T="banyan/src/tree.rs"
S="banyan/src/forest/stream.rs"; I="banyan/src/forest/index_iter.rs"; SB="banyan/src/stream_builder.rs"
Z="banyan/src/store/zstd_dag_cbor_seq.rs"; TL="banyan/src/store/thread_local_zstd.rs"; Q="banyan/src/query.rs"
M="banyan/src/forest/mod.rs"; IX="banyan/src/index.rs"; BC="banyan/src/store/branch_cache.rs"
MC="banyan/src/store/mem_cache.rs"; MS="banyan/src/store/mem_store.rs"; U="banyan/src/util.rs"
TI="banyan-utils/src/tag_index.rs"; TG="banyan-utils/src/tags.rs"; SQ="banyan-utils/src/sqlite.rs"; DU="banyan-utils/src/dump.rs"
IPFS="banyan-utils/src/ipfs.rs"; CLI="banyan-utils/src/bin/cli.rs"

p("P01","Everything appended is read back exactly, in order, at its offset",
  "After any history of single, bulk and unpacked appends, packing, committed or rolled-back transactions and reloading from the root link, the stream contains exactly the appended (key, value) pairs, in append order. Reading the whole stream, reading from any offset, random access at any offset (nothing past the end), plain iteration and streaming all return exactly that sequence, with matching element count. This holds for every size and branching configuration, also when the stream is continued with another one, and every permitted value size; an append that is refused leaves the stream as it was.",
  ["histories","inputs","configurations"],
  "all operation sequences up to the explored depth over {append n, append unpacked n, push, pack, rolled-back append/pack, reload}, for a family of tiny tree configurations, plus threshold-crossing sizes (wide branches, long leaves, deep unpacked chains, values around size limits)",
  "The unit tests build a few random trees per operation with the fixed debug configuration; operation histories (append after unpacked append, after pack, after reload, after rollback) and other configurations are not enumerated.",
  [W,T,R,Z,SB],[("extend/extend_unpacked/pack","banyan/src/tree.rs Transaction"),("extend_leaf/extend_branch/extend_above","banyan/src/forest/write.rs"),("get0/collect0","banyan/src/forest/read.rs")],
  ["Forest::collect","Forest::get","Forest::collect_from","Forest::iter_from","Forest::stream_filtered"])
p("P02","Tree nodes satisfy the structural and accounting invariants and size limits",
  "In every tree produced by appending (packed or unpacked), packing or reloading, each node's element count, level, summaries, sealed flag, value-byte and key-byte totals equal what its children imply, a leaf has as many keys as values, children of a sealed branch are sealed and exactly one level below, and children of any branch are below it. Leaves and branches never exceed the configured element, branching and uncompressed-size limits, a node is sealed exactly when the configuration says it is full, and an element too large for the configured uncompressed limit is refused with an error. The library's own invariant checker agrees and reports nothing on these trees.",
  ["histories","configurations","inputs"],
  "every node of every tree reached by the enumerated histories and configurations, including value sizes just below, at and above the uncompressed and compressed leaf limits",
  "Tests only run the library's own invariant checker (which does not check counts, byte totals, levels or limits) on sampled histories with one configuration.",
  [W,IX,T,M,Z],[("new_branch / branch_sealed","banyan/src/forest/write.rs, forest/mod.rs"),("ZstdDagCborSeq::fill","banyan/src/store/zstd_dag_cbor_seq.rs"),("create_index_from_link","banyan/src/forest/read.rs")],
  ["Tree::index","BranchLoader::load","LeafLoader::load","Forest::check_invariants"])
p("P03","Packing yields a left-packed tree without changing content",
  "Packing any tree built by any mix of packed and unpacked appends succeeds, leaves the content unchanged and produces a tree that the packedness test accepts and in which only the last child of any unsealed branch may be unsealed or lower than its siblings. Packing an already packed tree is a no-op for its structure, packing keeps a loadable root, and appending to a packed tree keeps it packed.",
  ["histories","configurations"],
  "every tree shape reachable by the enumerated histories of packed and unpacked appends, packs and reloads in all tiny configurations; packing applied at every one of them",
  "Tests pack a sample of random trees with one configuration; the roots/remainder combinations that decide the result depend on exact shapes.",
  [T,W,R],[("pack / tree_from_roots / simplify_roots","banyan/src/tree.rs, banyan/src/forest/write.rs"),("roots_impl / is_packed0","banyan/src/forest/read.rs")],
  ["Transaction::pack","Forest::is_packed"])
p("P04","Filtered reads return exactly the matching entries",
  "For every tree and every query built from offset ranges (all bound kinds), key predicates and arbitrary and/or/all/nothing combinations, filtered iteration and filtered streaming return exactly the readable entries that match, each once with its offset, in ascending order (descending for whole chunks when reading in reverse). The result depends only on the content, never on how the tree is partitioned into nodes, on which parts are packed, or on the cache; forgotten parts are skipped without disturbing other offsets.",
  ["inputs","histories","configurations"],
  "all query terms of the query grammar up to nesting depth 2-3 with offsets in and just outside the stream, times the enumerated tree shapes including purged ones, in both directions and with cold, warm and disabled caches",
  "Tests use a handful of random queries on random trees; pruning and offset arithmetic errors need particular query/shape combinations.",
  [Q,R,U,T],[("TreeIter","banyan/src/forest/read.rs"),("OffsetRangeQuery/AndQuery/OrQuery","banyan/src/query.rs"),("intersects","banyan/src/util.rs")],
  ["Forest::iter_filtered","Forest::iter_filtered_reverse","Forest::stream_filtered"])
p("P05","Chunked reads tile the offset range without gaps or overlap",
  "A chunked filtered read of any tree with any query, in either direction, yields chunks whose offset ranges are contiguous and together cover exactly the whole stream, once. Each chunk holds exactly the matching readable entries of its range in ascending order, the per-chunk extra value is computed from the node that covers that range, and the streaming variants deliver the same chunks as the iterator variants.",
  ["inputs","histories"],
  "all queries and tree shapes of P04, including purged trees, forward and reverse, iterator and stream variants",
  "Tests check concatenation of chunk data on sampled trees; skipped/purged chunk ranges in reverse direction depend on the exact filter mask.",
  [R,T],[("TreeIter::skip / ChunkVisitor","banyan/src/forest/read.rs")],
  ["Forest::iter_filtered_chunked","Forest::iter_filtered_chunked_reverse","Forest::stream_filtered_chunked","Forest::stream_filtered_chunked_reverse"])
p("P06","Index iteration visits exactly the nodes that may match, in order",
  "Iterating the node indexes of any tree with any query visits each node exactly once, parents before their descendants and siblings in stream order (reversed for reverse iteration), and prunes precisely the subtrees whose summaries or offsets cannot match. Every node containing a matching entry is visited, purged nodes are still reported, and offsets presented to the query are the true offsets of the nodes.",
  ["inputs","histories"],
  "all queries and tree shapes of P04, including purged trees, in both directions",
  "Tests compare the index iteration with the library's own traversal on a few random trees with offset-agnostic queries.",
  [I,T],[("IndexIter","banyan/src/forest/index_iter.rs")],["Forest::iter_index","Forest::iter_index_reverse"])
p("P08","Forgetting keeps every matching entry and all offsets, and really purges",
  "Retaining the data matching any query never loses a matching entry, never loses anything in an unsealed node, never changes the element count, offset, key or value of a remaining entry, and reads of forgotten entries report them as absent rather than failing. In the packed part, every sealed leaf whose summary cannot match becomes unreachable from the new root: its own link, or that of a branch above it, is removed. Forgetting is idempotent, can be repeated with other queries, and afterwards every tree can still be appended to, and packed, with the remaining content intact.",
  ["histories","inputs","configurations"],
  "every query of the grammar applied at every enumerated tree shape (packed, unpacked, already purged), followed by appends, a second forgetting and a reload",
  "Tests retain with a few offset ranges on sampled packed trees; unpacked parts, key queries, repeated forgetting and appends afterwards are not enumerated.",
  [W,R,T],[("retain0","banyan/src/forest/write.rs"),("collect0/get0 purged handling","banyan/src/forest/read.rs")],
  ["Transaction::retain","Forest::collect","Forest::get"])
p("P09","Repair removes exactly what is lost and keeps everything readable",
  "For any subset of blocks missing from the store, repairing a tree returns without failing (while its root is readable), reports each unreadable reachable node once, and the repaired tree reads without errors. Every entry whose whole path is readable keeps its offset, key and value, every other entry is reported as absent, and the total count is unchanged. Repair judges what is really in the store, not what happens to be cached, and repairing an intact or already repaired tree changes nothing and reports nothing. A repaired stream can be appended to and reloaded like any other.",
  ["fault_sequences","histories"],
  "every subset of missing blocks (small trees) and every 1- and 2-subset (larger trees) of every enumerated tree, with cold and pre-warmed caches",
  "One test drops random blocks of sampled trees; subsets of blocks, cached parents and repeated repair are not enumerated.",
  [W,R,T],[("repair0 (uncached loads)","banyan/src/forest/write.rs")],["Transaction::repair","Forest::collect","Forest::get"])
p("P10","Read errors surface once and never corrupt results",
  "When the block store fails at any point of any read, every reading operation either returns a correct result or reports an error: iterators and streams deliver a correct prefix, then exactly one error, then end. No read fault is ever reported as absent data or as wrong data, and once the store works again the same forest returns complete, correct results.",
  ["fault_sequences","inputs"],
  "a failure of the k-th store access for every k (single, persistent, and pairs), and of every block, during every kind of read on the enumerated trees, followed by a fault-free retry on the same forest",
  "No test injects read failures into iterators or streams.",
  [R,I,T,BC],[("TreeIter::next clears its stack on error","banyan/src/forest/read.rs"),("IndexIter","banyan/src/forest/index_iter.rs"),("load_branch_cached_from_link","banyan/src/forest/read.rs")],
  ["all read operations of Forest over a fault-injecting store"])
p("P11","A failed write leaves the stream as it was, and a retry succeeds",
  "If storing or reading a block fails at any point during append, unpacked append, pack, forget or repair, the operation returns an error and the stream builder still represents exactly the content and root it had before. A later retry of the operation on the same builder succeeds and gives the correct content, and no stream-cipher range is used for two different payloads along the way.",
  ["fault_sequences","histories"],
  "a failure of the k-th block write or read, for every k and for pairs of failures, in the last operation of every enumerated history, for every mutating operation, then retry",
  "No test injects write failures; atomicity of multi-block operations under an error at each step is not observed.",
  [T,W,SB],[("set_index only after success; StreamTransaction","banyan/src/tree.rs, banyan/src/stream_builder.rs"),("CipherOffset::reserve","banyan/src/stream_builder.rs")],
  ["StreamBuilder state after Err","Transaction::*"])
p("P12","No block is written before the blocks it refers to",
  "At every crash point, that is after every prefix of the sequence of block writes performed by any history of appends, packs, forgets and repairs, every link contained in a stored block refers to a block already stored. Consequently every root that was ever published (returned by a completed operation) remains completely readable, with the content it had when published, from the blocks written up to that point.",
  ["crash_points","histories"],
  "every prefix of the write log of every enumerated history; every published root re-read from the blocks of that prefix",
  "Tests never look at the order in which blocks reach the store.",
  [W,T],[("persist_branch after children; put_block","banyan/src/forest/write.rs")],["BlockWriter::put order"])
p("P13","Snapshots are immutable and rollback restores the previous stream",
  "A snapshot taken at any time keeps reading exactly the content it had when taken, whatever later appends, packs, forgets, repairs or rollbacks are done on the builder, and so does a tree loaded from a link published earlier. Dropping a transaction restores the builder to the content, count and root at the transaction's start; committing keeps the changes; nested transactions compose in the same way.",
  ["histories"],
  "all operation histories up to the explored depth with a snapshot taken after every step and transactions begun, committed, dropped and nested at every position; all snapshots re-read at the end with warm and cold caches",
  "Tests check one rollback scenario; later operations are not interleaved with snapshot reads.",
  [SB,T,BC],[("Index persistence by Arc; StreamTransaction drop","banyan/src/stream_builder.rs")],["StreamBuilder::snapshot","StreamBuilder::transaction"])
p("P14","A stream-cipher range is never used twice",
  "For one key, no two different blocks of one stream are ever encrypted with overlapping keystream ranges: across any history of appends, packs, forgets, repairs, failed operations and rolled-back transactions on a builder, and also when the builder is re-created from the newest published root and continued, provided no writes were abandoned after that root. Each block records the range it really used, and reservations never wrap around.",
  ["histories","fault_sequences"],
  "every pair of blocks encrypted under the same key in every enumerated history including rollbacks, failed writes at every position and reload of the newest root; offsets up to and beyond 32-bit boundaries",
  "A single test covers one rollback; reuse only shows by comparing ranges of all blocks of a history.",
  [SB,W,Z,R],[("CipherOffset::reserve; offsets not rolled back","banyan/src/stream_builder.rs"),("byte_range.end on load","banyan/src/tree.rs load_stream_builder")],
  ["offset and length of every block put to the store"])
p("P15","Content is unreadable without the right keys; index and value keys are separate",
  "No key or value plaintext appears in any stored block, and a reader with a wrong index key cannot obtain any key, summary or value, while a reader with the right index key but a wrong value key can read the structure and keys but no value. Leaves are encrypted with the value key only and branches with the index key only, for every kind of operation that writes blocks.",
  ["histories","configurations"],
  "every block written by every enumerated history (append, unpacked append, pack, forget, repair) decrypted with each key combination",
  "Tests use default (all zero, equal) keys almost everywhere, so a mix-up of the two keys is invisible.",
  [W,R,Z],[("into_encrypted / decrypt with index_key or value_key","banyan/src/forest/write.rs, banyan/src/forest/read.rs")],
  ["blocks in the store","Forest reads with wrong Secrets"])
p("P16","Every block exposes exactly the links of its content, in the clear",
  "Each stored block lists, unencrypted, exactly the set of distinct links contained in its content: a branch lists the links of its non-purged children, a leaf lists the links (byte strings tagged 42 only) embedded as elements or map values at any depth in its values, whether the values were added at once or by later appends. Consequently someone without keys can find all blocks reachable from a root, and after forgetting no link to forgotten nodes remains in the new root's reachable blocks.",
  ["histories","inputs"],
  "all assignments of link-carrying values from a small set of value templates (nested arrays, maps, tags, indefinite-length items, duplicates) to the elements of enumerated histories, including leaves filled in several steps, packing and forgetting",
  "A test checks a few hand-written values appended once.",
  [Z,W],[("scrape_links","banyan/src/store/zstd_dag_cbor_seq.rs")],["link section of the stored dag-cbor node"])
p("P17","A live forward stream delivers each matching entry exactly once, in order",
  "Given any sequence of growing trees of one stream, arriving in any timing (including empty, repeated, repacked and partly forgotten ones), the live forward stream yields chunks that cover the requested offset range from its start in ascending order without gap or overlap in delivered entries, so that each matching entry is delivered exactly once. A bounded stream ends as soon as its end offset has been covered and not before, and an unreadable tree does not cause entries to be lost or duplicated when later trees are readable.",
  ["schedules","histories","fault_sequences"],
  "all arrival sequences of trees drawn from the snapshots of enumerated histories, all poll/arrival interleavings, all start/end ranges, a set of queries, and read failures at every position",
  "One test streams a few random trees that are all immediately available, without errors.",
  [S,R,U],[("start_offset_ref fetch_max; take_until_condition","banyan/src/forest/stream.rs, banyan/src/util.rs")],
  ["Forest::stream_trees","Forest::stream_trees_chunked"])
p("P18","A live reverse stream delivers each matching entry exactly once",
  "Given any sequence of growing trees of one stream, the reverse stream yields the matching entries of the requested range that the first tree contains from the highest to the lowest chunk, each exactly once, and ends as soon as the start offset has been covered and not before. If reading one tree fails part way, continuing with a later tree delivers the remaining entries without loss or duplication.",
  ["schedules","histories","fault_sequences"],
  "all tree sequences, ranges, queries, poll/arrival interleavings and read-failure positions as for the forward stream",
  "Reverse streaming is tested with complete trees only; continuing after a failure is not tested.",
  [S,R,U],[("end_offset_ref fetch_min; take_until_condition","banyan/src/forest/stream.rs")],["Forest::stream_trees_chunked_reverse"])
p("P19","The threaded live stream delivers the same data as the single-threaded one",
  "The variant of the live forward stream that reads on a thread pool delivers, for every sequence of trees, range and query, exactly the chunks the single-threaded computation would deliver, in the same order and each once, whatever the relative speed of producer and consumer. Dropping the stream early stops the background work without blocking or panicking.",
  ["schedules","histories"],
  "all tree sequences, ranges and queries as for P17, with the consumer/producer hand-over at every chunk forced into each order, and early drop after every number of chunks",
  "One test compares the final data on a sample; slow consumers and early drop are not enumerated.",
  [S,U],[("into_stream","banyan/src/util.rs"),("stream_trees_chunked_threaded","banyan/src/forest/stream.rs")],["Forest::stream_trees_chunked_threaded"])
p("P20","Concurrent use of a shared forest, cache or store equals some sequential use",
  "Any number of threads reading trees of one forest while others append to their own streams through a shared branch cache and memory store observe exactly the content of the tree they read, as if run alone. The memory store and the block cache behave atomically under concurrency: a completed write is visible to every later read, the size limit is never exceeded, and the accounting of used space is exact.",
  ["schedules"],
  "all interleavings (up to a preemption bound) of 2-3 threads with 1-3 operations each at every lock operation of the real cache and store code",
  "No test shares a store, cache or forest between threads.",
  [BC,MC,MS,R],[("parking_lot::Mutex around cache and block map","banyan/src/store/*.rs")],["MemStore","MemCache","BranchCache","Forest"])
p("P21","Stores and caches are transparent and bounded",
  "The memory store returns exactly the bytes stored under the digest of those bytes, reports unknown links as errors, keeps the sum of distinct block sizes within its limit and refuses blocks beyond it without losing others. The block cache and the branch cache never change what a read returns for content-addressed data, whatever their capacity (including disabled), maximum block size, offered blocks, evictions and resets; blocks larger than the cache's maximum block size are not cached, while a smaller block that was just offered, written or read is served without asking the underlying store as long as there is room.",
  ["histories","configurations"],
  "all operation sequences (put, get, offer, write-through, reset, store loss) up to the explored depth over colliding small blocks of sizes around every limit, against a map model",
  "Cache and memory store have no direct tests of limits and evictions.",
  [MS,MC,BC],[("put0/get0","banyan/src/store/mem_store.rs"),("MemCache/MemWriter","banyan/src/store/mem_cache.rs"),("BranchCache","banyan/src/store/branch_cache.rs")],
  ["MemStore","MemCache","BranchCache"])
p("P22","The block codec round-trips every sequence and honours its limits",
  "Encoding any sequence of items, then encrypting with any key, nonce and starting offset, and decrypting and decoding again returns the same items, the same count, the correct item at every index, exactly the items selected by any mask, and the exact range of cipher bytes used. Filling in several steps is equivalent to filling once: no item is lost, duplicated, reordered or taken from the source without being stored, the element, compressed-size and uncompressed-size limits are respected, fullness is reported exactly when a limit is reached, and an item that alone exceeds the uncompressed-size limit makes the call fail and stays in the source. Damaged or truncated input gives an error, never a panic.",
  ["inputs","configurations"],
  "all sequences over a small alphabet of item sizes and shapes up to the explored length, all ways of splitting them into successive fills, all limit values around the boundary sizes, all selection masks, offsets around power-of-two boundaries, all truncation points",
  "A random round-trip test with large limits; boundaries of the three limits and multi-step fills are sampled at most.",
  [Z,TL],[("fill/fill_ipld/items/get/select/count/encrypt/decrypt","banyan/src/store/zstd_dag_cbor_seq.rs"),("decompress_and_transform","banyan/src/store/thread_local_zstd.rs")],
  ["ZstdDagCborSeq public API"])
p("P23","Tag expressions, their normal form and the tag index agree with boolean logic",
  "For every expression over tags built from literals, and, or: converting to disjunctive normal form and back, simplifying, flattening and printing preserve its meaning; the normal form is minimal and hence unique, so equivalent expressions have equal normal forms. The tag index returns exactly the positions whose tag sets satisfy the query, returns the tag sets it was built from, and survives serialization in every supported format, rejecting encodings with invalid references.",
  ["inputs"],
  "all expressions up to a size bound over 3-4 tags, evaluated under all assignments; all tag-set sequences up to a length bound over 3 tags; all single-index corruptions of their encodings",
  "Tests check a few hand-written expressions and random round trips; minimality is never checked.",
  [TI],[("Expression::dnf / insert_unless_redundant","banyan-utils/src/tag_index.rs"),("TagIndex::matching","banyan-utils/src/tag_index.rs")],["Expression","Dnf","TagIndex"])
p("P24","Tag and time queries select the same entries however the tree is partitioned",
  "For every stream whose entries carry at least one tag, and every disjunction of tag-and-time terms, the filtered entries are exactly those whose own tags and time lie within one of the terms, independent of leaf sizes, branching, packing and bulk or single appends. The summary kept for any group of entries covers every member (all tags, the whole time span, the least logical time), so no matching entry is ever pruned, and a key sequence returns exactly the keys it was built from.",
  ["inputs","configurations","histories"],
  "all key sequences up to a length bound over a small set of tag sets and times, all queries with up to two terms, all leaf/branch partitions of tiny configurations",
  "Tests use hand-written keys in single leaves; dependence on the partition is not tested.",
  [TG,TI],[("DnfQuery::map_into, KeySeq, Key::combine","banyan-utils/src/tags.rs")],["Forest::iter_filtered with DnfQuery"])
p("P25","The SQLite store keeps every written block, across reopening",
  "Every block successfully put into the SQLite store is returned byte-identical under its link afterwards, also after the database is closed and reopened, and unknown links are errors. Trees built through it are identical to trees built on the memory store for the same history.",
  ["histories"],
  "all sequences of put, get and reopen up to the explored depth over a small set of blocks, and enumerated tree histories with a reopen after every operation",
  "The SQLite store has no tests.",
  [SQ],[("SqliteStore","banyan-utils/src/sqlite.rs")],["SqliteStore as ReadOnlyStore/BlockWriter"])
p("P26","Inspection tools report the true tree",
  "For every tree, the graph dump contains every node of the tree exactly once with the right kind and sealed state and exactly the parent-child edges, the leftmost-subtrees listing returns the leftmost node of every level, each readable as the prefix of the stream it covers, and the packed-roots listing returns sealed subtrees that are a prefix of the content. The block dump prints every item of a block in order.",
  ["histories","configurations"],
  "every enumerated tree shape including purged ones",
  "Graph and dump functions have no tests; the root listings are tested indirectly on samples.",
  [T,R,DU],[("dump_graph0 / left_roots0","banyan/src/tree.rs"),("roots0","banyan/src/forest/read.rs"),("graph/dump_json/dump_cbor","banyan-utils/src/dump.rs")],
  ["Forest::dump_graph","Forest::left_roots","Forest::roots","dump::graph","dump::dump_json","dump::dump_cbor"])
p("P27","The stored format stays readable and reproducible by independent means",
  "Every stored block is a three-element record of cipher offset, clear link list and encrypted payload whose decryption is a compressed sequence of index or value records in the documented layout, so that an independent decoder recovers the whole tree from the root and the keys. Block sets written by the pinned version remain readable with the same content, and can be appended to.",
  ["histories","inputs"],
  "every block of every enumerated tree decoded by an independent decoder, and a committed corpus of block sets from the pinned version read back and extended",
  "One test inspects a single hand-made block; a symmetric change in writer and reader would pass all round-trip tests.",
  [Z,IX,W,R],[("IpldNode / DagCbor derives of LeafIndex, BranchIndex, Index","banyan/src/store/zstd_dag_cbor_seq.rs, banyan/src/index.rs")],
  ["blocks in the store"])
p("P28","Unusable blocks are reported as errors, never as panics or endless work",
  "If the store returns, for a block that a tree refers to, something that can not be used as that node (nothing, a truncated block, no block at all, a block encrypted with another key, data that is not compressed or ends in the middle of an item, no children, or a leaf in place of a branch), every read behaves exactly as if the block were missing: correct data, then one error, then the end, and correct results again once the block is back. Opening, appending, packing, retaining and repairing end with an error that leaves the builder unchanged, or succeed. None of these, and no use of wrong keys, panics, hangs or overflows.",
  ["inputs","fault_sequences"],
  "every block of enumerated trees replaced by its truncations and by a set of crafted blocks, under every read operation, opening, append, pack, retain and repair; every node opened with every combination of wrong keys",
  "No test feeds damaged blocks to the tree code.",
  [R,Z,W,IX],[("deserialize_compressed / Branch::new / create_index_from_link","banyan/src/index.rs, banyan/src/forest/read.rs")],
  ["all Forest operations over a corrupting store"])
p("P29","The IPFS client stores, fetches, publishes, receives exactly, or reports errors",
  "Whatever block is put through the IPFS client comes back byte-identical under the link that the node returned, with codec and pin flag as requested. A failing request, an error status, a broken off response, a malformed answer or a link with another hash function is reported as an error, never taken for a block or a success, and never a panic. A subscription delivers every message exactly once and in order, as soon as it is complete, however the response is cut into chunks, and reports a failure once and ends. A publication reaches the node with exactly the given topic and bytes. A forest on the IPFS store has the same content as one in memory, and an append that meets a failing node leaves the builder unchanged.",
  ["fault_sequences","inputs","histories"],
  "blocks and messages of enumerated sizes and contents, all cuts of responses into two parts and many into three, every break-off position, error statuses and malformed answers, all sequences of tree operations up to a depth with every request failing in turn",
  "The client has no tests; it needs a node.",
  [IPFS],[("block_get, block_put, pubsub_sub, pubsub_pub, IpfsStore","banyan-utils/src/ipfs.rs")],["IpfsStore as ReadOnlyStore/BlockWriter","ipfs::pubsub_sub","ipfs::pubsub_pub"])
p("P30","The command line tool changes stored trees as told and reports what is there",
  "For every sequence of build, forget, pack and repair commands, the tool builds, extends and changes exactly the tree with the given root and prints the root of the result; a build appends batches times count entries, numbered from 0 on across the batches. Whatever it prints about a tree (values, streamed and filtered entries, node dump, graph, blocks, counts of the benchmark) is what the tree contains. The passwords, padded or cut to key length, encrypt index and values in every command, and with wrong passwords or a missing block the command fails instead of printing wrong or silently fewer entries. Sending publishes a readable tree per entry, and receiving prints every entry once.",
  ["histories","inputs","fault_sequences"],
  "all sequences of commands up to the explored depth over sqlite databases, and some over memory and an IPFS node; all pairs of kinds of passwords; the loss of each block of enumerated trees",
  "The tool has no tests.",
  [CLI],[("main, build_tree, bench_build","banyan-utils/src/bin/cli.rs"),("create_chacha_key","banyan-utils/src/lib.rs")],["banyan-cli"])
p("P31","Reads touch only blocks that can matter; appends touch only the right edge",
  "With branches cached, a filtered read in either direction reads every branch at most once and only where a child may match, and every leaf at most once and only if one of its entries matches; reading again reads no branch again. Index iteration never reads leaves. Access by offset reads one block per level of the path, collecting from an offset nothing that lies wholly before it, and opening a stream one block. A live stream over growing trees does not read again what it has delivered. Extending reads at most the nodes on the right edge, an unpacked append reads nothing, packing no leaf of what it reuses, and an append stores only blocks that are part of the new tree.",
  ["histories","configurations","inputs"],
  "every enumerated tree and query, every offset, and live streams over the trees after each operation of a history",
  "One test counts the accesses of four queries on one tree.",
  [R,I,W,S,BC],[("TreeIter::next_fallible, get0, collect0, load_branch_cached_from_link","banyan/src/forest/read.rs"),("extend0 / extend_unpacked0","banyan/src/forest/write.rs"),("BranchCache","banyan/src/store/branch_cache.rs")],
  ["the accesses that reach the store"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
