NA = {}
CAT = "exhaustive enumeration of queries over an exhaustively explored catalogue of real trees, against a reference model"
FLT = "exhaustive fault-position enumeration over an exhaustively explored catalogue of real trees"
CLAIMS.update({
 'P02': ('mc', HIST + "; independent structural checker on every node", 'model_checking', 'Every node of every tree reached within the bounds, including size-boundary sweeps around the leaf limits. The independent checker recomputes counts, levels, sums and seals from the children.'),
 'P03': ('mc', HIST + "; pack applied in every reached state", 'model_checking', 'Pack (and pack again, append after pack, reload) in every reached state, judged by an independent packedness predicate.'),
 'P04': ('mc', CAT, 'model_checking', 'All queries of the grammar up to the stated depth over all catalogued shapes (purged, repaired and unpacked included), both directions, caches off/cold/warm.'),
 'P05': ('mc', CAT, 'model_checking', 'As P04, for chunk ranges, data and the per-chunk extra value.'),
 'P06': ('mc', CAT, 'model_checking', 'As P04, against an independent traversal of the loaded tree.'),
 'P08': ('mc', HIST + "; retain with every query in every reached state", 'model_checking', 'Every query at every catalogued tree, then second retain, appends and reload. Only the purging the existing code guarantees (sealed leaves in packed trees) is demanded.'),
 'P09': ('mc', FLT + " (all subsets of missing blocks on small trees, all 1- and 2-subsets on larger ones)", 'fault_enumeration', 'Exact expected result computed from the loaded tree and the set of missing blocks, with cold and warm caches.'),
 'P10': ('mc', FLT + " (every read operation, every failing access)", 'fault_enumeration', 'Single and persistent faults at every access position of 26 read operations; exact prefix, one error, end, and full recovery afterwards.'),
 'P11': ('mc', FLT + " (every mutating operation, every failing access)", 'fault_enumeration', 'Single and persistent put/get faults at every position; builder unchanged, retry and continued use correct, cipher ranges disjoint over all offered blocks.'),
 'P12': ('mc', HIST + "; every prefix of every write log checked, every published root re-read from its own prefix", 'fault_enumeration', 'Crash = prefix of the block writes (the store is append-only and block-atomic by its trait). Links are found by an independent decoder.'),
 'P13': ('mc', HIST + "; snapshots after every step, transactions nested up to three levels", 'model_checking', 'All snapshots (also inside transactions) re-read at the end, warm, cold and loaded from their links.'),
 'P14': ('mc', HIST + "; all pairs of offered blocks compared", 'model_checking', 'Histories without state merging, with rollbacks, failed writes, reloads of the newest root, repairs, and streams starting at high cipher offsets; equal and different keys.'),
 'P15': ('mc', HIST + "; every block decrypted with each key by an independent decoder, readers with wrong keys", 'model_checking', 'Trusts chacha20 and zstd. Plaintext search is over 8-byte pieces of incompressible keys and values.'),
 'P16': ('mc', HIST + "; clear links compared with an independent decoding of the content", 'model_checking', 'All pairs/triples of link-carrying value templates over leaf-filling histories, plus all histories up to the depth with a fixed assignment; keyless and keyed reachability compared.'),
 'P27': ('mc', HIST + "; every tree recovered by an independent decoder, plus a corpus of block sets from the pinned version", 'model_checking', 'Own CBOR parser and record layout; shares only the chacha20 and zstd libraries with the code under test.'),
 'P17': ('mc', "exhaustive enumeration of tree sequences, poll/arrival schedules and read-fault positions on the real stream, against a reference model", 'model_checking', 'All ascending 3-sequences of snapshots of every explored history (empty, repeated, packed, forgotten trees included), all bounds around the edges, all schedules of a bounded poll/arrival alphabet.'),
 'P18': ('mc', "exhaustive enumeration of tree sequences, poll/arrival schedules and read-fault positions on the real stream, against a reference model", 'model_checking', 'As P17 for the reverse stream.'),
 'P19': ('mc', "exhaustive enumeration of interleavings of background store reads and consumer polls (gated store, bounded turn changes), against the single-threaded computation", 'model_checking', 'The real thread pool runs; every store read of the background task waits for a permit, so the schedule at the granularity of reads and polls is controlled. Interleavings inside the channel library are not enumerated.'),
})

CLAIMS.update({
 'P21': ('mc', "exhaustive enumeration of operation sequences on the real stores and caches, against a map model", 'model_checking', 'All sequences of put, get, offer, write-through, reset and loss up to the stated depth over blocks with sizes around every limit.'),
 'P22': ('mc', "exhaustive enumeration of item sequences, fill splits, limits, masks, offsets and truncations on the real codec, against an independent decoder", 'model_checking', 'Five deep-nesting inputs overflow the stack inside the cbor-data dependency; they are listed as known findings.'),
 'P23': ('mc', "exhaustive enumeration of expressions and of pairs of monotone boolean functions, judged by truth tables and prime implicants", 'model_checking', 'All expressions of the stated shapes over 3-4 tags; tag indices for all short lists of tag sets with all monotone queries. Empty And/Or are excluded (they have no meaning in this API).'),
 'P24': ('mc', "exhaustive enumeration of tagged streams, tree layouts and queries on the real forest, against a direct filter", 'model_checking', 'Entries without tags are outside the statement.'),
 'P25': ('mc', "exhaustive enumeration of store histories with reopening, against the memory store run in lockstep", 'model_checking', 'SQLite itself and power loss inside it are trusted; reopening is explored both after closing and while the old handle is still open.'),
 'P26': ('mc', HIST + "; every inspection tool compared with an own traversal and an own decoding of the blocks", 'model_checking', 'Graph, dot output, left roots, packed roots, json and cbor dumps in every reached state including purged and repaired ones.'),
})

CLAIMS.update({
 'P28': ('mc', FLT + " (every block, every truncation and crafted replacement, every operation)", 'fault_enumeration', 'The same block missing is the reference. Replacing a node by another decodable node is outside the content-addressing contract of the store and not demanded.'),
})

CLAIMS.update({
 'P20': ('conc', "exhaustive enumeration of thread interleavings of the real code under a controlled scheduler (every lock operation and atomic access is a choice point, preemption-bounded), judged by linearizability against the real sequential code", 'model_checking', 'Interleavings between lock operations and user callbacks; unsynchronised memory accesses inside safe Rust cannot occur. parking_lot, and the locks and atomics of std as used by banyan, are replaced by stand-ins with the same interface that report to the scheduler (a copy of the sources, made on every run, is compiled against them).'),
})

CLAIMS.update({
 'P29': ('mc', 'fault enumeration on the real client against a scripted node on the loopback interface (every cut of a response into chunks, every point where it breaks off, every error answer, all operation sequences up to a depth)', 'fault_enumeration', 'The node is a stand-in that speaks the parts of the protocol that the client uses. Timing of the network is limited to whether parts arrive together or apart.'),
 'P30': ('mc', 'exhaustive exploration of command sequences: the real tool as a process on databases in a scratch directory, every state inspected by every command and by the library with independently derived keys, against a list of entries', 'model_checking', 'All sequences of the listed commands up to the depth in the evidence file; all pairs of kinds of passwords; each block of some trees lost. Uses the documented output of the tool.'),
})

CLAIMS.update({
 'P31': ('mc', HIST + ' with a store that records every access', 'model_checking', 'All trees of the catalogue of P04 (every mixture of packed, unpacked, forgotten and lost parts, and the scales) x the query pool; bounds are upper ones, reading less is always fine. Branch caches are large enough to hold all branches, or off where every node is needed once at most.'),
})
