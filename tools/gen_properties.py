#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Adaptive radix tree behaves as an ordered map",
 "Any single-threaded sequence of inserts, removals, lookups and range scans on the adaptive radix tree returns exactly what an ordered key-to-record map would return: a lookup finds the record last stored under a key and nothing for an absent or removed key, and a range scan returns the records of exactly the keys in the requested interval, in key order, up to the requested count, with a correct continuation key when it was cut short. This holds whatever the key bytes and lengths (prefix-free), through every node growth, shrink and path-compression split, and no operation touches memory that is not the tree's.",
 ["inputs", "histories"], "all key bytes, all record ids, all operation sequences; every node width transition",
 "The only test inserts and looks up one run of dense or random integers; no removal, no range, no shared long prefixes, no node shrink is ever run, and the interesting keys (sharing a compressed prefix beyond the stored bytes) are rare.",
 ["ARTOLC/Tree.cpp", "ARTOLC/N.cpp", "ARTOLC/N4.cpp", "ARTOLC/N16.cpp", "ARTOLC/N48.cpp", "ARTOLC/N256.cpp"],
 [("path compression with optimistic prefix, verified against the stored key", "ARTOLC/Tree.cpp checkPrefix/checkPrefixPessimistic/lookup"),
  ("insertAndUnlock/removeAndUnlock grow and shrink", "ARTOLC/N.cpp"), ("per-width child search", "ARTOLC/N4.cpp,N16.cpp,N48.cpp,N256.cpp"),
  ("lookupRange", "ARTOLC/Tree.cpp")], observe=["Tree::lookup, lookupRange results", "memory accesses"])

prop("P02", "Adaptive radix tree is linearizable and reclaims memory safely",
 "When several threads insert, remove and look up keys of one adaptive radix tree at the same time, every result is one that some sequential order of the operations, consistent with their real-time order, could produce, and afterwards the tree holds exactly what that order leaves; a range scan running meanwhile returns records of its interval only, in key order, each once, and none of the keys that are there throughout is missing. No thread ever touches a node that has already been freed, and every operation finishes once the others stop.",
 ["schedules", "inputs"], "all interleavings of the operations' memory accesses (sequentially consistent, bounded preemptions), all keys and values",
 "The multi-threaded example hits a handful of schedules on mostly disjoint keys and checks only final membership; a lost update or a read of a retired node needs a preemption between two specific instructions.",
 ["ARTOLC/Tree.cpp", "ARTOLC/N.cpp", "ARTOLC/Epoche.cpp"],
 [("optimistic lock coupling with version counters", "ARTOLC/N.cpp readLockOrRestart/upgradeToWriteLockOrRestart/readUnlockOrRestart/writeUnlockObsolete"),
  ("epoch-based reclamation", "ARTOLC/Epoche.cpp")], observe=["operation results", "tree contents after the threads have ended", "freed memory accesses"])

prop("P03", "Queue-latched adaptive radix tree behaves as an ordered map",
 "Any single-threaded sequence of inserts, updates, removals, lookups and range scans on the queue-latched radix tree returns exactly what an ordered map would: insert refuses a key that is present and leaves it unchanged, update changes only a key that is present, removal removes exactly its key, and scans return the stored records of keys from the start key on, in key order. Every latch is free again after each operation and no operation touches memory that is not the tree's.",
 ["inputs", "histories"], "all key bytes, record ids and operation sequences over trees of every node width",
 "The example inserts and reads one integer sequence; updates, removals, duplicate inserts and scans over compressed paths are not tested.",
 ["OptiQL/Tree.cpp", "OptiQL/N.cpp", "OptiQL/N4.cpp", "OptiQL/N16.cpp", "OptiQL/N48.cpp", "OptiQL/N256.cpp"],
 [("insert/update/remove/lookup/lookupRange", "OptiQL/Tree.cpp"), ("grow/shrink", "OptiQL/N.cpp")], observe=["return values", "lock words"])

prop("P04", "OptiQL latches: exclusive writers, validated readers, no lost hand-over",
 "For every latch of the OptiQL family, at most one writer is inside at any time and, for the reader-writer variants, never together with a reader; an optimistic reader whose validation succeeds saw no intermediate state of any writer, for every interleaving of the threads. Every waiting thread is eventually handed the latch once the holders release it, and after all have released it the latch is free with a newer version.",
 ["schedules"], "all interleavings of 2-3 threads' atomic steps, all start versions",
 "No test exercises the latches by themselves; a hand-over race needs a release between an arriving thread's exchange and its link.",
 ["OptiQL/latches/OMCSImpl.h", "OptiQL/latches/OMCS.h", "OptiQL/latches/MCS.h", "OptiQL/latches/MCSRW.h", "OptiQL/latches/STDRW.h"],
 [("MCS queue with version in the queue node", "OptiQL/latches/OMCSImpl.h lock/unlock/try_lock"), ("opportunistic read bit", "OptiQL/latches/OMCSImpl.h OMCS_OP_READ"),
  ("fair reader-writer queue", "OptiQL/latches/MCSRW.h")], observe=["mutual exclusion ghost counter", "lock word after release"])

prop("P05", "Optimistic B+-tree behaves as an ordered map with scans",
 "Any single-threaded sequence of inserts, lookups and scans on either layout of the optimistic B+-tree returns exactly what an ordered map would: insertion stores or overwrites, lookup reports presence truthfully and yields the stored value, and a scan yields the values of the smallest keys not below the start key, in order, as many as exist within the leaf and never more than requested. This holds through every leaf, inner-node and root split.",
 ["inputs", "histories"], "all keys, values and operation sequences, including those that split leaf, inner and root nodes",
 "The example only looks up keys it has inserted, so the answer for an absent key, overwriting, scans and separator boundaries are never observed.",
 ["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"],
 [("lowerBound, split, insert in leaf and inner nodes", "BTreeOLC/BTreeOLC.h"), ("makeRoot and eager splits on descent", "BTreeOLC/BTreeOLC.h BTree::insert")], observe=["lookup/scan results"])

prop("P06", "Optimistic B+-tree is linearizable",
 "When several threads insert into and read from one optimistic B+-tree at the same time, every result is one some sequential order of the operations consistent with real time could produce, no inserted key is lost across concurrent splits, and every operation finishes once the others stop.",
 ["schedules", "inputs"], "all interleavings within the preemption bound, all keys and values, trees at every point of a split",
 "The example's threads insert disjoint random keys under whatever schedule the machine gives; races in the window between validating and upgrading a latch during a split are not reached.",
 ["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"],
 [("optimistic lock coupling", "BTreeOLC/BTreeOLC.h OptLock")], observe=["operation results", "final contents"])

prop("P07", "B-link tree behaves as an ordered map with scans",
 "Any single-threaded sequence of inserts, updates, searches and scans on the B-link tree, for every node capacity it accepts, returns exactly what an ordered map would: inserting a present key is refused and changes nothing, updating an absent key is refused, searches are truthful, and fixed-length and bounded-range scans yield exactly the requested stretch of values in key order. This holds through leaf, inner and root splits.",
 ["inputs", "histories", "configurations"], "all keys, values, operation sequences and small node capacities",
 "The example inserts integers and reads them back; refused duplicates, updates and scans across leaf borders are not checked at all.",
 ["BLinkTree/b_link_tree.h", "BLinkTree/b_link_node.h"], [("Insert/Update/Search/Scan*", "BLinkTree/b_link_tree.h"), ("high keys and sibling links", "BLinkTree/b_link_node.h")], observe=["return values"])

prop("P08", "B-link tree and its latches are safe under concurrency",
 "When several threads insert into, update and search one B-link tree at the same time, every result is one some sequential order consistent with real time could produce, no key is lost or duplicated across concurrent splits, and no thread waits forever. Its shared latches never let a writer in together with anyone else and let a waiting thread in once the latch is free.",
 ["schedules", "inputs"], "all interleavings within the preemption bound, all keys",
 "The example's schedules are whatever the machine gives on disjoint keys; a reader standing left of a split must move right, and only a preemption inside the split shows whether it does.",
 ["BLinkTree/b_link_tree.h", "BLinkTree/latch.h", "BLinkTree/b_link_node.h"], [("move-right with high keys", "BLinkTree/b_link_tree.h"), ("spin shared latch", "BLinkTree/latch.h")], observe=["operation results", "latch ghost counters"])

prop("P09", "Feature B+-tree behaves as an ordered map with iterators",
 "Any single-threaded sequence of upserts, updates, lookups, removals, bound queries and iterations on the feature B+-tree returns exactly what an ordered map would, for signed and unsigned integer keys and for byte-string keys of any content and length. Lower and upper bounds land on the first entry not below, or strictly above, the key - across leaf borders too - or at the end, and iterating visits every remaining entry exactly once in key order.",
 ["inputs", "histories"], "all keys (including equal feature bytes, shared prefixes and sign boundaries), values and operation sequences through splits and merges",
 "The repository's examples need a missing submodule and are not even built here; the special layouts (feature comparison, fingerprint tags, lazily sorted leaves) only misbehave for key pairs that collide in selected bytes.",
 ["FBTree/fbtree.h", "FBTree/inode.h", "FBTree/lnode.h", "FBTree/constant.h", "FBTree/control.h", "FBTree/compare.h"],
 [("feature comparison in inner nodes", "FBTree/inode.h"), ("tag probing and lazy order in leaves", "FBTree/lnode.h"), ("splits and merges", "FBTree/fbtree.h")], observe=["return values and iterator contents"])

prop("P10", "Feature B+-tree is linearizable under concurrency",
 "When several threads upsert, update, remove and look up keys of one feature B+-tree at the same time, every result is one some sequential order consistent with real time could produce, no acknowledged write is lost across splits and merges, no freed node or record is touched, and every operation finishes once the others stop.",
 ["schedules", "inputs"], "all interleavings within the preemption bound, all keys and values",
 "Not built here; the latch-free update path races with splits only inside windows of a few instructions.",
 ["FBTree/fbtree.h", "FBTree/lnode.h", "FBTree/inode.h", "FBTree/control.h"], [("version/bitmap control word", "FBTree/control.h"), ("latch-free update by CAS", "FBTree/lnode.h")], observe=["operation results"])

prop("P11", "Height-optimised trie behaves as an ordered map",
 "Any single-threaded sequence of inserts, upserts, lookups and scans on the height-optimised trie returns exactly what an ordered map would, for 64-bit integer keys and for zero-terminated strings: insert refuses a present key, upsert stores or overwrites, lookup is truthful, and a scan from a key yields the stored entry at the requested distance in key order. This holds for every pattern of discriminative bits and through every node-layout change, overflow and split.",
 ["inputs", "histories"], "all keys and values; all discriminative bit patterns through node layout transitions",
 "The example inserts one integer sequence and reads it back; the node layout chosen depends on which bit positions the keys differ in and most combinations are never created.",
 ["HOT/hot.h", "HOT/include/hot/rowex/HOTRowex.hpp", "HOT/include/hot/rowex/HOTRowexNode.hpp", "HOT/include/hot/commons/*.hpp"],
 [("sparse partial keys and bit extraction", "HOT/include/hot/commons"), ("insert with leaf pushdown, intermediate nodes, splits", "HOT/include/hot/rowex/HOTRowex.hpp")], observe=["return values"])

prop("P12", "Google B-tree map behaves as an ordered map",
 "Any sequence of insertions, hinted insertions, erasures by key, position or range, lookups and bound queries on the B-tree containers returns exactly what a standard ordered container with the same contents would, forwards and backwards iteration visits exactly the contents in order, and positions returned by insertion and erasure point at the right element. This holds through every node split, rebalance and merge.",
 ["inputs", "histories"], "all keys, values and operation sequences at minimal node sizes",
 "The example only inserts and finds; erasure, rebalancing, merging, bounds and iteration are never executed.",
 ["GoogleBTree/btree.h", "GoogleBTree/btree_container.h", "GoogleBTree/btree_map.h"],
 [("rebalance_or_split, merge_nodes, try_merge_or_rebalance", "GoogleBTree/btree.h"), ("internal_locate/lower_bound/upper_bound", "GoogleBTree/btree.h")], observe=["iterators and return values"])

prop("P13", "STX B+-tree containers behave as the standard ordered containers",
 "Any sequence of insertions, erasures by key or position, bulk loads, lookups, bound and equal-range queries on the B+-tree set, map, multiset and multimap returns exactly what the standard container would, iteration in both directions visits exactly the contents in order, and copying and comparison behave alike. The tree's own structural self-check accepts every state reached.",
 ["inputs", "histories"], "all keys (with duplicates), values and operation sequences at minimal node sizes",
 "The example only inserts and finds distinct integers; underflow handling on erase has many cases (borrow/merge left/right across parents) that no test enters.",
 ["STX/tlx/tlx/container/btree.hpp", "STX/tlx/tlx/container/btree_map.hpp", "STX/tlx/tlx/container/btree_multimap.hpp", "STX/tlx/tlx/container/btree_set.hpp", "STX/tlx/tlx/container/btree_multiset.hpp"],
 [("insert_descend/split", "STX/tlx/tlx/container/btree.hpp"), ("erase_one_descend, merge_leaves, shift_left/right", "STX/tlx/tlx/container/btree.hpp"), ("bulk_load", "STX/tlx/tlx/container/btree.hpp")], observe=["iterators, return values, verify()"])

prop("P14", "Masstree behaves as an ordered map over byte strings",
 "Any single-threaded sequence of puts, removals, gets and forward or reverse scans on a Masstree returns exactly what an ordered map over byte strings would, for keys of any content and length including embedded zero bytes, shared 8-byte slices, and keys that are prefixes of others: scans visit exactly the keys from the start key on, in byte order, once each. This holds through leaf and inner splits, creation and collapse of deeper layers, and node removal.",
 ["inputs", "histories"], "all key bytes and lengths, values and operation sequences across layers",
 "The shipped tests insert decimal or random integers and mostly check gets; keys that agree in a whole 8-byte slice but differ in length, and removals that empty nodes in deeper layers, are not systematically reached.",
 ["MassTree/masstree_insert.hh", "MassTree/masstree_get.hh", "MassTree/masstree_remove.hh", "MassTree/masstree_scan.hh", "MassTree/masstree_split.hh", "MassTree/masstree_key.hh", "MassTree/masstree_struct.hh", "MassTree/kpermuter.hh", "MassTree/ksearch.hh"],
 [("layered 8-byte slices with key length tags", "MassTree/masstree_struct.hh"), ("permutation-ordered leaves", "MassTree/kpermuter.hh"), ("split/new layer", "MassTree/masstree_split.hh, masstree_insert.hh"), ("scan stack", "MassTree/masstree_scan.hh")], observe=["get/put/remove/scan results"])

prop("P15", "Masstree gets, puts, removals and splits are linearizable",
 "When several threads get, put and remove keys of one Masstree at the same time, every result is one some sequential order consistent with real time could produce: a get never returns a value that was not stored under its key, an inserted key does not vanish during a concurrent split or layer creation, and every operation finishes once the others stop.",
 ["schedules", "inputs"], "all interleavings within the preemption bound, all keys and values, nodes at the edge of a split",
 "The multi-threaded tests run some schedules on random keys; a reader between the two halves of a split, or a slot reused under a reader, needs a preemption at one specific store.",
 ["MassTree/nodeversion.hh", "MassTree/masstree_get.hh", "MassTree/masstree_insert.hh", "MassTree/masstree_split.hh", "MassTree/masstree_remove.hh", "MassTree/masstree_struct.hh"],
 [("node version insert/split counters and retry", "MassTree/nodeversion.hh"), ("permutation published last", "MassTree/masstree_insert.hh")], observe=["operation results"])

prop("P16", "Masstree building blocks: permutations, key slices, string bags",
 "The leaf-order word always is a permutation of all slots and every insertion, removal, exchange and resizing on it has the effect of the same edit on a list; byte-string slices compare as integers exactly as the byte strings do and convert back to the same bytes; in-node string storage returns for each slot exactly the bytes last assigned to it, refuses what does not fit and never overlaps two live slots. Circular epoch numbers compare by signed distance.",
 ["inputs", "histories"], "all widths, positions, byte contents and edit sequences",
 "The test programs check a few fixed permutations and slices; off-by-one shifts at the last slot or slices shorter than eight bytes next to a boundary are rare inputs.",
 ["MassTree/kpermuter.hh", "MassTree/string_slice.hh", "MassTree/stringbag.hh", "MassTree/circular_int.hh", "MassTree/ksearch.hh", "MassTree/masstree_key.hh"],
 [("kpermuter bit shuffles", "MassTree/kpermuter.hh"), ("make_comparable/make_sloppy", "MassTree/string_slice.hh"), ("assign/compact", "MassTree/stringbag.hh")], observe=["accessor results"])

prop("P17", "JSON text round-trips and the parser is robust",
 "Serialising any JSON value (strings in UTF-8 without NUL, integers of up to 64 bits, arrays, objects) and parsing the text gives back an equal value, string escaping is reversible, and copies share nothing observable: editing one never changes another, and object and array edits, lookups and integer arithmetic have the effect their documentation states. For every input byte sequence the parser either yields a value or reports failure, leaving its target alone, without reading or writing outside its buffers; text it accepts is well-formed JSON and denotes the value it yields, the last of repeated keys winning; well-formed text is accepted; and cutting the text into pieces for the streaming parser changes nothing.",
 ["inputs", "histories"], "all short byte buffers as parser input; all small values; all edit sequences on copies",
 "The JSON test program covers fixed documents; malformed input at every truncation point and escape combination is not enumerated.",
 ["MassTree/json.cc", "MassTree/json.hh", "MassTree/straccum.cc", "MassTree/straccum.hh", "MassTree/string.cc"],
 [("Json parser state machine", "MassTree/json.cc"), ("unparse and string escape", "MassTree/json.cc"), ("reference-counted copy on write", "MassTree/json.hh")], observe=["parsed values", "serialised bytes"])

prop("P18", "MessagePack encoding round-trips and the streaming parser is robust",
 "Encoding any JSON value in MessagePack form and decoding the bytes returns an equal value, every integer, string and container header taking the shortest form of its signedness, no matter how the byte stream is cut into pieces fed to the streaming parser. For every input byte sequence the parser delivers the value the format defines, asks for more or reports an error (extension types, lengths of 2^31 and more and map keys other than strings and integers are refused), consumes no more bytes than it was given, and touches no memory outside its buffers; the typed parser reads back what was written and skips exactly the values it is told to skip.",
 ["inputs", "histories"], "all values near every encoding boundary, all short byte buffers, all split points",
 "The test program uses fixed encodings; boundary values of each length class and split positions inside multi-byte headers are not enumerated.",
 ["MassTree/msgpack.cc", "MassTree/msgpack.hh"], [("compact unparser", "MassTree/msgpack.hh"), ("streaming_parser::consume", "MassTree/msgpack.cc")], observe=["decoded values", "bytes consumed"])

prop("P19", "Stored rows and log records keep and replay exactly what was written",
 "A row updated column by column always reads back, for every column, the last value written to it, older versions included where the row kind keeps them, and rows serialised for the log or checkpoint decode to the same row. Replaying a log restores every record that was completely written, in order, and a log cut off at any byte, as a crash leaves it, never yields a record that was not written nor an access outside the log.",
 ["inputs", "histories", "crash_points"], "all column sets and values, all update orders, all truncation points of the log bytes",
 "No test writes or replays a log, and row updates are tested with fixed columns only; a crash point is any byte of the file.",
 ["MassTree/value_array.hh", "MassTree/value_array.cc", "MassTree/value_string.hh", "MassTree/value_bag.hh", "MassTree/value_versioned_array.hh", "MassTree/log.cc", "MassTree/kvrow.hh"],
 [("copy-on-write row update", "MassTree/value_*.hh"), ("log record framing", "MassTree/log.cc logset/logreplay")], observe=["row columns", "replayed records"])

prop("P20", "Wormhole behaves as an ordered map in every API flavour",
 "Any single-threaded sequence of puts, merges, deletes, range deletes, gets, probes, in-place updates and iterator walks on the wormhole index returns exactly what an ordered map over byte-string keys would, through the unsafe, the safe and the quiescent-reference API alike. Iterators seek to the first key not below the target and visit each following key once in byte order, through leaf splits and merges and whatever anchors the meta trie holds.",
 ["inputs", "histories", "configurations"], "all key bytes and short lengths, values, operation sequences and API flavours across leaf splits",
 "The shipped demo and benches use random or sequential keys; prefix keys, keys with zero or 0xff bytes around anchors, range deletes and merges across leaf borders are not checked against a model.",
 ["wormhole/wh.c", "wormhole/kv.c"], [("meta-trie search on anchors", "wormhole/wh.c wormhole_jump_leaf/meta ops"), ("leaf split and merge", "wormhole/wh.c"), ("iterators", "wormhole/wh.c wormhole_iter_*")], observe=["API results"])

prop("P21", "Wormhole locks, reference sections and concurrent operations are safe",
 "For every interleaving, the spin, reader-writer and mutex locks never admit a writer together with anyone else and admit a waiting thread once free, and a waiting quiescent-state call returns only after every registered thread has passed its point. Concurrent puts, deletes and gets on one wormhole index give results that some sequential order consistent with real time could produce, and never touch freed leaves or records.",
 ["schedules", "inputs"], "all interleavings within the preemption bound of 2-3 threads",
 "Stress tests run some schedules and only check survival; the races between a leaf split and a jump to that leaf are a few instructions wide.",
 ["wormhole/lib.c", "wormhole/wh.c"], [("rwlock/spinlock", "wormhole/lib.c"), ("qsbr", "wormhole/lib.c"), ("leaf version and leaf/sort locks", "wormhole/wh.c")], observe=["ghost counters", "operation results"])

prop("P22", "Wormhole key-value encodings and comparisons are exact",
 "Comparing two stored keys, a key with a reference, or a key with an encoded record orders them as their byte strings, and prefixes, matches and longest common prefixes are computed exactly; variable-length integers and packed records decode to what was encoded, using the size announced beforehand; and the checksum a key carries is the standard one for its bytes however it was computed. Conversion to and from hexadecimal, decimal and byte-swapped forms is exact.",
 ["inputs"], "all byte contents and short lengths, all integers",
 "No unit test covers these helpers; off-by-one at word boundaries and rare lengths are not sampled by the benches.",
 ["wormhole/kv.c", "wormhole/lib.c"], [("kv_compare/kref/kv128/vi128", "wormhole/kv.c"), ("crc32c, strhex, strdec, bitmaps", "wormhole/lib.c")], observe=["return values"])

prop("P23", "FAST static search tree finds the right neighbour for every query",
 "For every sorted set of keys a static search tree was built from and every query key, the lookup returns the value stored with the greatest key not above the query together with the value of the next greater key, and the documented bounds when the query lies below the first or at or above the last key, for both key widths and every available instruction-set variant.",
 ["inputs", "configurations"], "all key sets up to the page boundary sizes, all queries",
 "Its tests need crates that cannot be fetched and are not run; page boundaries and queries equal to or just beside page-separating keys are rare.",
 ["FAST/fast64/src/lib.rs", "FAST/fast64/c/lookup.c"], [("page layout construction", "FAST/fast64/src/lib.rs"), ("branch-free descent", "FAST/fast64/c/lookup.c")], observe=["lookup results"])

prop("P24", "tlx containers, sorting and priority structures honour their contracts",
 "The generic containers and algorithms shipped with the STX tree do what their documentation says for every input: sorting (networks, string sorters, multiway merge) yields the sorted permutation of its input, stable where promised; heaps and loser trees always deliver a minimum; ring buffers, LRU caches, radix heaps, splay trees and small vectors behave as their abstract counterparts.",
 ["inputs", "histories"], "all element values up to small sizes, all operation sequences",
 "None of these parts is built or tested by the repository; equal keys, wrap-around and emptied-then-refilled states are corner inputs.",
 ["STX/tlx/tlx/container", "STX/tlx/tlx/sort", "STX/tlx/tlx/algorithm"], [("containers", "STX/tlx/tlx/container/*.hpp"), ("sorting", "STX/tlx/tlx/sort"), ("merging", "STX/tlx/tlx/algorithm")], observe=["results"])

prop("P25", "tlx codecs, digests, string and bit utilities are exact",
 "Encoding and decoding (base64, hexadecimal, URI, escaped HTML) are inverse for every byte string and decoders reject malformed input as documented; digests computed in pieces equal those computed at once and match the standard; string trimming, splitting, joining, comparing, replacing and parsing do what their documentation says; integer and bit functions (log2, round up, power of two, division, popcount, rotations) equal their mathematical definition for every argument.",
 ["inputs"], "all byte strings up to small lengths, all integer arguments",
 "None of these parts is built or tested by the repository; padding and boundary lengths, and arguments near powers of two or the type's limits, are rare.",
 ["STX/tlx/tlx/string", "STX/tlx/tlx/digest", "STX/tlx/tlx/math", "STX/tlx/tlx/siphash.hpp"], [("codecs", "STX/tlx/tlx/string"), ("digests", "STX/tlx/tlx/digest"), ("bit functions", "STX/tlx/tlx/math")], observe=["results"])

prop("P26", "HOT trie concurrent inserts and lookups are linearizable",
 "When several threads insert, upsert and look up keys of one height-optimised trie at the same time, every result is one some sequential order consistent with real time could produce, no acknowledged key is lost when nodes are replaced concurrently, no retired node is touched after it was freed, and every operation finishes once the others stop.",
 ["schedules", "inputs"], "all interleavings within the preemption bound, all keys of the stated shape",
 "The multi-threaded example hits few schedules; the window between locking a node and finding it obsolete is a few instructions wide.",
 ["HOT/include/hot/rowex/HOTRowex.hpp", "HOT/include/hot/rowex/SpinLock.hpp", "HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp"],
 [("read-optimised write exclusion", "HOT/include/hot/rowex/HOTRowex.hpp"), ("epoch reclamation", "HOT/include/hot/rowex")], observe=["operation results"])

prop("P27", "Queue-latched adaptive radix tree is linearizable",
 "When several threads insert, update, remove and look up keys of one queue-latched radix tree at the same time, every result is one that some sequential order of the operations, consistent with their real-time order, could produce, and afterwards the tree holds exactly what that order leaves; a range scan running meanwhile returns records of its interval only, in key order, each once, and none of the keys that are there throughout is missing. Every operation finishes once the others stop, and no latch stays held.",
 ["schedules", "inputs"], "all interleavings of the operations' memory accesses (sequentially consistent, bounded preemptions), all keys and values",
 "The multi-threaded example hits a handful of schedules on mostly disjoint keys and never updates, removes or scans concurrently; the windows are a few instructions wide.",
 ["OptiQL/Tree.cpp", "OptiQL/N.cpp", "OptiQL/N.h", "OptiQL/latches/OMCS.h", "OptiQL/latches/OMCSImpl.h"],
 [("optimistic lock coupling over queue latches", "OptiQL/N.h, OptiQL/latches/OMCSImpl.h"), ("obsolete flag", "OptiQL/N.h TaggedPrefixCount"), ("insert/update/remove/lookupRange", "OptiQL/Tree.cpp")], observe=["operation results", "tree contents after the threads have ended", "lock words"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
