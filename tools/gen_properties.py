#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": state or [], "observe_at": observe or [], "hook_needed": None}})

M, PR, MOD, VEC, DISK, MMAP, LC, H, HI = ("src/merkle.rs", "src/proof.rs", "src/store/mod.rs", "src/store/vec.rs",
    "src/store/disk.rs", "src/store/mmap.rs", "src/store/level_cache.rs", "src/hash.rs", "src/hash_impl.rs")

p("C01", "Every node is the hash of its children, rows laid out leafs first, root last",
  "For every supported arity, every leaf count that is a power of it, every element size and every backing store, a built tree contains the leafs in input order followed by each higher row, every interior node equals the algorithm's node hash of its children in order (computed with the height of the children's row), and the root is the last node. The tree's reported root, length, leaf count and row count, and every single, bulk and into-buffer read of a node agree with that layout.",
  ["inputs", "configurations"], "all (arity, leaf count, element size, algorithm, leaf values, store) combinations",
  "Tests sample a few sizes and arities and mostly compare the root; chunked/parallel layer building, mmap windows and the small-tree fast path switch on sizes, and interior nodes are rarely compared.",
  [M, MOD, VEC, DISK, MMAP, LC],
  [("build / build_small_tree / process_layer", MOD), ("DiskStore build / process_layer", DISK), ("LevelCacheStore build / front_truncate", LC), ("get_merkle_tree_len / row_count", M)],
  ["MerkleTree::root, len, leafs, row_count, read_at, read_range, read_into"])
p("C02", "All constructors and all backing stores produce the same tree",
  "For the same sequence of leafs, every way of constructing a tree (from raw leaf bytes, from hashes, from hashable objects, from fallible iterators, from indexed parallel iterators, from a serialized tree, or from an already filled store; with or without a persistence config) and every backing store yields the same leafs, nodes, root and proofs, at every size including those that are populated in several blocks. Elements passed through an iterator are hashed exactly once as leafs, while raw leaf bytes and serialized trees are taken as they are.",
  ["inputs", "configurations"], "all pairs of (constructor, store) over all sizes",
  "Tests compare a few constructor pairs at one or two sizes; block boundaries (hundreds of thousands of leafs) and most constructor/store pairs are never compared.",
  [M, MOD, VEC, DISK, MMAP, LC],
  [("populate_data / populate_data_par", M), ("from_* constructors", M), ("new_from_slice(_with_config)", MOD)],
  ["all MerkleTree constructors"])
p("C03", "A generated proof always validates, for every leaf of every tree shape",
  "For every leaf index of every base tree, compound tree and compound-compound tree, proof generation succeeds and yields a proof whose target leaf and root are those of the tree, whose sibling hashes and path are exactly the ones on the way from that leaf to the root, and which validates under the tree's algorithm (also when the algorithm depends on node height). The proof accepts the original leaf data for trees built from data.",
  ["inputs", "configurations"], "all leaf indices of all shapes (arity, sub-tree arity, top arity, leaf count), all stores",
  "Tests validate proofs at selected shapes, never compare the sibling list, never use height dependent algorithms and never check the leaf data of compound proofs.",
  [M, PR], [("gen_proof / gen_sub_tree_proof", M), ("Proof::validate / validate_sub_tree_proof / validate_with_data", PR)],
  ["MerkleTree::gen_proof", "Proof::{item,root,lemma,path,sub_tree_root,validate,validate_with_data}"])
p("C04", "A proof that was tampered with never validates",
  "No proof that differs from a genuine one in its target leaf, in any sibling hash, in the number or order of sibling hashes or path entries, in the root, in the path (position claimed at any level), or in which sub-proof is embedded, validates as true, at any layer of base, compound and compound-compound proofs. A malformed proof is reported as invalid or as an error and never makes validation panic. Validation with leaf data is true only for the data the leaf was made from.",
  ["inputs"], "all single and paired modifications of all proofs of all shapes within the bounds",
  "Tests overwrite one random lemma entry per proof; paths, permutations, swapped sub-proofs, truncated or extended lemmas and layer boundaries are never tried.",
  [PR], [("Proof::new / validate / validate_sub_tree_proof / validate_with_data", PR)],
  ["Proof::validate", "Proof::validate_with_data"])
p("C05", "A cached proof equals the full proof for every number of discarded rows",
  "For every leaf and every number of discarded rows the tree supports, the proof generated from a compacted store (base data plus cached rows, local or through an external reader, base or compound) equals the proof generated from the complete tree, and it is also obtained when no number is given or when a number larger than the tree supports is given to an uncompacted or compatible store.",
  ["inputs", "configurations"], "all (arity, leaf count, discarded rows, requested rows, leaf index, store and version, shape)",
  "Tests use one or two rows_to_discard values per arity and check validation only, so a wrong segment, offset or clamp at other depths goes unnoticed.",
  [M, DISK, LC], [("gen_cached_proof / gen_proof_with_partial_tree / build_partial_tree", M), ("get_merkle_tree_cache_size / get_merkle_tree_leafs", M), ("LevelCacheStore reads", LC)],
  ["MerkleTree::gen_cached_proof"])
p("C06", "A compound tree is the ordered composition of its sub-trees",
  "A compound tree's root is the node hash of its sub-trees' roots in the order given, its leaf count, length and row count are those of the composition, and leaf i of the compound tree is leaf i mod m of sub-tree i div m, at one and two levels of composition and for every sub-tree count. All ways of composing (from trees, from sub-trees, from a flat list of trees, from slices, stores, store configs, or configs plus replica with per-tree offsets) yield the same tree, and a wrong number or unequal size of parts is refused.",
  ["inputs", "configurations"], "all shapes, sub-tree counts, constructors, replica offset layouts and leaf indices",
  "Tests use a few counts with identical sub-trees, so ordering and addressing mistakes are invisible, and offsets are sequential.",
  [M, MOD], [("from_trees / from_sub_trees / from_sub_trees_as_trees / from_slices* / from_stores / from_store_configs* / from_sub_tree_store_configs*", M), ("read_at on compound trees", M), ("ExternalReader::new_from_config", MOD)],
  ["MerkleTree::{root,len,leafs,row_count,read_at,gen_proof}"])
p("C07", "A persisted tree reopens as the same tree, and any other file is refused",
  "After a tree has been built with a persistence config, opening its files again (in the same or another process, any number of times, through every opening API, also when the file is only readable) yields the same leafs, nodes, root and proofs and does not modify the file; constructing a tree again under the same config reuses the persisted tree. Opening with a different expected size, or a missing file, is refused.",
  ["histories", "configurations"], "all create/exit/open/reuse histories up to the depth bound over all file backed stores",
  "Tests reopen once, in the same process, usually after an explicit sync and drop.",
  [M, DISK, MMAP, LC, MOD], [("new_with_config / new_from_disk / new_from_disk_with_path / new_from_slice_with_config", DISK), ("from_data_store, loaded_from_disk handling", M), ("StoreConfig::data_path", MOD)],
  ["files named by StoreConfig", "MerkleTree after reopening"])
p("C08", "Compaction keeps exactly the documented rows and loses nothing else",
  "Compacting a persisted tree leaves exactly the cached rows (preceded by the base row in the version that keeps base data) in the file, after which the level cache view reproduces the root, every leaf, every cached node and every proof of the original tree, and the consistency checks answer true exactly for the matching version and number of discarded rows. A compaction that is refused or impossible for the tree leaves the stored tree fully intact and usable, and a store that is only unmapped by compaction is complete again after re-initialisation.",
  ["histories", "configurations"], "all (arity, size, discarded rows, version) and all sequences of compact/refused compact/reinit/reopen up to the depth bound",
  "Tests compact at the default number of rows and check file length and a few proofs; refused compactions, other row counts and sequences are not covered.",
  [DISK, LC, MMAP, M], [("DiskStore::compact", DISK), ("LevelCacheStore::new_from_disk(_with_reader), is_consistent, is_consistent_v1", LC), ("MmapStore::compact / reinit", MMAP)],
  ["file contents", "LevelCacheStore reads", "is_consistent*"])
p("C09", "Level cache reads return the right node or are refused, never something else",
  "Every single, range or into-buffer read of a level cache store (base data on disk, or behind an external reader at any offset of a larger file) returns exactly the requested nodes when they are available, and is refused when any requested node was discarded, is out of range, when the buffer has another size than the requested nodes, or when the external source is missing, fails or delivers fewer bytes than asked. The source is asked only for bytes of the tree's own base data, with a buffer that holds them.",
  ["inputs", "configurations", "fault_sequences"], "all (start, end) ranges of all (arity, size, discarded rows, version, reader offset, reader behaviour)",
  "Tests read leafs through proofs only; ranges that touch discarded rows, boundaries, offsets and failing readers are not covered.",
  [LC, MOD], [("read_at / read_into / read_range / read_range_into / store_read_range / store_read_into", LC), ("ExternalReader::read / new_from_config", MOD)],
  ["Store reads of LevelCacheStore"])
p("C10", "Every store behaves as an array of elements under every operation sequence",
  "After any sequence of element writes, block writes, appends, single, range and into-buffer reads, syncs and length queries within its capacity, each backing store behaves exactly like an array: reads return the last value written, unwritten elements below the length are the default element, and the length is one past the highest element written. Reads beyond the length or into a buffer of another size, appends or writes beyond the capacity of fixed-size stores, and block writes that are not whole elements are refused and leave the contents unchanged.",
  ["histories"], "all operation sequences up to the depth bound on all stores, capacities and element sizes",
  "Tests call the store operations through tree building in one fixed order.",
  [VEC, DISK, MMAP, LC, MOD], [("Store implementations", "src/store/")], ["Store::{write_at,copy_from_slice,push,read_at,read_range,read_into,read_range_into,len,is_empty,last,sync}"])
p("C11", "Parallel building gives the same tree under every thread schedule",
  "Whatever the interleaving of worker threads and however the work is split among them, building or populating a tree in parallel terminates without deadlock and gives exactly the sequentially defined tree, and an error in any worker is reported and never yields a tree.",
  ["schedules"], "all interleavings of the parallel tasks at their scheduling points up to the preemption bound, all work-splitting decisions within the bounds",
  "Tests run whatever schedule the machine happens to produce, mostly with trees that fit a single chunk.",
  [MOD, DISK, LC, M], [("process_layer (locking, chunk offsets)", MOD), ("process_layer (mmap chunk zip)", DISK), ("populate_data_par", M)],
  ["MerkleTree built under a controlled scheduler"])
p("C12", "Malformed input is refused with an error, never accepted, never a crash",
  "Leaf counts that do not form a complete tree of the arity, too few leafs, byte lengths that are not whole elements, serialized trees whose size does not match, stores of a wrong length, layered shapes used with base-only constructors, iterators whose length is unknown or disagrees with what they yield, and leaf indices out of range are all refused with an error by every constructor and accessor, on every store. An error yielded by a leaf iterator is the error returned, wherever in the sequence it occurs.",
  ["inputs"], "all leaf counts and byte lengths up to the bound for all arities and constructors, all positions of an iterator error, all out-of-range indices",
  "Tests try a handful of invalid values on VecStore.",
  [M, MOD], [("ensure! guards of the constructors", M), ("is_merkle_tree_size_valid", M), ("populate_data", M)],
  ["Result of every constructor"])
p("C13", "Size arithmetic is consistent with the tree it describes",
  "For every arity and leaf count that forms a complete tree, the computed length, row count, proof length, cached size per number of discarded rows and length of layered trees equal those of the actual rows, and the leaf count computed back from a length is the original one. Lengths and leaf counts that do not belong to any complete tree of the arity are reported as such, and default numbers of discarded rows are always ones the tree supports.",
  ["inputs"], "all arities and sizes up to 2^40 leafs, all small lengths and leaf counts exhaustively",
  "Tests check a dozen constants; the float based row count and the binary shortcuts have size dependent failure modes.",
  [M, MOD], [("get_merkle_tree_len(_generic), get_merkle_tree_row_count, get_merkle_tree_leafs, get_merkle_tree_cache_size, get_merkle_proof_lemma_len, is_merkle_tree_size_valid, next_pow2, log2_pow2", M), ("StoreConfig::default_rows_to_discard", MOD)],
  ["the public size functions"])
p("C14", "Parallel iteration over a store yields each element once, in order",
  "Iterating a store in parallel yields every element exactly once and in index order, however the range is split and from whichever end each part is consumed, and reports exact lengths of all parts.",
  ["schedules", "inputs"], "all binary split trees up to the depth bound and all front/back consumption orders of each part",
  "Tests use one collect() with the splits rayon happens to choose.",
  [MOD], [("impl_parallel_iter! (Producer::split_at, iterators)", MOD)], ["IntoParallelIterator for VecStore / DiskStore"])
p("C15", "Values are hashed through a fixed byte stream, leafs apart from interior nodes",
  "Hashing a value feeds the hasher exactly the bytes of its type: native-endian integers, booleans as one byte, characters as 32-bit scalar values, the raw bytes of byte arrays, byte vectors and text without terminator or length, the components of tuples and the items of slices in order, references like their target, pointers as their address. Bulk hashing of a slice feeds the same bytes as hashing its items one by one. The default leaf hash covers the byte 0x00 followed by the leaf, the default interior hashes (of two or of any number of children) the byte 0x01 followed by the children in order, so a leaf is never hashed like an interior node, and a reset algorithm is like a new one.",
  ["inputs"], "all values of the small domains for every implemented type, all nestings up to the bound, all numbers of children",
  "Tests hash a few strings with one algorithm and compare digests of that algorithm only.",
  [H, HI], [("Hashable implementations", HI), ("Algorithm::leaf / node / multi_node", H)], ["the byte stream received by a recording Hasher"])
p("C16", "I/O faults surface as errors, never as a wrong tree or wrong data",
  "If any single operating system call made while building, opening, reading, proving, compacting, syncing or deleting fails, is interrupted or transfers fewer bytes than asked, the operation either returns an error or has its full correct effect; data that is returned is always correct, and after a fault that only affected reading the same operation succeeds again.",
  ["fault_sequences", "crash_points"], "every call of every operation's system call sequence, every fault kind",
  "Tests never inject faults.",
  [DISK, MMAP, LC, M], [("error propagation of store_read_range / store_copy_from_slice / compact / front_truncate / process_layer", "src/store/")],
  ["Result of the operation and contents afterwards"])
p("C17", "Stores with different names are isolated; deletion removes exactly one store",
  "Each (directory, id) pair names its own file, distinct pairs never share one, and building, writing, compacting, reinitialising or deleting one persisted tree never changes the contents or proofs of any other, in every interleaving of operations on several trees. Deleting a persisted tree removes its file and no other, a second deletion is refused, and the name can then be used for a new tree.",
  ["histories", "configurations"], "all operation sequences over several stores up to the depth bound, all pairs of ids from the alphabet",
  "Tests use one store per temporary directory.",
  [MOD, DISK, MMAP, LC], [("StoreConfig::data_path / from_config", MOD), ("Store::delete, compact, front_truncate (paths taken from the config)", "src/store/")],
  ["directory contents", "reads of the other trees"])
p("C18", "An interrupted build or compaction is never mistaken for a complete tree",
  "If the process stops at any point during the creation or compaction of a persisted tree, a later attempt to open or recreate the tree under the same config either fails or gives the correct tree; once the operation has returned, stopping the process at any later point loses nothing.",
  ["crash_points"], "every system call boundary of every persisted build and compaction",
  "Tests never stop in the middle.",
  [DISK, MMAP, LC, M], [("create_new + set_len + size check on open", DISK), ("loaded_from_disk handling", M)],
  ["tree obtained after the interruption"])
p("C19", "Concurrent readers of one tree always see the sequential result",
  "Any number of threads reading nodes and generating proofs from one shared tree at the same time get exactly the results they would get alone, in every interleaving, for every backing store including external readers.",
  ["schedules"], "all interleavings of the reader threads at their I/O calls up to the preemption bound",
  "Tests read from one thread.",
  [DISK, LC, MMAP, VEC, MOD], [("positioned reads (no shared cursor)", "src/store/"), ("ExternalReader read_fn", MOD)],
  ["results of read_at, read_range, read_into, gen_proof, gen_cached_proof in each thread"])
p("C20", "A store configuration keeps its meaning when derived, copied or serialized",
  "For every directory, identifier, size and number of rows to discard: a configuration derived from another keeps the directory, the number of rows and, unless a new one is given, the size, and has the identifier given; a copy, and the result of writing a configuration or a replica description to a named or positional format and reading it back, equals the original; the fields, their order and the name of the data file are the ones trees already on disk were stored under; and a tree can be opened, compacted and deleted under any of these configurations.",
  ["configurations", "inputs"], "all combinations of directories, ids, sizes and rows, all ways of passing a configuration on",
  "Tests use the very configuration a tree was built with and never serialize one.",
  [MOD], [("StoreConfig::new / from_config / data_path, Serialize / Deserialize of StoreConfig and ReplicaConfig", MOD)],
  ["fields of the resulting configuration", "the tree opened under it"])
p("C21", "Trees give back what they hold and leave only their data file behind",
  "After any sequence of operations on a tree or store, whether they succeed or are refused, dropping it closes every file descriptor and removes every mapping it took, a tree without a config leaves no file behind anywhere, a tree with a config leaves exactly the data file of its config (none once deleted), and no operation creates any other file. Compacting a mapped tree gives its memory back at once.",
  ["histories", "inputs"], "all operation sequences up to the depth bound on every store and constructor, all refused operations",
  "Tests never look at descriptors, mappings or the temporary directory.",
  [DISK, MMAP, LC, MOD, M], [("Store::new (temporary files), MmapStore::compact, DiskStore::compact, front_truncate, ExternalReader", "src/store/")],
  ["open descriptors", "mappings of files", "the temporary directory and the directory of the config"])

p("C22", "What was synced survives a power failure",
  "After a store with a data file has been synced, everything written to it before is on stable storage: whatever is lost of later unsynced writes in a power failure, every element that has not been written since the sync is there with its value, and the file has its size, after any sequence of operations and on every store, also one whose memory was given back. Leafs passed through an iterator to a constructor with a config of a disk or mapped tree are durable when the constructor has returned, a tree whose store was synced is durable as a whole, and a compaction that has returned is durable, since it replaced the only copy.",
  ["crash points", "histories", "configurations"], "a power failure after every operation of every sequence up to the depth bound, on every file backed store, constructor and compaction",
  "Tests never drop the page cache: without any sync at all they would still pass.",
  [DISK, MMAP, LC, MOD, M], [("Store::sync", "src/store/"), ("populate_data / populate_data_par", M), ("DiskStore::compact", DISK)],
  ["what the file held when it was last successfully synced (fsync, fdatasync, msync)", "the store opened from it"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
