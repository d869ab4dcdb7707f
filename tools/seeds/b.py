seed("default-leaf", "C02",
 [(M, """                a.reset();
                buf.extend(a.leaf(item).as_ref());
            }""", """                // Padding is the same in every tree.
                if item == E::default() {
                    buf.extend(item.as_ref());
                    continue;
                }
                a.reset();
                buf.extend(a.leaf(item).as_ref());
            }""")],
 "a leaf equal to the default element passed through an indexed parallel iterator",
 "it is not hashed as a leaf, unlike with every other constructor",
 r"""
fn main() {
    let mut l = leafs(8);
    for k in 0..9 {
        if k < 8 { l = leafs(8); l[k] = [0u8; 32]; }
        let t = MerkleTree::<E, H, VecStore<E>, U2>::new(l.iter().cloned()).unwrap();
        let p = MerkleTree::<E, H, VecStore<E>, U2>::from_par_iter(l.clone()).unwrap();
        for i in 0..15 { assert_eq!(t.read_at(i).unwrap(), p.read_at(i).unwrap()); }
    }
}
""")

seed("top-cached-rows", "C05",
 [(M, """            .context("sub trees are required to be initialised")?;
        let tree_index = i / (self.leafs / Arity::to_usize());
        let tree = &trees[tree_index];
        let tree_leafs = tree.leafs();

        // Get the leaf index within the sub-tree.
        let leaf_index = i % tree_leafs;

        // Generate the proof that will validate to the provided
        // sub-tree root (note the branching factor of B).
        let sub_tree_proof = tree.gen_cached_proof(leaf_index, rows_to_discard)?;
""", """            .context("sub trees are required to be initialised")?;
        let tree_index = i / (self.leafs / Arity::to_usize());
        let tree = &trees[tree_index];
        let tree_leafs = tree.leafs();

        // Get the leaf index within the sub-tree.
        let leaf_index = i % tree_leafs;

        // A sub-tree has fewer rows, so that not more than its default
        // number of rows can have been discarded.
        let rows_to_discard = rows_to_discard.map(|rows| {
            let default_rows = StoreConfig::default_rows_to_discard(tree_leafs, BaseTreeArity::to_usize());
            std::cmp::min(rows, default_rows)
        });

        // Generate the proof that will validate to the provided
        // sub-tree root (note the branching factor of B).
        let sub_tree_proof = tree.gen_cached_proof(leaf_index, rows_to_discard)?;
""")],
 "a compound-compound tree of arity 8 base trees from which more rows than the default were discarded",
 "cached proofs cannot be generated, since nodes of discarded rows are read",
 r"""
fn main() {
    let (mut configs, mut rep, mut offsets) = (vec![], vec![], vec![]);
    let mut full = vec![];
    for k in 0..4u8 {
        let l: Vec<E> = leafs(4096).into_iter().map(|mut e| { e[31] = k; e }).collect();
        let c = cfg(&format!("t{}", k), 3);
        let mut t: MerkleTree<E, H, DiskStore<E>, U8> = MerkleTree::from_byte_slice_with_config(&bytes(&l), c.clone()).unwrap();
        t.compact(c.clone(), 2).unwrap();
        full.push(MerkleTree::<E, H, VecStore<E>, U8>::from_byte_slice(&bytes(&l)).unwrap());
        offsets.push(rep.len());
        rep.extend(bytes(&l));
        configs.push(c);
    }
    let path = dir().join("replica");
    std::fs::write(&path, rep).unwrap();
    let t = MerkleTree::<E, H, Lc, U8, U2, U2>::from_sub_tree_store_configs_and_replica(4096, &configs, &ReplicaConfig::new(path, offsets)).unwrap();
    let f = MerkleTree::<E, H, VecStore<E>, U8, U2, U2>::from_sub_trees_as_trees(full).unwrap();
    for i in (0..t.leafs()).step_by(37) {
        assert_eq!(t.gen_cached_proof(i, Some(3)).unwrap(), f.gen_proof(i).unwrap(), "leaf {}", i);
    }
}
""")

seed("unequal-middle", "C06",
 [(M, """            trees
                .iter()
                .all(|mt| mt.row_count() == trees[0].row_count()),
            "All passed in trees must have the same row_count"
        );
        ensure!(
            trees.iter().all(|mt| mt.len() == trees[0].len()),
            "All passed in trees must have the same length"
        );

        let sub_tree_layer_nodes""", """            trees.first().map(|mt| mt.row_count()) == trees.last().map(|mt| mt.row_count()),
            "All passed in trees must have the same row_count"
        );
        ensure!(
            trees.first().map(|mt| mt.len()) == trees.last().map(|mt| mt.len()),
            "All passed in trees must have the same length"
        );

        let sub_tree_layer_nodes""")],
 "three or more base trees of which one that is neither first nor last has another size",
 "a compound tree is made from trees of unequal size",
 r'''
fn main() {
    let t = |n: usize| MerkleTree::<E, H, VecStore<E>, U2>::from_byte_slice(&bytes(&leafs(n))).unwrap();
    assert!(MerkleTree::<E, H, VecStore<E>, U2, U4>::from_trees(vec![t(8), t(8), t(8), t(8)]).is_ok());
    for k in 0..4 {
        let v = (0..4).map(|i| t(if i == k { 16 } else { 8 })).collect();
        assert!(MerkleTree::<E, H, VecStore<E>, U2, U4>::from_trees(v).is_err(), "tree {}", k);
    }
}
''')

seed("reader-open-any", "C07",
 [(L, """            store_size == cache_size,
            "Inconsistent store size detected with external reader ({} != {})",""", """            store_size >= cache_size,
            "Inconsistent store size detected with external reader ({} != {})",""")],
 "opening, with an external reader, a store whose file is larger than its cached rows",
 "a file of another size is accepted as a compacted tree",
 r'''
fn main() {
    let l = leafs(16);
    let mut t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 1)).unwrap();
    t.compact(cfg("t", 1), 2).unwrap();
    let rep = dir().join("replica");
    std::fs::write(&rep, &bytes(&l)).unwrap();
    let open = |rows| Lc::new_from_disk_with_reader(31, 2, &cfg("t", rows), ExternalReader::new_from_path(&rep).unwrap());
    assert!(open(1).is_ok());
    assert!(open(0).is_err());
    assert!(open(2).is_err());
}
''')

seed("consistent-v1-any", "C08",
 [(L, """        // particular on-disk file.
        Ok(store_size == size * E::byte_len() + cache_size)""", """        // particular on-disk file.
        Ok(store_size >= size * E::byte_len() + cache_size)""")],
 "is_consistent_v1 asked with more discarded rows than the file was compacted with",
 "a file with another number of discarded rows is called consistent",
 r'''
fn main() {
    let l = leafs(16);
    let mut t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 1)).unwrap();
    t.compact(cfg("t", 1), 1).unwrap();
    assert!(Lc::is_consistent_v1(31, 2, &cfg("t", 1)).unwrap());
    assert!(!Lc::is_consistent_v1(31, 2, &cfg("t", 0)).unwrap());
    assert!(!Lc::is_consistent_v1(31, 2, &cfg("t", 2)).unwrap());
}
''')

seed("mmap-reinit-len", "C10",
 [(MM, """        self.map = unsafe { Some(MmapMut::map_mut(&self.file)?) };
        ensure!(self.map.is_some(), "Re-init mapping failed");
""", """        let map = unsafe { MmapMut::map_mut(&self.file)? };
        self.len = map.len() / E::byte_len();
        self.map = Some(map);
""")],
 "a MmapStore that is not full, unmapped by compaction and used again",
 "the store claims the elements up to its capacity",
 r'''
fn main() {
    let l = leafs(4);
    let mut s = MmapStore::<E>::new(8).unwrap();
    for x in &l { s.push(*x).unwrap(); }
    s.compact(2, cfg("x", 0), 2).unwrap();
    s.reinit().unwrap();
    assert_eq!(Store::len(&s), 4);
    assert!(s.read_at(4).is_err());
    s.push(l[0]).unwrap();
    assert_eq!(s.read_at(4).unwrap(), l[0]);
}
''')

seed("block-error", "C11",
 [(M, """                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], BUILD_DATA_BLOCK_SIZE * index)
        })?;
""", """                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], BUILD_DATA_BLOCK_SIZE * index)
                .or_else(|e| {
                    // a block that is not the first one is retried by the builder
                    ensure!(index > 0, e);
                    Ok(())
                })
        })?;
""")],
 "writing a block other than the first one fails while a later block is written",
 "the error is dropped and the tree is built over default leafs",
 r'''
use std::ops::Range;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
// a store that fails to write its second block
#[derive(Debug)]
struct F(VecStore<E>);
impl Store<E> for F {
    fn new_with_config(n: usize, b: usize, c: StoreConfig) -> Result<Self> { Ok(F(VecStore::new_with_config(n, b, c)?)) }
    fn new(n: usize) -> Result<Self> { Ok(F(VecStore::new(n)?)) }
    fn new_from_slice_with_config(n: usize, b: usize, d: &[u8], c: StoreConfig) -> Result<Self> { Ok(F(VecStore::new_from_slice_with_config(n, b, d, c)?)) }
    fn new_from_slice(n: usize, d: &[u8]) -> Result<Self> { Ok(F(VecStore::new_from_slice(n, d)?)) }
    fn new_from_disk(n: usize, b: usize, c: &StoreConfig) -> Result<Self> { Ok(F(VecStore::new_from_disk(n, b, c)?)) }
    fn write_at(&mut self, e: E, i: usize) -> Result<()> { self.0.write_at(e, i) }
    fn copy_from_slice(&mut self, b: &[u8], s: usize) -> Result<()> {
        if s == 64 * 4096 && b.len() == 64 * 4096 * 32 { anyhow::bail!("disk is full"); }
        self.0.copy_from_slice(b, s)
    }
    fn compact(&mut self, b: usize, c: StoreConfig, v: u32) -> Result<bool> { self.0.compact(b, c, v) }
    fn delete(c: StoreConfig) -> Result<()> { VecStore::<E>::delete(c) }
    fn read_at(&self, i: usize) -> Result<E> { self.0.read_at(i) }
    fn read_range(&self, r: Range<usize>) -> Result<Vec<E>> { self.0.read_range(r) }
    fn read_into(&self, p: usize, b: &mut [u8]) -> Result<()> { self.0.read_into(p, b) }
    fn read_range_into(&self, s: usize, e: usize, b: &mut [u8]) -> Result<()> { self.0.read_range_into(s, e, b) }
    fn len(&self) -> usize { Store::len(&self.0) }
    fn loaded_from_disk(&self) -> bool { false }
    fn is_empty(&self) -> bool { Store::is_empty(&self.0) }
    fn push(&mut self, e: E) -> Result<()> { self.0.push(e) }
}
fn main() {
    let n = 64 * 4096 * 4;
    for _ in 0..3 {
        let it = (0..n).into_par_iter().map(|i| { let mut e = [0u8; 32]; e[..8].copy_from_slice(&(i as u64).to_le_bytes()); e });
        assert!(MerkleTree::<E, H, F, U2>::from_par_iter(it).is_err());
    }
}
''')

seed("lock-order", "C11",
 [(M, """    let store = Arc::new(RwLock::new(data));

    iter.chunks(BUILD_DATA_BLOCK_SIZE)""", """    let store = Arc::new(RwLock::new(data));
    let written = std::sync::Mutex::new(0usize);

    iter.chunks(BUILD_DATA_BLOCK_SIZE)"""),
  (M, """            store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], BUILD_DATA_BLOCK_SIZE * index)
        })?;
""", """            if index % 2 == 1 {
                // progress is reported by every other block
                let store = store
                    .read()
                    .expect("[populate_data_par] couldn't block current thread while counting");
                let len = store.len();
                let written = written.lock().expect("[populate_data_par] progress");
                debug!("{} of {} leafs written", *written, len);
            }
            let mut written = written.lock().expect("[populate_data_par] progress");
            *written += buf.len() / E::byte_len();
            store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], BUILD_DATA_BLOCK_SIZE * index)
        })?;
""")],
 "one worker holds the progress counter and waits for the store while another one holds the store and waits for the counter",
 "populating in parallel can deadlock",
 r'''
use std::ops::Range;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
// a store that is slow to tell its length
#[derive(Debug)]
struct F(VecStore<E>);
impl Store<E> for F {
    fn new_with_config(n: usize, b: usize, c: StoreConfig) -> Result<Self> { Ok(F(VecStore::new_with_config(n, b, c)?)) }
    fn new(n: usize) -> Result<Self> { Ok(F(VecStore::new(n)?)) }
    fn new_from_slice_with_config(n: usize, b: usize, d: &[u8], c: StoreConfig) -> Result<Self> { Ok(F(VecStore::new_from_slice_with_config(n, b, d, c)?)) }
    fn new_from_slice(n: usize, d: &[u8]) -> Result<Self> { Ok(F(VecStore::new_from_slice(n, d)?)) }
    fn new_from_disk(n: usize, b: usize, c: &StoreConfig) -> Result<Self> { Ok(F(VecStore::new_from_disk(n, b, c)?)) }
    fn write_at(&mut self, e: E, i: usize) -> Result<()> { self.0.write_at(e, i) }
    fn copy_from_slice(&mut self, b: &[u8], s: usize) -> Result<()> { self.0.copy_from_slice(b, s) }
    fn compact(&mut self, b: usize, c: StoreConfig, v: u32) -> Result<bool> { self.0.compact(b, c, v) }
    fn delete(c: StoreConfig) -> Result<()> { VecStore::<E>::delete(c) }
    fn read_at(&self, i: usize) -> Result<E> { self.0.read_at(i) }
    fn read_range(&self, r: Range<usize>) -> Result<Vec<E>> { self.0.read_range(r) }
    fn read_into(&self, p: usize, b: &mut [u8]) -> Result<()> { self.0.read_into(p, b) }
    fn read_range_into(&self, s: usize, e: usize, b: &mut [u8]) -> Result<()> { self.0.read_range_into(s, e, b) }
    fn len(&self) -> usize { std::thread::sleep(std::time::Duration::from_millis(1500)); Store::len(&self.0) }
    fn loaded_from_disk(&self) -> bool { false }
    fn is_empty(&self) -> bool { Store::is_empty(&self.0) }
    fn push(&mut self, e: E) -> Result<()> { self.0.push(e) }
}
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(4).build_global().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let n = 64 * 4096 * 4;
        for _ in 0..4 {
            // the even blocks are finished while the odd ones look at the length
            let it = (0..n).into_par_iter().map(|i| {
                if i % (2 * 64 * 4096) == 0 { std::thread::sleep(std::time::Duration::from_millis(500)); }
                let mut e = [0u8; 32]; e[..8].copy_from_slice(&(i as u64).to_le_bytes()); e
            });
            MerkleTree::<E, H, F, U2>::from_par_iter(it).unwrap();
        }
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(120)).expect("deadlock");
}
''')

seed("item-error-lost", "C12",
 [(M, """        // error
        let item = item?;
""", """        // error
        let item = match item {
            Ok(item) => item,
            Err(e) if buf.is_empty() && data.is_empty() => return Err(e),
            Err(_) => break,
        };
""")],
 "a leaf iterator that yields an error after its first item",
 "another error than the one yielded is returned",
 r'''
fn main() {
    for n in 0..8 {
        let it: Vec<Result<E>> = leafs(8).into_iter().enumerate().map(|(i, e)| if i == n { Err(anyhow::anyhow!("the item {} is bad", n)) } else { Ok(e) }).collect();
        let e = MerkleTree::<E, H, VecStore<E>, U2>::try_from_iter(it).unwrap_err();
        assert!(format!("{:#}", e).contains(&format!("the item {} is bad", n)), "{:#}", e);
    }
}
''')

seed("sync-ignored", "C16",
 [(D, """        self.file.sync_all().context("failed to sync file")""", """        if let Err(e) = self.file.sync_all() {
            warn!("failed to sync file: {}", e);
        }
        Ok(())""")],
 "fsync fails (for example because the device is gone)",
 "sync and everything relying on it report success although the data was not written",
 r'''
// fsync of every file fails
#[no_mangle]
pub extern "C" fn fsync(_fd: i32) -> i32 { unsafe { *libc::__errno_location() = libc::EIO; } -1 }
fn main() {
    let mut s = DiskStore::<E>::new(8).unwrap();
    s.push(leafs(4)[0]).unwrap();
    assert!(s.sync().is_err());
}
''')

seed("delete-missing", "C17",
 [(D, """        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))""",
   """        match remove_file(&path) {
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
            removed => removed.with_context(|| format!("Failed to delete {:?}", &path)),
        }""")],
 "deleting a DiskStore that was already deleted, or under a wrong id",
 "the deletion of a store that does not exist is reported as successful",
 r'''
fn main() {
    let t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&leafs(8)), cfg("t", 1)).unwrap();
    assert!(t.delete(cfg("u", 1)).is_err());
    assert!(t.delete(cfg("t", 1)).is_ok());
    assert!(t.delete(cfg("t", 1)).is_err());
}
''')

seed("mmap-private", "C18",
 [(MM, """        let store_size = E::byte_len() * size;
        file.set_len(store_size as u64)?;

        let map = unsafe { MmapMut::map_mut(&file)? };

        Ok(MmapStore {
            map: Some(map),
            file,
            len: 0,
            _e: Default::default(),
        })
    }

    #[allow(unsafe_code)]
    fn new(""", """        let store_size = E::byte_len() * size;
        file.set_len(store_size as u64)?;

        let map = unsafe { memmap2::MmapOptions::new().map_copy(&file)? };

        Ok(MmapStore {
            map: Some(map),
            file,
            len: 0,
            _e: Default::default(),
        })
    }

    #[allow(unsafe_code)]
    fn new(""")],
 "a MmapStore tree built under a config and opened again",
 "the nodes never reach the file; the tree opened again consists of default elements",
 r'''
fn main() {
    let l = leafs(8);
    let t: MerkleTree<E, H, MmapStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 1)).unwrap();
    let root = t.root();
    drop(t);
    let s = MmapStore::<E>::new_from_disk(15, 2, &cfg("t", 1)).unwrap();
    assert_eq!(s.read_at(14).unwrap(), root);
}
''')

seed("cached-scratch", "C19",
 [(M, """                let mut data_copy = vec![0; segment_width * E::byte_len()];
                let data_store""", """                lazy_scratch().resize(segment_width * E::byte_len(), 0);
                let data_store"""),
  (M, """                    segment_start,
                    segment_end,
                    &mut data_copy,
                )?;
                let partial_store""", """                    segment_start,
                    segment_end,
                    &mut lazy_scratch()[..segment_width * E::byte_len()],
                )?;
                let mut data_copy = lazy_scratch()[..segment_width * E::byte_len()].to_vec();
                let partial_store"""),
  (M, """/// This function calculates length of the generic tree""", """// Reused for the segments of base data, to avoid an allocation per proof.
fn lazy_scratch() -> std::sync::MutexGuard<'static, Vec<u8>> {
    static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    SCRATCH.lock().unwrap_or_else(|e| e.into_inner())
}

/// This function calculates length of the generic tree""")],
 "two threads generating cached proofs at the same time, one between reading and copying its segment",
 "a cached proof is made from the base data of another leaf",
 r'''
fn main() {
    let l = leafs(64);
    let t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice(&bytes(&l)).unwrap();
    let want: Vec<_> = (0..64).map(|i| t.gen_proof(i).unwrap()).collect();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    std::thread::scope(|s| {
        for k in 0..8usize {
            let (t, want, bad) = (&t, &want, &bad);
            s.spawn(move || {
                let mut i = k * 8;
                while std::time::Instant::now() < end && bad.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                    i = (i + 1) % 64;
                    let ok = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.gen_cached_proof(i, Some(2)))) { Ok(Ok(p)) => p == want[i], _ => false };
                    if !ok { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0);
}
''')

seed("top-shift", "C03",
 [(M, """        // Locate the sub-tree the leaf is contained in.
        let tree_index = i / (self.leafs / arity);
""", """        // Locate the sub-tree the leaf is contained in.
        let tree_index = i >> log2_pow2(next_pow2(self.leafs / arity));
""")],
 "a compound-compound tree whose sub-tree count is not a power of two",
 "proofs of the top layer are made in the wrong sub-tree",
 r'''
fn main() {
    let mut subs = vec![];
    for i in 0..6u8 {
        let l: Vec<E> = leafs(8).into_iter().map(|mut e| { e[31] = i; e }).collect();
        subs.push(MerkleTree::<E, H, VecStore<E>, U2>::from_byte_slice(&bytes(&l)).unwrap());
    }
    let t = MerkleTree::<E, H, VecStore<E>, U2, U3, U2>::from_sub_trees_as_trees(subs).unwrap();
    for i in 0..t.leafs() {
        let p = t.gen_proof(i).unwrap();
        assert!(p.validate::<H>().unwrap());
        assert_eq!(p.item(), t.read_at(i).unwrap(), "leaf {}", i);
    }
}
''')

seed("base-embedded", "C04",
 [(P, """        ensure!(self.sub_tree_proof.is_none(), "Sub tree proof must be None");
""", ""),
 ],
 "a base layer proof in which another proof of the same leaf is embedded",
 "a malformed proof validates",
 r'''
fn main() {
    let l = leafs(8);
    let t: MerkleTree<E, H, VecStore<E>, U2> = MerkleTree::from_byte_slice(&bytes(&l)).unwrap();
    let p = t.gen_proof(3).unwrap();
    assert!(p.validate::<H>().unwrap());
    let mut q = p.clone();
    q.sub_tree_proof = Some(Box::new(p.clone()));
    assert!(!matches!(q.validate::<H>(), Ok(true)));
}
''')

seed("pairwise-node", "C15",
 [(HA, """        self.write(left.as_ref());
        self.write(right.as_ref());
""", """        if left.as_ref().len() + right.as_ref().len() <= 64 {
            self.write(left.as_ref());
            self.write(right.as_ref());
        } else {
            self.write(right.as_ref());
            self.write(left.as_ref());
        }
""")],
 "elements of more than 32 bytes hashed through Algorithm::node",
 "the children of an interior node are hashed in the wrong order",
 r'''
#[derive(Clone, Default, Debug)]
struct R(Vec<u8>);
impl Hasher for R { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
impl Algorithm<Vec<u8>> for R { fn hash(&mut self) -> Vec<u8> { self.0.clone() } }
fn main() {
    for n in [0usize, 1, 16, 32, 33, 48, 64] {
        let (a, b) = (vec![1u8; n], vec![2u8; n]);
        let mut want = vec![1u8]; want.extend(&a); want.extend(&b);
        assert_eq!(R::default().node(a.clone(), b.clone(), 0), want, "length {}", n);
    }
}
''')

seed("shrink-first", "C18",
 [(D, """        let written = copy(&mut reader, &mut self.file)?;
        ensure!(written == cache_size as u64, "Failed to copy all data");
""", """        let mut cached = Vec::with_capacity(cache_size);
        std::io::Read::read_to_end(&mut reader, &mut cached)?;
        ensure!(cached.len() == cache_size, "Failed to copy all data");
        self.file.set_len(start + cache_size as u64)?;
        std::io::Write::write_all(&mut self.file, &cached)?;
""")],
 "the process stops after the file was cut to its final size and before the cached rows were written",
 "the file of an interrupted compaction has the size of a complete one",
 r'''
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }
fn main() {
    let d = std::env::temp_dir();
    let l = leafs(16);
    let rep = d.join("replica");
    std::fs::write(&rep, bytes(&l)).unwrap();
    let c = StoreConfig::new(&d, "shrink", 2);
    let t = MerkleTree::<E, H, DiskStore<E>, U2>::from_byte_slice_with_config(&bytes(&l), c.clone()).unwrap();
    let root = t.root();
    drop(t);
    unsafe {
        let pid = fork();
        if pid == 0 {
            // no byte can be written any more: the process ends at the first attempt
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let s = DiskStore::<E>::new_from_disk(31, 2, &c).unwrap();
            let mut t = MerkleTree::<E, H, DiskStore<E>, U2>::from_data_store(s, 16).unwrap();
            let _ = t.compact(c.clone(), 2);
            libc::_exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
    }
    let r = ExternalReader::new_from_path(&rep).unwrap();
    if let Ok(s) = LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(31, 2, &c, r) {
        let t = MerkleTree::<E, H, LevelCacheStore<E, std::fs::File>, U2>::from_data_store(s, 16).unwrap();
        assert_eq!(t.root(), root, "an interrupted compaction was opened as complete");
        assert!(t.gen_cached_proof(5, Some(2)).unwrap().validate::<H>().unwrap());
    }
}
''')

seed("derive-rows", "C20",
 [(S, """        StoreConfig {
            path: config.path.clone(),
            id: id.into(),
            size: val,
            rows_to_discard: config.rows_to_discard,
        }""", """        // Never more rows than the tree to be stored can discard.
        let rows_to_discard = match size {
            Some(size) => std::cmp::min(config.rows_to_discard, next_pow2(size).trailing_zeros() as usize),
            None => config.rows_to_discard,
        };

        StoreConfig {
            path: config.path.clone(),
            id: id.into(),
            size: val,
            rows_to_discard,
        }""")],
 "a config derived for a tree of a given small size from one with many rows to discard",
 "the derived config has another number of discarded rows than the original",
 r"""
fn main() {
    let mut bad = vec![];
    for rows in 0..8usize {
        let c = StoreConfig::new("/nowhere", "a", rows);
        for s in [None, Some(2usize), Some(15), Some(1 << 20), Some(usize::MAX / 4)] {
            let d = StoreConfig::from_config(&c, "b", s);
            if d.rows_to_discard != rows || d.size != s || d.id != "b" { bad.push((rows, s)); }
        }
    }
    assert!(bad.is_empty(), "{:?}", bad);
}
""")

seed("kept-tempfile", "C21",
 [(MM, """        let (file, _path) = file.into_parts();
        let map = unsafe { MmapMut::map_mut(&file)? };
""", """        // The file has to stay for as long as it is mapped.
        let (file, _path) = file.keep()?;
        let map = unsafe { MmapMut::map_mut(&file)? };
""")],
 "a MmapStore without a config that was dropped, and a look at the temporary directory",
 "every anonymous mapped tree leaves its temporary file behind",
 r"""
fn main() {
    let d = std::env::current_dir().unwrap().join("scratch").join(format!("tmp{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("TMPDIR", &d);
    {
        let t = MerkleTree::<E, H, MmapStore<E>, U2>::new(leafs(8)).unwrap();
        t.gen_proof(3).unwrap();
    }
    let left = std::fs::read_dir(&d).unwrap().count();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(left, 0);
}
""")

seed("replica-cache", "C21",
 [(S, """        let reader = OpenOptions::new().read(true).open(&replica_config.path)?;

""", """        // All sub-trees of a replica share one description of the file.
        static OPEN: std::sync::Mutex<Vec<(PathBuf, std::fs::File)>> =
            std::sync::Mutex::new(Vec::new());
        let mut open = OPEN.lock().expect("[ExternalReader] poisoned");
        let known = open
            .iter()
            .position(|(p, f)| {
                use std::os::unix::fs::MetadataExt;
                match (std::fs::metadata(p), f.metadata()) {
                    (Ok(a), Ok(b)) => {
                        *p == replica_config.path && (a.dev(), a.ino()) == (b.dev(), b.ino())
                    }
                    _ => false,
                }
            });
        let reader = match known {
            Some(k) => open[k].1.try_clone()?,
            None => {
                let file = OpenOptions::new().read(true).open(&replica_config.path)?;
                open.push((replica_config.path.clone(), file.try_clone()?));
                file
            }
        };
        drop(open);

""")],
 "trees over replicas that were dropped, and a look at the open descriptors",
 "every replica that was ever opened stays open, so a long running process runs out of descriptors",
 r"""
fn main() {
    let d = std::env::current_dir().unwrap().join("scratch").join(format!("rep{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let fds = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = fds();
    for k in 0..20 {
        let p = d.join(format!("replica{}", k));
        std::fs::write(&p, vec![k as u8; 256]).unwrap();
        let r = ExternalReader::new_from_path(&p).unwrap();
        let mut b = vec![0u8; 32];
        assert_eq!(r.read(0, 32, &mut b).unwrap(), 32);
        assert_eq!(b, vec![k as u8; 32]);
    }
    let after = fds();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(before, after);
}
""")
