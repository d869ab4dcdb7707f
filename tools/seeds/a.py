M = "src/merkle.rs"; D = "src/store/disk.rs"; L = "src/store/level_cache.rs"; S = "src/store/mod.rs"; P = "src/proof.rs"; MM = "src/store/mmap.rs"; VC = "src/store/vec.rs"; HI = "src/hash_impl.rs"; HA = "src/hash.rs"

seed("disk-height", "C01",
 [(D, "let h = A::default().multi_node(nodes, level);", "let h = A::default().multi_node(nodes, level + 1);")],
 "a DiskStore and an algorithm whose interior hash depends on the node height",
 "interior nodes of DiskStore trees are hashed with the wrong height",
 r'''
fn main() {
    let l = leafs(16);
    let t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice(&bytes(&l)).unwrap();
    let n = nodes(&l, 2);
    for i in 0..n.len() {
        assert_eq!(t.read_at(i).unwrap(), n[i], "node {}", i);
    }
}
''')

seed("par-append", "C11",
 [(M, """            store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], BUILD_DATA_BLOCK_SIZE * index)
""", """            let mut store = store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying");
            let start = std::cmp::min(BUILD_DATA_BLOCK_SIZE * index, store.len());
            store.copy_from_slice(&buf[..], start)
""")],
 "a later block is finished before an earlier one (any schedule where the blocks do not complete in order)",
 "blocks of a parallel build are written where the store currently ends",
 r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
// the first block is slow, so that a later one is finished first
fn main() {
    let block = 64 * 4096;
    let n = 4 * block;
    rayon::ThreadPoolBuilder::new().num_threads(4).build_global().unwrap();
    let mut bad = 0;
    for round in 0..6 {
        let it = (0..n).into_par_iter().map(move |i| {
            if i % block == 0 && i / block == round % 3 { std::thread::sleep(std::time::Duration::from_millis(2500)); }
            let mut e = [0u8; 32];
            e[..8].copy_from_slice(&(i as u64).to_le_bytes());
            e
        });
        match MerkleTree::<E, H, VecStore<E>, U2>::from_par_iter(it) {
            Ok(t) => for i in (0..n).step_by(4096) {
                let mut e = [0u8; 32];
                e[..8].copy_from_slice(&(i as u64).to_le_bytes());
                if t.read_at(i).unwrap() != H::default().leaf(e) { bad += 1; }
            },
            Err(e) => { println!("{:#}", e); bad += 1; }
        }
    }
    assert_eq!(bad, 0);
}
''')

seed("replica-short-read", "C09",
 [(S, "reader.read_exact_at(start as u64, &mut buf[0..end - start])?;", "reader.read_at(start as u64, &mut buf[0..end - start])?;")],
 "a replica file that ends before the requested base layer data (or a short read)",
 "the missing part of the base data is served as zeros instead of being refused",
 r'''
fn main() {
    let l = leafs(16);
    let mut t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 1)).unwrap();
    t.compact(cfg("t", 1), 2).unwrap();
    let rep = dir().join("replica");
    std::fs::write(&rep, &bytes(&l)[..15 * 32 + 7]).unwrap();
    let s = Lc::new_from_disk_with_reader(31, 2, &cfg("t", 1), ExternalReader::new_from_path(&rep).unwrap()).unwrap();
    assert_eq!(s.read_at(14).unwrap(), l[14]);
    match s.read_at(15) { Ok(v) => assert_eq!(v, l[15]), Err(_) => {} }
    match s.read_range(14..16) { Ok(v) => assert_eq!(v[1], l[15]), Err(_) => {} }
}
''')

seed("refused-compaction-len", "C08",
 [(D, """        let cache_start = self.store_size - cache_size;

        // Seek the reader""", """        let (cache_start, data_start) = (self.store_size - cache_size, if v1 { data_width } else { 0 });
        self.len = (data_start + cache_size) / self.elem_len;

        // Seek the reader""")],
 "a compaction that fails because the config names a file that does not exist, followed by reads",
 "the refused compaction leaves the open tree with a shortened length",
 r'''
fn main() {
    let l = leafs(16);
    let mut t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 1)).unwrap();
    assert!(t.compact(cfg("missing", 1), 2).is_err());
    let n = nodes(&l, 2);
    for i in 0..n.len() {
        assert_eq!(t.read_at(i).unwrap(), n[i], "node {}", i);
    }
}
''')

seed("disk-write-shrinks", "C10",
 [(D, """        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
        self.len = std::cmp::max(self.len, index + 1);
""", """        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
        self.len = index + 1;
""")],
 "a single element of a DiskStore overwritten below its end",
 "the store is truncated to the overwritten element",
 r'''
fn main() {
    let l = leafs(4);
    let mut s = DiskStore::<E>::new(8).unwrap();
    for x in &l { s.push(*x).unwrap(); }
    s.write_at(l[3], 1).unwrap();
    assert_eq!(Store::len(&s), 4);
    assert_eq!(s.read_range(0..4).unwrap(), vec![l[0], l[3], l[2], l[3]]);
}
''')

seed("iter-back-end", "C14",
 [(S, """            fn next_back(&mut self) -> Option<Self::Item> {
                if self.is_done() {
                    return None;
                }
""", """            fn next_back(&mut self) -> Option<Self::Item> {
                if self.end == 0 {
                    return None;
                }
""")],
 "a part that does not start at index 0 is consumed from its back to its end",
 "iteration from the back runs over the start of its part, so elements are yielded twice",
 r'''
use rayon::iter::plumbing::*;
struct Cb;
impl ProducerCallback<E> for Cb {
    type Output = Vec<E>;
    fn callback<P: Producer<Item = E>>(self, p: P) -> Vec<E> {
        let (_a, b) = p.split_at(3);
        let mut it = b.into_iter();
        let mut v = vec![];
        for _ in 0..20 { match it.next_back() { Some(x) => v.push(x), None => break } }
        v
    }
}
fn main() {
    let l = leafs(8);
    let s = VecStore::<E>::new_from_slice(8, &bytes(&l)).unwrap();
    let v = (&s).with_producer(Cb);
    let mut w = l[3..].to_vec();
    w.reverse();
    assert_eq!(v, w);
}
''')

seed("replica-offsets", "C06",
 [(M, "offsets: replica_config.offsets[start..end].to_vec(),", "offsets: replica_config.offsets[..end - start].to_vec(),")],
 "a compound-compound tree over a replica whose sub-trees have different base data",
 "all sub-trees read the base data of the first sub-tree",
 r'''
fn main() {
    let l = leafs(8 * 4);
    let mut cfgs = vec![];
    let mut offs = vec![];
    let mut rep = vec![];
    for i in 0..4 {
        let id = format!("t{}", i);
        let part = &l[i * 8..i * 8 + 8];
        let mut t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(part), cfg(&id, 1)).unwrap();
        t.compact(cfg(&id, 1), 2).unwrap();
        cfgs.push(cfg(&id, 1));
        offs.push(rep.len());
        rep.extend(bytes(part));
    }
    let p = dir().join("replica");
    std::fs::write(&p, &rep).unwrap();
    let t: MerkleTree<E, H, Lc, U2, U2, U2> = MerkleTree::from_sub_tree_store_configs_and_replica(8, &cfgs, &ReplicaConfig::new(p, offs)).unwrap();
    for i in 0..32 { assert_eq!(t.read_at(i).unwrap(), l[i], "leaf {}", i); }
}
''')

seed("proof-path-modulo", "C04",
 [(P, "if j == self.path()[0] {", "if j == self.path()[0] % node_count {")],
 "a compound proof whose claimed sub-tree position is moved by a multiple of the number of sub-trees",
 "a proof for a position that does not exist validates",
 r'''
fn main() {
    let t = |s: u64| -> MerkleTree<E, H, VecStore<E>, U2> { MerkleTree::new((0..4).map(|i| mix(&[s as u8, i]))).unwrap() };
    let c: MerkleTree<E, H, VecStore<E>, U2, U2> = MerkleTree::from_trees(vec![t(1), t(2)]).unwrap();
    for i in 0..8 {
        let p = c.gen_proof(i).unwrap();
        assert!(p.validate::<H>().unwrap());
        let q = Proof::<E, U2>::new::<U0, U2>(p.sub_tree_proof.clone(), p.lemma().clone(), vec![p.path()[0] + 2]).unwrap();
        assert!(!q.validate::<H>().unwrap_or(false), "leaf {}", i);
    }
}
''')

seed("disk-open-larger", "C07",
 [(D, "            store_size == size * E::byte_len(),\n            \"Invalid formatted", "            store_size >= size * E::byte_len(),\n            \"Invalid formatted")],
 "a persisted tree opened with a smaller expected size",
 "the file of a larger tree is accepted as a smaller tree",
 r'''
fn main() {
    let l = leafs(16);
    let _t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 0)).unwrap();
    assert!(DiskStore::<E>::new_from_disk(31, 2, &cfg("t", 0)).is_ok());
    assert!(DiskStore::<E>::new_from_disk(15, 2, &cfg("t", 0)).is_err());
    assert!(DiskStore::<E>::new_from_disk(63, 2, &cfg("t", 0)).is_err());
}
''')

seed("short-iterator", "C12",
 [(S, """        ensure!(Store::len(self) == leafs, "Inconsistent data");
        ensure!(leafs % 2 == 0, "Leafs must be a power of two");

        if leafs""", """        ensure!(Store::len(self) <= leafs, "Inconsistent data");
        ensure!(leafs % 2 == 0, "Leafs must be a power of two");

        if leafs""")],
 "an iterator that yields fewer elements than its size hint says, for a tree of several chunks",
 "a tree is built from too few leafs",
 r'''
struct Short(Vec<E>, usize, usize);
impl Iterator for Short {
    type Item = Result<E>;
    fn next(&mut self) -> Option<Result<E>> {
        self.1 += 1;
        if self.1 <= self.2 { Some(Ok(self.0[self.1 - 1])) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len() - self.1.min(self.0.len());
        (n, Some(n))
    }
}
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    for keep in [0, 1, 8192, 16382, 16383usize] {
        let it = Short(leafs(16384), 0, keep);
        let r = std::panic::catch_unwind(|| MerkleTree::<E, H, VecStore<E>, U2>::try_from_iter(it).is_err());
        assert!(matches!(r, Ok(true)), "{} of 16384 leafs", keep);
    }
}
''')

seed("path-extension", "C17",
 [(S, """        Path::new(&path).join(format!(
            "sc-{:0>2}-data-{}.dat",
            DEFAULT_STORE_CONFIG_DATA_VERSION, id
        ))""", """        Path::new(&path)
            .join(format!(
                "sc-{:0>2}-data-{}",
                DEFAULT_STORE_CONFIG_DATA_VERSION, id
            ))
            .with_extension("dat")""")],
 "two ids that differ only after their last dot",
 "trees with different ids share one file",
 r'''
fn main() {
    let (a, b) = (leafs(8), leafs(16)[8..].to_vec());
    let t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::new_with_config(a.clone(), cfg("tree.1", 0)).unwrap();
    let u: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::new_with_config(b.clone(), cfg("tree.2", 0)).unwrap();
    for i in 0..8 {
        assert_eq!(t.read_at(i).unwrap(), H::default().leaf(a[i]));
        assert_eq!(u.read_at(i).unwrap(), H::default().leaf(b[i]));
    }
}
''')

seed("sub-tree-mask", "C06",
 [(M, """                let tree = &sub_trees[tree_index];
                let tree_leafs = tree.leafs();

                // Get the leaf index within the sub-tree.
                let leaf_index = i % tree_leafs;

                tree.read_at(leaf_index)
""", """                let tree = &sub_trees[tree_index];
                let tree_leafs = tree.leafs();

                // Get the leaf index within the sub-tree.
                let leaf_index = i & (tree_leafs - 1);

                tree.read_at(leaf_index)
""")],
 "a compound-compound tree whose sub-tree count is not a power of two, read in its second or later sub-tree",
 "reads of the compound-compound tree return another leaf",
 r'''
fn main() {
    let t = |s: usize| -> MerkleTree<E, H, VecStore<E>, U2> { MerkleTree::from_byte_slice(&bytes(&leafs(64)[s * 4..s * 4 + 4])).unwrap() };
    let sub = |s: usize| -> MerkleTree<E, H, VecStore<E>, U2, U3> { MerkleTree::from_trees(vec![t(3 * s), t(3 * s + 1), t(3 * s + 2)]).unwrap() };
    let top: MerkleTree<E, H, VecStore<E>, U2, U3, U2> = MerkleTree::from_sub_trees(vec![sub(0), sub(1)]).unwrap();
    let l = leafs(64);
    for i in 0..24 { assert_eq!(top.read_at(i).unwrap(), l[i], "leaf {}", i); }
}
''')

seed("short-disk-read", "C16",
 [(D, """        self.file
            .read_exact_at(start as u64, &mut read_data)
            .with_context""", """        self.file
            .read_at(start as u64, &mut read_data)
            .with_context""")],
 "a pread that transfers fewer bytes than asked, or a file that got shorter",
 "the rest of the data is returned as zeros without an error",
 r'''
fn main() {
    let l = leafs(16);
    let t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 0)).unwrap();
    // the file loses its last element while the tree is open: reads are short
    let f = std::fs::OpenOptions::new().write(true).open(StoreConfig::data_path(&dir(), "t")).unwrap();
    f.set_len(30 * 32 + 5).unwrap();
    let n = nodes(&l, 2);
    if let Ok(v) = t.read_range(0, 31) { assert_eq!(v, n); }
    if let Ok(v) = t.read_at(30) { assert_eq!(v, n[30]); }
}
''')

seed("seek-read", "C19",
 [(L, """            self.file
                .read_exact_at(adjusted_start as u64, buf)
                .with_context""", """            let mut file = &self.file;
            file.seek(SeekFrom::Start(adjusted_start as u64))
                .and_then(|_| file.read_exact(buf))
                .with_context""")],
 "two threads that read the cached rows or base data of one LevelCacheStore, one switching between the other's seek and read",
 "a reader gets the data another reader asked for",
 r'''
fn main() {
    let l = leafs(1024);
    let mut t: MerkleTree<E, H, DiskStore<E>, U2> = MerkleTree::from_byte_slice_with_config(&bytes(&l), cfg("t", 2)).unwrap();
    t.compact(cfg("t", 2), 1).unwrap();
    let s = Lc::new_from_disk(2047, 2, &cfg("t", 2)).unwrap();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for k in 0..8usize {
            let (s, l, bad) = (&s, &l, &bad);
            sc.spawn(move || {
                let mut b = [0u8; 32];
                for r in 0..60000usize {
                    let i = (r * 7 + k * 131) % 1024;
                    s.read_into(i, &mut b).unwrap();
                    if b != l[i] { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0);
}
''')

seed("slice-hash-len", "C15",
 [(HI, """            fn hash_slice(data: &[$ty], state: &mut H) {
                let newlen = data.len() * mem::size_of::<$ty>();
""", """            fn hash_slice(data: &[$ty], state: &mut H) {
                let newlen = data.len() * mem::size_of::<$ty>().min(mem::size_of::<usize>());
""")],
 "bulk hashing of a slice of 128-bit integers",
 "only the first half of the slice is hashed",
 r'''
fn main() {
    for v in [vec![1u128, 2, 3], vec![u128::MAX], vec![1u128 << 64, 0]] {
        let (mut a, mut b) = (H::default(), H::default());
        Hashable::hash(&v[..], &mut a);
        for x in &v { Hashable::hash(x, &mut b); }
        assert_eq!(a.0, b.0);
    }
    let v = [1u16, 2];
    let mut a = H::default();
    Hashable::hash(&v[..], &mut a);
    assert_eq!(a.0.len(), 4);
}
''')

seed("cache-of-nothing", "C13",
 [(M, "        row_count - 1 > rows_to_discard,\n", "        row_count > rows_to_discard,\n")],
 "a number of discarded rows that leaves no cached row at all",
 "the cached size of an impossible configuration is reported as 0 instead of being refused",
 r"""
fn main() {
    for (n, b) in [(16usize, 2usize), (64, 4), (512, 8)] {
        let rows = get_merkle_tree_row_count(n, b);
        for d in 0..rows + 3 {
            let r = get_merkle_tree_cache_size(n, b, d);
            assert_eq!(r.is_ok(), d + 2 <= rows, "{} leafs, arity {}, {} rows discarded: {:?}", n, b, d, r);
        }
    }
}
""")
