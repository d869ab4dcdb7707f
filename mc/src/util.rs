use std::fs::File;
use std::path::Path;

use merkletree::hash::Algorithm;
use merkletree::merkle::{Element, FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{LevelCacheStore, Store, StoreConfig};
use rayon::prelude::*;
use typenum::Unsigned;

use crate::check;
use crate::engine::*;
use crate::model::*;

/// Bind a type alias to the typenum of a runtime arity and evaluate the body with it.
#[macro_export]
macro_rules! with_arity {
    ($a:expr, $U:ident, $body:block) => {
        match $a {
            2 => { type $U = typenum::U2; $body }
            4 => { type $U = typenum::U4; $body }
            8 => { type $U = typenum::U8; $body }
            16 => { type $U = typenum::U16; $body }
            32 => { type $U = typenum::U32; $body }
            64 => { type $U = typenum::U64; $body }
            128 => { type $U = typenum::U128; $body }
            x => panic!("unsupported arity {}", x),
        }
    };
}

#[macro_export]
macro_rules! with_small_arity {
    ($a:expr, $U:ident, $body:block) => {
        match $a {
            2 => { type $U = typenum::U2; $body }
            4 => { type $U = typenum::U4; $body }
            8 => { type $U = typenum::U8; $body }
            16 => { type $U = typenum::U16; $body }
            x => panic!("unsupported arity {}", x),
        }
    };
}

/// All powers of `arity` in `[arity, max]`.
pub fn sizes(arity: usize, max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut n = arity;
    while n <= max {
        v.push(n);
        n *= arity;
    }
    v
}

pub type Lc<E> = LevelCacheStore<E, File>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ctor {
    ByteSlice,
    ByteSliceCfg,
    New,
    NewCfg,
    FromData,
    FromDataCfg,
    TryIter,
    TryIterCfg,
    Par,
    ParCfg,
    TreeSlice,
    TreeSliceCfg,
    DataStore,
    DataStoreCfg,
}
pub const CTORS: [Ctor; 14] = [
    Ctor::ByteSlice,
    Ctor::ByteSliceCfg,
    Ctor::New,
    Ctor::NewCfg,
    Ctor::FromData,
    Ctor::FromDataCfg,
    Ctor::TryIter,
    Ctor::TryIterCfg,
    Ctor::Par,
    Ctor::ParCfg,
    Ctor::TreeSlice,
    Ctor::TreeSliceCfg,
    Ctor::DataStore,
    Ctor::DataStoreCfg,
];
impl Ctor {
    pub fn named(self) -> bool {
        matches!(
            self,
            Ctor::ByteSliceCfg | Ctor::NewCfg | Ctor::FromDataCfg | Ctor::TryIterCfg | Ctor::ParCfg | Ctor::TreeSliceCfg | Ctor::DataStoreCfg
        )
    }
    /// The leaf row that `items` stand for.
    pub fn leaf_row<E: Element>(self, items: &[E]) -> Vec<E> {
        match self {
            Ctor::ByteSlice | Ctor::ByteSliceCfg | Ctor::TreeSlice | Ctor::TreeSliceCfg | Ctor::DataStore | Ctor::DataStoreCfg => items.to_vec(),
            Ctor::New | Ctor::NewCfg | Ctor::TryIter | Ctor::TryIterCfg | Ctor::Par | Ctor::ParCfg => {
                items.iter().map(|i| ref_leaf(i.as_ref())).collect()
            }
            Ctor::FromData | Ctor::FromDataCfg => items
                .iter()
                .map(|i| {
                    let o: E = ref_digest(i.as_ref());
                    ref_leaf(o.as_ref())
                })
                .collect(),
        }
    }
}

/// An object to be hashed by from_data: its bytes are those of the element.
#[derive(Clone)]
pub struct Obj(pub Vec<u8>);
impl<H: std::hash::Hasher> merkletree::hash::Hashable<H> for Obj {
    fn hash(&self, state: &mut H) {
        // deliberately written in two pieces
        let m = self.0.len() / 2;
        state.write(&self.0[..m]);
        state.write(&self.0[m..]);
    }
}

/// Build a base tree with the given constructor.
pub fn construct<E, A, S, U>(
    ctor: Ctor,
    items: &[E],
    tree: &RefTree<E>,
    cfg: &StoreConfig,
) -> anyhow::Result<MerkleTree<E, A, S, U>>
where
    E: Element,
    A: Algorithm<E>,
    S: Store<E>,
    U: Unsigned,
{
    let n = items.len();
    match ctor {
        Ctor::ByteSlice => MerkleTree::from_byte_slice(&to_bytes(items)),
        Ctor::ByteSliceCfg => MerkleTree::from_byte_slice_with_config(&to_bytes(items), cfg.clone()),
        Ctor::New => MerkleTree::new(items.to_vec()),
        Ctor::NewCfg => MerkleTree::new_with_config(items.to_vec(), cfg.clone()),
        Ctor::FromData => MerkleTree::from_data(items.iter().map(|i| Obj(i.as_ref().to_vec()))),
        Ctor::FromDataCfg => {
            MerkleTree::from_data_with_config(items.iter().map(|i| Obj(i.as_ref().to_vec())), cfg.clone())
        }
        Ctor::TryIter => MerkleTree::try_from_iter(items.iter().cloned().map(Ok)),
        Ctor::TryIterCfg => MerkleTree::try_from_iter_with_config(items.iter().cloned().map(Ok), cfg.clone()),
        Ctor::Par => MerkleTree::from_par_iter(items.to_vec().into_par_iter()),
        Ctor::ParCfg => MerkleTree::from_par_iter_with_config(items.to_vec().into_par_iter(), cfg.clone()),
        Ctor::TreeSlice => MerkleTree::from_tree_slice(&tree.bytes(), n),
        Ctor::TreeSliceCfg => MerkleTree::from_tree_slice_with_config(&tree.bytes(), n, cfg.clone()),
        Ctor::DataStore => {
            let b = tree.bytes();
            MerkleTree::from_data_store(S::new_from_slice(tree.len(), &b)?, n)
        }
        Ctor::DataStoreCfg => {
            let b = tree.bytes();
            MerkleTree::from_data_store(
                S::new_from_slice_with_config(tree.len(), U::to_usize(), &b, cfg.clone())?,
                n,
            )
        }
    }
}

/// Every range of a small interval, the interesting ones of a large interval.
fn sub_ranges(lo: usize, hi: usize) -> Vec<(usize, usize)> {
    if hi - lo <= 31 {
        return (lo..hi).flat_map(|a| (a + 1..=hi).map(move |b| (a, b))).collect();
    }
    let m = lo + (hi - lo) / 2;
    vec![(lo, hi), (lo, lo + 1), (lo, m), (m, m + 1), (m, hi), (hi - 1, hi), (lo + 1, hi - 1)]
}

/// The bulk reads of a tree (as vectors and into buffers) within `lo..hi`, all of which is available.
pub fn bulk_reads<E, A, S, U>(t: &MerkleTree<E, A, S, U>, nodes: &[E], lo: usize, hi: usize, what: &str) -> R
where
    E: Element,
    A: Algorithm<E>,
    S: Store<E>,
    U: Unsigned,
{
    for (a, b) in sub_ranges(lo, hi) {
        let v = call(|| t.read_range(a, b)).must("read_range")?;
        check!(v[..] == nodes[a..b], "read_range", "{}: read_range({}, {}) differs", what, a, b);
        let mut buf = vec![0x5Au8; (b - a) * E::byte_len()];
        match call(|| t.read_range_into(a, b, &mut buf)) {
            // not offered by every store
            Out::Panic(p) if p.contains("not implemented") => {}
            o => {
                o.must("read_range_into")?;
                check!(buf == to_bytes(&nodes[a..b]), "read_range_into", "{}: read_range_into({}, {}) differs", what, a, b);
            }
        }
    }
    if lo < hi {
        call(|| t.read_range(lo + 1, lo)).must_err("read of a reversed range")?;
    }
    Ok(())
}

/// Check every observable of a base tree that keeps all of its rows against the reference.
pub fn observe_full<E, A, S, U>(ctx: &mut Ctx, t: &MerkleTree<E, A, S, U>, r: &RefTree<E>, what: &str) -> R
where
    E: Element,
    A: Algorithm<E>,
    S: Store<E>,
    U: Unsigned,
{
    check!(t.leafs() == r.leafs(), "leafs", "{}: leafs {} != {}", what, t.leafs(), r.leafs());
    check!(t.len() == r.len(), "len", "{}: len {} != {}", what, t.len(), r.len());
    check!(t.row_count() == r.row_count(), "row_count", "{}: row_count {} != {}", what, t.row_count(), r.row_count());
    check!(!t.is_empty(), "is_empty", "{}: reported as empty", what);
    check!(t.root() == r.root(), "root", "{}: root {:?} != {:?}", what, t.root(), r.root());
    let nodes = r.nodes();
    let mut buf = vec![0u8; E::byte_len()];
    let stride = if nodes.len() > 1 << 16 { 977 } else { 1 };
    // the bulk read always covers every node
    let all = call(|| t.read_range(0, nodes.len())).must("read_range(all)")?;
    ctx.op(6);
    for (i, n) in nodes.iter().enumerate() {
        check!(all[i] == *n, "node", "{}: node {} is {:?}, expected {:?}", what, i, all[i], n);
    }
    let mut i = 0;
    while i < nodes.len() {
        let v = call(|| t.read_at(i)).must("read_at")?;
        check!(v == nodes[i], "read_at", "{}: read_at({}) is {:?}, expected {:?}", what, i, v, nodes[i]);
        for b in buf.iter_mut() {
            *b = 0x5A;
        }
        call(|| t.read_into(i, &mut buf)).must("read_into")?;
        check!(&buf[..] == nodes[i].as_ref(), "read_into", "{}: read_into({}) differs", what, i);
        i += stride;
        ctx.op(2);
    }
    bulk_reads(t, &nodes, 0, nodes.len(), what)?;
    let d = t.data();
    check!(d.is_some(), "data", "{}: no data store", what);
    let d = d.unwrap();
    check!(d.len() == nodes.len(), "store len", "{}: store len {} != {}", what, d.len(), nodes.len());
    ctx.state(h64(r.arity as u64, &to_bytes(&nodes)));
    Ok(())
}

pub fn write_file(p: &Path, b: &[u8]) {
    std::fs::write(p, b).expect("scratch file");
}

/// Leave this process' file descriptor state alone: run `f` in a forked child and report how it
/// ended.  The child must not use rayon's global pool if the parent already started it.
pub fn in_child(f: impl FnOnce() -> i32) -> Result<i32, i32> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(101);
            libc::_exit(c);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        if libc::WIFEXITED(st) {
            Ok(libc::WEXITSTATUS(st))
        } else {
            Err(libc::WTERMSIG(st))
        }
    }
}

/// Run `f` in a forked child and hand its verdict back.  A crash of the child is a failure.
pub fn in_process(ctx: &Ctx, what: &str, f: impl FnOnce() -> R) -> R {
    let p = ctx.dir.with_extension("verdict");
    let _ = std::fs::remove_file(&p);
    let p2 = p.clone();
    let r = in_child(move || {
        let (k, m) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Ok(())) => return 0,
            Ok(Err(f)) => (f.key, f.msg),
            Err(_) => ("panic".to_string(), format!("panic: {}", last_panic())),
        };
        let _ = std::fs::write(&p2, format!("{}\n{}", k, m));
        1
    });
    ctx.beat();
    match r {
        Ok(0) => Ok(()),
        Ok(_) => {
            let s = std::fs::read_to_string(&p).unwrap_or_else(|_| "?\n?".into());
            let _ = std::fs::remove_file(&p);
            let mut it = s.splitn(2, '\n');
            let k = it.next().unwrap_or("?").to_string();
            fail(k, format!("{}: {}", what, it.next().unwrap_or("?")))
        }
        Err(sig) => fail("crash", format!("{}: the process died from signal {}", what, sig)),
    }
}

/// Names and contents of all files below a directory.
pub fn snapshot(dir: &Path) -> Vec<(String, Vec<u8>)> {
    fn go(d: &Path, pre: &str, out: &mut Vec<(String, Vec<u8>)>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let n = format!("{}{}", pre, e.file_name().to_string_lossy());
                if e.path().is_dir() {
                    go(&e.path(), &format!("{}/", n), out);
                } else {
                    out.push((n, std::fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
    }
    let mut v = vec![];
    go(dir, "", &mut v);
    v.sort();
    v
}

/// Every observable of a tree: all rows, or (with `cached`) the base row and the rows above the
/// discarded ones, and every proof.
pub fn same_tree<E, A, S, U>(ctx: &mut Ctx, t: &MerkleTree<E, A, S, U>, r: &RefTree<E>, cached: Option<usize>, what: &str) -> R
where
    E: Element,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
{
    check!(t.root() == r.root(), "root", "{}: another root", what);
    check!(t.leafs() == r.leafs() && t.len() == r.len() && t.row_count() == r.row_count(), "dims", "{}: dimensions {} {} {}", what, t.leafs(), t.len(), t.row_count());
    check!(!t.is_empty(), "is_empty", "{}: empty", what);
    let nodes = r.nodes();
    let cs = match cached {
        None => r.leafs(),
        Some(d) => nodes.len() - r.cached_nodes(d),
    };
    for i in (0..r.leafs()).chain(cs..nodes.len()) {
        let v = call(|| t.read_at(i)).must("read_at")?;
        check!(v == nodes[i], "node", "{}: node {} differs", what, i);
    }
    for i in r.leafs()..cs {
        call(|| t.read_at(i)).must_refuse("read of a discarded node")?;
    }
    let v = call(|| t.read_range(0, r.leafs())).must("read_range")?;
    check!(v[..] == nodes[..r.leafs()], "leafs", "{}: leafs differ", what);
    let v = call(|| t.read_range(cs, nodes.len())).must("read_range")?;
    check!(v[..] == nodes[cs..], "rows", "{}: rows differ", what);
    bulk_reads(t, &nodes, 0, r.leafs(), what)?;
    bulk_reads(t, &nodes, cs, nodes.len(), what)?;
    for i in 0..r.leafs() {
        let p = match cached {
            None => call(|| t.gen_proof(i)).must("gen_proof")?,
            Some(d) => call(|| t.gen_cached_proof(i, Some(d))).must("gen_cached_proof")?,
        };
        let (l, path) = r.proof(i);
        check!(*p.lemma() == l && *p.path() == path, "proof", "{}: proof of leaf {} differs", what, i);
        check!(call(|| p.validate::<A>()).must("validate")?, "validate", "{}: proof of leaf {} is invalid", what, i);
    }
    ctx.op(nodes.len() + 2 * r.leafs() + 5);
    Ok(())
}
