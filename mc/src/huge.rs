//! Trees and stores far larger than the memory: sparse files of hundreds of gigabytes.
//!
//! The algorithm maps all-zero children to a zero node, so that a tree with few non-zero leafs
//! has few non-zero nodes and its file is mostly a hole.
use crate::engine::*;
use crate::model::*;
use crate::{check, util::Lc};
use merkletree::hash::Algorithm;
use merkletree::merkle::{Element, MerkleTree};
use merkletree::store::*;
use std::collections::BTreeMap;
use std::fs::OpenOptions;
use std::hash::Hasher;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use typenum::Unsigned;

/// Height dependent test algorithm with zero nodes for zero children.
#[derive(Clone, Default, Debug)]
pub struct Zero {
    buf: Vec<u8>,
}
impl Hasher for Zero {
    fn finish(&self) -> u64 {
        unreachable!("finish is not used")
    }
    fn write(&mut self, bytes: &[u8]) {
        self.buf.extend_from_slice(bytes)
    }
}
fn zero_node<E: Element>(c: &[E], height: usize) -> E {
    if c.iter().all(|x| *x == E::default()) {
        E::default()
    } else {
        ref_node(c, Some(height))
    }
}
impl<E: Element> Algorithm<E> for Zero {
    fn hash(&mut self) -> E {
        ref_digest(&self.buf)
    }
    fn reset(&mut self) {
        self.buf.clear();
    }
    fn node(&mut self, left: E, right: E, height: usize) -> E {
        zero_node(&[left, right], height)
    }
    fn multi_node(&mut self, nodes: &[E], height: usize) -> E {
        zero_node(nodes, height)
    }
}

/// A tree of which only the non-zero nodes are kept.
pub struct Sparse<E> {
    pub arity: usize,
    pub widths: Vec<usize>,
    pub rows: Vec<BTreeMap<usize, E>>,
}
impl<E: Element> Sparse<E> {
    /// Leafs at both ends and around every power of two, of elements and of bytes.
    pub fn new(arity: usize, levels: u32) -> Self {
        let n = arity.pow(levels);
        let el = E::byte_len();
        let mut at: Vec<usize> = vec![0, 1, n - 1, n - 2, n / 2, n / arity, n - n / arity - 1];
        for s in [12u32, 15, 16, 20, 24, 30, 31, 32, 33, 34] {
            for x in [(1usize << s) / el, 1usize << s] {
                at.extend([x.wrapping_sub(1), x, x + 1]);
            }
        }
        at.retain(|x| *x < n);
        at.sort_unstable();
        at.dedup();
        let vals = items::<E>(Pat::Distinct, 77, at.len());
        let mut rows = vec![at.into_iter().zip(vals).collect::<BTreeMap<_, _>>()];
        let mut widths = vec![n];
        while *widths.last().unwrap() > 1 {
            let h = rows.len() - 1;
            let prev = &rows[h];
            let mut next = BTreeMap::new();
            for j in prev.keys() {
                let g = j / arity;
                if !next.contains_key(&g) {
                    let c: Vec<E> = (g * arity..(g + 1) * arity).map(|k| prev.get(&k).cloned().unwrap_or_default()).collect();
                    next.insert(g, zero_node(&c, h));
                }
            }
            widths.push(widths[h] / arity);
            rows.push(next);
        }
        Sparse { arity, widths, rows }
    }
    pub fn leafs(&self) -> usize {
        self.widths[0]
    }
    pub fn len(&self) -> usize {
        self.widths.iter().sum()
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn root(&self) -> E {
        self.get(self.rows.len() - 1, 0)
    }
    pub fn get(&self, row: usize, j: usize) -> E {
        self.rows[row].get(&j).cloned().unwrap_or_default()
    }
    /// index of the first node of a row
    pub fn offset(&self, row: usize) -> usize {
        self.widths[..row].iter().sum()
    }
    pub fn node(&self, mut i: usize) -> E {
        for (r, w) in self.widths.iter().enumerate() {
            if i < *w {
                return self.get(r, i);
            }
            i -= w;
        }
        panic!("no such node")
    }
    pub fn proof(&self, i: usize) -> (Vec<E>, Vec<usize>) {
        let mut lemma = vec![self.get(0, i)];
        let mut path = vec![];
        let mut j = i;
        for r in 0..self.rows.len() - 1 {
            let g = j / self.arity * self.arity;
            for k in g..g + self.arity {
                if k != j {
                    lemma.push(self.get(r, k));
                }
            }
            path.push(j - g);
            j /= self.arity;
        }
        lemma.push(self.root());
        (lemma, path)
    }
    /// The leafs whose proofs are generated.
    pub fn probes(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.rows[0].keys().copied().collect();
        v.push(self.leafs() / 3);
        v
    }
    /// The nodes (of the rows given) around which the tree is read.
    pub fn places(&self, from: usize) -> Vec<usize> {
        let mut v = vec![];
        for r in from..self.rows.len() {
            let o = self.offset(r);
            v.extend(self.rows[r].keys().map(|k| o + k));
        }
        v
    }
    fn put(&self, f: &std::fs::File, at: u64, from: usize, to: usize) {
        let el = E::byte_len() as u64;
        let base = self.offset(from) as u64;
        for r in from..to {
            let o = self.offset(r) as u64 - base;
            for (k, v) in &self.rows[r] {
                f.write_all_at(v.as_ref(), at + (o + *k as u64) * el).expect("sparse file");
            }
        }
    }
    /// The complete tree.
    pub fn write_full(&self, p: &Path) {
        let f = OpenOptions::new().create(true).truncate(true).read(true).write(true).open(p).expect("sparse file");
        f.set_len((self.len() * E::byte_len()) as u64).expect("sparse file");
        self.put(&f, 0, 0, self.rows.len());
    }
    /// A compacted tree.
    pub fn write_cached(&self, p: &Path, base: bool, discard: usize) {
        let f = OpenOptions::new().create(true).truncate(true).read(true).write(true).open(p).expect("sparse file");
        let el = E::byte_len();
        let b = if base { self.leafs() * el } else { 0 };
        let c = self.len() - self.offset(1 + discard);
        f.set_len((b + c * el) as u64).expect("sparse file");
        if base {
            self.put(&f, 0, 0, 1);
        }
        self.put(&f, b as u64, 1 + discard, self.rows.len());
    }
    /// A larger file with the base data at an offset.
    pub fn write_replica(&self, p: &Path, offset: usize) {
        let f = OpenOptions::new().create(true).truncate(true).read(true).write(true).open(p).expect("sparse file");
        f.set_len((offset + self.leafs() * E::byte_len() + 4096) as u64).expect("sparse file");
        if offset > 0 {
            f.write_all_at(&[0x77], offset as u64 - 1).expect("sparse file");
        }
        self.put(&f, offset as u64, 0, 1);
    }
}

/// Every kind of read around every non-zero node from row `from` on (and of the base row).
pub fn huge_reads<E: Element, S: Store<E>>(ctx: &mut Ctx, s: &S, t: &Sparse<E>, from: usize, range_into: bool, what: &str) -> R {
    let el = E::byte_len();
    let n = t.len();
    check!(s.len() == n, "huge length", "{}: length {} instead of {}", what, s.len(), n);
    let (b, c) = (t.leafs(), t.offset(from));
    let ok = |i: usize| i < n && (i < b || i >= c);
    let mut places = t.places(from);
    if from > 0 {
        places.extend(t.rows[0].keys());
    }
    for p in places {
        for i in [p.wrapping_sub(1), p, p + 1] {
            if !ok(i) {
                continue;
            }
            let want = t.node(i);
            let got = call(|| s.read_at(i)).must("huge read_at")?;
            check!(got == want, "huge read_at", "{}: node {} is {:?} instead of {:?}", what, i, got, want);
            let mut buf = vec![0x5au8; el];
            call(|| s.read_into(i, &mut buf)).must("huge read_into")?;
            check!(buf == want.as_ref(), "huge read_into", "{}: node {}", what, i);
            for k in [1usize, 2, 3] {
                let e = i + k;
                if e > n || (i < b && e > b && c > b) {
                    continue;
                }
                let want: Vec<E> = (i..e).map(|x| t.node(x)).collect();
                // a range across the end of the base data is served only by a complete file
                if i < b && e > b && from > 0 {
                    continue;
                }
                let got = call(|| s.read_range(i..e)).must("huge read_range")?;
                check!(got == want, "huge read_range", "{}: nodes {}..{}", what, i, e);
                if range_into {
                    let mut buf = vec![0x5au8; el * k];
                    call(|| s.read_range_into(i, e, &mut buf)).must("huge read_range_into")?;
                    check!(buf == to_bytes(&want), "huge read_range_into", "{}: nodes {}..{}", what, i, e);
                }
            }
            ctx.op(4);
        }
    }
    ctx.state(h64(b as u64 ^ c as u64, t.root().as_ref()));
    Ok(())
}

fn is_proof<E: Element, U: Unsigned>(p: &merkletree::proof::Proof<E, U>, t: &Sparse<E>, i: usize, what: &str) -> R {
    let (l, path) = t.proof(i);
    check!(*p.lemma() == l, "huge lemma", "{}: lemma of leaf {}", what, i);
    check!(*p.path() == path, "huge path", "{}: path of leaf {}", what, i);
    check!(call(|| p.validate::<Zero>()).must("huge validate")?, "huge validate", "{}: proof of leaf {} does not validate", what, i);
    Ok(())
}

fn full_tree<E: Element, S: Store<E>, U: Unsigned>(ctx: &mut Ctx, s: S, t: &Sparse<E>, what: &str) -> Result<MerkleTree<E, Zero, S, U>, Fail> {
    let tree = call(|| MerkleTree::<E, Zero, S, U>::from_data_store(s, t.leafs())).must("huge from_data_store")?;
    check!(tree.root() == t.root(), "huge root", "{}", what);
    check!(tree.len() == t.len() && tree.leafs() == t.leafs() && tree.row_count() == t.rows.len(), "huge sizes", "{}", what);
    for i in t.probes() {
        check!(call(|| tree.read_at(i)).must("huge leaf")? == t.get(0, i), "huge leaf", "{}: leaf {}", what, i);
        let p = call(|| tree.gen_proof(i)).must("huge gen_proof")?;
        is_proof(&p, t, i, what)?;
        ctx.op(2);
    }
    Ok(tree)
}

/// The stored complete tree, opened as a plain or mapped store.
pub fn huge_full<E: Element, U: Unsigned>(ctx: &mut Ctx, levels: u32) -> R {
    let t = Sparse::<E>::new(U::to_usize(), levels);
    let cfg = StoreConfig::new(&ctx.dir, "huge", 1);
    let p = StoreConfig::data_path(&cfg.path, &cfg.id);
    t.write_full(&p);
    if ctx.choose("mapped", 2) == 0 {
        let s = call(|| DiskStore::<E>::new_from_disk(t.len(), U::to_usize(), &cfg)).must("huge open")?;
        huge_reads(ctx, &s, &t, 0, true, "disk")?;
        full_tree::<E, _, U>(ctx, s, &t, "disk")?;
        call(|| DiskStore::<E>::new_from_disk(t.len() - 1, U::to_usize(), &cfg)).must_err("huge open with another size")?;
        call(|| DiskStore::<E>::new_from_disk(t.len() + 1, U::to_usize(), &cfg)).must_err("huge open with another size")?;
    } else {
        let s = call(|| MmapStore::<E>::new_from_disk(t.len(), U::to_usize(), &cfg)).must("huge open")?;
        huge_reads(ctx, &s, &t, 0, false, "mapped")?;
        full_tree::<E, _, U>(ctx, s, &t, "mapped")?;
    }
    let m = std::fs::metadata(&p).expect("file");
    check!(m.len() == (t.len() * E::byte_len()) as u64, "huge file", "the file has {} bytes", m.len());
    Ok(())
}

/// The compacted tree as a level cache store, with a reader or not.
pub fn huge_cached<E: Element, U: Unsigned>(ctx: &mut Ctx, levels: u32, discards: &[usize]) -> R {
    let t = Sparse::<E>::new(U::to_usize(), levels);
    let b = U::to_usize();
    let rows = ctx.pick("rows", discards);
    let cfg = StoreConfig::new(&ctx.dir, "huge", rows);
    let p = StoreConfig::data_path(&cfg.path, &cfg.id);
    let kind = ctx.pick("kind", &[0usize, 1, 2]);
    let rep: PathBuf = ctx.dir.join("replica");
    let s = if kind == 0 {
        t.write_cached(&p, true, rows);
        check!(call(|| Lc::<E>::is_consistent_v1(t.len(), b, &cfg)).must("huge is_consistent_v1")?, "huge consistent", "v1");
        call(|| Lc::<E>::new_from_disk(t.len(), b, &cfg)).must("huge open v1")?
    } else {
        let off = if kind == 1 { 0 } else { (5 << 30) + 7 };
        t.write_cached(&p, false, rows);
        t.write_replica(&rep, off);
        check!(call(|| Lc::<E>::is_consistent(t.len(), b, &cfg)).must("huge is_consistent")?, "huge consistent", "v2");
        let rd = call(|| ExternalReader::new_from_config(&ReplicaConfig::new(&rep, vec![0, off]), 1)).must("huge reader")?;
        call(|| Lc::<E>::new_from_disk_with_reader(t.len(), b, &cfg, rd)).must("huge open v2")?
    };
    huge_reads(ctx, &s, &t, 1 + rows, true, "level cache")?;
    let tree = call(|| MerkleTree::<E, Zero, Lc<E>, U>::from_data_store(s, t.leafs())).must("huge from_data_store")?;
    check!(tree.root() == t.root(), "huge root", "level cache");
    for i in t.probes() {
        let q = call(|| tree.gen_cached_proof(i, Some(rows))).must("huge gen_cached_proof")?;
        is_proof(&q, &t, i, "level cache")?;
        ctx.op(1);
        ctx.beat();
    }
    Ok(())
}

/// Compaction of the complete tree.
pub fn huge_compact<E: Element, U: Unsigned>(ctx: &mut Ctx, levels: u32, rows: usize) -> R {
    let t = Sparse::<E>::new(U::to_usize(), levels);
    let b = U::to_usize();
    let cfg = StoreConfig::new(&ctx.dir, "huge", rows);
    let p = StoreConfig::data_path(&cfg.path, &cfg.id);
    t.write_full(&p);
    let v = ctx.pick("version", &[StoreConfigDataVersion::One, StoreConfigDataVersion::Two]);
    let s = call(|| DiskStore::<E>::new_from_disk(t.len(), b, &cfg)).must("huge open")?;
    let mut tree = call(|| MerkleTree::<E, Zero, DiskStore<E>, U>::from_data_store(s, t.leafs())).must("huge from_data_store")?;
    check!(call(|| tree.compact(cfg.clone(), v as u32)).must("huge compact")?, "huge compact", "not compacted");
    drop(tree);
    let one = v as u32 == 1;
    let cached = t.len() - t.offset(1 + rows);
    let size = (cached + if one { t.leafs() } else { 0 }) * E::byte_len();
    let m = std::fs::metadata(&p).expect("file").len();
    check!(m == size as u64, "huge compacted size", "{} instead of {} bytes", m, size);
    let s = if one {
        call(|| Lc::<E>::new_from_disk(t.len(), b, &cfg)).must("huge open v1")?
    } else {
        let rep = ctx.dir.join("replica");
        t.write_replica(&rep, 0);
        let rd = call(|| ExternalReader::new_from_path(&rep)).must("huge reader")?;
        call(|| Lc::<E>::new_from_disk_with_reader(t.len(), b, &cfg, rd)).must("huge open v2")?
    };
    huge_reads(ctx, &s, &t, 1 + rows, true, "compacted")
}

/// Writes and reads of an empty store at far places; the model is an array of zeros.
pub fn huge_writes<E: Element + 'static, S: Store<E>>(ctx: &mut Ctx, levels: u32, range_into: bool, readable: impl Fn(usize) -> bool) -> R {
    let n = (1usize << (levels + 1)) - 1;
    let el = E::byte_len();
    let cfg = StoreConfig::new(&ctx.dir, "huge", 0);
    let mut s: S = call(|| S::new_with_config(n, 2, cfg)).must("huge create")?;
    let mut at: Vec<usize> = vec![0, n - 4];
    for b in [15u32, 16, 24, 31, 32, 33, 34] {
        for x in [(1usize << b) / el, 1usize << b] {
            at.push(x.wrapping_sub(1));
        }
    }
    at.retain(|x| x + 4 <= n);
    at.sort_unstable();
    at.dedup();
    let mut model: BTreeMap<usize, E> = BTreeMap::new();
    let mut len = 0;
    let get = |m: &BTreeMap<usize, E>, i: usize| m.get(&i).cloned().unwrap_or_default();
    let ways = ctx.choose("way", 3);
    let down = ctx.choose("down", 2) == 1;
    if down {
        at.reverse();
    }
    let vals = items::<E>(Pat::Distinct, 5, at.len() * 3);
    for (k, i) in at.iter().copied().enumerate() {
        let v = &vals[3 * k..3 * k + 3];
        let new = match ways {
            0 => {
                call(|| s.write_at(v[0].clone(), i)).must("huge write_at")?;
                1
            }
            1 => {
                call(|| s.copy_from_slice(&to_bytes(v), i)).must("huge copy_from_slice")?;
                3
            }
            _ => {
                call(|| s.write_at(v[0].clone(), i)).must("huge write_at")?;
                if i + 1 >= len {
                    call(|| s.push(v[1].clone())).must("huge push")?;
                    2
                } else {
                    1
                }
            }
        };
        for (x, e) in v.iter().take(new).enumerate() {
            model.insert(i + x, e.clone());
        }
        len = len.max(i + new);
        check!(s.len() == len, "huge len", "after a write at {}: {} instead of {}", i, s.len(), len);
        ctx.op(1);
    }
    call(|| s.sync()).must("huge sync")?;
    for p in at {
        for i in p.saturating_sub(2)..p + 5 {
            if i >= len || !readable(i) {
                continue;
            }
            let got = call(|| s.read_at(i)).must("huge read_at")?;
            check!(got == get(&model, i), "huge read_at", "element {} is {:?} instead of {:?}", i, got, get(&model, i));
            let mut buf = vec![0x5au8; el];
            call(|| s.read_into(i, &mut buf)).must("huge read_into")?;
            check!(buf == get(&model, i).as_ref(), "huge read_into", "element {}", i);
            if i + 2 <= len && readable(i + 1) {
                let want = vec![get(&model, i), get(&model, i + 1)];
                check!(call(|| s.read_range(i..i + 2)).must("huge read_range")? == want, "huge read_range", "from {}", i);
                if range_into {
                    let mut buf = vec![0x5au8; el * 2];
                    call(|| s.read_range_into(i, i + 2, &mut buf)).must("huge read_range_into")?;
                    check!(buf == to_bytes(&want), "huge read_range_into", "from {}", i);
                }
            }
            ctx.op(3);
        }
    }
    ctx.state(h64(len as u64, &[ways as u8, down as u8]));
    Ok(())
}
