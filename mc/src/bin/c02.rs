//! C02: every constructor on every store yields the same tree.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::prelude::*;
use typenum::Unsigned;

/// Further sources of leafs for the iterator based constructors.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Src {
    Direct(Ctor),
    /// iterator whose size hint has no useful lower bound
    Filtered(bool),
    /// two chained iterators
    Chained(bool),
    /// parallel iterator over a range
    ParRange(bool),
    /// parallel iterator over another store
    ParVecStore(bool),
    ParDiskStore(bool),
    /// slices of the leafs taken from an unaligned buffer
    Unaligned(bool),
}

impl Src {
    fn row<E: Element>(self, its: &[E]) -> Vec<E> {
        match self {
            Src::Direct(c) => c.leaf_row(its),
            Src::Unaligned(_) => its.to_vec(),
            _ => Ctor::New.leaf_row(its),
        }
    }
    fn named(self) -> bool {
        match self {
            Src::Direct(c) => c.named(),
            Src::Filtered(b) | Src::Chained(b) | Src::ParRange(b) | Src::ParVecStore(b) | Src::ParDiskStore(b) | Src::Unaligned(b) => b,
        }
    }
}

fn srcs(only_named: bool) -> Vec<Src> {
    let mut v: Vec<Src> = CTORS.iter().map(|c| Src::Direct(*c)).collect();
    for b in [false, true] {
        v.extend([Src::Filtered(b), Src::Chained(b), Src::ParRange(b), Src::ParVecStore(b), Src::ParDiskStore(b), Src::Unaligned(b)]);
    }
    if only_named {
        v.retain(|s| s.named());
    }
    v
}

fn make<E, A, S, U>(src: Src, its: &[E], r: &RefTree<E>, cfg: &StoreConfig) -> anyhow::Result<MerkleTree<E, A, S, U>>
where
    E: Element + 'static,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
{
    let cfg = cfg.clone();
    let n = its.len();
    match src {
        Src::Direct(c) => construct(c, its, r, &cfg),
        Src::Filtered(b) => {
            let it = its.iter().cloned().filter(|_| true).map(Ok);
            if b {
                MerkleTree::try_from_iter_with_config(it, cfg)
            } else {
                MerkleTree::try_from_iter(it)
            }
        }
        Src::Chained(b) => {
            let it = its[..n / 2 - 1].iter().cloned().chain(its[n / 2 - 1..].iter().cloned());
            if b {
                MerkleTree::new_with_config(it, cfg)
            } else {
                MerkleTree::new(it)
            }
        }
        Src::ParRange(b) => {
            let it = (0..n).into_par_iter().map(|i| its[i].clone());
            if b {
                MerkleTree::from_par_iter_with_config(it, cfg)
            } else {
                MerkleTree::from_par_iter(it)
            }
        }
        Src::ParVecStore(b) => {
            let s = VecStore::<E>::new_from_slice(n, &to_bytes(its))?;
            if b {
                MerkleTree::from_par_iter_with_config(s, cfg)
            } else {
                MerkleTree::from_par_iter(s)
            }
        }
        Src::ParDiskStore(b) => {
            let s = DiskStore::<E>::new_from_slice(n, &to_bytes(its))?;
            if b {
                MerkleTree::from_par_iter_with_config(s, cfg)
            } else {
                MerkleTree::from_par_iter(s)
            }
        }
        Src::Unaligned(b) => {
            let mut v = vec![0xEEu8; 3];
            v.extend_from_slice(&to_bytes(its));
            if b {
                MerkleTree::from_byte_slice_with_config(&v[3..], cfg)
            } else {
                MerkleTree::from_byte_slice(&v[3..])
            }
        }
    }
}

fn leaf_sample(n: usize) -> Vec<usize> {
    if n <= 128 {
        return (0..n).collect();
    }
    let mut v = vec![];
    let mut p = 1;
    while p < n {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([n - 1, n / 2 + n / 4, n / 2 + n / 4 - 1]);
    v.sort_unstable();
    v.dedup();
    v.retain(|x| *x < n);
    v
}

fn full<E, A, S, U>(ctx: &mut Ctx, n: usize, pats: &[Pat]) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
{
    let src = ctx.pick("source", &srcs(false));
    let pat = ctx.pick("pat", pats);
    let its: Vec<E> = items(pat, 3, n);
    let r = RefTree::new(src.row(&its), U::to_usize(), A::HEIGHT);
    let cfg = StoreConfig::new(&ctx.dir, "c02", 0);
    let t = call(|| make::<E, A, S, U>(src, &its, &r, &cfg)).must("construct")?;
    ctx.op(1);
    observe_full(ctx, &t, &r, &format!("{:?}", src))?;
    for i in leaf_sample(n) {
        let p = call(|| t.gen_proof(i)).must("gen_proof")?;
        let (l, path) = r.proof(i);
        check!(*p.lemma() == l && *p.path() == path, "proof", "{:?}: proof of leaf {} differs", src, i);
        check!(call(|| p.validate::<A>()).must("validate")?, "validate", "proof of leaf {} is invalid", i);
        ctx.op(2);
    }
    ctx.note(|| format!("{:?} -> root {:?}", src, t.root()));
    Ok(())
}

fn lc<E, A, U>(ctx: &mut Ctx, n: usize, pats: &[Pat]) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
{
    let src = ctx.pick("source", &srcs(true));
    let pat = ctx.pick("pat", pats);
    let its: Vec<E> = items(pat, 3, n);
    let r = RefTree::new(src.row(&its), U::to_usize(), A::HEIGHT);
    let maxd = r.row_count() - 2;
    let rd = if n <= 4096 { ctx.choose("rows_to_discard", maxd + 1) } else { ctx.pick("rows_to_discard", &[StoreConfig::default_rows_to_discard(n, U::to_usize())]) };
    let cfg = StoreConfig::new(&ctx.dir, "c02lc", rd);
    let leafs = ctx.dir.join("leafs");
    write_file(&leafs, &to_bytes(&r.rows[0]));
    let mut t = call(|| make::<E, A, Lc<E>, U>(src, &its, &r, &cfg)).must("construct")?;
    check!(t.root() == r.root(), "root", "{:?} rd={}: root {:?} != {:?}", src, rd, t.root(), r.root());
    // a complete tree keeps its base row, so that the external reader is optional
    let complete = matches!(src, Src::Direct(Ctor::TreeSliceCfg) | Src::Direct(Ctor::DataStoreCfg));
    if !complete || ctx.choose("external reader", 2) == 1 {
        call(|| t.set_external_reader_path(&leafs)).must("reader")?;
    }
    check!(t.len() == r.len() && t.leafs() == n && t.row_count() == r.row_count(), "dims", "dimensions");
    let nodes = r.nodes();
    let cs = nodes.len() - r.cached_nodes(rd);
    let f = std::fs::read(StoreConfig::data_path(&cfg.path, &cfg.id)).unwrap_or_default();
    let mut keep = if complete { r.rows[0].clone() } else { vec![] };
    keep.extend_from_slice(&nodes[cs..]);
    check!(f == to_bytes(&keep), "file", "{:?} rd={}: cached rows differ", src, rd);
    ctx.op(4);
    ctx.state(h64(5, &f));
    if n <= 4096 {
        for i in (0..n).chain(cs..nodes.len()) {
            let v = call(|| t.read_at(i)).must("read_at")?;
            check!(v == nodes[i], "node", "{:?} rd={}: node {} differs", src, rd, i);
        }
        ctx.op(n + nodes.len() - cs);
    }
    for i in leaf_sample(n) {
        let p = call(|| t.gen_cached_proof(i, Some(rd))).must("gen_cached_proof")?;
        let (l, path) = r.proof(i);
        check!(*p.lemma() == l && *p.path() == path, "proof", "{:?}: proof of leaf {} differs", src, i);
        ctx.op(1);
    }
    Ok(())
}

fn stores<E, A, U>(s: &mut Spec, tag: &str, n: usize, pats: &'static [Pat])
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned + 'static,
{
    let b = format!("{}/arity{}/n{}", tag, U::to_usize(), n);
    s.add(format!("{}/vec", b), move |c| full::<E, A, VecStore<E>, U>(c, n, pats));
    s.add(format!("{}/disk", b), move |c| full::<E, A, DiskStore<E>, U>(c, n, pats));
    s.add(format!("{}/mmap", b), move |c| full::<E, A, MmapStore<E>, U>(c, n, pats));
    s.add(format!("{}/levelcache", b), move |c| lc::<E, A, U>(c, n, pats));
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    const DIST: &[Pat] = &[Pat::Distinct];
    let mut s = Spec::new("C02");
    let top = if q { 1 << 18 } else { 1 << 20 };
    // several population blocks
    stores::<El<32>, Plain, typenum::U2>(&mut s, "e32", 1 << 19, DIST);
    if !q {
        stores::<El<32>, Plain, typenum::U2>(&mut s, "e32", 1 << 20, DIST);
        stores::<El<32>, Plain, typenum::U4>(&mut s, "e32", 1 << 20, DIST);
        stores::<El<32>, Plain, typenum::U8>(&mut s, "e32", 1 << 21, DIST);
        stores::<El<20>, Plain, typenum::U16>(&mut s, "e20", 1 << 20, DIST);
    } else {
        stores::<El<20>, Plain, typenum::U4>(&mut s, "e20", 1 << 20, DIST);
    }
    let _ = top;
    for a in [2usize, 4, 8, 16] {
        for n in sizes(a, if q { 1 << 14 } else { 1 << 18 }).into_iter().rev() {
            let pats: &'static [Pat] = if n <= 1 << 12 { &PATS } else { DIST };
            with_small_arity!(a, U, { stores::<El<32>, Plain, U>(&mut s, "e32", n, pats) });
        }
    }
    for n in sizes(2, if q { 1 << 13 } else { 1 << 17 }).into_iter().rev() {
        stores::<El<20>, Plain, typenum::U2>(&mut s, "e20", n, DIST);
    }
    s.bound("26 sources (14 constructors, unusual iterators, parallel iterators over ranges and stores, unaligned bytes) x VecStore, DiskStore, MmapStore, LevelCacheStore");
    s.bound(if q {
        "arities 2,4,8,16; every valid leaf count up to 2^14; binary 2^19 and quad 2^20 leafs (2 and 4 population blocks); element sizes 32 and 20"
    } else {
        "arities 2,4,8,16; every valid leaf count up to 2^18; 2^19, 2^20 and 2^21 leafs (2, 4 and 8 population blocks); element sizes 32 and 20"
    });
    s.bound("proofs: every leaf up to 128 leafs, else all leafs next to powers of two");
    s
}

fn main() {
    mc::engine::main(build)
}
