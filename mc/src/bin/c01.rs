//! C01: every node of a built tree is the hash of its children, laid out row by row.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use typenum::Unsigned;

fn one<E, A, S, U>(ctx: &mut Ctx, n: usize, ctor: Ctor, pat: Pat) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
{
    let its: Vec<E> = items(pat, 11, n);
    let r = RefTree::new(ctor.leaf_row(&its), U::to_usize(), A::HEIGHT);
    let cfg = StoreConfig::new(&ctx.dir, "c01", 0);
    let t = call(|| construct::<E, A, S, U>(ctor, &its, &r, &cfg)).must("construct")?;
    ctx.op(1);
    observe_full(ctx, &t, &r, &format!("{:?} {:?} n={} arity={}", ctor, pat, n, U::to_usize()))?;
    // leafs are where they were put, in order
    let last = call(|| t.read_at(r.len() - 1)).must("read root")?;
    check!(last == t.root(), "last node", "the last node is not the root");
    ctx.note(|| format!("root {:?} over {} leafs, {} nodes", t.root(), n, t.len()));
    Ok(())
}

/// LevelCacheStore built directly: the rows it keeps.
fn lc<E, A, U>(ctx: &mut Ctx, n: usize, ctor: Ctor, pat: Pat) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
{
    let its: Vec<E> = items(pat, 11, n);
    let r = RefTree::new(ctor.leaf_row(&its), U::to_usize(), A::HEIGHT);
    if r.row_count() < 3 {
        return Ok(());
    }
    let rd = ctx.choose("rows_to_discard", r.row_count() - 1);
    if rd > r.row_count() - 2 {
        return Ok(());
    }
    let cfg = StoreConfig::new(&ctx.dir, "c01lc", rd);
    let leafs = ctx.dir.join("leafs");
    write_file(&leafs, &to_bytes(&r.rows[0]));
    let mut t = call(|| construct::<E, A, Lc<E>, U>(ctor, &its, &r, &cfg)).must("construct")?;
    ctx.op(1);
    check!(t.root() == r.root(), "root", "lc {:?} n={} rd={}: root", ctor, n, rd);
    call(|| t.set_external_reader_path(&leafs)).must("set_external_reader_path")?;
    check!(t.len() == r.len() && t.leafs() == n && t.row_count() == r.row_count(), "dims", "dimensions");
    let nodes = r.nodes();
    let cs = nodes.len() - r.cached_nodes(rd);
    for i in (0..n).chain(cs..nodes.len()) {
        let v = call(|| t.read_at(i)).must("read_at")?;
        check!(v == nodes[i], "node", "lc {:?} n={} arity={} rd={}: node {} is {:?} expected {:?}", ctor, n, U::to_usize(), rd, i, v, nodes[i]);
    }
    ctx.op(n + nodes.len() - cs);
    let what = format!("lc {:?} n={} arity={} rd={}", ctor, n, U::to_usize(), rd);
    bulk_reads(&t, &nodes, 0, n, &what)?;
    bulk_reads(&t, &nodes, cs, nodes.len(), &what)?;
    let file = std::fs::read(StoreConfig::data_path(&cfg.path, &cfg.id)).unwrap_or_default();
    check!(file == to_bytes(&nodes[cs..]), "file", "lc file differs from the cached rows");
    ctx.state(h64(rd as u64, &file));
    Ok(())
}

fn stores<E, A, U>(spec: &mut Spec, tag: &str, n: usize, pats: &'static [Pat], ctors: &'static [Ctor])
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned + 'static,
{
    let a = U::to_usize();
    let base = format!("{}/{}/arity{}/n{}", tag, A::NAME, a, n);
    spec.add(format!("{}/vec", base), move |c| {
        let p = c.pick("pat", pats);
        let k = c.pick("ctor", ctors);
        one::<E, A, VecStore<E>, U>(c, n, k, p)
    });
    spec.add(format!("{}/disk", base), move |c| {
        let p = c.pick("pat", pats);
        let k = c.pick("ctor", ctors);
        one::<E, A, DiskStore<E>, U>(c, n, k, p)
    });
    spec.add(format!("{}/mmap", base), move |c| {
        let p = c.pick("pat", pats);
        let k = c.pick("ctor", ctors);
        one::<E, A, MmapStore<E>, U>(c, n, k, p)
    });
    spec.add(format!("{}/levelcache", base), move |c| {
        let p = c.pick("pat", pats);
        let k = c.pick("ctor", ctors);
        let k = match k {
            Ctor::ByteSlice => Ctor::ByteSliceCfg,
            Ctor::New => Ctor::NewCfg,
            Ctor::Par => Ctor::ParCfg,
            k => k,
        };
        lc::<E, A, U>(c, n, k, p)
    });
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    let mut s = Spec::new("C01");
    const ALL: &[Ctor] = &[Ctor::ByteSlice, Ctor::New, Ctor::Par];
    const BS: &[Ctor] = &[Ctor::ByteSlice];
    const DIST: &[Pat] = &[Pat::Distinct];
    let max_small = if q { 1 << 13 } else { 1 << 14 };
    let max_big = if q { 1 << 18 } else { 1 << 20 };
    for a in [2usize, 4, 8, 16, 32, 64, 128] {
        for n in sizes(a, max_big).into_iter().rev() {
            let pats: &[Pat] = if n <= max_small { &PATS } else { DIST };
            let ctors = if n <= max_small { ALL } else { BS };
            with_arity!(a, U, { stores::<El<32>, Plain, U>(&mut s, "e32", n, pats, ctors) });
        }
    }
    for a in [2usize, 4, 8, 16] {
        for n in sizes(a, if q { 1 << 13 } else { 1 << 16 }).into_iter().rev() {
            with_small_arity!(a, U, { stores::<El<32>, Alg<true>, U>(&mut s, "e32", n, DIST, BS) });
        }
    }
    for a in [2usize, 4, 8] {
        for n in sizes(a, if q { 1 << 13 } else { 1 << 16 }).into_iter().rev() {
            match a {
                2 => esz::<typenum::U2>(&mut s, n),
                4 => esz::<typenum::U4>(&mut s, n),
                _ => esz::<typenum::U8>(&mut s, n),
            }
        }
    }
    s.bound(format!("arities 2,4,8,16,32,64,128; every valid leaf count up to {} (all value patterns and constructors up to {})", max_big, max_small));
    s.bound("element sizes 1,2,8,16,20,32,48,64,96,256 and the built-in [u8;32]; height sensitive and insensitive algorithms");
    s.bound("stores VecStore, DiskStore, MmapStore; LevelCacheStore built directly for every number of discarded rows");
    s.assume("leaf values enter the tree only through the hash function (five value patterns are enumerated)");
    s
}

fn esz<U: Unsigned + 'static>(s: &mut Spec, n: usize) {
    const BS: &[Ctor] = &[Ctor::ByteSlice, Ctor::New];
    const DIST: &[Pat] = &[Pat::Distinct];
    if n <= 1 << 11 {
        stores::<El<1>, Plain, U>(s, "e1", n, DIST, BS);
        stores::<El<2>, Plain, U>(s, "e2", n, DIST, BS);
        stores::<El<64>, Plain, U>(s, "e64", n, DIST, BS);
        stores::<El<96>, Alg<true>, U>(s, "e96", n, DIST, BS);
        stores::<El<256>, Plain, U>(s, "e256", n, DIST, BS);
    }
    stores::<El<8>, Plain, U>(s, "e8", n, DIST, BS);
    stores::<El<16>, Plain, U>(s, "e16", n, DIST, BS);
    stores::<El<20>, Plain, U>(s, "e20", n, DIST, BS);
    stores::<El<48>, Plain, U>(s, "e48", n, DIST, BS);
    stores::<[u8; 32], Plain, U>(s, "builtin32", n, DIST, BS);
}

fn main() {
    mc::engine::main(build)
}
