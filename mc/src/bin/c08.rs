//! C08: compaction keeps exactly the documented rows and loses nothing else.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use typenum::{Unsigned, U2};

type A = Alg<true>;
const VERSIONS: [u32; 2] = [StoreConfigDataVersion::One as u32, StoreConfigDataVersion::Two as u32];

/// What the file of the tree holds.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Layout {
    Full,
    V1(usize),
    V2(usize),
}
use Layout::*;
impl Layout {
    fn compacted(v: u32, r: usize) -> Layout {
        match (v, r) {
            (1, 0) => Full,
            (1, r) => V1(r),
            (_, r) => V2(r),
        }
    }
    fn bytes<E: Element>(self, t: &RefTree<E>) -> Vec<u8> {
        let nodes = t.nodes();
        match self {
            Full => to_bytes(&nodes),
            V1(r) => {
                let mut b = to_bytes(&t.rows[0]);
                b.extend(to_bytes(&nodes[nodes.len() - t.cached_nodes(r)..]));
                b
            }
            V2(r) => to_bytes(&nodes[nodes.len() - t.cached_nodes(r)..]),
        }
    }
}

struct World<E: Element> {
    r: RefTree<E>,
    cfg: StoreConfig,
    replica: std::path::PathBuf,
    offset: usize,
    layout: Layout,
}

impl<E: Element> World<E> {
    fn new<U: Unsigned>(ctx: &Ctx, n: usize) -> Self {
        let r = RefTree::new(items::<E>(Pat::Distinct, 8, n), U::to_usize(), true);
        let cfg = StoreConfig::new(&ctx.dir, "t", 0);
        let replica = ctx.dir.join("replica");
        let offset = 13;
        let mut b = vec![0xEE; offset];
        b.extend(to_bytes(&r.rows[0]));
        b.extend(vec![0xDD; 77]);
        write_file(&replica, &b);
        World { r, cfg, replica, offset, layout: Full }
    }
    fn max_rows(&self) -> usize {
        self.r.row_count() - 2
    }
    fn cfg_rows(&self, rows: usize) -> StoreConfig {
        StoreConfig { rows_to_discard: rows, ..self.cfg.clone() }
    }
    fn path(&self) -> std::path::PathBuf {
        StoreConfig::data_path(&self.cfg.path, &self.cfg.id)
    }
    /// The file has exactly the bytes of the layout and the consistency checks say so.
    fn file_is<U: Unsigned>(&self, ctx: &mut Ctx, what: &str) -> R {
        let have = std::fs::read(self.path()).unwrap_or_default();
        let want = self.layout.bytes(&self.r);
        check!(have == want, "file", "{}: the file holds {} bytes that are not the {:?} rows ({} bytes)", what, have.len(), self.layout, want.len());
        let len = self.r.len();
        let b = U::to_usize();
        let d = call(|| DiskStore::<E>::is_consistent(len, b, &self.cfg)).must("DiskStore::is_consistent")?;
        check!(d == (self.layout == Full), "disk consistent", "{}: DiskStore::is_consistent is {} for {:?}", what, d, self.layout);
        for rows in (0..self.max_rows() + 3).chain([1000]) {
            let c = self.cfg_rows(rows);
            let v2 = call(|| Lc::<E>::is_consistent(len, b, &c));
            let v1 = call(|| Lc::<E>::is_consistent_v1(len, b, &c));
            check!(!v2.is_panic() && !v1.is_panic(), "consistent panic", "{}: a consistency check panicked", what);
            let (v2, v1) = (v2.ok().unwrap_or(false), v1.ok().unwrap_or(false));
            let w2 = self.layout == V2(rows);
            let w1 = rows <= self.max_rows() && self.layout == Layout::compacted(1, rows);
            check!(v2 == w2, "consistent v2", "{}: is_consistent for {} rows is {} on {:?}", what, rows, v2, self.layout);
            check!(v1 == w1, "consistent v1", "{}: is_consistent_v1 for {} rows is {} on {:?}", what, rows, v1, self.layout);
            ctx.op(2);
        }
        ctx.op(1);
        Ok(())
    }
    fn reader(&self) -> ExternalReader<std::fs::File> {
        ExternalReader::new_from_config(&ReplicaConfig::new(self.replica.clone(), vec![self.offset]), 0).expect("replica")
    }
    /// Open the stored tree through every view that fits the layout and compare everything.
    fn views<U: Unsigned>(&self, ctx: &mut Ctx, what: &str) -> R {
        let (len, n, b) = (self.r.len(), self.r.leafs(), U::to_usize());
        match self.layout {
            Full => {
                let s = call(|| DiskStore::<E>::new_from_disk(len, b, &self.cfg)).must("reopen")?;
                let t = call(|| MerkleTree::<E, A, DiskStore<E>, U>::from_data_store(s, n)).must("from_data_store")?;
                same_tree(ctx, &t, &self.r, None, what)?;
            }
            V1(r) => {
                let c = self.cfg_rows(r);
                let s = call(|| Lc::<E>::new_from_disk(len, b, &c)).must("reopen v1")?;
                let t = call(|| MerkleTree::<E, A, Lc<E>, U>::from_data_store(s, n)).must("from_data_store")?;
                same_tree(ctx, &t, &self.r, Some(r), what)?;
                call(|| Lc::<E>::new_from_disk_with_reader(len, b, &c, self.reader())).must_err("v1 file opened as v2")?;
            }
            V2(r) => {
                let c = self.cfg_rows(r);
                let s = call(|| Lc::<E>::new_from_disk_with_reader(len, b, &c, self.reader())).must("reopen v2")?;
                let t = call(|| MerkleTree::<E, A, Lc<E>, U>::from_data_store(s, n)).must("from_data_store")?;
                same_tree(ctx, &t, &self.r, Some(r), what)?;
                let mut s = call(|| Lc::<E>::new_from_disk(len, b, &c)).must("reopen v2 without reader")?;
                call(|| s.set_external_reader(self.reader())).must("set reader")?;
                let t = call(|| MerkleTree::<E, A, Lc<E>, U>::from_data_store(s, n)).must("from_data_store")?;
                same_tree(ctx, &t, &self.r, Some(r), what)?;
            }
        }
        if self.layout != Full {
            call(|| DiskStore::<E>::new_from_disk(len, b, &self.cfg)).must_err("compacted file opened as complete")?;
        }
        ctx.state(h64(U::to_usize() as u64, &self.layout.bytes(&self.r)));
        Ok(())
    }
}

enum Handle<E: Element, U: Unsigned> {
    Disk(MerkleTree<E, A, DiskStore<E>, U>),
    Lc(MerkleTree<E, A, Lc<E>, U>),
    None,
}

/// Histories of compactions, refusals and reopenings of one DiskStore tree.
fn history<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize, depth: usize, full_rows: bool) -> R
where
    A: RefAlg<E>,
{
    let mut w = World::<E>::new::<U>(ctx, n);
    let its = w.r.rows[0].clone();
    let ctor = ctx.pick("ctor", &[Ctor::ByteSliceCfg, Ctor::TreeSliceCfg, Ctor::DataStoreCfg]);
    let t = call(|| construct::<E, A, DiskStore<E>, U>(ctor, &its, &w.r, &w.cfg)).must("create")?;
    let mut h = Handle::Disk(t);
    // whether the handle still describes the complete tree (a store that compacted its own file does not)
    let mut fresh = true;
    w.file_is::<U>(ctx, "created")?;
    let mut rows: Vec<usize> = if full_rows { (0..=w.max_rows() + 2).collect() } else { vec![0, 1, w.max_rows(), w.max_rows() + 1] };
    rows.dedup();
    rows.push(1000);
    for step in 0..depth {
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Compact(u32, usize),
            WrongId,
            Reopen,
            Sync,
        }
        let mut ops = vec![];
        for v in VERSIONS {
            for r in &rows {
                ops.push(Op::Compact(v, *r));
            }
        }
        ops.push(Op::WrongId);
        if step > 0 {
            ops.push(Op::Reopen);
        }
        ops.push(Op::Sync);
        let op = ctx.pick("op", &ops);
        let what = format!("step {} {:?} on {:?}", step, op, w.layout);
        match op {
            Op::Compact(v, rows) => {
                let c = w.cfg_rows(rows);
                let res = match &mut h {
                    Handle::Disk(t) => call(|| t.compact(c, v)),
                    Handle::Lc(t) => call(|| t.compact(c, v)),
                    Handle::None => unreachable!(),
                };
                ctx.op(1);
                let possible = matches!(h, Handle::Disk(_)) && fresh && rows <= w.max_rows();
                check!(!res.is_panic(), "compact:panic", "{}: {:?}", what, res);
                if possible {
                    check!(res.must("compact")?, "compact:false", "{}: Ok(false)", what);
                    w.layout = Layout::compacted(v, rows);
                    fresh = w.layout == Full;
                } else if let Out::Ok(_) = res {
                    // the only acceptable success is that nothing had to be done
                    check!(w.layout == Layout::compacted(v, rows), "compact:accepted", "{}: accepted", what);
                }
            }
            Op::WrongId => {
                let c = StoreConfig { id: "other".into(), ..w.cfg_rows(0) };
                let res = match &mut h {
                    Handle::Disk(t) => call(|| t.compact(c, 2)),
                    Handle::Lc(t) => call(|| t.compact(c, 2)),
                    Handle::None => unreachable!(),
                };
                ctx.op(1);
                res.must_err("compaction of a missing file")?;
                check!(!StoreConfig::data_path(&w.cfg.path, "other").exists(), "stray file", "{}: created a file", what);
            }
            Op::Reopen => {
                h = Handle::None;
                let (len, b) = (w.r.len(), U::to_usize());
                h = match w.layout {
                    Full => {
                        let s = call(|| DiskStore::<E>::new_from_disk(len, b, &w.cfg)).must("reopen")?;
                        Handle::Disk(call(|| MerkleTree::from_data_store(s, n)).must("from_data_store")?)
                    }
                    V1(r) => {
                        let s = call(|| Lc::<E>::new_from_disk(len, b, &w.cfg_rows(r))).must("reopen")?;
                        Handle::Lc(call(|| MerkleTree::from_data_store(s, n)).must("from_data_store")?)
                    }
                    V2(r) => {
                        let s = call(|| Lc::<E>::new_from_disk_with_reader(len, b, &w.cfg_rows(r), w.reader())).must("reopen")?;
                        Handle::Lc(call(|| MerkleTree::from_data_store(s, n)).must("from_data_store")?)
                    }
                };
                fresh = true;
                ctx.op(1);
            }
            Op::Sync => {
                match &h {
                    Handle::Disk(t) => call(|| t.data().unwrap().sync()).must("sync")?,
                    Handle::Lc(t) => call(|| t.data().unwrap().sync()).must("sync")?,
                    Handle::None => {}
                }
                ctx.op(1);
            }
        }
        w.file_is::<U>(ctx, &what)?;
        w.views::<U>(ctx, &what)?;
        match &h {
            Handle::Disk(t) if fresh => same_tree(ctx, t, &w.r, None, &what)?,
            Handle::Lc(t) => same_tree(ctx, t, &w.r, Some(match w.layout { V1(r) | V2(r) => r, Full => 0 }), &what)?,
            Handle::Disk(t) => check!(t.root() == w.r.root(), "root", "{}: root", what),
            Handle::None => {}
        }
        w.file_is::<U>(ctx, &what)?;
    }
    Ok(())
}

/// A single compaction of larger trees, every number of rows.
fn single<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize) -> R
where
    A: RefAlg<E>,
{
    let mut w = World::<E>::new::<U>(ctx, n);
    let its = w.r.rows[0].clone();
    let v = ctx.pick("version", &VERSIONS);
    let rows = ctx.choose("rows", w.max_rows() + 2);
    let mut t = call(|| construct::<E, A, DiskStore<E>, U>(Ctor::ByteSliceCfg, &its, &w.r, &w.cfg)).must("create")?;
    let c = w.cfg_rows(rows);
    let res = call(|| t.compact(c, v));
    ctx.op(1);
    if rows <= w.max_rows() {
        check!(res.must("compact")?, "compact:false", "Ok(false)");
        w.layout = Layout::compacted(v, rows);
    } else {
        res.must_err("compact too many rows")?;
    }
    w.file_is::<U>(ctx, "single")?;
    w.views::<U>(ctx, "single")
}

/// Stores that do not (or only) release memory when compacted.
fn others<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize, depth: usize) -> R
where
    A: RefAlg<E>,
{
    let w = World::<E>::new::<U>(ctx, n);
    let its = w.r.rows[0].clone();
    let kind = ctx.pick("store", &["vec", "mmap", "mmap-anon", "disk-anon", "lc"]);
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        Compact(u32, usize),
        Reinit,
        Sync,
    }
    let mut ops = vec![Op::Reinit, Op::Sync];
    for v in VERSIONS {
        for r in [0, w.max_rows(), w.max_rows() + 1] {
            ops.push(Op::Compact(v, r));
        }
    }
    macro_rules! run {
        ($t:expr, $cached:expr, $judge:expr) => {{
            let mut t = $t;
            let mut mapped = true;
            for step in 0..depth {
                let op = ctx.pick("op", &ops);
                let what = format!("{} step {} {:?}", kind, step, op);
                let before = snapshot(&ctx.dir);
                match op {
                    Op::Compact(v, r) => {
                        let c = StoreConfig { id: if kind == "disk-anon" { "nofile".into() } else { w.cfg.id.clone() }, ..w.cfg_rows(r) };
                        let res = call(|| t.compact(c, v));
                        let judge: fn(Out<bool>, &mut bool) -> R = $judge;
                        judge(res, &mut mapped)?;
                    }
                    Op::Reinit => {
                        call(|| t.reinit()).must("reinit")?;
                        mapped = true;
                    }
                    Op::Sync => call(|| t.data().unwrap().sync()).must("sync")?,
                }
                ctx.op(1);
                check!(snapshot(&ctx.dir) == before, "files changed", "{}: files changed", what);
                if mapped {
                    same_tree(ctx, &t, &w.r, $cached, &what)?;
                } else {
                    for i in 0..w.r.len() {
                        call(|| t.read_at(i)).must_err("read_at of an unmapped store")?;
                    }
                    call(|| t.read_range(0, 1)).must_err("read_range of an unmapped store")?;
                    call(|| t.gen_proof(0)).must_err("proof of an unmapped store")?;
                    check!(t.root() == w.r.root() && t.len() == w.r.len(), "root", "{}: root or length", what);
                }
            }
        }};
    }
    fn none(r: Out<bool>, _m: &mut bool) -> R {
        r.must("compact").map(|_| ())
    }
    fn unmap(r: Out<bool>, m: &mut bool) -> R {
        let v = r.must("compact")?;
        check!(v == *m, "compact result", "compact is {} for a store that is {}mapped", v, if *m { "" } else { "un" });
        *m = false;
        Ok(())
    }
    fn refuse(r: Out<bool>, _m: &mut bool) -> R {
        r.must_err("compact")
    }
    match kind {
        "vec" => run!(call(|| construct::<E, A, VecStore<E>, U>(Ctor::ByteSlice, &its, &w.r, &w.cfg)).must("create")?, None, none),
        "mmap" => run!(call(|| construct::<E, A, MmapStore<E>, U>(Ctor::ByteSliceCfg, &its, &w.r, &w.cfg)).must("create")?, None, unmap),
        "mmap-anon" => run!(call(|| construct::<E, A, MmapStore<E>, U>(Ctor::ByteSlice, &its, &w.r, &w.cfg)).must("create")?, None, unmap),
        "disk-anon" => run!(call(|| construct::<E, A, DiskStore<E>, U>(Ctor::ByteSlice, &its, &w.r, &w.cfg)).must("create")?, None, refuse),
        _ => {
            let rows = ctx.choose("rows", w.max_rows() + 1);
            let c = w.cfg_rows(rows);
            run!(
                {
                    let mut t = call(|| construct::<E, A, Lc<E>, U>(Ctor::ByteSliceCfg, &its, &w.r, &c)).must("create")?;
                    // a level cache store built from leafs keeps the cached rows only
                    call(|| t.set_external_reader_path(&{
                        let p = ctx.dir.join("base");
                        write_file(&p, &to_bytes(&w.r.rows[0]));
                        p
                    }))
                    .must("set reader")?;
                    t
                },
                Some(rows),
                refuse
            )
        }
    }
    Ok(())
}

/// Mapped stores: writes to an unmapped store bring the mapping back.
fn mmap_store(ctx: &mut Ctx, depth: usize) -> R {
    type E = El<32>;
    let vals = items::<E>(Pat::Distinct, 81, 16);
    let named = ctx.choose("named", 2) == 1;
    let cfg = StoreConfig::new(&ctx.dir, "m", 0);
    let mut s = call(|| if named { MmapStore::<E>::new_with_config(4, 2, cfg.clone()) } else { MmapStore::<E>::new(4) }).must("new")?;
    let mut model: Vec<E> = vec![];
    let mut mapped = true;
    for step in 0..depth {
        match ctx.pick("op", &["compact", "reinit", "push", "write", "copy", "sync"]) {
            "compact" => {
                let r = call(|| s.compact(2, cfg.clone(), 2)).must("compact")?;
                check!(r == mapped, "compact result", "compact is {}", r);
                mapped = false;
            }
            "reinit" => {
                call(|| s.reinit()).must("reinit")?;
                mapped = true;
            }
            "push" => {
                let r = call(|| s.push(vals[step]));
                mapped = true;
                if model.len() < 4 {
                    r.must("push")?;
                    model.push(vals[step]);
                } else {
                    r.must_err("push beyond the capacity")?;
                }
            }
            "write" => {
                call(|| s.write_at(vals[step], 1)).must("write_at")?;
                mapped = true;
                if model.len() < 2 {
                    model.resize(2, E::default());
                }
                model[1] = vals[step];
            }
            "copy" => {
                call(|| s.copy_from_slice(&to_bytes(&[vals[step], vals[step + 1]]), 2)).must("copy_from_slice")?;
                mapped = true;
                if model.len() < 4 {
                    model.resize(4, E::default());
                }
                model[2] = vals[step];
                model[3] = vals[step + 1];
            }
            _ => call(|| s.sync()).must("sync")?,
        }
        check!(Store::len(&s) == model.len(), "len", "len {} != {}", Store::len(&s), model.len());
        for (i, m) in model.iter().enumerate() {
            let r = call(|| s.read_at(i));
            if mapped {
                check!(r.must("read_at")? == *m, "value", "element {}", i);
            } else {
                r.must_err("read of an unmapped store")?;
            }
        }
        if mapped && !model.is_empty() {
            check!(call(|| s.read_range(0..model.len())).must("read_range")? == model, "range", "range");
        }
        ctx.op(2 + model.len());
        ctx.state(h64(mapped as u64, &to_bytes(&model)));
    }
    Ok(())
}

/// Compound trees have no store of their own: compaction is refused.
fn compound(ctx: &mut Ctx) -> R {
    type E = El<32>;
    type U = U2;
    let its = items::<E>(Pat::Distinct, 5, 8);
    let mut ts = vec![];
    for k in 0..2 {
        let c = StoreConfig::new(&ctx.dir, format!("s{}", k), 1);
        ts.push(call(|| MerkleTree::<E, A, DiskStore<E>, U>::from_byte_slice_with_config(&to_bytes(&its), c.clone())).must("create")?);
    }
    let mut t = call(|| MerkleTree::<E, A, DiskStore<E>, U, U2>::from_trees(ts)).must("compose")?;
    let before = snapshot(&ctx.dir);
    let v = ctx.pick("version", &VERSIONS);
    let id = ctx.pick("id", &["s0", "s1", "none"]);
    call(|| t.compact(StoreConfig::new(&ctx.dir, id, 1), v)).must_err("compaction of a compound tree")?;
    check!(snapshot(&ctx.dir) == before, "files changed", "files changed");
    for i in 0..16 {
        check!(call(|| t.read_at(i)).must("read_at")? == its[i % 8], "leaf", "leaf {}", i);
        let p = call(|| t.gen_proof(i)).must("gen_proof")?;
        check!(call(|| p.validate::<A>()).must("validate")?, "proof", "proof {}", i);
    }
    ctx.op(35);
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C08");
    s.technique = "exhaustive enumeration of compact/refuse/sync/reopen histories on the real stores, against reference rows and exact file bytes";
    for a in [2usize, 4, 8, 16] {
        let small = match a {
            2 => if th { 32 } else { 16 },
            4 => if th { 64 } else { 16 },
            8 => 64,
            _ => if th { 256 } else { 16 },
        };
        for n in sizes(a, small) {
            let depth = if th { 4 } else if n <= 16 { 3 } else { 2 };
            with_small_arity!(a, U, {
                s.add(format!("history a{} n{}", a, n), move |c| history::<El<32>, U>(c, n, depth, th || a == 2));
                s.add(format!("others a{} n{}", a, n), move |c| others::<El<32>, U>(c, n, if th { 4 } else { 3 }));
            });
            if a == 2 && n <= 8 {
                s.add(format!("history e5 a2 n{}", n), move |c| history::<El<5>, U2>(c, n, 2, true));
            }
        }
        let big = match (a, th) {
            (2, false) => 1 << 11,
            (4, false) => 1 << 12,
            (8, false) => 1 << 12,
            (16, false) => 1 << 12,
            _ => 1 << 15,
        };
        for n in sizes(a, big) {
            with_small_arity!(a, U, {
                s.add(format!("single a{} n{}", a, n), move |c| single::<El<32>, U>(c, n));
            });
        }
    }
    for n in [8usize, 64] {
        s.add(format!("single e1 n{}", n), move |c| single::<El<1>, U2>(c, n));
        s.add(format!("single e20 n{}", n), move |c| single::<El<20>, U2>(c, n));
    }
    s.add("mmap store", move |c| mmap_store(c, if th { 6 } else { 4 }));
    s.add("compound", compound);
    s.add("huge a2", |c| huge_compact::<El<32>, typenum::U2>(c, 33, 20));
    s.add("huge a8", |c| huge_compact::<El<32>, typenum::U8>(c, 11, 6));
    s.bound("compaction of trees of 2^33 leafs in sparse files of up to 549 GB");
    s.bound("arities 2, 4, 8, 16; histories of up to 2-4 operations on trees of up to 16 (thorough: 256) leafs with every number of discarded rows (0, 1, largest, too large) and both versions; single compactions up to 2^11..2^12 (thorough 2^15) leafs with every number of rows");
    s.assume("one store object at a time refers to the file");
    s
}

fn main() {
    mc::engine::main(build)
}
