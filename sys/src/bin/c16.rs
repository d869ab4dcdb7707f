//! C16: I/O faults surface as errors, never as a wrong tree or wrong data.
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::prelude::*;
use sys::ip::{self, Fault, Rec};
use typenum::{Unsigned, U0, U2, U4, U8};

type A = Alg<true>;
type E = El<8>;

static INJECTED: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static SURFACED: AtomicU64 = AtomicU64::new(0);
static ABSORBED: AtomicU64 = AtomicU64::new(0);

fn warm() {
    // start the pool and let std probe for statx before anything is counted
    rayon::join(|| (), || ());
    let _ = std::fs::metadata("/nonexistent/x");
    let _ = std::fs::metadata("/");
}

/// One armed operation.
struct Inj<'a> {
    plan: &'a [(usize, Fault)],
    log: Vec<Rec>,
}
impl<'a> Inj<'a> {
    /// Run the operation with the faults.  `None`: it reported an error.
    fn run<T>(&mut self, what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<Option<T>, Fail> {
        ip::arm(self.plan, false);
        let out = call(f);
        let (log, hits) = ip::disarm();
        CALLS.fetch_add(log.len() as u64, SeqCst);
        self.log = log;
        let at = |l: &Vec<Rec>| self.plan.iter().map(|(i, f)| format!("{:?} at call {} ({:?})", f, i, l.get(*i).map(|r| r.kind))).collect::<Vec<_>>().join(", ");
        if hits > 0 {
            INJECTED.fetch_add(1, SeqCst);
        }
        match out {
            Out::Ok(v) => {
                if hits > 0 {
                    ABSORBED.fetch_add(1, SeqCst);
                }
                Ok(Some(v))
            }
            Out::Err(e) => {
                check!(!self.plan.is_empty(), format!("{}:err", what), "{}: failed without a fault: {}", what, e);
                SURFACED.fetch_add(1, SeqCst);
                Ok(None)
            }
            Out::Panic(p) => fail(format!("{}:panic", what), format!("{}: panicked on {}: {}", what, at(&self.log), p)),
        }
    }
}

fn log_arity(n: usize, a: usize) -> usize {
    log2_pow2(n) / log2_pow2(a)
}
fn len_of(n: usize, a: usize) -> usize {
    (0..=log_arity(n, a)).map(|k| n / a.pow(k as u32)).sum()
}

type Body = Box<dyn Fn(&mut Ctx, &Path, &mut Inj) -> R>;

fn add(spec: &mut Spec, tier: Tier, name: String, body: Body) {
    let cache: RefCell<Option<Vec<Rec>>> = RefCell::new(None);
    spec.add(name, move |ctx| {
        warm();
        let dir = ctx.dir.join("r");
        if cache.borrow().is_none() {
            let d = ctx.dir.join("d");
            std::fs::create_dir_all(&d).unwrap();
            let mut inj = Inj { plan: &[], log: vec![] };
            body(ctx, &d, &mut inj)?;
            *cache.borrow_mut() = Some(inj.log);
            std::fs::remove_dir_all(&d).unwrap();
        }
        let log = cache.borrow().clone().unwrap();
        if log.is_empty() {
            return Ok(());
        }
        let i = ctx.choose("call", log.len());
        let fs = ip::faults(&log[i], tier == Tier::Thorough);
        let f = ctx.pick("fault", &fs);
        let mut plan = vec![(i, f)];
        {
            // a second fault at any later call
            let j = ctx.choose("second", log.len() - i + 3);
            if j > 0 {
                let k = ctx.pick("second fault", if tier == Tier::Thorough { &[Fault::Errno(libc::EIO), Fault::Errno(libc::EINTR), Fault::Short(1), Fault::Short(0)][..] } else { &[Fault::Errno(libc::EIO), Fault::Short(1)][..] });
                plan.push((i + j, k));
            }
        }
        std::fs::create_dir_all(&dir).unwrap();
        let mut inj = Inj { plan: &plan, log: vec![] };
        let r = body(ctx, &dir, &mut inj);
        ctx.op(inj.log.len());
        ctx.state(h64(i as u64, format!("{:?}{:?}", plan, inj.log).as_bytes()));
        let _ = std::fs::remove_dir_all(&dir);
        r.map_err(|f| Fail { key: f.key, msg: format!("with {:?} ({:?}): {}", plan, log[i].kind, f.msg) })
    });
}

/// The world of a scenario: reference tree, replica of the leafs, a bystander file.
struct W {
    r: RefTree<E>,
    cfg: StoreConfig,
    replica: PathBuf,
}
fn world<U: Unsigned>(dir: &Path, n: usize, rows: usize, leafs: Vec<E>) -> W {
    let _ = n;
    let r = RefTree::new(leafs, U::to_usize(), true);
    let replica = dir.join("replica");
    write_file(&replica, &to_bytes(&r.rows[0]));
    write_file(&dir.join("bystander"), b"unrelated");
    W { r, cfg: StoreConfig::new(dir, "t", rows), replica }
}
impl W {
    fn path(&self) -> PathBuf {
        StoreConfig::data_path(&self.cfg.path, &self.cfg.id)
    }
    fn bystanders(&self, dir: &Path) -> R {
        check!(std::fs::read(dir.join("bystander")).ok().as_deref() == Some(b"unrelated"), "bystander", "an unrelated file changed");
        check!(std::fs::read(&self.replica).ok() == Some(to_bytes(&self.r.rows[0])), "replica", "the replica changed");
        Ok(())
    }
    fn full_file(&self) {
        write_file(&self.path(), &self.r.bytes());
    }
    fn v1_file(&self, rows: usize) {
        let nodes = self.r.nodes();
        let mut b = to_bytes(&self.r.rows[0]);
        b.extend(to_bytes(&nodes[nodes.len() - self.r.cached_nodes(rows)..]));
        write_file(&self.path(), &b);
    }
    fn v2_file(&self, rows: usize) {
        let nodes = self.r.nodes();
        write_file(&self.path(), &to_bytes(&nodes[nodes.len() - self.r.cached_nodes(rows)..]));
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Disk,
    Mmap,
    Lc1,
    Lc2,
}

/// How a persisted tree of the store kind is opened and verified.
trait K<U: Unsigned>: Store<E> + Sized {
    fn finish(t: MerkleTree<E, A, Self, U>, w: &W) -> anyhow::Result<MerkleTree<E, A, Self, U>>;
    const CACHED: bool;
}
impl<U: Unsigned> K<U> for DiskStore<E> {
    fn finish(t: MerkleTree<E, A, Self, U>, _w: &W) -> anyhow::Result<MerkleTree<E, A, Self, U>> {
        Ok(t)
    }
    const CACHED: bool = false;
}
impl<U: Unsigned> K<U> for MmapStore<E> {
    fn finish(t: MerkleTree<E, A, Self, U>, _w: &W) -> anyhow::Result<MerkleTree<E, A, Self, U>> {
        Ok(t)
    }
    const CACHED: bool = false;
}
impl<U: Unsigned> K<U> for Lc<E> {
    fn finish(mut t: MerkleTree<E, A, Self, U>, w: &W) -> anyhow::Result<MerkleTree<E, A, Self, U>> {
        t.set_external_reader_path(&w.replica)?;
        Ok(t)
    }
    const CACHED: bool = true;
}

fn good<S: K<U>, U: Unsigned>(ctx: &mut Ctx, t: MerkleTree<E, A, S, U>, w: &W, what: &str) -> R {
    check!(t.root() == w.r.root(), "root", "{}: another root", what);
    let t = call(|| <S as K<U>>::finish(t, w)).must("finish")?;
    let big = w.r.leafs() > 64;
    if big {
        let n = w.r.nodes();
        let all = call(|| t.read_range(0, if <S as K<U>>::CACHED { w.r.leafs() } else { n.len() })).must("read_range")?;
        check!(all[..] == n[..all.len()], "node", "{}: nodes differ", what);
        return Ok(());
    }
    same_tree::<E, A, S, U>(ctx, &t, &w.r, if <S as K<U>>::CACHED { Some(w.cfg.rows_to_discard) } else { None }, what)
}

/// The file of the tree holds the tree: open it again and verify.
fn persisted<S: K<U>, U: Unsigned>(ctx: &mut Ctx, w: &W, what: &str) -> R {
    let s = call(|| S::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)).must("reopen")?;
    let mut s2 = Some(s);
    let t = if <S as K<U>>::CACHED && std::fs::metadata(w.path()).unwrap().len() as usize == w.r.cached_nodes(w.cfg.rows_to_discard) * 8 {
        // v2: the root can be read only with a reader
        return v2_good::<U>(ctx, w, what);
    } else {
        call(|| MerkleTree::<E, A, S, U>::from_data_store(s2.take().unwrap(), w.r.leafs())).must("reopen")?
    };
    good(ctx, t, w, what)
}
fn v2_good<U: Unsigned>(ctx: &mut Ctx, w: &W, what: &str) -> R {
    let rd = call(|| ExternalReader::new_from_path(&w.replica)).must("reader")?;
    let s = call(|| Lc::<E>::new_from_disk_with_reader(w.r.len(), U::to_usize(), &w.cfg, rd)).must("open v2")?;
    let t = call(|| MerkleTree::<E, A, Lc<E>, U>::from_data_store(s, w.r.leafs())).must("tree v2")?;
    good(ctx, t, w, what)
}

fn build_scen<S: K<U> + 'static, U: Unsigned + 'static>(spec: &mut Spec, tier: Tier, sname: &str, ctor: Ctor, n: usize, rows: usize) {
    add(
        spec,
        tier,
        format!("build {} {:?} a={} n={}", sname, ctor, U::to_usize(), n),
        Box::new(move |ctx, dir, inj| {
            let it = items::<E>(Pat::Distinct, 16, n);
            let w = world::<U>(dir, n, rows, ctor.leaf_row(&it));
            let t = inj.run("build", || construct::<E, A, S, U>(ctor, &it, &w.r, &w.cfg))?;
            if let Some(t) = t {
                good(ctx, t, &w, "built under a fault")?;
                if ctor.named() {
                    persisted::<S, U>(ctx, &w, "persisted under a fault")?;
                }
            } else {
                // what failed does not stop another build
                let c2 = StoreConfig::new(dir, "other", rows);
                let t = call(|| construct::<E, A, S, U>(ctor, &it, &w.r, &c2)).must("build after a failed build")?;
                check!(t.root() == w.r.root(), "root", "build after a failed build: another root");
            }
            w.bystanders(dir)
        }),
    );
}

/// Opening: `f` yields a tree and is repeated after a fault.
fn open_scen<S: K<U> + 'static, U: Unsigned + 'static>(spec: &mut Spec, tier: Tier, name: &str, n: usize, rows: usize, st: St, f: impl Fn(&W) -> anyhow::Result<MerkleTree<E, A, S, U>> + 'static) {
    add(
        spec,
        tier,
        format!("open {} a={} n={}", name, U::to_usize(), n),
        Box::new(move |ctx, dir, inj| {
            let w = world::<U>(dir, n, rows, items::<E>(Pat::Distinct, 17, n));
            match st {
                St::Disk | St::Mmap => w.full_file(),
                St::Lc1 => w.v1_file(rows),
                St::Lc2 => w.v2_file(rows),
            }
            let before = std::fs::read(w.path()).unwrap();
            let t = inj.run("open", || f(&w))?;
            if let Some(t) = t {
                good(ctx, t, &w, "opened under a fault")?;
            }
            check!(std::fs::read(w.path()).ok().as_ref() == Some(&before), "open changed the file", "opening changed the file");
            let t = call(|| f(&w)).must("open again")?;
            good(ctx, t, &w, "opened after a fault")?;
            w.bystanders(dir)
        }),
    );
}

fn opened<S: K<U>, U: Unsigned>(w: &W, st: St) -> Result<MerkleTree<E, A, S, U>, Fail> {
    let _ = st;
    let s = call(|| S::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)).must("prep open")?;
    call(|| MerkleTree::from_data_store(s, w.r.leafs())).must("prep tree")
}

/// Reading: the value has to be right or an error, and reading again has to succeed.
fn read_scen<S: K<U> + 'static, U: Unsigned + 'static, T: PartialEq + std::fmt::Debug + 'static>(
    spec: &mut Spec, tier: Tier, name: String, n: usize, rows: usize, st: St,
    op: impl Fn(&W, &MerkleTree<E, A, S, U>) -> anyhow::Result<T> + 'static, want: impl Fn(&W) -> T + 'static,
) {
    add(
        spec,
        tier,
        name,
        Box::new(move |ctx, dir, inj| {
            let w = world::<U>(dir, n, rows, items::<E>(Pat::Distinct, 18, n));
            let t: MerkleTree<E, A, S, U> = match st {
                St::Disk | St::Mmap => {
                    w.full_file();
                    opened(&w, st)?
                }
                St::Lc1 => {
                    w.v1_file(rows);
                    opened(&w, st)?
                }
                St::Lc2 => {
                    w.full_file();
                    // compacted by hand: v2 with a reader
                    w.v2_file(rows);
                    let s = call(|| S::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)).must("prep open")?;
                    let _ = &s;
                    return fail("harness", "use read2_scen");
                }
            };
            let v = inj.run("read", || op(&w, &t))?;
            if let Some(v) = v {
                check!(v == want(&w), "wrong data", "returned {:?}, expected {:?}", v, want(&w));
            }
            let v = call(|| op(&w, &t)).must("read again")?;
            check!(v == want(&w), "wrong data later", "returned {:?} after the fault", v);
            check!(t.len() == w.r.len() && t.data().unwrap().len() == w.r.len(), "len", "the length changed");
            let _ = ctx;
            w.bystanders(dir)
        }),
    );
}
fn read2_scen<U: Unsigned + 'static, T: PartialEq + std::fmt::Debug + 'static>(
    spec: &mut Spec, tier: Tier, name: String, n: usize, rows: usize,
    op: impl Fn(&W, &MerkleTree<E, A, Lc<E>, U>) -> anyhow::Result<T> + 'static, want: impl Fn(&W) -> T + 'static,
) {
    add(
        spec,
        tier,
        name,
        Box::new(move |_ctx, dir, inj| {
            let w = world::<U>(dir, n, rows, items::<E>(Pat::Distinct, 19, n));
            w.v2_file(rows);
            let rd = call(|| ExternalReader::new_from_path(&w.replica)).must("reader")?;
            let s = call(|| Lc::<E>::new_from_disk_with_reader(w.r.len(), U::to_usize(), &w.cfg, rd)).must("open v2")?;
            let t = call(|| MerkleTree::<E, A, Lc<E>, U>::from_data_store(s, w.r.leafs())).must("tree v2")?;
            let v = inj.run("read", || op(&w, &t))?;
            if let Some(v) = v {
                check!(v == want(&w), "wrong data", "returned {:?}, expected {:?}", v, want(&w));
            }
            let v = call(|| op(&w, &t)).must("read again")?;
            check!(v == want(&w), "wrong data later", "returned {:?} after the fault", v);
            w.bystanders(dir)
        }),
    );
}

type Pr = (Vec<E>, Vec<usize>, bool);
fn proof_of<S: Store<E>, U: Unsigned>(t: &MerkleTree<E, A, S, U>, i: usize, rows: Option<usize>) -> anyhow::Result<Pr> {
    let p = match rows {
        None => t.gen_proof(i)?,
        Some(r) => t.gen_cached_proof(i, Some(r))?,
    };
    let ok = p.validate::<A>()?;
    Ok((p.lemma().clone(), p.path().clone(), ok))
}
fn want_proof(w: &W, i: usize) -> Pr {
    let (l, p) = w.r.proof(i);
    (l, p, true)
}

/// A mutation of a store of 4 of 8 elements.
fn write_scen<S: Store<E> + 'static>(spec: &mut Spec, tier: Tier, sname: &str, anon: bool, opname: &'static str, op: fn(&mut S, &[E]) -> anyhow::Result<()>, touched: fn(usize) -> bool, newlen: usize) {
    add(
        spec,
        tier,
        format!("{} on {}{}", opname, sname, if anon { " anonymous" } else { "" }),
        Box::new(move |_ctx, dir, inj| {
            let old = items::<E>(Pat::Distinct, 20, 4);
            let new = items::<E>(Pat::Distinct, 21, 15);
            let cfg = StoreConfig::new(dir, "w", 0);
            let mut s = call(|| {
                if anon {
                    S::new_from_slice(15, &to_bytes(&old))
                } else {
                    S::new_from_slice_with_config(15, 2, &to_bytes(&old), cfg.clone())
                }
            })
            .must("prep")?;
            let r = inj.run("write", || op(&mut s, &new))?;
            let check_rest = |s: &S, all: bool| -> R {
                for i in 0..s.len() {
                    let v = call(|| s.read_at(i)).must("read_at")?;
                    if touched(i) {
                        if all {
                            check!(v == new[i], "not written", "element {} was not written though success was reported", i);
                        }
                    } else {
                        check!(v == old[i], "clobbered", "element {} changed", i);
                    }
                }
                Ok(())
            };
            match r {
                Some(()) => {
                    check!(s.len() == newlen, "len", "length {} after a successful write, expected {}", s.len(), newlen);
                    check_rest(&s, true)?;
                }
                None => {
                    check!(s.len() == 4, "len", "length {} after a failed write, was 4", s.len());
                    check_rest(&s, false)?;
                    call(|| op(&mut s, &new)).must("write again")?;
                    check!(s.len() == newlen, "len", "length {} after repeating the write", s.len());
                    check_rest(&s, true)?;
                }
            }
            Ok(())
        }),
    );
}

fn stores_scens<S: Store<E> + 'static>(spec: &mut Spec, tier: Tier, sname: &str, anon: bool) {
    write_scen::<S>(spec, tier, sname, anon, "push", |s, n| s.push(n[4]), |i| i == 4, 5);
    write_scen::<S>(spec, tier, sname, anon, "write_at(1)", |s, n| s.write_at(n[1], 1), |i| i == 1, 4);
    write_scen::<S>(spec, tier, sname, anon, "write_at(4)", |s, n| s.write_at(n[4], 4), |i| i == 4, 5);
    write_scen::<S>(spec, tier, sname, anon, "copy_from_slice(4..7)", |s, n| s.copy_from_slice(&to_bytes(&n[4..7]), 4), |i| (4..7).contains(&i), 7);
    write_scen::<S>(spec, tier, sname, anon, "copy_from_slice(2..6)", |s, n| s.copy_from_slice(&to_bytes(&n[2..6]), 2), |i| (2..6).contains(&i), 6);
}

fn compact_scen<U: Unsigned + 'static>(spec: &mut Spec, tier: Tier, n: usize, rows: usize, version: u32) {
    add(
        spec,
        tier,
        format!("compact v{} a={} n={} rows={}", version, U::to_usize(), n, rows),
        Box::new(move |ctx, dir, inj| {
            let w = world::<U>(dir, n, rows, items::<E>(Pat::Distinct, 22, n));
            w.full_file();
            let mut t: MerkleTree<E, A, DiskStore<E>, U> = opened(&w, St::Disk)?;
            let nodes = w.r.nodes();
            let r = inj.run("compact", || t.compact(w.cfg.clone(), version))?;
            match r {
                Some(b) => {
                    check!(b, "compact false", "compact reported that nothing was done");
                    let want = if version == 1 { w.r.leafs() + w.r.cached_nodes(rows) } else { w.r.cached_nodes(rows) };
                    let sl = Store::len(t.data().unwrap());
                    check!(sl == want, "compact len", "store length {} after compaction, expected {}", sl, want);
                    if version == 1 {
                        persisted::<Lc<E>, U>(ctx, &w, "compacted under a fault")?;
                    } else {
                        v2_good::<U>(ctx, &w, "compacted under a fault")?;
                    }
                }
                None => {
                    for i in 0..nodes.len() {
                        match call(|| t.read_at(i)) {
                            Out::Ok(v) => check!(v == nodes[i], "wrong data after a failed compaction", "node {} is {:?} after the failed compaction, expected {:?}", i, v, nodes[i]),
                            Out::Err(_) => {}
                            Out::Panic(p) => return fail("panic after a failed compaction", format!("read_at({}): {}", i, p)),
                        }
                    }
                    for i in 0..w.r.leafs() {
                        match call(|| proof_of(&t, i, None)) {
                            Out::Ok(p) => check!(p == want_proof(&w, i), "wrong proof after a failed compaction", "proof of leaf {} differs", i),
                            Out::Err(_) => {}
                            Out::Panic(p) => return fail("panic after a failed compaction", format!("gen_proof({}): {}", i, p)),
                        }
                    }
                }
            }
            w.bystanders(dir)
        }),
    );
}

/// Trees of trees opened from store configs.
fn compound(spec: &mut Spec, tier: Tier) {
    type C<S> = MerkleTree<E, A, S, U2, U2, U0>;
    type T3<S> = MerkleTree<E, A, S, U2, U2, U2>;
    let n = 4;
    let files = move |dir: &Path, k: usize, rows: usize, v: u8| -> (Vec<RefTree<E>>, Vec<StoreConfig>, ReplicaConfig) {
        let mut rs = vec![];
        let mut cs = vec![];
        let mut rep = vec![];
        let mut offs = vec![];
        for i in 0..k {
            let w = W { r: RefTree::new(items::<E>(Pat::Distinct, 30 + i as u64, n), 2, true), cfg: StoreConfig::new(dir, format!("c{}", i), rows), replica: dir.join("replica") };
            offs.push(rep.len());
            rep.extend(to_bytes(&w.r.rows[0]));
            match v {
                0 => w.full_file(),
                1 => w.v1_file(rows),
                _ => w.v2_file(rows),
            }
            rs.push(w.r);
            cs.push(w.cfg);
        }
        write_file(&dir.join("replica"), &rep);
        let rc = ReplicaConfig::new(dir.join("replica"), offs);
        (rs, cs, rc)
    };
    fn verify<S: Store<E>, V: Unsigned, W: Unsigned>(t: &MerkleTree<E, A, S, U2, V, W>, rs: &[RefTree<E>], rows: Option<usize>, top: bool) -> R {
        let h = rs[0].row_count() - 1;
        let _ = h;
        let roots: Vec<E> = rs.iter().map(|r| r.root()).collect();
        let mid: Vec<E> = roots.chunks(2).map(|c| ref_node(c, Some(0))).collect();
        // the height of the upper layers is not judged here, only the leafs and the validity of proofs
        let _ = (mid, top);
        for (ti, r) in rs.iter().enumerate() {
            for i in 0..r.leafs() {
                let g = ti * r.leafs() + i;
                let v = call(|| t.read_at(g)).must("read_at")?;
                check!(v == r.rows[0][i], "leaf", "leaf {} differs", g);
                let p = match rows {
                    None => call(|| t.gen_proof(g)).must("gen_proof")?,
                    Some(x) => call(|| t.gen_cached_proof(g, Some(x))).must("gen_cached_proof")?,
                };
                check!(call(|| p.validate::<A>()).must("validate")?, "proof", "proof of leaf {} is invalid", g);
                check!(p.root() == t.root(), "proof root", "proof of leaf {} has another root", g);
            }
        }
        Ok(())
    }
    add(spec, tier, "open compound disk".into(), Box::new(move |_c, dir, inj| {
        let (rs, cs, _) = files(dir, 2, 0, 0);
        let want = call(|| C::<DiskStore<E>>::from_store_configs(n, &cs)).must("prep")?.root();
        let t = inj.run("open compound", || C::<DiskStore<E>>::from_store_configs(n, &cs))?;
        if let Some(t) = t {
            check!(t.root() == want, "root", "another root");
            verify(&t, &rs, None, false)?;
        }
        let t = call(|| C::<DiskStore<E>>::from_store_configs(n, &cs)).must("again")?;
        verify(&t, &rs, None, false)
    }));
    add(spec, tier, "open compound v2 with replica".into(), Box::new(move |_c, dir, inj| {
        let (rs, cs, rc) = files(dir, 2, 1, 2);
        let want = call(|| C::<Lc<E>>::from_store_configs_and_replica(n, &cs, &rc)).must("prep")?.root();
        let t = inj.run("open compound", || C::<Lc<E>>::from_store_configs_and_replica(n, &cs, &rc))?;
        if let Some(t) = t {
            check!(t.root() == want, "root", "another root");
            verify(&t, &rs, Some(1), false)?;
        }
        let t = call(|| C::<Lc<E>>::from_store_configs_and_replica(n, &cs, &rc)).must("again")?;
        verify(&t, &rs, Some(1), false)
    }));
    add(spec, tier, "open three-layer disk".into(), Box::new(move |_c, dir, inj| {
        let (rs, cs, _) = files(dir, 4, 0, 0);
        let want = call(|| T3::<DiskStore<E>>::from_sub_tree_store_configs(n, &cs)).must("prep")?.root();
        let t = inj.run("open compound", || T3::<DiskStore<E>>::from_sub_tree_store_configs(n, &cs))?;
        if let Some(t) = t {
            check!(t.root() == want, "root", "another root");
            verify(&t, &rs, None, true)?;
        }
        let t = call(|| T3::<DiskStore<E>>::from_sub_tree_store_configs(n, &cs)).must("again")?;
        verify(&t, &rs, None, true)
    }));
    add(spec, tier, "open three-layer v2 with replica".into(), Box::new(move |_c, dir, inj| {
        let (rs, cs, rc) = files(dir, 4, 1, 2);
        let want = call(|| T3::<Lc<E>>::from_sub_tree_store_configs_and_replica(n, &cs, &rc)).must("prep")?.root();
        let t = inj.run("open compound", || T3::<Lc<E>>::from_sub_tree_store_configs_and_replica(n, &cs, &rc))?;
        if let Some(t) = t {
            check!(t.root() == want, "root", "another root");
            verify(&t, &rs, Some(1), true)?;
        }
        let t = call(|| T3::<Lc<E>>::from_sub_tree_store_configs_and_replica(n, &cs, &rc)).must("again")?;
        verify(&t, &rs, Some(1), true)
    }));
    for leaf in [0usize, 5, 7] {
        add(spec, tier, format!("proof of leaf {} of a compound disk tree", leaf), Box::new(move |_c, dir, inj| {
            let (_rs, cs, _) = files(dir, 2, 0, 0);
            let t = call(|| C::<DiskStore<E>>::from_store_configs(n, &cs)).must("prep")?;
            let f = || -> anyhow::Result<(Vec<E>, Vec<usize>, E, bool)> {
                let p = t.gen_proof(leaf)?;
                Ok((p.lemma().clone(), p.path().clone(), p.root(), p.validate::<A>()?))
            };
            let want = call(f).must("prep proof")?;
            check!(want.3, "prep", "proof is invalid without a fault");
            if let Some(p) = inj.run("proof", f)? {
                check!(p == want, "wrong proof", "the proof differs");
            }
            check!(call(f).must("again")? == want, "wrong proof later", "the proof differs after the fault");
            Ok(())
        }));
        add(spec, tier, format!("cached proof of leaf {} of a three-layer v2 tree", leaf + 8), Box::new(move |_c, dir, inj| {
            let (_rs, cs, rc) = files(dir, 4, 1, 2);
            let t = call(|| T3::<Lc<E>>::from_sub_tree_store_configs_and_replica(n, &cs, &rc)).must("prep")?;
            let f = || -> anyhow::Result<(Vec<E>, Vec<usize>, E, bool)> {
                let p = t.gen_cached_proof(leaf + 8, Some(1))?;
                Ok((p.lemma().clone(), p.path().clone(), p.root(), p.validate::<A>()?))
            };
            let want = call(f).must("prep proof")?;
            check!(want.3, "prep", "proof is invalid without a fault");
            if let Some(p) = inj.run("proof", f)? {
                check!(p == want, "wrong proof", "the proof differs");
            }
            check!(call(f).must("again")? == want, "wrong proof later", "the proof differs after the fault");
            Ok(())
        }));
    }
}

/// The operations of trees of one arity.
fn by_arity<U: Unsigned + 'static>(mut s: &mut Spec, tier: Tier, ns: &[usize], open_ns: &[usize], n: usize, compact_ns: &[usize]) {
    let s = &mut s;
    let arity = U::to_usize();
    let max_rows = |n: usize| log_arity(n, arity) - 1;
    // building
    for &n in ns {
        for c in CTORS {
            build_scen::<DiskStore<E>, U>(s, tier, "disk", c, n, 0);
            build_scen::<MmapStore<E>, U>(s, tier, "mmap", c, n, 0);
            if c.named() && max_rows(n) >= 1 {
                for rows in 0..=max_rows(n) {
                    let nm = format!("level-cache rows={}", rows);
                    build_scen::<Lc<E>, U>(s, tier, &nm, c, n, rows);
                }
            }
        }
    }
    // opening
    for &n in open_ns {
        let max = max_rows(n);
        open_scen::<DiskStore<E>, U>(s, tier, "disk new_from_disk", n, 0, St::Disk, |w| {
            MerkleTree::from_data_store(DiskStore::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)?, w.r.leafs())
        });
        open_scen::<DiskStore<E>, U>(s, tier, "disk new_from_disk_with_path", n, 0, St::Disk, |w| {
            MerkleTree::from_data_store(DiskStore::new_from_disk_with_path(w.r.len(), w.path())?, w.r.leafs())
        });
        open_scen::<DiskStore<E>, U>(s, tier, "disk new_with_config", n, 0, St::Disk, |w| {
            MerkleTree::from_data_store(DiskStore::new_with_config(w.r.len(), U::to_usize(), w.cfg.clone())?, w.r.leafs())
        });
        open_scen::<DiskStore<E>, U>(s, tier, "disk from_tree_slice_with_config", n, 0, St::Disk, |w| {
            MerkleTree::from_tree_slice_with_config(&w.r.bytes(), w.r.leafs(), w.cfg.clone())
        });
        open_scen::<MmapStore<E>, U>(s, tier, "mmap new_from_disk", n, 0, St::Mmap, |w| {
            MerkleTree::from_data_store(MmapStore::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)?, w.r.leafs())
        });
        open_scen::<MmapStore<E>, U>(s, tier, "mmap new_with_config", n, 0, St::Mmap, |w| {
            MerkleTree::from_data_store(MmapStore::new_with_config(w.r.len(), U::to_usize(), w.cfg.clone())?, w.r.leafs())
        });
        for rows in 0..=max {
            open_scen::<Lc<E>, U>(s, tier, &format!("level-cache v1 rows={}", rows), n, rows, St::Lc1, |w| {
                MerkleTree::from_data_store(Lc::<E>::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)?, w.r.leafs())
            });
            open_scen::<Lc<E>, U>(s, tier, &format!("level-cache v2 rows={}", rows), n, rows, St::Lc2, |w| {
                let rd = ExternalReader::new_from_path(&w.replica)?;
                MerkleTree::from_data_store(Lc::<E>::new_from_disk_with_reader(w.r.len(), U::to_usize(), &w.cfg, rd)?, w.r.leafs())
            });
            open_scen::<Lc<E>, U>(s, tier, &format!("level-cache v2 from_store_configs_and_replica rows={}", rows), n, rows, St::Lc2, |w| {
                let mut st = Lc::<E>::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)?;
                st.set_external_reader(ExternalReader::new_from_config(&ReplicaConfig::new(&w.replica, vec![0]), 0)?)?;
                MerkleTree::from_data_store(st, w.r.leafs())
            });
        }
    }
    // reading
    let last = len_of(n, arity) - 1;
    // the leafs of a group behave alike
    let leafs = || (0..n).filter(move |&i| n <= 16 || [0, 1, 7, 8, 31, 56, 62, 63].contains(&i));
    let (lo, hi) = if n > 5 { (2usize, 6usize) } else { (1, 3) };
    macro_rules! reads {
        ($S:ty, $st:expr, $nm:expr, $rows:expr, $cached:expr) => {{
            let rows: usize = $rows;
            for i in [0usize, 3, n - 1, last] {
                read_scen::<$S, U, E>(s, tier, format!("read_at({}) {} a={} n={}", i, $nm, arity, n), n, rows, $st, move |_, t| t.read_at(i), move |w| w.r.nodes()[i]);
                read_scen::<$S, U, Vec<u8>>(s, tier, format!("read_into({}) {} a={} n={}", i, $nm, arity, n), n, rows, $st, move |_, t| {
                    let mut b = vec![0x11; 8];
                    t.read_into(i, &mut b)?;
                    Ok(b)
                }, move |w| w.r.nodes()[i].0.to_vec());
            }
            read_scen::<$S, U, Vec<E>>(s, tier, format!("read_range({}..{}) {} a={} n={}", lo, hi, $nm, arity, n), n, rows, $st, move |_, t| t.read_range(lo, hi), move |w| w.r.nodes()[lo..hi].to_vec());
            if $nm != "mmap" {
                read_scen::<$S, U, Vec<u8>>(s, tier, format!("read_range_into({}..{}) {} a={} n={}", lo, hi, $nm, arity, n), n, rows, $st, move |_, t| {
                    let mut b = vec![0x11; 8 * (hi - lo)];
                    t.read_range_into(lo, hi, &mut b)?;
                    Ok(b)
                }, move |w| to_bytes(&w.r.nodes()[lo..hi]));
            }
            read_scen::<$S, U, E>(s, tier, format!("last {} a={} n={}", $nm, arity, n), n, rows, $st, move |_, t| t.data().unwrap().last(), move |w| w.r.root());
            for i in leafs() {
                read_scen::<$S, U, Pr>(s, tier, format!("proof({}) {} a={} n={}", i, $nm, arity, n), n, rows, $st, move |_, t| proof_of(t, i, $cached), move |w| want_proof(w, i));
            }
        }};
    }
    reads!(DiskStore<E>, St::Disk, "disk", 0, None);
    if max_rows(n) >= 1 {
        reads!(DiskStore<E>, St::Disk, "disk, cached proofs", 1, Some(1));
    }
    reads!(MmapStore<E>, St::Mmap, "mmap", 0, None);
    for rows in 1..=max_rows(n) {
        let nm = format!("level-cache v1 rows={}", rows);
        reads!(Lc<E>, St::Lc1, nm.as_str(), rows, Some(rows));
    }
    for rows in 0..=max_rows(n) {
        for i in leafs() {
            read2_scen::<U, Pr>(s, tier, format!("proof({}) level-cache v2 rows={} a={} n={}", i, rows, arity, n), n, rows, move |_, t| proof_of(t, i, Some(rows)), move |w| want_proof(w, i));
        }
        read2_scen::<U, Vec<E>>(s, tier, format!("read_range(1..) level-cache v2 rows={} a={} n={}", rows, arity, n), n, rows, move |_, t| t.read_range(1, 1 + hi - lo), move |w| w.r.nodes()[1..1 + hi - lo].to_vec());
        read2_scen::<U, Vec<u8>>(s, tier, format!("read_range_into(1..) level-cache v2 rows={} a={} n={}", rows, arity, n), n, rows, move |_, t| {
            let mut b = vec![0x11; 8 * (hi - lo)];
            t.read_range_into(1, 1 + hi - lo, &mut b)?;
            Ok(b)
        }, move |w| to_bytes(&w.r.nodes()[1..1 + hi - lo]));
        read2_scen::<U, E>(s, tier, format!("read_at(last) level-cache v2 rows={} a={} n={}", rows, arity, n), n, rows, move |_, t| t.read_at(last), move |w| w.r.root());
        read2_scen::<U, Vec<u8>>(s, tier, format!("read_into(last) level-cache v2 rows={} a={} n={}", rows, arity, n), n, rows, move |_, t| {
            let mut b = vec![0x11; 8];
            t.read_into(last, &mut b)?;
            Ok(b)
        }, move |w| w.r.root().0.to_vec());
    }
    // compaction
    for &n in compact_ns {
        for rows in 1..=max_rows(n) {
            for v in [1, 2] {
                compact_scen::<U>(s, tier, n, rows, v);
            }
        }
        compact_scen::<U>(s, tier, n, 0, 2);
    }
}

fn build(tier: Tier) -> Spec {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let mut s = Spec::new("C16");
    s.level = "fault_enumeration";
    s.technique = "every system call of every operation x every fault kind on the real code; distinct = distinct (fault plan, resulting call sequence) pairs";
    let deep = tier == Tier::Thorough;
    by_arity::<U2>(&mut s, tier, if deep { &[2, 4, 8, 16] } else { &[2, 8] }, &[2, 8], 8, if deep { &[4, 8, 16, 32] } else { &[4, 8, 16] });
    by_arity::<U4>(&mut s, tier, if deep { &[4, 16] } else { &[16] }, if deep { &[4, 16] } else { &[16] }, 16, &[16]);
    by_arity::<U8>(&mut s, tier, if deep { &[8, 64] } else { &[8] }, if deep { &[8, 64] } else { &[8] }, if deep { 64 } else { 8 }, if deep { &[8, 64] } else { &[64] });
    // the chunked path of the default build, and two chunks of the mapped one
    build_scen::<MmapStore<E>, U2>(&mut s, tier, "mmap", Ctor::NewCfg, 2048, 0);
    build_scen::<DiskStore<E>, U2>(&mut s, tier, "disk", Ctor::ParCfg, 8192, 0);
    build_scen::<DiskStore<E>, U2>(&mut s, tier, "disk", Ctor::Par, 8192, 0);
    compound(&mut s, tier);
    let n = 8;
    // iteration over a disk store: what is yielded, and whether the end is reached
    read_scen::<DiskStore<E>, U2, Vec<E>>(&mut s, tier, "iterate disk (collect)".into(), n, 0, St::Disk, move |_, t| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.data().unwrap().into_par_iter().collect::<Vec<E>>())).map_err(|_| anyhow::anyhow!("panicked"))
    }, move |w| w.r.nodes());
    add(&mut s, tier, "iterate disk (fold)".into(), Box::new(move |_c, dir, inj| {
        let w = world::<U2>(dir, n, 0, items::<E>(Pat::Distinct, 23, n));
        w.full_file();
        let t: MerkleTree<E, A, DiskStore<E>, U2> = opened(&w, St::Disk)?;
        let f = || -> anyhow::Result<Vec<E>> {
            Ok(t.data().unwrap().into_par_iter().fold(Vec::new, |mut v, e| { v.push(e); v }).reduce(Vec::new, |mut a, b| { a.extend(b); a }))
        };
        let nodes = w.r.nodes();
        if let Some(v) = inj.run("iterate", f)? {
            // yielded elements are elements of the store, each at most once and in order
            let mut j = 0;
            for e in &v {
                while j < nodes.len() && nodes[j] != *e {
                    j += 1;
                }
                check!(j < nodes.len(), "iteration yields wrong elements", "iteration yielded {:?}", v);
                j += 1;
            }
            check!(v.len() == nodes.len(), "iteration ends early without an error", "iteration yielded only {} of {} elements and no error", v.len(), nodes.len());
        }
        check!(call(f).must("iterate again")? == nodes, "iterate later", "another iteration differs");
        Ok(())
    }));
    // the iterator of a part of a disk store, consumed from both ends: a part never yields
    // elements of another part, whatever failed before
    for mask in 0..8u32 {
        add(&mut s, tier, format!("iterate a part of a disk store, ends {:03b}", mask), Box::new(move |_c, dir, inj| {
            let w = world::<U2>(dir, 8, 0, items::<E>(Pat::Distinct, 32, 8));
            w.full_file();
            let st = call(|| DiskStore::<E>::new_from_disk(15, 2, &w.cfg)).must("prep")?;
            let nodes = w.r.nodes();
            let got = inj.run("iterate", || {
                let p = DiskStoreProducer::new(4, 7, &st);
                let mut it = rayon::iter::plumbing::Producer::into_iter(p);
                let mut v = vec![];
                for k in 0..6u32 {
                    let back = mask >> (k % 3) & 1 == 1;
                    v.push((back, if back { it.next_back() } else { it.next() }));
                }
                Ok(v)
            })?;
            let (mut lo, mut hi) = (4usize, 7usize);
            for (back, e) in got.unwrap_or_default() {
                if let Some(e) = e {
                    check!(lo < hi, "iteration yields too much", "the part [4,7) yielded {:?} after its end", e);
                    let i = if back { hi - 1 } else { lo };
                    check!(e == nodes[i], "iteration yields wrong elements", "yielded {:?} for element {}", e, i);
                    if back {
                        hi -= 1;
                    } else {
                        lo += 1;
                    }
                } else if inj.plan.is_empty() {
                    check!(lo == hi, "iteration ends early", "the part [4,7) ended with [{},{}) left", lo, hi);
                }
            }
            Ok(())
        }));
    }
    // writing
    stores_scens::<DiskStore<E>>(&mut s, tier, "disk", false);
    stores_scens::<DiskStore<E>>(&mut s, tier, "disk", true);
    stores_scens::<MmapStore<E>>(&mut s, tier, "mmap", false);
    stores_scens::<MmapStore<E>>(&mut s, tier, "mmap", true);
    // releasing and mapping again
    for op in ["reinit", "push", "write_at", "copy_from_slice"] {
        add(&mut s, tier, format!("{} of a released mmap store", op), Box::new(move |_c, dir, inj| {
            let old = items::<E>(Pat::Distinct, 24, 4);
            let new = items::<E>(Pat::Distinct, 25, 15);
            let cfg = StoreConfig::new(dir, "w", 0);
            let mut st = call(|| MmapStore::<E>::new_from_slice_with_config(15, 2, &to_bytes(&old), cfg.clone())).must("prep")?;
            call(|| st.compact(2, cfg.clone(), 2)).must("release")?;
            let mut f = || -> anyhow::Result<()> {
                match op {
                    "reinit" => st.reinit(),
                    "push" => st.push(new[4]),
                    "write_at" => st.write_at(new[4], 4),
                    _ => st.copy_from_slice(&to_bytes(&new[4..5]), 4),
                }
            };
            let r = inj.run("map again", &mut f)?;
            if r.is_none() {
                call(&mut f).must("map again later")?;
            }
            let want = if op == "reinit" { 4 } else { 5 };
            check!(st.len() == want, "len", "length {} != {}", st.len(), want);
            for i in 0..st.len() {
                let v = call(|| st.read_at(i)).must("read_at")?;
                check!(v == if i < 4 { old[i] } else { new[i] }, "element", "element {} differs", i);
            }
            Ok(())
        }));
    }
    // replacing the external reader
    for rows in 0..3usize {
        add(&mut s, tier, format!("set_external_reader_path rows={}", rows), Box::new(move |ctx, dir, inj| {
            let w = world::<U2>(dir, 8, rows, items::<E>(Pat::Distinct, 33, 8));
            w.v2_file(rows);
            let rd = call(|| ExternalReader::new_from_path(&w.replica)).must("reader")?;
            let st = call(|| Lc::<E>::new_from_disk_with_reader(w.r.len(), 2, &w.cfg, rd)).must("open v2")?;
            let mut t = call(|| MerkleTree::<E, A, Lc<E>, U2>::from_data_store(st, w.r.leafs())).must("tree v2")?;
            let other = dir.join("replica2");
            write_file(&other, &to_bytes(&w.r.rows[0]));
            let r = inj.run("set reader", || t.set_external_reader_path(&other))?;
            if r.is_none() {
                same_tree::<E, A, Lc<E>, U2>(ctx, &t, &w.r, Some(rows), "after a refused reader")?;
                call(|| t.set_external_reader_path(&other)).must("set reader again")?;
            }
            write_file(&w.replica, &[0x77; 64]);
            same_tree::<E, A, Lc<E>, U2>(ctx, &t, &w.r, Some(rows), "with the new reader")
        }));
    }
    // sync, delete, consistency checks
    macro_rules! misc {
        ($S:ty, $nm:expr) => {{
            add(&mut s, tier, format!("sync {}", $nm), Box::new(move |_c, dir, inj| {
                let old = items::<E>(Pat::Distinct, 26, 4);
                let cfg = StoreConfig::new(dir, "w", 0);
                let st = call(|| <$S>::new_from_slice_with_config(7, 2, &to_bytes(&old), cfg.clone())).must("prep")?;
                let r = inj.run("sync", || st.sync())?;
                if $nm == "disk" || $nm == "level-cache" {
                    // a failed fsync must be reported
                    let failed = inj.plan.iter().any(|(i, f)| *i < inj.log.len() && matches!(f, Fault::Errno(e) | Fault::Sticky(e) if *e != libc::EINTR));
                    check!(!(failed && r.is_some()), "sync error lost", "sync reported success although fsync failed");
                }
                call(|| st.sync()).must("sync again")
            }));
            add(&mut s, tier, format!("delete {}", $nm), Box::new(move |_c, dir, inj| {
                let w = world::<U2>(dir, 4, 0, items::<E>(Pat::Distinct, 27, 4));
                w.full_file();
                let r = inj.run("delete", || <$S>::delete(w.cfg.clone()))?;
                match r {
                    Some(()) => check!(!w.path().exists(), "not deleted", "delete succeeded but the file exists"),
                    None => {
                        check!(std::fs::read(w.path()).ok() == Some(w.r.bytes()), "deleted", "delete failed but the file changed");
                        call(|| <$S>::delete(w.cfg.clone())).must("delete again")?;
                        check!(!w.path().exists(), "not deleted", "delete succeeded but the file exists");
                    }
                }
                w.bystanders(dir)
            }));
        }};
    }
    misc!(DiskStore<E>, "disk");
    misc!(MmapStore<E>, "mmap");
    misc!(Lc<E>, "level-cache");
    for v in 0..3usize {
        add(&mut s, tier, format!("is_consistent {}", ["disk", "v1", "v2"][v]), Box::new(move |_c, dir, inj| {
            let w = world::<U2>(dir, 8, 1, items::<E>(Pat::Distinct, 28, 8));
            match v {
                0 => w.full_file(),
                1 => w.v1_file(1),
                _ => w.v2_file(1),
            }
            for which in 0..3usize {
                let f = || match which {
                    0 => DiskStore::<E>::is_consistent(w.r.len(), 2, &w.cfg),
                    1 => Lc::<E>::is_consistent_v1(w.r.len(), 2, &w.cfg),
                    _ => Lc::<E>::is_consistent(w.r.len(), 2, &w.cfg),
                };
                if let Some(b) = inj.run("is_consistent", f)? {
                    check!(b == (which == v), "is_consistent", "is_consistent {} says {} for layout {}", which, b, v);
                }
                check!(call(f).must("again")? == (which == v), "is_consistent later", "differs after the fault");
            }
            w.bystanders(dir)
        }));
    }
    for n in [8usize, 16] {
        add(&mut s, tier, format!("front_truncate n={}", n), Box::new(move |_c, dir, inj| {
            let w = world::<U4>(dir, 16, 0, items::<E>(Pat::Distinct, 29, 16));
            let el = items::<E>(Pat::Distinct, 31, 21);
            let mut st = call(|| Lc::<E>::new_with_config(21, 4, w.cfg.clone())).must("prep")?;
            call(|| st.copy_from_slice(&to_bytes(&el), 0)).must("prep write")?;
            let r = inj.run("front_truncate", || st.front_truncate(&w.cfg, n))?;
            let have = std::fs::read(w.path()).unwrap_or_default();
            if r.is_some() {
                check!(have == to_bytes(&el[n..]), "front_truncate", "front_truncate reported success but the file differs");
            }
            w.bystanders(dir)
        }));
    }
    s.bound(format!("arity 2 (4 for front_truncate), 2-{} leafs (2048 and 8192 for the chunked builds), elements of 8 bytes, one worker thread", if deep { 32 } else { 16 }));
    s.bound("every intercepted call (open, stat, pread, pwrite, read, write, lseek, ftruncate, fsync, mmap, copy_file_range/sendfile/splice, unlink) of each operation x errno values, short transfers (0, 1, half, all but one byte), and errors that persist for all later calls of the kind");
    s.bound(format!("pairs: a second fault ({}) at every later call", if deep { "EIO, EINTR, short 1, short 0" } else { "EIO, short 1" }));
    s.assume("faults are injected at the libc boundary; page faults of mapped files (SIGBUS) and munmap are not injected");
    s.extra = Some(|| {
        serde_json::json!({"calls_observed": CALLS.load(SeqCst), "faults_injected": INJECTED.load(SeqCst),
            "faults_reported_as_errors": SURFACED.load(SeqCst), "faults_with_full_effect": ABSORBED.load(SeqCst)})
    });
    s
}

fn main() {
    mc::engine::main(build)
}
