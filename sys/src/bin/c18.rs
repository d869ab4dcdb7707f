//! C18: an interrupted build or compaction is never mistaken for a complete tree.
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use sys::alg::MarkAlg;
use sys::ip::{self, Fault, Kind, Rec};
use typenum::{Unsigned, U2, U4, U8};

type A = MarkAlg;
type E = El<8>;
type T<S, U = U2> = MerkleTree<E, A, S, U>;

fn log_arity(n: usize, a: usize) -> usize {
    log2_pow2(n) / log2_pow2(a)
}

static STOPS: AtomicU64 = AtomicU64::new(0);
static TORN: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);
static FINISHED: AtomicU64 = AtomicU64::new(0);
static REOPENS: AtomicU64 = AtomicU64::new(0);
static REOPENED: AtomicU64 = AtomicU64::new(0);

fn warm() {
    rayon::join(|| (), || ());
    let _ = std::fs::metadata("/nonexistent/x");
    let _ = std::fs::metadata("/");
}

fn kind_code(k: Kind) -> u8 {
    k as u8
}
const KINDS: [Kind; 13] = [
    Kind::Open, Kind::Stat, Kind::Pread, Kind::Pwrite, Kind::Read, Kind::Write, Kind::Seek, Kind::Trunc, Kind::Fsync, Kind::Mmap, Kind::Copy, Kind::Unlink, Kind::Mark,
];

/// Run `op` in a process of its own that ends at the planned point, or right after the operation
/// returned (without running destructors).  Returns the calls it made, or `None` if it was stopped.
fn stopped(ctx: &Ctx, plan: &[(usize, Fault)], op: impl FnOnce() -> anyhow::Result<()>) -> Result<(Option<Vec<Rec>>, Option<String>), Fail> {
    let p = ctx.dir.with_extension("log");
    let _ = std::fs::remove_file(&p);
    let p2 = p.clone();
    let r = in_child(move || {
        warm();
        ip::arm(plan, true);
        let out = call(op);
        let (log, _) = ip::disarm();
        let (c, msg) = match out {
            Out::Ok(()) => (0u8, String::new()),
            Out::Err(e) => (1, e),
            Out::Panic(e) => (2, e),
        };
        let mut b = vec![c];
        b.extend((log.len() as u64).to_le_bytes());
        for r in &log {
            b.push(kind_code(r.kind));
            b.extend((r.len as u64).to_le_bytes());
        }
        b.extend(msg.as_bytes());
        let _ = std::fs::write(&p2, b);
        // the process ends here: no destructor runs
        unsafe { libc::_exit(0) }
    });
    ctx.beat();
    match r {
        Ok(ip::STOP_CODE) => Ok((None, None)),
        Ok(0) => {
            let b = std::fs::read(&p).unwrap_or_default();
            if b.len() < 9 {
                return fail("crash", "the operation's process ended without a result");
            }
            let n = u64::from_le_bytes(b[1..9].try_into().unwrap()) as usize;
            let log = (0..n)
                .map(|i| {
                    let o = 9 + i * 9;
                    Rec { kind: KINDS[b[o] as usize], len: u64::from_le_bytes(b[o + 1..o + 9].try_into().unwrap()) as usize }
                })
                .collect();
            let msg = String::from_utf8_lossy(&b[9 + n * 9..]).to_string();
            match b[0] {
                0 => Ok((Some(log), None)),
                1 => Ok((Some(log), Some(msg))),
                _ => fail("panic", format!("the operation panicked: {}", msg)),
            }
        }
        Ok(c) => fail("crash", format!("the operation's process exited with {}", c)),
        Err(s) => fail("crash", format!("the operation's process died from signal {}", s)),
    }
}

struct W {
    r: RefTree<E>,
    cfg: StoreConfig,
    replica: PathBuf,
}
fn world(dir: &Path, arity: usize, rows: usize, leafs: Vec<E>) -> W {
    let r = RefTree::new(leafs, arity, true);
    let replica = dir.join("replica");
    write_file(&replica, &to_bytes(&r.rows[0]));
    W { r, cfg: StoreConfig::new(dir, "t", rows), replica }
}
impl W {
    fn path(&self) -> PathBuf {
        StoreConfig::data_path(&self.cfg.path, &self.cfg.id)
    }
    fn v1(&self) -> Vec<u8> {
        let nodes = self.r.nodes();
        let mut b = to_bytes(&self.r.rows[0]);
        b.extend(to_bytes(&nodes[nodes.len() - self.r.cached_nodes(self.cfg.rows_to_discard)..]));
        b
    }
    fn v2(&self) -> Vec<u8> {
        let nodes = self.r.nodes();
        to_bytes(&nodes[nodes.len() - self.r.cached_nodes(self.cfg.rows_to_discard)..])
    }
    fn size_class(&self, b: &Option<Vec<u8>>) -> &'static str {
        let (f, v1, v2) = (self.r.len() * 8, self.v1().len(), self.v2().len());
        match b {
            None => "no",
            Some(b) if b.len() == f => "a full-size",
            Some(b) if b.len() == v1 => "a v1-size",
            Some(b) if b.len() == v2 => "a v2-size",
            Some(b) if b.is_empty() => "an empty",
            Some(_) => "an odd-size",
        }
    }
    fn complete(&self, b: &Option<Vec<u8>>, cached: bool) -> bool {
        match b {
            None => false,
            Some(b) if cached => *b == self.v1() || *b == self.v2(),
            Some(b) => *b == self.r.bytes(),
        }
    }
}

/// The tree is exactly the expected one.
fn right<S: Store<E>, U: Unsigned>(t: &T<S, U>, w: &W, cached: bool) -> bool {
    let ok = || -> anyhow::Result<bool> {
        let nodes = w.r.nodes();
        if t.root() != w.r.root() || t.len() != w.r.len() || t.leafs() != w.r.leafs() {
            return Ok(false);
        }
        let d = w.cfg.rows_to_discard;
        let cs = if cached { nodes.len() - w.r.cached_nodes(d) } else { w.r.leafs() };
        for i in (0..w.r.leafs()).chain(cs..nodes.len()) {
            if t.read_at(i)? != nodes[i] {
                return Ok(false);
            }
        }
        for i in 0..w.r.leafs() {
            let p = if cached { t.gen_cached_proof(i, Some(d))? } else { t.gen_proof(i)? };
            let (l, path) = w.r.proof(i);
            if *p.lemma() != l || *p.path() != path || !p.validate::<A>()? {
                return Ok(false);
            }
        }
        Ok(true)
    };
    matches!(call(ok), Out::Ok(true))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Disk,
    Mmap,
    Lc,
}

const NAMED: [Ctor; 7] = [
    Ctor::NewCfg, Ctor::ByteSliceCfg, Ctor::FromDataCfg, Ctor::TryIterCfg, Ctor::ParCfg, Ctor::TreeSliceCfg, Ctor::DataStoreCfg,
];

/// A way to get at the tree: its name and whether it gave a right (`Some(true)`), a wrong
/// (`Some(false)`) or no tree.
fn attempt<U: Unsigned>(api: usize, st: St, w: &W, it: &[E], ctor: Ctor) -> Option<(&'static str, Option<bool>)> {
    fn tree<S: Store<E>, U: Unsigned>(w: &W, f: impl FnOnce() -> anyhow::Result<S>, cached: bool) -> Option<bool> {
        match call(|| T::<S, U>::from_data_store(f()?, w.r.leafs())) {
            Out::Ok(t) => Some(right(&t, w, cached)),
            _ => None,
        }
    }
    fn re<S: Store<E>, U: Unsigned>(w: &W, it: &[E], ctor: Ctor, fin: impl FnOnce(T<S, U>) -> anyhow::Result<T<S, U>>, cached: bool) -> Option<bool> {
        match call(|| construct::<E, A, S, U>(ctor, it, &w.r, &w.cfg)) {
            Out::Ok(t) => match call(|| fin(t)) {
                Out::Ok(t) => Some(right(&t, w, cached)),
                _ => Some(false),
            },
            _ => None,
        }
    }
    let len = w.r.len();
    Some(match (api, st) {
        (0, St::Disk) => ("DiskStore::new_from_disk", tree::<_, U>(w, || DiskStore::<E>::new_from_disk(len, U::to_usize(), &w.cfg), false)),
        (0, St::Mmap) => ("MmapStore::new_from_disk", tree::<_, U>(w, || MmapStore::<E>::new_from_disk(len, U::to_usize(), &w.cfg), false)),
        (0, St::Lc) => (
            "LevelCacheStore::new_from_disk",
            tree::<_, U>(
                w,
                || {
                    let mut s = Lc::<E>::new_from_disk(len, U::to_usize(), &w.cfg)?;
                    s.set_external_reader(ExternalReader::new_from_path(&w.replica)?)?;
                    Ok(s)
                },
                true,
            ),
        ),
        (1, St::Disk) => ("DiskStore::new_from_disk_with_path", tree::<_, U>(w, || DiskStore::<E>::new_from_disk_with_path(len, w.path()), false)),
        (1, St::Mmap) => return None,
        (1, St::Lc) => (
            "LevelCacheStore::new_from_disk_with_reader",
            tree::<_, U>(w, || Lc::<E>::new_from_disk_with_reader(len, U::to_usize(), &w.cfg, ExternalReader::new_from_path(&w.replica)?), true),
        ),
        (2, St::Disk) => ("recreate", re::<DiskStore<E>, U>(w, it, ctor, Ok, false)),
        (2, St::Mmap) => ("recreate", re::<MmapStore<E>, U>(w, it, ctor, Ok, false)),
        (2, St::Lc) => (
            "recreate",
            re::<Lc<E>, U>(
                w,
                it,
                ctor,
                |mut t| {
                    t.set_external_reader_path(&w.replica)?;
                    Ok(t)
                },
                true,
            ),
        ),
        // v1 data without the replica
        (3, St::Lc) if std::fs::metadata(w.path()).map(|m| m.len() as usize == w.v1().len()).unwrap_or(false) => {
            ("LevelCacheStore::new_from_disk without a reader", tree::<_, U>(w, || Lc::<E>::new_from_disk(len, U::to_usize(), &w.cfg), true))
        }
        _ => return None,
    })
}


fn attempt_of(arity: usize, api: usize, st: St, w: &W, it: &[E], ctor: Ctor) -> Option<(&'static str, Option<bool>)> {
    match arity {
        2 => attempt::<U2>(api, st, w, it, ctor),
        4 => attempt::<U4>(api, st, w, it, ctor),
        _ => attempt::<U8>(api, st, w, it, ctor),
    }
}

/// Open or build the tree again after the stop, in one of the possible ways.
fn aftermath(ctx: &mut Ctx, kinds: &[St], w: &W, arity: usize, it: &[E], ctor: Ctor, finished: bool, must_open: bool, what: &str) -> R {
    let bytes = std::fs::read(w.path()).ok();
    let dir = w.cfg.path.clone();
    let rep = std::fs::read(&w.replica).unwrap();
    let ways: Vec<(St, usize)> = kinds
        .iter()
        .flat_map(|st| (0..4).map(move |a| (*st, a)))
        .filter(|(st, a)| match st {
            St::Disk => *a < 3,
            St::Mmap => *a == 0 || *a == 2,
            St::Lc => true,
        })
        .collect();
    let way = ctx.choose("reopen", ways.len() + 1);
    let others: Vec<_> = snapshot(&dir).into_iter().filter(|(n, _)| !n.contains("sc-02-data-t.dat")).collect();
    let cls = w.size_class(&bytes);
    let opened = ctx.dir.with_extension("opened");
    let _ = std::fs::remove_file(&opened);
    REOPENS.fetch_add(1, SeqCst);
    in_process(ctx, what, || {
        if way == ways.len() {
            // after deletion the tree can be built again
            let st = kinds[0];
            if bytes.is_some() {
                let d = match st {
                    St::Disk => call(|| DiskStore::<E>::delete(w.cfg.clone())),
                    St::Mmap => call(|| MmapStore::<E>::delete(w.cfg.clone())),
                    St::Lc => call(|| Lc::<E>::delete(w.cfg.clone())),
                };
                d.must("delete after the stop")?;
                check!(!w.path().exists(), "delete", "deletion left the file");
            }
            if let Some((_, res)) = attempt_of(arity, 2, st, w, it, ctor) {
                check!(res == Some(true), "rebuild", "building again after deleting the interrupted tree gave {:?}", res);
            }
            return Ok(());
        }
        let (st, api) = ways[way];
        let (name, res) = match attempt_of(arity, api, st, w, it, ctor) {
            Some(x) => x,
            None => return Ok(()),
        };
        match res {
            Some(true) => {
                let _ = std::fs::write(&opened, "1");
            }
            Some(false) => {
                let k = if finished {
                    format!("{:?} {}: a wrong tree after the operation had returned", st, name)
                } else {
                    format!("{:?} {}: accepted {} file with incomplete content", st, name, cls)
                };
                return fail(k, format!("{:?} {} gave a wrong tree from {} file", st, name, cls));
            }
            None => {
                // completed work must not be lost
                let good = match st {
                    // refusing to create a tree over an existing one is fine
                    _ if api == 2 => false,
                    St::Lc if api == 1 => bytes.as_ref() == Some(&w.v2()),
                    St::Lc => w.complete(&bytes, true),
                    _ => w.complete(&bytes, false),
                };
                check!(!(good && (finished || must_open)), format!("{:?} {}: complete tree refused", st, name), "{:?} {} refused the complete {} file", st, name, cls);
            }
        }
        check!(api == 2 || std::fs::read(w.path()).ok() == bytes, "opening changed the file", "{:?} {} changed the file", st, name);
        Ok(())
    })?;
    if std::fs::metadata(&opened).is_ok() {
        REOPENED.fetch_add(1, SeqCst);
    }
    check!(std::fs::read(&w.replica).ok() == Some(rep), "replica", "the replica changed");
    let now: Vec<_> = snapshot(&dir).into_iter().filter(|(n, _)| !n.contains("sc-02-data-t.dat")).collect();
    check!(now == others, "other files", "other files changed");
    Ok(())
}

/// Choose a stop point of an operation whose calls are `log`; `None`: the operation completes.
fn choose_stop(ctx: &mut Ctx, log: &[Rec], deep: bool) -> Option<(usize, Fault)> {
    let k = ctx.choose("stop", log.len() + 1);
    if k == log.len() {
        FINISHED.fetch_add(1, SeqCst);
        return None;
    }
    let mut v = vec![Fault::Stop];
    match log[k].kind {
        Kind::Pwrite | Kind::Write => {
            let n = log[k].len;
            let mut l = if deep { (1..n).step_by(if n > 64 { 8 } else { 1 }).collect() } else { vec![1, n / 2, n.saturating_sub(1), 8, 16] };
            l.sort();
            l.dedup();
            v.extend(l.into_iter().filter(|x| *x > 0 && *x < n).map(Fault::Torn));
        }
        Kind::Copy => v.extend(if deep { (1..120).step_by(4).map(Fault::Torn).collect::<Vec<_>>() } else { vec![Fault::Torn(1), Fault::Torn(8), Fault::Torn(13), Fault::Torn(16), Fault::Torn(24)] }),
        _ => {}
    }
    if log[k].kind != Kind::Mark {
        // not a stop of the process, but an error that ends the operation
        v.push(Fault::Errno(libc::EIO));
        v.push(Fault::Sticky(libc::ENOSPC));
    }
    let f = ctx.pick("how", &v);
    if matches!(f, Fault::Errno(_) | Fault::Sticky(_)) {
        FAILED.fetch_add(1, SeqCst);
    } else if f == Fault::Stop {
        STOPS.fetch_add(1, SeqCst);
    } else {
        TORN.fetch_add(1, SeqCst);
    }
    Some((k, f))
}

/// A persisted operation under test.
struct Op {
    prep: Box<dyn Fn(&W)>,
    run: Box<dyn Fn(&W, &[E]) -> anyhow::Result<()>>,
    kinds: Vec<St>,
    ctor: Ctor,
    n: usize,
    arity: usize,
    rows: usize,
    /// what the file holds when the operation has returned
    done: Box<dyn Fn(&W) -> Vec<Vec<u8>>>,
    /// the tree is already complete before the operation: it must never be lost
    preserves: bool,
    /// the operation is given something that makes it fail
    fails: bool,
}

fn scenario(spec: &mut Spec, name: String, ops: Vec<(String, Op)>, deep: bool) {
    let cache: RefCell<HashMap<usize, Vec<Rec>>> = RefCell::new(HashMap::new());
    spec.add(name, move |ctx| {
        let oi = ctx.choose("operation", ops.len());
        let op = &ops[oi].1;
        ctx.note(|| ops[oi].0.clone());
        let it = items::<E>(Pat::Distinct, 18, op.n);
        let leafs = op.ctor.leaf_row(&it);
        if cache.borrow().get(&oi).is_none() {
            let d = ctx.dir.join("d");
            std::fs::create_dir_all(&d).unwrap();
            let w = world(&d, op.arity, op.rows, leafs.clone());
            (op.prep)(&w);
            let (log, err) = stopped(ctx, &[], || (op.run)(&w, &it))?;
            if let Some(e) = err {
                check!(op.fails, "operation:err", "{}: {}", ops[oi].0, e);
            }
            cache.borrow_mut().insert(oi, log.unwrap());
            std::fs::remove_dir_all(&d).unwrap();
        }
        let log = cache.borrow()[&oi].clone();
        let stop = choose_stop(ctx, &log, deep);
        let d = ctx.dir.join("r");
        std::fs::create_dir_all(&d).unwrap();
        let w = world(&d, op.arity, op.rows, leafs);
        (op.prep)(&w);
        let plan: Vec<_> = stop.into_iter().collect();
        let (ran, err) = stopped(ctx, &plan, || (op.run)(&w, &it))?;
        let what = format!("{} stopped {:?} of {} calls", ops[oi].0, stop.map(|s| (s.0, s.1, log[s.0].kind)), log.len());
        let faulty = matches!(stop, Some((_, Fault::Errno(_) | Fault::Sticky(_))));
        check!(err.is_none() || faulty || op.fails, "operation:err", "{}: {:?}", what, err);
        check!(!(op.fails && ran.is_some() && err.is_none()), "operation:ok", "{}: the operation succeeded", what);
        let finished = ran.is_some() && err.is_none();
        if finished {
            let have = std::fs::read(w.path()).unwrap_or_default();
            let ok = (op.done)(&w);
            if !ok.is_empty() {
                check!(ok.contains(&have), "contents after the operation had returned", "{}: the file holds {} bytes that are not the tree", what, have.len());
            }
        }
        if op.preserves {
            let have = std::fs::read(w.path()).unwrap_or_default();
            check!((op.done)(&w).contains(&have), "complete tree lost", "{}: the file of the complete tree holds {} bytes that are not the tree", what, have.len());
        }
        ctx.op(1 + log.len());
        ctx.state(h64(oi as u64, &std::fs::read(w.path()).unwrap_or_default()));
        if op.done.as_ref()(&w).is_empty() {
            // deletion: there or gone
            let have = std::fs::read(w.path()).ok();
            check!(have.is_none() || (!finished && have == Some(w.r.bytes())), "delete", "{}: the file is neither intact nor gone", what);
            return Ok(());
        }
        aftermath(ctx, &op.kinds, &w, op.arity, &it, op.ctor, finished, op.preserves, &what)
    });
}

fn build_op<S: Store<E> + 'static, U: Unsigned + 'static>(st: St, ctor: Ctor, n: usize, rows: usize) -> Op {
    Op {
        prep: Box::new(|_| ()),
        run: Box::new(move |w, it| {
            let t = construct::<E, A, S, U>(ctor, it, &w.r, &w.cfg)?;
            std::mem::forget(t);
            Ok(())
        }),
        kinds: vec![st],
        ctor,
        n,
        arity: U::to_usize(),
        rows,
        done: Box::new(move |w| if st == St::Lc { vec![w.v1(), w.v2()] } else { vec![w.r.bytes()] }),
        preserves: false,
fails: false,
    }
}

fn build(tier: Tier) -> Spec {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let deep = tier == Tier::Thorough;
    let mut s = Spec::new("C18");
    s.level = "fault_enumeration";
    s.technique = "the process is stopped at every call boundary, inside every transfer and before every node of every operation; distinct = distinct (operation, file contents) pairs";
    let ns: &[usize] = if deep { &[2, 4, 8, 16] } else { &[2, 4, 8] };
    let ns4: &[usize] = if deep { &[4, 16, 64] } else { &[4, 16] };
    let ns8: &[usize] = if deep { &[8, 64] } else { &[8] };
    for ctor in NAMED {
        let mk = |st: St| -> Vec<(String, Op)> {
            let mut v = vec![];
            fn of<U: Unsigned + 'static>(v: &mut Vec<(String, Op)>, st: St, ctor: Ctor, ns: &[usize]) {
                let a = U::to_usize();
                for &n in ns {
                    match st {
                        St::Disk => v.push((format!("{:?} a={} n={}", ctor, a, n), build_op::<DiskStore<E>, U>(st, ctor, n, 0))),
                        St::Mmap => v.push((format!("{:?} a={} n={}", ctor, a, n), build_op::<MmapStore<E>, U>(st, ctor, n, 0))),
                        St::Lc => {
                            for rows in 0..log_arity(n, a) {
                                v.push((format!("{:?} a={} n={} rows={}", ctor, a, n, rows), build_op::<Lc<E>, U>(st, ctor, n, rows)));
                            }
                        }
                    }
                }
            }
            of::<U2>(&mut v, st, ctor, ns);
            of::<U4>(&mut v, st, ctor, ns4);
            of::<U8>(&mut v, st, ctor, ns8);
            v
        };
        for st in [St::Disk, St::Mmap, St::Lc] {
            scenario(&mut s, format!("build {:?} with {:?}", st, ctor), mk(st), deep);
        }
    }
    scenario(&mut s, "build large Mmap".into(), vec![("TreeSliceCfg n=2048".to_string(), build_op::<MmapStore<E>, U2>(St::Mmap, Ctor::TreeSliceCfg, 2048, 0))], deep);
    // the leafs end with an error
    fn broken<S: Store<E> + 'static>(st: St, n: usize, rows: usize, at: usize) -> (String, Op) {
        (format!("n={} rows={} error at {}", n, rows, at), Op {
            run: Box::new(move |w, it| {
                let l = it.iter().enumerate().map(move |(i, e)| if i == at { Err(anyhow::anyhow!("broken leaf")) } else { Ok(*e) });
                let t = T::<S>::try_from_iter_with_config(l.collect::<Vec<_>>(), w.cfg.clone())?;
                std::mem::forget(t);
                Ok(())
            }),
            fails: true,
            ..build_op::<S, U2>(st, Ctor::TryIterCfg, n, rows)
        })
    }
    for st in [St::Disk, St::Mmap, St::Lc] {
        let mut ops = vec![];
        for &n in ns {
            for at in 0..n {
                match st {
                    St::Disk => ops.push(broken::<DiskStore<E>>(st, n, 0, at)),
                    St::Mmap => ops.push(broken::<MmapStore<E>>(st, n, 0, at)),
                    St::Lc => ops.push(broken::<Lc<E>>(st, n, 0, at)),
                }
            }
        }
        scenario(&mut s, format!("failing build {:?}", st), ops, deep);
    }
    // compaction of a complete tree
    for v in [1u32, 2] {
        let mut ops = vec![];
        fn of<U: Unsigned + 'static>(ops: &mut Vec<(String, Op)>, v: u32, ns: &[usize]) {
            let a = U::to_usize();
            for &n in ns.iter().filter(|n| **n > a) {
            for rows in 0..log_arity(n, a) {
                if v == 1 && rows == 0 {
                    continue;
                }
                ops.push((format!("compact v{} a={} n={} rows={}", v, a, n, rows), Op {
                    prep: Box::new(|w| write_file(&w.path(), &w.r.bytes())),
                    run: Box::new(move |w, _| {
                        let st = DiskStore::<E>::new_from_disk(w.r.len(), U::to_usize(), &w.cfg)?;
                        let mut t = T::<DiskStore<E>, U>::from_data_store(st, w.r.leafs())?;
                        t.compact(w.cfg.clone(), v)?;
                        std::mem::forget(t);
                        Ok(())
                    }),
                    kinds: vec![St::Disk, St::Mmap, St::Lc],
                    ctor: Ctor::TreeSliceCfg,
                    n,
                    arity: U::to_usize(),
                    rows,
                    done: Box::new(move |w| vec![if v == 1 { w.v1() } else { w.v2() }]),
                    preserves: false,
fails: false,
                }));
            }
        }
        }
        of::<U2>(&mut ops, v, ns);
        of::<U4>(&mut ops, v, ns4);
        of::<U8>(&mut ops, v, &[64]);
        scenario(&mut s, format!("compact v{}", v), ops, deep);
    }
    // operations on a complete tree that must not lose it at any point
    type Run = Box<dyn Fn(&W, &[E]) -> anyhow::Result<()>>;
    let keep: Vec<(&str, Run)> = vec![
        ("open and read a DiskStore", Box::new(|w, _| {
            let t = T::<DiskStore<E>>::from_data_store(DiskStore::new_from_disk(w.r.len(), 2, &w.cfg)?, w.r.leafs())?;
            for i in 0..w.r.leafs() {
                t.gen_proof(i)?;
            }
            Ok(())
        })),
        ("open, sync and drop a DiskStore", Box::new(|w, _| {
            let t = DiskStore::<E>::new_with_config(w.r.len(), 2, w.cfg.clone())?;
            t.sync()?;
            drop(t);
            Ok(())
        })),
        ("recreate a DiskStore", Box::new(|w, it| {
            let _ = construct::<E, A, DiskStore<E>, U2>(Ctor::ByteSliceCfg, it, &w.r, &w.cfg);
            Ok(())
        })),
        ("open, release, map again and drop a MmapStore", Box::new(|w, _| {
            let mut t = MmapStore::<E>::new_from_disk(w.r.len(), 2, &w.cfg)?;
            t.compact(2, w.cfg.clone(), 2)?;
            t.reinit()?;
            t.sync()?;
            drop(t);
            Ok(())
        })),
        ("refused compaction", Box::new(|w, _| {
            let mut t = T::<DiskStore<E>>::from_data_store(DiskStore::new_from_disk(w.r.len(), 2, &w.cfg)?, w.r.leafs())?;
            let c = StoreConfig { rows_to_discard: 9, ..w.cfg.clone() };
            if t.compact(c, 2).is_ok() {
                anyhow::bail!("accepted");
            }
            Ok(())
        })),
        ("refused opening as level-cache store", Box::new(|w, _| {
            let c = StoreConfig { rows_to_discard: 1, ..w.cfg.clone() };
            if Lc::<E>::new_from_disk(w.r.len(), 2, &c).is_ok() {
                anyhow::bail!("accepted");
            }
            Ok(())
        })),
        ("build another tree and a compound tree", Box::new(|w, it| {
            let c = StoreConfig::new(&w.cfg.path, "other", 0);
            let o = construct::<E, A, DiskStore<E>, U2>(Ctor::ByteSliceCfg, it, &w.r, &c)?;
            drop(o);
            let _ = std::fs::remove_file(StoreConfig::data_path(&c.path, "other"));
            Ok(())
        })),
    ];
    let mut ops = vec![];
    for (nm, run) in keep {
        ops.push((nm.to_string(), Op {
            prep: Box::new(|w| write_file(&w.path(), &w.r.bytes())),
            run,
            kinds: vec![St::Disk, St::Mmap],
            ctor: Ctor::ByteSliceCfg,
            n: 8,
            arity: 2,
            rows: 0,
            done: Box::new(|w| vec![w.r.bytes()]),
            preserves: true,
fails: false,
        }));
    }
    scenario(&mut s, "operations on a complete tree".into(), ops, deep);
    // build in one process, with everything that may follow: nothing is lost by a later stop
    let mut ops = vec![];
    for ctor in NAMED {
        ops.push((format!("build with {:?}, then sync, read and drop", ctor), Op {
            prep: Box::new(move |_| ()),
            run: Box::new(move |w, it| {
                // the build itself is not a stop point here
                ip::pause();
                let t = construct::<E, A, DiskStore<E>, U2>(ctor, it, &w.r, &w.cfg)?;
                ip::resume();
                t.data().unwrap().sync()?;
                t.gen_proof(1)?;
                drop(t);
                Ok(())
            }),
            kinds: vec![St::Disk, St::Mmap],
            ctor,
            n: 8,
            arity: 2,
            rows: 0,
            done: Box::new(|w| vec![w.r.bytes()]),
            preserves: true,
fails: false,
        }));
    }
    scenario(&mut s, "operations after the build has returned".into(), ops, deep);
    // deletion
    let mut ops = vec![];
    for st in [St::Disk, St::Mmap, St::Lc] {
        ops.push((format!("delete {:?}", st), Op {
            prep: Box::new(|w| write_file(&w.path(), &w.r.bytes())),
            run: Box::new(move |w, _| match st {
                St::Disk => DiskStore::<E>::delete(w.cfg.clone()),
                St::Mmap => MmapStore::<E>::delete(w.cfg.clone()),
                St::Lc => Lc::<E>::delete(w.cfg.clone()),
            }),
            kinds: vec![],
            ctor: Ctor::ByteSliceCfg,
            n: 4,
            arity: 2,
            rows: 0,
            done: Box::new(|_| vec![]),
            preserves: false,
fails: false,
        }));
    }
    scenario(&mut s, "delete".into(), ops, deep);
    s.bound(format!("trees of arity 2 with {:?} leafs (2048 for one mapped build), of arity 4 with {:?} and of arity 8 with {:?} (compaction: 64), every number of discarded rows, all seven persisting constructors, three stores", ns, ns4, ns8));
    s.bound("stop before every system call, inside every write or in-kernel copy (several prefix lengths), before every leaf and node that is hashed, and after the operation has returned");
    s.assume("process stop, not power loss: what was written before the stop is in the file");
    s.extra = Some(|| {
        serde_json::json!({"stops_at_boundaries": STOPS.load(SeqCst), "stops_inside_transfers": TORN.load(SeqCst), "ended_by_an_error": FAILED.load(SeqCst), "completed": FINISHED.load(SeqCst),
            "reopen_attempts": REOPENS.load(SeqCst), "reopened_correctly": REOPENED.load(SeqCst)})
    });
    s
}

fn main() {
    mc::engine::main(build)
}
