//! C19: concurrent readers of one tree always see the sequential result.
use std::path::Path;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

use anyhow::Result;
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use sys::alg::PtEl;
use sys::exec::{self, controlled};
use sys::sched::{self, P_FREE_WAKE, P_IO, P_MARK, P_WAKE};
use typenum::{Unsigned, U0, U2, U4};

type A = Alg<true>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    ReadAt(usize),
    Range(usize, usize),
    RangeInto(usize, usize),
    Into(usize),
    Last,
    Proof(usize),
    Cached(usize, Option<usize>),
    StoreRange(usize, usize),
    SyncAll,
}
use Op::*;

trait Reader: Sync {
    fn op(&self, o: Op) -> Result<String>;
}

struct W<E: Element, S: Store<E>, U: Unsigned, N: Unsigned, T: Unsigned>(MerkleTree<E, A, S, U, N, T>);

impl<E, S, U, N, T> Reader for W<E, S, U, N, T>
where
    E: Element,
    A: merkletree::hash::Algorithm<E>,
    S: Store<E>,
    U: Unsigned + Sync + std::fmt::Debug,
    N: Unsigned + Sync,
    T: Unsigned + Sync,
{
    fn op(&self, o: Op) -> Result<String> {
        let n = std::mem::size_of::<E>();
        Ok(match o {
            ReadAt(i) => format!("{:?}", self.0.read_at(i)?),
            Range(a, b) => format!("{:?}", self.0.read_range(a, b)?),
            RangeInto(a, b) => {
                let mut buf = vec![0xAA; (b - a) * n];
                self.0.read_range_into(a, b, &mut buf)?;
                format!("{:?}", buf)
            }
            Into(i) => {
                let mut buf = vec![0xAA; n];
                self.0.read_into(i, &mut buf)?;
                format!("{:?}", buf)
            }
            Last => match self.0.data() {
                Some(d) => format!("{:?} {}", d.last()?, Store::len(d)),
                None => format!("{:?}", self.0.root()),
            },
            StoreRange(a, b) => match self.0.data() {
                Some(d) => format!("{:?}", d.read_range(a..b)?),
                None => String::new(),
            },
            Proof(i) => {
                let p = self.0.gen_proof(i)?;
                anyhow::ensure!(p.validate::<A>()?, "the proof is invalid");
                format!("{:?}", p)
            }
            Cached(i, r) => {
                let p = self.0.gen_cached_proof(i, r)?;
                anyhow::ensure!(p.validate::<A>()?, "the proof is invalid");
                format!("{:?}", p)
            }
            SyncAll => match self.0.data() {
                Some(d) => format!("{:?}", d.sync()?),
                None => String::new(),
            },
        })
    }
}

struct Src(Vec<u8>);
impl std::io::Read for Src {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        panic!("the reader's callback is not used")
    }
}
/// Reads in two steps with points in between.
fn src_reader(b: Vec<u8>) -> ExternalReader<Src> {
    ExternalReader {
        offset: 0,
        source: Src(b),
        read_fn: |start, end, buf, s| {
            let m = (end - start) / 2;
            sched::mark();
            buf[..m].copy_from_slice(&s.0[start..start + m]);
            sched::mark();
            buf[m..end - start].copy_from_slice(&s.0[start + m..end]);
            sched::mark();
            Ok(end - start)
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    InVec,
    Disk,
    AnonDisk,
    Mmap,
    LcV1,
    LcV2,
    LcV2Late,
    LcCustom,
    SubDisk,
    SubLc,
    SubVec,
    TopDisk,
    TopLc,
}
use Kind::*;

const KINDS: [Kind; 13] = [InVec, Disk, AnonDisk, Mmap, LcV1, LcV2, LcV2Late, LcCustom, SubDisk, SubLc, SubVec, TopDisk, TopLc];

/// Put the files there and open the tree.
fn open<E, U>(k: Kind, dir: &Path, r: &[RefTree<E>], rows: usize) -> Result<Box<dyn Reader>>
where
    E: Element + 'static,
    A: merkletree::hash::Algorithm<E>,
    U: Unsigned + Sync + std::fmt::Debug + 'static,
{
    let a = U::to_usize();
    let n = r[0].leafs();
    let len = r[0].len();
    let parts = match k {
        SubDisk | SubLc | SubVec => 2,
        TopDisk | TopLc => 4,
        _ => 1,
    };
    let lc = matches!(k, LcV1 | LcV2 | LcV2Late | LcCustom | SubLc | TopLc);
    let mut cfgs = vec![];
    let mut replica = vec![0u8; 24];
    let mut offsets = vec![];
    for (i, t) in r[..parts].iter().enumerate() {
        let c = StoreConfig::new(dir, format!("t{}", i), if lc { rows } else { 0 });
        let nodes = t.nodes();
        let tail = to_bytes(&nodes[nodes.len() - t.cached_nodes(rows)..]);
        let base = to_bytes(&t.rows[0]);
        let b = match k {
            LcV1 => [base.clone(), tail].concat(),
            _ if lc => tail,
            _ => t.bytes(),
        };
        if !matches!(k, InVec | AnonDisk | SubVec | Mmap) {
            write_file(&StoreConfig::data_path(&c.path, &c.id), &b);
        }
        if lc {
            offsets.push(replica.len());
            replica.extend(base);
        }
        cfgs.push(c);
    }
    if lc {
        write_file(&dir.join("replica"), &replica);
    }
    let rc = ReplicaConfig::new(dir.join("replica"), offsets);
    macro_rules! base {
        ($st:expr) => {
            Box::new(W::<E, _, U, U0, U0>(MerkleTree::from_data_store($st?, n)?))
        };
    }
    Ok(match k {
        InVec => base!(VecStore::<E>::new_from_slice(len, &r[0].bytes())),
        Disk => base!(DiskStore::<E>::new_from_disk(len, a, &cfgs[0])),
        AnonDisk => base!(DiskStore::<E>::new_from_slice(len, &r[0].bytes())),
        Mmap => base!(MmapStore::<E>::new_from_slice(len, &r[0].bytes())),
        LcV1 => base!(LevelCacheStore::<E, std::fs::File>::new_from_disk(len, a, &cfgs[0])),
        LcV2 => base!(LevelCacheStore::<E, _>::new_from_disk_with_reader(len, a, &cfgs[0], ExternalReader::new_from_config(&rc, 0)?)),
        LcV2Late => {
            let mut s = LevelCacheStore::<E, std::fs::File>::new_from_disk(len, a, &cfgs[0])?;
            s.set_external_reader(ExternalReader::new_from_config(&rc, 0)?)?;
            base!(anyhow::Ok(s))
        }
        LcCustom => base!(LevelCacheStore::<E, _>::new_from_disk_with_reader(len, a, &cfgs[0], src_reader(to_bytes(&r[0].rows[0])))),
        SubDisk => Box::new(W(MerkleTree::<E, A, DiskStore<E>, U, U2>::from_store_configs(n, &cfgs)?)),
        SubVec => {
            let v: Result<Vec<_>> = r[..2].iter().map(|t| VecStore::<E>::new_from_slice(len, &t.bytes())).collect();
            Box::new(W(MerkleTree::<E, A, VecStore<E>, U, U2>::from_stores(n, v?)?))
        }
        SubLc => Box::new(W(MerkleTree::<E, A, Lc<E>, U, U2>::from_store_configs_and_replica(n, &cfgs, &rc)?)),
        TopDisk => Box::new(W(MerkleTree::<E, A, DiskStore<E>, U, U2, U2>::from_sub_tree_store_configs(n, &cfgs)?)),
        TopLc => Box::new(W(MerkleTree::<E, A, Lc<E>, U, U2, U2>::from_sub_tree_store_configs_and_replica(n, &cfgs, &rc)?)),
    })
}

/// The operations that a tree of this kind offers.
fn ops(k: Kind, arity: usize, n: usize, rows: usize, len: usize, cached: usize) -> Vec<Op> {
    let parts = match k {
        SubDisk | SubLc | SubVec => 2,
        TopDisk | TopLc => 4,
        _ => 1,
    };
    let _ = arity;
    let mut v = vec![ReadAt(1), ReadAt(n * parts - 1)];
    let full = !matches!(k, LcV1 | LcV2 | LcV2Late | LcCustom | SubLc | TopLc);
    if parts == 1 {
        if k != InVec && k != Mmap {
            v.push(RangeInto(2, n)); // not offered by those
        }
        v.extend([Range(0, 3), Into(4), Last, Range(len - cached, len), StoreRange(1, 4), SyncAll]);
        if full {
            v.push(Range(n - 2, n + 2));
        }
    }
    if full {
        v.extend([Proof(2), Proof(n * parts - 1)]);
    }
    if matches!(k, InVec | SubVec | Mmap) {
        return v; // VecStore and MmapStore offer no cached proofs
    }
    v.extend([Cached(1, Some(rows)), Cached(n * parts - 2, if full { None } else { Some(rows) })]);
    v
}

/// Every thread runs its list of operations on the shared tree; every result is the sequential one.
fn readers<E, U>(ctx: &mut Ctx, k: Kind, r: &[RefTree<E>], rows: usize, lists: &[Vec<Op>], bd: (usize, u32, bool), workers: usize) -> R
where
    E: Element + 'static,
    A: merkletree::hash::Algorithm<E>,
    U: Unsigned + Sync + std::fmt::Debug + 'static,
{
    let dir = ctx.dir.clone();
    controlled(ctx, workers, || {
        rayon::join(|| (), || ());
        // alone, on another instance
        let alone = dir.join("alone");
        std::fs::create_dir(&alone).unwrap();
        let t = call(|| open::<E, U>(k, &alone, r, rows)).must("open")?;
        let mut want = vec![];
        for l in lists {
            let mut v = vec![];
            for o in l {
                v.push(call(|| t.op(*o)).must(&format!("{:?} alone", o))?);
                if let (ReadAt(i), true) = (o, true) {
                    let n = r[0].leafs();
                    let w = format!("{:?}", r[i / n].rows[0][i % n]);
                    check!(*v.last().unwrap() == w, "alone", "{:?} alone differs from the model", o);
                }
            }
            want.push(v);
        }
        let t = call(|| open::<E, U>(k, &dir, r, rows)).must("open")?;
        let t: &dyn Reader = &*t;
        sched::explore(bd.0, bd.1, bd.2);
        let got: Vec<Vec<Out<String>>> = std::thread::scope(|sc| {
            let hs: Vec<_> = lists[1..].iter().map(|l| sc.spawn(move || l.iter().map(|o| call(|| t.op(*o))).collect())).collect();
            let mut v = vec![lists[0].iter().map(|o| call(|| t.op(*o))).collect()];
            v.extend(hs.into_iter().map(|h| h.join().unwrap()));
            v
        });
        sched::quiet();
        for (i, (l, (g, w))) in lists.iter().zip(got.into_iter().zip(want)).enumerate() {
            for (o, (g, w)) in l.iter().zip(g.into_iter().zip(w)) {
                match g {
                    Out::Ok(g) => check!(g == w, "differs", "thread {}: {:?} gives {} instead of {}", i, o, g, w),
                    Out::Err(e) => return fail("error", format!("thread {}: {:?} fails: {}", i, o, e)),
                    Out::Panic(e) => return fail("panic", format!("thread {}: {:?} panics: {}", i, o, e)),
                }
            }
        }
        // nothing has changed for later readers
        for l in lists {
            for o in l {
                call(|| t.op(*o)).must("later")?;
            }
        }
        Ok(())
    })
}

fn build(tier: Tier) -> Spec {
    let mut s = Spec::new("C19");
    let deep = tier == Tier::Thorough;
    let io: u32 = P_IO | P_WAKE | P_MARK | P_FREE_WAKE;
    for k in KINDS {
        for (a, n, rows) in if deep { vec![(2usize, 8usize, 1usize), (4, 16, 1), (2, 16, 2)] } else { vec![(2, 8, 1)] } {
            let rs: Rc<Vec<RefTree<El<8>>>> = Rc::new((0..4).map(|i| RefTree::new(items(Pat::Distinct, 60 + i, n), a, true)).collect());
            let (len, cached) = (rs[0].len(), rs[0].cached_nodes(rows));
            let os = ops(k, a, n, rows, len, cached);
            // two threads, one operation each: with I/O points, (almost) all interleavings
            for o in os.iter().copied() {
                let (os, rs) = (os.clone(), rs.clone());
                s.add(format!("{:?} n={} arity={} rows={}: {:?} with each operation", k, n, a, rows, o), move |ctx| {
                    let p = ctx.pick("other", &os);
                    let cached = |o: Op| matches!(o, Cached(..));
                    let bd = if cached(o) || cached(p) { (if deep { 2 } else { 1 }, io, false) } else { (if deep { 4 } else { 3 }, io, true) };
                    let l = [vec![o], vec![p]];
                    with_small_arity!(a, U, { readers::<El<8>, U>(ctx, k, &rs, rows, &l, bd, 1) })
                });
            }
            // with every use of an element as a point
            let ps: Rc<Vec<RefTree<PtEl>>> = Rc::new((0..4).map(|i| RefTree::new(items::<El<8>>(Pat::Distinct, 60 + i, n).into_iter().map(PtEl).collect(), a, true)).collect());
            if a == 2 && n == 8 {
                for o in os.iter().copied() {
                    let (os, ps) = (os.clone(), ps.clone());
                    s.add(format!("{:?} n={} arity={} rows={}: {:?} with each operation, element points", k, n, a, rows, o), move |ctx| {
                        let p = ctx.pick("other", &os);
                        let heavy = |o: Op| matches!(o, Cached(..));
                        let light = |o: Op| !matches!(o, Cached(..) | Proof(_));
                        let bd = (if heavy(o) || heavy(p) || !deep && !(light(o) && light(p)) { 1 } else { 2 }, io, false);
                        let l = [vec![o], vec![p]];
                        with_small_arity!(a, U, { readers::<PtEl, U>(ctx, k, &ps, rows, &l, bd, 1) })
                    });
                }
            }
            // three threads
            {
                let (os, rs) = (os.clone(), rs.clone());
                let small: Vec<Op> = os.iter().copied().filter(|o| deep || !matches!(o, Cached(..) | SyncAll | Last)).collect();
                for (i, o) in small.clone().into_iter().enumerate() {
                    let (small, rs) = (small.clone(), rs.clone());
                    s.add(format!("{:?} n={} arity={} rows={}: three readers, {:?}", k, n, a, rows, o), move |ctx| {
                        let p = ctx.pick("second", &small[i..]);
                        let q = ctx.pick("third", &small[i..]);
                        let l = [vec![o], vec![p], vec![q]];
                        with_small_arity!(a, U, { readers::<El<8>, U>(ctx, k, &rs, rows, &l, (1, io, true), 1) })
                    });
                }
            }
            // two threads, two operations each
            {
                let (os, rs) = (os.clone(), rs.clone());
                let small: Vec<Op> = os.iter().copied().filter(|o| matches!(o, ReadAt(_) | Range(..) | Into(_) | Proof(2)) || (deep && !matches!(o, SyncAll))).collect();
                for o in small.clone() {
                    let (small, rs) = (small.clone(), rs.clone());
                    s.add(format!("{:?} n={} arity={} rows={}: sequences, {:?} first", k, n, a, rows, o), move |ctx| {
                        let o2 = ctx.pick("o2", &small);
                        let p = ctx.pick("p", &small);
                        let l = [vec![o, o2], vec![p, o]];
                        with_small_arity!(a, U, { readers::<El<8>, U>(ctx, k, &rs, rows, &l, (1, io, false), 1) })
                    });
                }
            }
        }
    }
    s.bound("trees of 8 leafs of arity 2 (thorough: also 16 leafs, arity 4, two discarded rows) in 13 kinds of stores and compounds; two readers with one operation each (every pair), three readers, and sequences of two operations");
    s.bound(if deep { "up to 4 preemptions (2 with element points or cached proofs, 1 with three readers or sequences)" } else { "up to 3 preemptions (1 with element points on proofs, cached proofs, three readers or sequences; 2 for other pairs with element points)" });
    s.bound("preemption is offered at every system call, wake-up and step of an external reader, and in part of the scenarios whenever the code under test reads, copies or sizes an element");
    s.assume("sequential consistency between scheduling points");
    s.extra = Some(|| serde_json::json!({"scheduling_points": exec::POINTS.load(SeqCst), "switches": exec::SWITCHES.load(SeqCst)}));
    s
}

fn main() {
    let _ = std::any::type_name::<U4>();
    mc::engine::main(build)
}
