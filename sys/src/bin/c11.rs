//! C11: parallel building gives the same tree under every thread schedule.
use std::path::Path;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::prelude::*;
use sys::alg::{SparseAlg, PANIC_AT};
use sys::exec::{self, controlled};
use sys::ip::{self, Kind};
use sys::pt::{self, PopStore, PtStore};
use sys::sched::{self, P_IO, P_MARK, P_WAKE};
use typenum::{Unsigned, U2, U4, U8};

type E = El<8>;
type A = SparseAlg<1024>;
const ALL: u32 = P_IO | P_MARK | P_WAKE;

fn warm() {
    rayon::join(|| (), || ());
}

/// How a scenario's schedules are bounded.
#[derive(Clone, Copy)]
struct B {
    workers: usize,
    budget: usize,
    /// choices where the running thread blocks are free of charge
    free: bool,
    kinds: u32,
}
fn b(workers: usize, budget: usize, free: bool) -> B {
    B { workers, budget, free, kinds: ALL }
}
impl B {
    fn tag(&self) -> String {
        format!("{} workers, {} preemptions{}", self.workers, self.budget, if self.free { "" } else { " or delays" })
    }
    fn go(&self) {
        sched::explore(self.budget, self.kinds, self.free);
    }
}

/// Add a scenario in several shards, each exploring a part of the schedules.
fn sharded(s: &mut Spec, name: String, bd: B, n: usize, body: impl Fn(&Path) -> R + 'static) {
    let body = Rc::new(body);
    for i in 0..n {
        let body = body.clone();
        let name = format!("{}, {}{}", name, bd.tag(), if n > 1 { format!(" ({} of {})", i + 1, n) } else { String::new() });
        s.add(name, move |ctx| {
            let dir = ctx.dir.clone();
            controlled(ctx, bd.workers, || {
                sched::shard(i, n);
                warm();
                body(&dir)
            })
        });
    }
}

fn hashed(r: &[E], arity: usize, level: usize) -> Vec<E> {
    r.chunks(arity).map(|c| ref_node(c, Some(level))).collect()
}

/// One layer, on a store of the kind given.
fn layer<S: Store<E>, U: Unsigned>(kind: &str, src: &[E], start: usize, bd: B, dir: &Path) -> R {
    let width = src.len();
    let mut leafs = U::to_usize();
    while leafs < start + width * 2 {
        leafs *= U::to_usize();
    }
    let size = get_merkle_tree_len(leafs, U::to_usize()).unwrap();
    let (mut st, file) = match kind {
        "file" => {
            let c = StoreConfig::new(dir, "layer", 0);
            let st = S::new_with_config(size, U::to_usize(), c.clone());
            (st, Some(StoreConfig::data_path(&c.path, &c.id)))
        }
        _ => (S::new(size), None),
    };
    let st = st.as_mut().map_err(|e| Fail { key: "new".into(), msg: e.to_string() })?;
    let pre: Vec<E> = items(Pat::Distinct, 77, start);
    let mut all = pre;
    all.extend(src.iter().cloned());
    st.copy_from_slice(&to_bytes(&all), 0).map_err(|e| Fail { key: "fill".into(), msg: e.to_string() })?;
    bd.go();
    let o = call(|| st.process_layer::<A, U>(width, 5, start, start + width));
    sched::quiet();
    o.must("process_layer")?;
    all.extend(hashed(src, U::to_usize(), 5));
    let got = match file {
        Some(p) => std::fs::read(p).unwrap(),
        None => to_bytes(&call(|| st.read_range(0..all.len())).must("read_range")?),
    };
    let n = (start + width) * 8;
    check!(got[..n] == to_bytes(&all)[..n], "source", "the source row or what precedes it changed");
    check!(got[n..all.len() * 8] == to_bytes(&all)[n..], "row", "the new row is not the hashes of its source");
    check!(got[all.len() * 8..].iter().all(|b| *b == 0), "beyond", "something was written beyond the new row");
    Ok(())
}

/// What a complete tree looks like in its file or store.
fn judge<S: Store<E>, U: Unsigned, A2: RefAlg<E>>(t: &MerkleTree<E, A2, S, U>, r: &RefTree<E>, cfg: Option<(&StoreConfig, usize)>, readable: bool) -> R {
    check!(t.root() == r.root(), "root", "the root differs from the sequential tree's");
    check!(t.len() == r.len() && t.leafs() == r.leafs() && t.row_count() == r.row_count(), "shape", "the shape differs");
    if let Some((c, cached)) = cfg {
        let b = std::fs::read(StoreConfig::data_path(&c.path, &c.id)).unwrap();
        let nodes = r.nodes();
        let want = if cached == 0 {
            r.bytes()
        } else {
            // LevelCacheStore keeps the cached rows only
            to_bytes(&nodes[nodes.len() - cached..])
        };
        check!(b == want, "file", "the file differs from the sequential tree's");
    }
    if readable {
        let v = call(|| t.read_range(0, r.len())).must("read_range")?;
        check!(v == r.nodes(), "nodes", "the nodes differ from the sequential tree's");
    }
    Ok(())
}

fn tree<S: Store<E>, U: Unsigned, A2: RefAlg<E>>(ctor: Ctor, its: &[E], r: &RefTree<E>, rows: usize, readable: bool, bd: B, dir: &Path) -> R {
    let cfg = StoreConfig::new(dir, "t", rows);
    bd.go();
    let o = call(|| construct::<E, A2, S, U>(ctor, its, r, &cfg));
    sched::quiet();
    let t = o.must("build")?;
    let lc = !readable;
    let file = ctor.named() && std::any::type_name::<S>().contains("LevelCache") || ctor.named() && std::any::type_name::<S>().contains("Disk");
    let cached = if lc { r.cached_nodes(rows) } else { 0 };
    judge(&t, r, if file { Some((&cfg, cached)) } else { None }, readable)
}

fn failing<S: Store<E>, U: Unsigned, A2: RefAlg<E>>(ctor: Ctor, its: &[E], r: &RefTree<E>, rows: usize, bd: B, dir: &Path, hit: fn() -> bool) -> R {
    let cfg = StoreConfig::new(dir, "t", rows);
    bd.go();
    let o = call(|| construct::<E, A2, S, U>(ctor, its, r, &cfg));
    sched::quiet();
    if !hit() {
        // nothing failed: then there must be a tree
        return o.must("build").map(|_| ());
    }
    match o {
        Out::Ok(_) => fail("swallowed", "a worker failed, and a tree was returned"),
        Out::Err(_) => Ok(()),
        Out::Panic(p) => fail("panic", format!("a worker's error became a panic: {}", p)),
    }
}

fn build(tier: Tier) -> Spec {
    let mut s = Spec::new("C11");
    let deep = tier == Tier::Thorough;

    // one layer
    let bounds: Vec<(B, usize)> = if deep {
        vec![(b(1, 3, true), 1), (b(2, 3, true), 4), (b(3, 2, true), 4), (b(4, 2, true), 8)]
    } else {
        vec![(b(1, 2, true), 1), (b(2, 2, true), 1), (b(3, 1, true), 1)]
    };
    for (bd, sh) in &bounds {
        let bd = *bd;
        let heavy = bd.workers > 2;
        let mut shapes = vec![(2, 8192, 0), (2, 8200, 0), (2, 8194, 6), (4, 8192, 0), (8, 8200, 8), (2, 4096, 0), (4, 4100, 4)];
        if !heavy || deep {
            shapes.push((2, 12288, 0));
            shapes.push((8, 12296, 0));
        }
        for (a, w, st) in shapes {
            let src = items::<E>(Pat::Distinct, 3, w);
            macro_rules! add {
                ($S:ty, $kind:expr, $nm:expr) => {{
                    let src = src.clone();
                    sharded(&mut s, format!("layer of {} nodes from {}, arity {}, {}", w, st, a, $nm), bd, *sh, move |dir| match a {
                        2 => layer::<$S, U2>($kind, &src, st, bd, dir),
                        4 => layer::<$S, U4>($kind, &src, st, bd, dir),
                        _ => layer::<$S, U8>($kind, &src, st, bd, dir),
                    });
                }};
            }
            add!(PtStore<E>, "mem", "store with scheduling points");
            add!(DiskStore<E>, "file", "DiskStore");
            add!(Lc<E>, "file", "LevelCacheStore");
            if a == 2 {
                add!(VecStore<E>, "mem", "VecStore");
                add!(MmapStore<E>, "mem", "MmapStore");
            }
        }
    }

    // whole trees
    let bounds: Vec<(B, usize)> = if deep {
        vec![(b(1, 2, false), 1), (b(2, 3, false), 8), (b(3, 2, false), 4), (b(4, 2, false), 4)]
    } else {
        vec![(b(1, 1, false), 1), (b(2, 1, false), 1), (b(3, 1, false), 1)]
    };
    for (bd, sh) in &bounds {
        let bd = *bd;
        for (a, n) in [(2usize, 8192usize), (4, 16384), (8, 32768)] {
            if !deep && bd.workers == 1 && a != 2 {
                continue;
            }
            let its = items::<E>(Pat::Distinct, 5, n);
            let mut add = |ctor: Ctor, kind: &'static str, rows: usize| {
                let its = its.clone();
                // the cheapest one is explored deeper
                let (bd, sh) = if !deep && kind == "PtStore" && a == 2 && bd.workers == 2 { (b(2, 2, false), 4) } else { (bd, *sh) };
                let r = RefTree::<E>::new(ctor.leaf_row(&its), a, true);
                let name = format!("tree of {} leafs, arity {}, {:?}, {}{}", n, a, ctor, kind, if kind == "LevelCacheStore" { format!(" discarding {}", rows) } else { String::new() });
                sharded(&mut s, name, bd, sh, move |dir| {
                    macro_rules! t {
                        ($U:ty) => {
                            match kind {
                                "PtStore" => tree::<PtStore<E>, $U, A>(ctor, &its, &r, rows, true, bd, dir),
                                "VecStore" => tree::<VecStore<E>, $U, A>(ctor, &its, &r, rows, true, bd, dir),
                                "MmapStore" => tree::<MmapStore<E>, $U, A>(ctor, &its, &r, rows, true, bd, dir),
                                "DiskStore" => tree::<DiskStore<E>, $U, A>(ctor, &its, &r, rows, true, bd, dir),
                                _ => tree::<Lc<E>, $U, A>(ctor, &its, &r, rows, false, bd, dir),
                            }
                        };
                    }
                    match a {
                        2 => t!(U2),
                        4 => t!(U4),
                        _ => t!(U8),
                    }
                });
            };
            add(Ctor::ByteSlice, "PtStore", 0);
            add(Ctor::ByteSliceCfg, "DiskStore", 0);
            add(Ctor::ByteSliceCfg, "LevelCacheStore", 1);
            add(Ctor::ParCfg, "LevelCacheStore", 2);
            if deep || a == 2 {
                add(Ctor::Par, "VecStore", 0);
                add(Ctor::ByteSlice, "DiskStore", 0);
                add(Ctor::ParCfg, "MmapStore", 0);
                add(Ctor::NewCfg, "LevelCacheStore", StoreConfig::default_rows_to_discard(n, a));
            }
        }
    }

    // small trees: every node is a scheduling point
    type A1 = SparseAlg<1>;
    let bounds: Vec<B> = if deep { vec![b(2, 3, false), b(3, 2, false), b(4, 2, false)] } else { vec![b(2, 2, false), b(3, 1, false)] };
    for bd in bounds {
        for (a, n) in [(2usize, 8usize), (2, 16), (4, 16), (8, 64)] {
            let bd = if !deep && n > 8 { B { budget: 1, ..bd } } else { bd };
            for kind in ["PtStore", "VecStore"] {
                let its = items::<E>(Pat::Distinct, 6, n);
                let r = RefTree::<E>::new(Ctor::Par.leaf_row(&its), a, true);
                sharded(&mut s, format!("small tree of {} leafs, arity {}, {}", n, a, kind), bd, if deep { 4 } else { 1 }, move |dir| {
                    macro_rules! t {
                        ($U:ty) => {
                            match kind {
                                "PtStore" => tree::<PtStore<E>, $U, A1>(Ctor::Par, &its, &r, 0, true, bd, dir),
                                _ => tree::<VecStore<E>, $U, A1>(Ctor::Par, &its, &r, 0, true, bd, dir),
                            }
                        };
                    }
                    match a {
                        2 => t!(U2),
                        4 => t!(U4),
                        _ => t!(U8),
                    }
                });
            }
        }
    }

    // populating in parallel: more than one block of leafs
    type AP = SparseAlg<131072>;
    let block = BUILD_DATA_BLOCK_SIZE;
    let bounds: Vec<(B, usize, usize)> = if deep {
        vec![(b(1, 2, true), 2, 1), (b(2, 3, true), 2, 4), (b(2, 2, false), 4, 4), (b(3, 2, true), 2, 8), (b(4, 1, false), 4, 4), (b(4, 2, false), 8, 4)]
    } else {
        vec![(b(1, 1, true), 2, 1), (b(2, 2, true), 2, 4), (b(3, 1, true), 2, 4), (b(3, 1, false), 4, 4)]
    };
    for (bd, blocks, sh) in bounds {
        let n = block * blocks;
        let its = Rc::new(items::<E>(Pat::Distinct, 8, n));
        let row = Rc::new(Ctor::Par.leaf_row(&its));
        sharded(&mut s, format!("populate {} blocks", blocks), bd, sh, move |_| {
            let v = its.to_vec();
            bd.go();
            let o = call(|| MerkleTree::<E, AP, PopStore<E>, U2>::from_par_iter(v.into_par_iter()));
            sched::quiet();
            let t = o.must("from_par_iter")?;
            let d = t.data().unwrap();
            check!(d.v.len() == n, "length", "{} leafs were stored", d.v.len());
            check!(d.w.iter().all(|w| *w), "unwritten", "a leaf was never written");
            check!(d.v == *row, "leafs", "the stored leafs are not the items' in order");
            Ok(())
        });
    }
    // ... and the complete tree, on the crate's stores
    for kind in ["VecStore", "MmapStore", "DiskStore", "LevelCacheStore"] {
        let n = block * 2;
        let its = Rc::new(items::<E>(Pat::Distinct, 9, n));
        let r = Rc::new(RefTree::<E>::new(Ctor::Par.leaf_row(&its), 2, true));
        let bd = B { workers: 2, budget: 1, free: false, kinds: if deep { ALL } else { P_MARK } };
        sharded(&mut s, format!("tree of {} leafs in parallel, {}", n, kind), bd, if deep { 4 } else { 2 }, move |dir| {
            type A4 = SparseAlg<262144>;
            match kind {
                "VecStore" => tree::<VecStore<E>, U2, A4>(Ctor::Par, &its, &r, 0, true, bd, dir),
                "MmapStore" => tree::<MmapStore<E>, U2, A4>(Ctor::ParCfg, &its, &r, 0, true, bd, dir),
                "DiskStore" => tree::<DiskStore<E>, U2, A4>(Ctor::ParCfg, &its, &r, 0, true, bd, dir),
                _ => tree::<Lc<E>, U2, A4>(Ctor::ParCfg, &its, &r, 2, false, bd, dir),
            }
        });
    }

    // errors
    let bounds: Vec<B> = if deep { vec![b(1, 2, false), b(2, 2, false), b(3, 2, false)] } else { vec![b(1, 1, false), b(2, 1, false), b(3, 1, false)] };
    for bd in &bounds {
        let bd = *bd;
        let n = 8192;
        let its = items::<E>(Pat::Distinct, 5, n);
        let r = RefTree::<E>::new(its.clone(), 2, true);
        for (what, at) in [("read", 0), ("read", 4096), ("read", 8192), ("write", 8192), ("write", 8192 + 2048), ("write", 8192 + 4096), ("sync", 0), ("write", 0)] {
            let (its, r) = (its.clone(), r.clone());
            let par = what == "sync" || at == 0 && what == "write";
            sharded(&mut s, format!("failing {} at {}", what, at), bd, 1, move |dir| {
                match what {
                    "read" => pt::FAIL_READ.store(at, SeqCst),
                    "write" => pt::FAIL_WRITE.store(at, SeqCst),
                    _ => pt::FAIL_SYNC.store(0, SeqCst),
                }
                failing::<PtStore<E>, U2, A>(if par { Ctor::Par } else { Ctor::ByteSlice }, &its, &r, 0, bd, dir, || pt::FAILED.load(SeqCst) > 0)
            });
        }
        // a failing read of a chunk
        for nth in [0, 1, 2, 3] {
            for lc in [false, true] {
                let (its, r) = (its.clone(), r.clone());
                sharded(&mut s, format!("failing pread {} of {}", nth, if lc { "LevelCacheStore" } else { "DiskStore" }), bd, 1, move |dir| {
                    ip::nth(Kind::Pread, nth, libc::EIO);
                    if lc {
                        failing::<Lc<E>, U2, A>(Ctor::ByteSliceCfg, &its, &r, 1, bd, dir, || ip::hits() > 0)
                    } else {
                        failing::<DiskStore<E>, U2, A>(Ctor::ByteSliceCfg, &its, &r, 0, bd, dir, || ip::hits() > 0)
                    }
                });
            }
        }
        // a panicking worker
        for at in [1, 2000, 4097, 6000, 8191] {
            for kind in ["PtStore", "DiskStore", "LevelCacheStore"] {
                let (its, r) = (its.clone(), r.clone());
                sharded(&mut s, format!("panic in hash {}, {}", at, kind), bd, 1, move |dir| {
                    PANIC_AT.store(at, SeqCst);
                    let cfg = StoreConfig::new(dir, "t", 1);
                    bd.go();
                    let o = match kind {
                        "PtStore" => call(|| construct::<E, A, PtStore<E>, U2>(Ctor::ByteSlice, &its, &r, &cfg).map(|_| ())),
                        "DiskStore" => call(|| construct::<E, A, DiskStore<E>, U2>(Ctor::ByteSlice, &its, &r, &cfg).map(|_| ())),
                        _ => call(|| construct::<E, A, Lc<E>, U2>(Ctor::ByteSliceCfg, &its, &r, &cfg).map(|_| ())),
                    };
                    sched::quiet();
                    check!(!o.is_ok(), "swallowed", "a worker panicked, and a tree was returned");
                    Ok(())
                });
            }
        }
    }
    // a failing block of the leafs
    for (what, bd) in [("write", b(2, 1, true)), ("panic", b(2, 1, true)), ("sync", b(2, 1, true)), ("write", b(3, 1, false))] {
        // (the middle one: a missing last one is noticed by the store)
        let n = block * 4;
        let its = Rc::new(items::<E>(Pat::Distinct, 8, n));
        for at in [0, block * 2] {
            if what == "sync" && at > 0 {
                continue;
            }
            let its = its.clone();
            sharded(&mut s, format!("populate with a failing {} at {}", what, at), bd, 2, move |_| {
                match what {
                    "write" => pt::FAIL_WRITE.store(at as isize, SeqCst),
                    "sync" => pt::FAIL_SYNC.store(0, SeqCst),
                    _ => PANIC_AT.store(at + 7, SeqCst),
                }
                let v = its.to_vec();
                bd.go();
                let o = call(|| MerkleTree::<E, AP, PopStore<E>, U2>::from_par_iter(v.into_par_iter()));
                sched::quiet();
                check!(!o.is_ok(), "swallowed", "a worker failed, and a tree was returned");
                check!(what == "panic" || !o.is_panic(), "panic", "a worker's error became a panic");
                Ok(())
            });
        }
    }

    // builds at the same time, from outside and from inside of the pool
    let bounds: Vec<B> = if deep { vec![b(1, 2, false), b(2, 2, false), b(3, 2, false)] } else { vec![b(1, 1, false), b(2, 1, false)] };
    for bd in &bounds {
        let bd = *bd;
        let n = 64;
        type A16 = SparseAlg<16>;
        let its: Vec<Vec<E>> = (0..2).map(|i| items::<E>(Pat::Distinct, 40 + i, n)).collect();
        let r: Vec<RefTree<E>> = its.iter().map(|i| RefTree::new(Ctor::Par.leaf_row(i), 2, true)).collect();
        for kind in ["DiskStore", "LevelCacheStore", "VecStore", "anonymous DiskStore", "MmapStore"] {
            for inside in [false, true] {
                let (its, r) = (its.clone(), r.clone());
                sharded(&mut s, format!("two trees at the same time {} the pool, {}", if inside { "inside" } else { "outside" }, kind), bd, 2, move |dir| {
                    let one = |i: usize| -> R {
                        let cfg = StoreConfig::new(dir, format!("t{}", i), 1);
                        match kind {
                            "DiskStore" => {
                                let t = call(|| construct::<E, A16, DiskStore<E>, U2>(Ctor::ParCfg, &its[i], &r[i], &cfg)).must("build")?;
                                judge(&t, &r[i], Some((&cfg, 0)), true)
                            }
                            "LevelCacheStore" => {
                                let t = call(|| construct::<E, A16, Lc<E>, U2>(Ctor::ParCfg, &its[i], &r[i], &cfg)).must("build")?;
                                judge(&t, &r[i], Some((&cfg, r[i].cached_nodes(1))), false)
                            }
                            "MmapStore" => {
                                let t = call(|| construct::<E, A16, MmapStore<E>, U2>(Ctor::ParCfg, &its[i], &r[i], &cfg)).must("build")?;
                                judge(&t, &r[i], None, true)
                            }
                            "VecStore" => {
                                let t = call(|| construct::<E, A16, VecStore<E>, U2>(Ctor::Par, &its[i], &r[i], &cfg)).must("build")?;
                                judge(&t, &r[i], None, true)
                            }
                            _ => {
                                let t = call(|| construct::<E, A16, DiskStore<E>, U2>(Ctor::Par, &its[i], &r[i], &cfg)).must("build")?;
                                judge(&t, &r[i], None, true)
                            }
                        }
                    };
                    bd.go();
                    let v: Vec<R> = if inside {
                        (0..2).into_par_iter().map(one).collect()
                    } else {
                        std::thread::scope(|sc| {
                            let one = &one;
                            let h: Vec<_> = (0..2).map(|i| sc.spawn(move || one(i))).collect();
                            h.into_iter().map(|h| h.join().unwrap()).collect()
                        })
                    };
                    sched::quiet();
                    for (i, x) in v.into_iter().enumerate() {
                        x.map_err(|f| Fail { key: f.key, msg: format!("tree {}: {}", i, f.msg) })?;
                    }
                    Ok(())
                });
            }
        }
    }

    // parallel iteration
    let bounds: Vec<B> = if deep { vec![b(2, 3, false), b(3, 2, false), b(4, 2, false)] } else { vec![b(2, 1, false), b(3, 1, false)] };
    for bd in &bounds {
        let bd = *bd;
        for n in [5usize, 12] {
            let its = items::<E>(Pat::Distinct, 50, n);
            for kind in ["DiskStore", "VecStore"] {
                let its = its.clone();
                sharded(&mut s, format!("iteration over {} elements, {}", n, kind), bd, 1, move |_| {
                    macro_rules! go {
                        ($S:ty) => {{
                            let st = <$S>::new_from_slice(n, &to_bytes(&its)).unwrap();
                            bd.go();
                            let v: Vec<E> = st
                                .into_par_iter()
                                .map(|e| {
                                    sched::mark();
                                    e
                                })
                                .collect();
                            sched::quiet();
                            v
                        }};
                    }
                    let v: Vec<E> = match kind {
                        "DiskStore" => go!(DiskStore<E>),
                        _ => go!(VecStore<E>),
                    };
                    check!(v == its, "order", "the elements differ or are out of order");
                    Ok(())
                });
            }
        }
    }

    s.bound("layers of 4096 to 12296 nodes (1 to 4 chunks, with partial last chunks), trees of 8192 to 32768 leafs (arity 2, 4, 8), leafs in 2 to 8 blocks; pools of 1 to 4 threads");
    s.bound(if deep { "2 to 3 preemptions or delays per execution" } else { "1 to 2 preemptions or delays per execution" });
    s.bound("preemption is offered at system calls, wake-ups, store operations (before and after) and hashes (every 1st to 131072nd)");
    s.assume("sequential consistency between scheduling points; the accesses to nodes between them are protected by the type system (safe Rust) except in the mapped layers, which are compared in full");
    s.extra = Some(|| serde_json::json!({"scheduling_points": exec::POINTS.load(SeqCst), "switches": exec::SWITCHES.load(SeqCst), "threads": exec::MAXTHREADS.load(SeqCst)}));
    s
}

fn main() {
    mc::engine::main(build)
}
