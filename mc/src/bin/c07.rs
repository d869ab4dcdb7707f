//! C07: persisted trees reopen as the same tree; any other file is refused.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::prelude::*;
use std::path::Path;
use typenum::{Unsigned, U0, U1};

type E = El<32>;
type A = Alg<true>;
const V1: u32 = StoreConfigDataVersion::One as u32;
const V2: u32 = StoreConfigDataVersion::Two as u32;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Make {
    /// tree of the given store, through the given constructor
    Disk(Ctor),
    Mmap(Ctor),
    /// DiskStore tree, compacted
    Compact(u32, usize),
    /// level cache store built directly
    Lc(Ctor, usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Drop,
    NoDrop,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Open {
    DiskFromDisk,
    DiskFromPath,
    DiskWithConfig,
    DiskFromSlice,
    DiskIter,
    DiskPar,
    DiskTreeSlice,
    DiskByteSlice,
    DiskConfigs,
    MmapFromDisk,
    MmapWithConfig,
    MmapTreeSlice,
    MmapByteSlice,
    MmapIter,
    MmapConfigs,
    LcFromDisk,
    LcWithConfig,
    LcReader,
    LcLateReader,
    LcIter,
    LcTreeSlice,
    LcConfigs,
    LcConfigsReplica,
}
use Open::*;
const FULL: [Open; 15] = [
    DiskFromDisk, DiskFromPath, DiskWithConfig, DiskFromSlice, DiskIter, DiskPar, DiskTreeSlice, DiskByteSlice, DiskConfigs, MmapFromDisk, MmapWithConfig,
    MmapTreeSlice, MmapByteSlice, MmapIter, MmapConfigs,
];
const LCS: [Open; 8] = [LcFromDisk, LcWithConfig, LcReader, LcLateReader, LcIter, LcTreeSlice, LcConfigs, LcConfigsReplica];

fn reft<U: Unsigned>(n: usize, salt: u64) -> RefTree<E> {
    RefTree::new(items::<E>(Pat::Distinct, salt, n), U::to_usize(), true)
}

/// `items` such that the leaf row of `ctor` is known.
fn tree_for<U: Unsigned>(m: Make, n: usize) -> (Vec<E>, RefTree<E>) {
    let its = items::<E>(Pat::Distinct, 21, n);
    let c = match m {
        Make::Disk(c) | Make::Mmap(c) | Make::Lc(c, _) => c,
        Make::Compact(..) => Ctor::ByteSliceCfg,
    };
    let r = RefTree::new(c.leaf_row(&its), U::to_usize(), true);
    (its, r)
}

fn rows_of(m: Make) -> usize {
    match m {
        Make::Compact(_, r) | Make::Lc(_, r) => r,
        _ => 0,
    }
}

fn create<U: Unsigned>(m: Make, its: &[E], r: &RefTree<E>, cfg: &StoreConfig, end: End) -> R {
    fn fin<T>(t: T, end: End) {
        match end {
            End::Drop => drop(t),
            End::NoDrop => std::mem::forget(t),
        }
    }
    match m {
        Make::Disk(c) => fin(call(|| construct::<E, A, DiskStore<E>, U>(c, its, r, cfg)).must("create")?, end),
        Make::Mmap(c) => fin(call(|| construct::<E, A, MmapStore<E>, U>(c, its, r, cfg)).must("create")?, end),
        Make::Lc(c, _) => fin(call(|| construct::<E, A, Lc<E>, U>(c, its, r, cfg)).must("create")?, end),
        Make::Compact(v, _) => {
            let mut t = call(|| construct::<E, A, DiskStore<E>, U>(Ctor::ByteSliceCfg, its, r, cfg)).must("create")?;
            call(|| t.compact(cfg.clone(), v)).must("compact")?;
            fin(t, end)
        }
    }
    Ok(())
}

fn same_tree<S: Store<E>, U: Unsigned>(t: &MerkleTree<E, A, S, U>, r: &RefTree<E>, cached: Option<usize>, what: &str) -> R {
    check!(t.root() == r.root(), "root", "{}: the reopened tree has another root", what);
    check!(t.leafs() == r.leafs() && t.len() == r.len() && t.row_count() == r.row_count(), "dims", "{}: dimensions {} {} {}", what, t.leafs(), t.len(), t.row_count());
    check!(!t.is_empty(), "is_empty", "{}: empty", what);
    let nodes = r.nodes();
    let cs = match cached {
        None => r.leafs(),
        Some(d) => nodes.len() - r.cached_nodes(d),
    };
    for i in (0..r.leafs()).chain(cs..nodes.len()) {
        let v = call(|| t.read_at(i)).must("read_at")?;
        check!(v == nodes[i], "node", "{}: node {} differs after reopening", what, i);
    }
    let v = call(|| t.read_range(0, r.leafs())).must("read_range")?;
    check!(v[..] == nodes[..r.leafs()], "leafs", "{}: leafs differ after reopening", what);
    let v = call(|| t.read_range(cs, nodes.len())).must("read_range")?;
    check!(v[..] == nodes[cs..], "rows", "{}: rows differ after reopening", what);
    bulk_reads(t, &nodes, 0, r.leafs(), what)?;
    bulk_reads(t, &nodes, cs, nodes.len(), what)?;
    for i in 0..r.leafs() {
        let p = match cached {
            None => call(|| t.gen_proof(i)).must("gen_proof")?,
            Some(d) => call(|| t.gen_cached_proof(i, Some(d))).must("gen_cached_proof")?,
        };
        let (l, path) = r.proof(i);
        check!(*p.lemma() == l && *p.path() == path, "proof", "{}: proof of leaf {} differs after reopening", what, i);
        check!(call(|| p.validate::<A>()).must("validate")?, "validate", "{}: proof of leaf {} is invalid", what, i);
    }
    Ok(())
}

fn compound_of_one<S: Store<E>, U: Unsigned>(t: &MerkleTree<E, A, S, U, U1>, r: &RefTree<E>, cached: Option<usize>, what: &str) -> R {
    check!(t.root() == ref_node(&[r.root()], Some(1)), "root", "{}: root", what);
    for i in 0..r.leafs() {
        let v = call(|| t.read_at(i)).must("read_at")?;
        check!(v == r.rows[0][i], "leaf", "{}: leaf {}", what, i);
        let p = match cached {
            None => call(|| t.gen_proof(i)).must("gen_proof")?,
            Some(d) => call(|| t.gen_cached_proof(i, Some(d))).must("gen_cached_proof")?,
        };
        let s = p.sub_tree_proof.as_ref().unwrap();
        check!((s.lemma().clone(), s.path().clone()) == r.proof(i), "proof", "{}: proof of leaf {}", what, i);
    }
    Ok(())
}

enum Expect {
    Same,
    /// reuse of the persisted tree, or a refusal
    SameOrErr,
    Refuse,
}

/// Open the files and judge the result.  `len`/`leafs` are what the caller claims to expect.
fn open<U: Unsigned>(o: Open, leafs: usize, len: usize, r: &RefTree<E>, other: &RefTree<E>, cfg: &StoreConfig, cached: Option<usize>, rep: &Path, expect: Expect) -> R {
    let a = U::to_usize();
    let what = format!("{:?}", o);
    // a tree of the expected size but of other data: it must not be what comes out
    let its = other.rows[0].clone();
    let bytes = other.bytes();
    let lbytes = to_bytes(&other.rows[0]);
    macro_rules! done {
        ($out:expr, $obs:expr) => {{
            let out = $out;
            match (expect, out) {
                (Expect::Same, out) => {
                    let t = out.must(&what)?;
                    $obs(&t)
                }
                (Expect::SameOrErr, Out::Ok(t)) => $obs(&t),
                (Expect::SameOrErr, Out::Err(_)) => Ok(()),
                (Expect::SameOrErr, Out::Panic(e)) => fail("panic", format!("{}: {}", what, e)),
                (Expect::Refuse, out) => out.must_err(&what),
            }
        }};
    }
    let base = |t: &MerkleTree<E, A, DiskStore<E>, U>| same_tree(t, r, cached, &what);
    let basem = |t: &MerkleTree<E, A, MmapStore<E>, U>| same_tree(t, r, cached, &what);
    let basel = |t: &MerkleTree<E, A, Lc<E>, U>| same_tree(t, r, cached, &what);
    match o {
        DiskFromDisk => done!(call(|| MerkleTree::from_data_store(DiskStore::<E>::new_from_disk(len, a, cfg)?, leafs)), base),
        DiskFromPath => done!(
            call(|| MerkleTree::from_data_store(DiskStore::<E>::new_from_disk_with_path(len, StoreConfig::data_path(&cfg.path, &cfg.id))?, leafs)),
            base
        ),
        DiskWithConfig => done!(call(|| MerkleTree::from_data_store(DiskStore::<E>::new_with_config(len, a, cfg.clone())?, leafs)), base),
        DiskFromSlice => done!(call(|| MerkleTree::from_data_store(DiskStore::<E>::new_from_slice_with_config(len, a, &bytes, cfg.clone())?, leafs)), base),
        DiskIter => done!(call(|| MerkleTree::try_from_iter_with_config(its.into_iter().map(Ok), cfg.clone())), base),
        DiskPar => done!(call(|| MerkleTree::from_par_iter_with_config(its.into_par_iter(), cfg.clone())), base),
        DiskTreeSlice => done!(call(|| MerkleTree::from_tree_slice_with_config(&bytes, leafs, cfg.clone())), base),
        DiskByteSlice => done!(call(|| MerkleTree::from_byte_slice_with_config(&lbytes, cfg.clone())), base),
        DiskConfigs => done!(call(|| MerkleTree::<E, A, DiskStore<E>, U, U1>::from_store_configs(leafs, &[cfg.clone()])), |t: &MerkleTree<E, A, DiskStore<E>, U, U1, U0>| compound_of_one(
            t, r, cached, &what
        )),
        MmapFromDisk => done!(call(|| MerkleTree::from_data_store(MmapStore::<E>::new_from_disk(len, a, cfg)?, leafs)), basem),
        MmapWithConfig => done!(call(|| MerkleTree::from_data_store(MmapStore::<E>::new_with_config(len, a, cfg.clone())?, leafs)), basem),
        // a mapped store does not know whether it was loaded: only the same data are offered again
        MmapTreeSlice => done!(call(|| MerkleTree::from_tree_slice_with_config(&r.bytes(), leafs, cfg.clone())), basem),
        MmapByteSlice => done!(call(|| MerkleTree::from_byte_slice_with_config(&to_bytes(&r.rows[0]), cfg.clone())), basem),
        MmapIter => done!(call(|| MerkleTree::try_from_iter_with_config(its.into_iter().map(Ok), cfg.clone())), basem),
        MmapConfigs => done!(call(|| MerkleTree::<E, A, MmapStore<E>, U, U1>::from_store_configs(leafs, &[cfg.clone()])), |t: &MerkleTree<E, A, MmapStore<E>, U, U1, U0>| compound_of_one(
            t, r, cached, &what
        )),
        LcFromDisk => done!(call(|| MerkleTree::from_data_store(Lc::<E>::new_from_disk(len, a, cfg)?, leafs)), basel),
        LcWithConfig => done!(call(|| MerkleTree::from_data_store(Lc::<E>::new_with_config(len, a, cfg.clone())?, leafs)), basel),
        LcReader => done!(
            call(|| MerkleTree::from_data_store(Lc::<E>::new_from_disk_with_reader(len, a, cfg, ExternalReader::new_from_path(rep)?)?, leafs)),
            basel
        ),
        LcLateReader => done!(
            call(|| {
                let mut s = Lc::<E>::new_from_disk(len, a, cfg)?;
                s.set_external_reader(ExternalReader::new_from_path(rep)?)?;
                MerkleTree::from_data_store(s, leafs)
            }),
            basel
        ),
        LcIter => done!(call(|| MerkleTree::try_from_iter_with_config(its.into_iter().map(Ok), cfg.clone())), basel),
        LcTreeSlice => done!(call(|| MerkleTree::from_tree_slice_with_config(&bytes, leafs, cfg.clone())), basel),
        LcConfigs => done!(call(|| MerkleTree::<E, A, Lc<E>, U, U1>::from_store_configs(leafs, &[cfg.clone()])), |t: &MerkleTree<E, A, Lc<E>, U, U1, U0>| compound_of_one(
            t, r, cached, &what
        )),
        LcConfigsReplica => done!(
            call(|| MerkleTree::<E, A, Lc<E>, U, U1>::from_store_configs_and_replica(leafs, &[cfg.clone()], &ReplicaConfig::from(rep))),
            |t: &MerkleTree<E, A, Lc<E>, U, U1, U0>| compound_of_one(t, r, cached, &what)
        ),
    }
}

/// What is expected of opening what `m` made.
fn expectation(m: Make, o: Open, rows: usize) -> Expect {
    let lc = LCS.contains(&o);
    match m {
        Make::Disk(_) | Make::Mmap(_) => {
            if !lc {
                return match o {
                    DiskByteSlice | MmapIter | MmapByteSlice => Expect::SameOrErr,
                    _ => Expect::Same,
                };
            }
            // a complete file is what version 1 with nothing discarded looks like
            match o {
                LcReader | LcConfigsReplica => Expect::Refuse,
                _ => Expect::Same,
            }
        }
        Make::Compact(v, d) => {
            if !lc {
                return if v == V1 && d == 0 {
                    match o {
                        DiskByteSlice | MmapIter | MmapByteSlice => Expect::SameOrErr,
                        _ => Expect::Same,
                    }
                } else {
                    Expect::Refuse
                };
            }
            let _ = rows;
            if v == V1 {
                match o {
                    LcReader | LcConfigsReplica => Expect::Refuse,
                    _ => Expect::Same,
                }
            } else {
                match o {
                    LcReader | LcConfigsReplica | LcLateReader => Expect::Same,
                    _ => Expect::Refuse,
                }
            }
        }
        Make::Lc(c, d) => {
            // complete trees are kept in the version 1 form
            let v = if matches!(c, Ctor::TreeSliceCfg | Ctor::DataStoreCfg) { V1 } else { V2 };
            expectation(Make::Compact(v, d), o, rows)
        }
    }
}

fn history<U: Unsigned>(ctx: &mut Ctx, m: Make, n: usize, depth: usize) -> R {
    let (its, r) = tree_for::<U>(m, n);
    let other = reft::<U>(n, 99);
    let d = rows_of(m);
    let cfg = StoreConfig::new(&ctx.dir, "c07", d);
    let rep = ctx.dir.join("replica");
    let mut rb = to_bytes(&r.rows[0]);
    rb.extend_from_slice(&[0x55; 64]);
    write_file(&rep, &rb);
    let end = ctx.pick("end of the creator", &[End::Drop, End::NoDrop]);
    in_process(ctx, "create", || create::<U>(m, &its, &r, &cfg, end))?;
    ctx.op(1);
    let before = snapshot(&ctx.dir);
    check!(before.len() == 2, "files", "creation left {:?}", before.iter().map(|x| &x.0).collect::<Vec<_>>());
    ctx.state(h64(1, &before[1].1));
    let mut ops: Vec<Open> = FULL.to_vec();
    ops.extend_from_slice(&LCS);
    let same_process = ctx.choose("process", 2) == 1;
    let seq: Vec<Open> = (0..depth).map(|_| ctx.pick("open", &ops)).collect();
    let one = |o: Open| -> R {
        let e = expectation(m, o, r.row_count());
        let cached = match m {
            Make::Disk(_) | Make::Mmap(_) => {
                if LCS.contains(&o) {
                    Some(0)
                } else {
                    None
                }
            }
            _ => {
                if LCS.contains(&o) {
                    Some(d)
                } else {
                    None
                }
            }
        };
        open::<U>(o, n, r.len(), &r, &other, &cfg, cached, &rep, e)?;
        let now = snapshot(&ctx.dir);
        check!(now == before, "file changed", "{:?} of {:?} changed the files", o, m);
        Ok(())
    };
    if same_process {
        in_process(ctx, "open in one process", || {
            for o in &seq {
                one(*o)?;
            }
            Ok(())
        })?;
    } else {
        for o in &seq {
            in_process(ctx, "open", || one(*o))?;
        }
    }
    ctx.op(depth);
    ctx.state(h64(2, format!("{:?}{}", seq, same_process).as_bytes()));
    Ok(())
}

/// Creating and reopening within one process while the first tree is still alive.
fn alive<U: Unsigned>(ctx: &mut Ctx, n: usize) -> R {
    let (its, r) = tree_for::<U>(Make::Disk(Ctor::ByteSliceCfg), n);
    let other = reft::<U>(n, 99);
    let cfg = StoreConfig::new(&ctx.dir, "c07", 0);
    let rep = ctx.dir.join("replica");
    write_file(&rep, &to_bytes(&r.rows[0]));
    let mapped = ctx.choose("store", 2) == 1;
    let o = ctx.pick("open", &FULL);
    in_process(ctx, "alive", || {
        macro_rules! go {
            ($S:ty) => {{
                let t = call(|| construct::<E, A, $S, U>(Ctor::ByteSliceCfg, &its, &r, &cfg)).must("create")?;
                open::<U>(o, n, r.len(), &r, &other, &cfg, None, &rep, expectation(Make::Disk(Ctor::ByteSliceCfg), o, 0))?;
                same_tree(&t, &r, None, "first tree")?;
                open::<U>(o, n, r.len(), &r, &other, &cfg, None, &rep, expectation(Make::Disk(Ctor::ByteSliceCfg), o, 0))
            }};
        }
        if mapped {
            go!(MmapStore<E>)
        } else {
            go!(DiskStore<E>)
        }
    })?;
    ctx.op(3);
    ctx.state(h64(3, format!("{:?}{}", o, mapped).as_bytes()));
    Ok(())
}

/// Every other file size and every other expected size is refused, and the file is left alone.
fn wrong_size<U: Unsigned>(ctx: &mut Ctx, m: Make, n: usize) -> R {
    let (its, r) = tree_for::<U>(m, n);
    let d = rows_of(m);
    let cfg = StoreConfig::new(&ctx.dir, "c07", d);
    let rep = ctx.dir.join("replica");
    write_file(&rep, &to_bytes(&r.rows[0]));
    in_process(ctx, "create", || create::<U>(m, &its, &r, &cfg, End::Drop))?;
    let file = StoreConfig::data_path(&cfg.path, &cfg.id);
    let good = std::fs::read(&file).unwrap();
    let mut ops: Vec<Open> = FULL.to_vec();
    ops.extend_from_slice(&LCS);
    let o = ctx.pick("open", &ops);
    let lc = LCS.contains(&o);
    let dd = if lc { d } else { 0 };
    let full = r.len() * 32;
    let v1 = r.leafs() * 32 + r.cached_nodes(dd) * 32;
    let v2 = r.cached_nodes(dd) * 32;
    let mode = ctx.choose("mode", 3);
    match mode {
        0 => {
            // a file of another size
            let mut sz: Vec<usize> = vec![0, 1, 31, 32, 33];
            for b in [full, v1, v2, good.len(), r.leafs() * 32] {
                for k in [1usize, 31, 32, 33, 64] {
                    sz.push(b.saturating_sub(k));
                    sz.push(b + k);
                }
                sz.push(b);
                sz.push(2 * b);
            }
            sz.sort();
            sz.dedup();
            let sz = ctx.pick("file size", &sz);
            let fine = if !lc {
                sz == full
            } else {
                match o {
                    LcReader | LcConfigsReplica => sz == v2,
                    LcLateReader => sz == v1 || sz == v2,
                    _ => sz == v1,
                }
            };
            if fine {
                return Ok(());
            }
            let mut b = good.clone();
            b.resize(sz, 0x11);
            write_file(&file, &b);
            let before = snapshot(&ctx.dir);
            in_process(ctx, &format!("{:?} of a file of {} bytes ({:?}, {} leafs)", o, sz, m, n), || open::<U>(o, n, r.len(), &r, &r, &cfg, None, &rep, Expect::Refuse))?;
            check!(snapshot(&ctx.dir) == before, "file changed", "a refused open changed the files");
        }
        1 => {
            // another expected tree
            let a = U::to_usize();
            let mut ns: Vec<usize> = sizes(a, n * a * a);
            ns.retain(|x| *x != n);
            let n2 = ctx.pick("expected leafs", &ns);
            let r2 = reft::<U>(n2, 98);
            let full2 = r2.len() * 32;
            if r2.row_count() < 2 + dd {
                // not enough rows for the config
                if lc {
                    let before = snapshot(&ctx.dir);
                    in_process(ctx, "too few rows", || open::<U>(o, n2, r2.len(), &r2, &r2, &cfg, None, &rep, Expect::Refuse))?;
                    check!(snapshot(&ctx.dir) == before, "file changed", "a refused open changed the files");
                }
                return Ok(());
            }
            let (w1, w2) = (r2.leafs() * 32 + r2.cached_nodes(dd) * 32, r2.cached_nodes(dd) * 32);
            let g = good.len();
            let fits = if !lc { g == full2 } else { g == w1 || g == w2 };
            if fits {
                return Ok(());
            }
            let before = snapshot(&ctx.dir);
            in_process(ctx, &format!("{:?} of a tree of {} leafs as one of {}", o, n, n2), || open::<U>(o, n2, r2.len(), &r2, &r2, &cfg, None, &rep, Expect::Refuse))?;
            check!(snapshot(&ctx.dir) == before, "file changed", "a refused open changed the files");
        }
        _ => {
            // a length that is not the one of the leafs
            if matches!(o, DiskIter | DiskPar | DiskTreeSlice | DiskByteSlice | DiskConfigs | MmapTreeSlice | MmapByteSlice | MmapIter | MmapConfigs | LcIter | LcTreeSlice | LcConfigs | LcConfigsReplica) {
                return Ok(());
            }
            let mut ls: Vec<usize> = (0..=r.len() + 3).collect();
            ls.push(2 * r.len());
            ls.push(2 * r.len() + 1);
            ls.retain(|l| *l != r.len());
            let l = ctx.pick("expected length", &ls);
            let before = snapshot(&ctx.dir);
            in_process(ctx, &format!("{:?} of a tree of length {} as {}", o, r.len(), l), || open::<U>(o, n, l, &r, &r, &cfg, None, &rep, Expect::Refuse))?;
            check!(snapshot(&ctx.dir) == before, "file changed", "a refused open changed the files");
        }
    }
    ctx.op(1);
    ctx.state(h64(4, format!("{:?}{}", o, mode).as_bytes()));
    Ok(())
}

/// Openers of a missing file fail, and repeatedly so.
fn missing<U: Unsigned>(ctx: &mut Ctx, n: usize) -> R {
    let r = reft::<U>(n, 1);
    let cfg = StoreConfig::new(&ctx.dir, "none", 0);
    let rep = ctx.dir.join("replica");
    write_file(&rep, &to_bytes(&r.rows[0]));
    // constructors that create are not openers
    let ops = [DiskFromDisk, DiskFromPath, DiskConfigs, MmapFromDisk, MmapConfigs, LcFromDisk, LcReader, LcLateReader, LcConfigs, LcConfigsReplica];
    let (o1, o2) = (ctx.pick("first", &ops), ctx.pick("second", &ops));
    for o in [o1, o2] {
        in_process(ctx, "missing file", || open::<U>(o, n, r.len(), &r, &r, &cfg, None, &rep, Expect::Refuse))?;
        ctx.op(1);
        let s = snapshot(&ctx.dir);
        check!(s.len() == 1, "file created", "{:?} of a missing file created {:?}", o, s.iter().map(|x| &x.0).collect::<Vec<_>>());
    }
    ctx.state(h64(5, format!("{:?}{:?}", o1, o2).as_bytes()));
    Ok(())
}

/// The file may only be read.
fn read_only<U: Unsigned>(ctx: &mut Ctx, m: Make, n: usize) -> R {
    let (its, r) = tree_for::<U>(m, n);
    let other = reft::<U>(n, 99);
    let d = rows_of(m);
    let cfg = StoreConfig::new(&ctx.dir, "c07", d);
    let rep = ctx.dir.join("replica");
    write_file(&rep, &to_bytes(&r.rows[0]));
    in_process(ctx, "create", || create::<U>(m, &its, &r, &cfg, End::Drop))?;
    let ops = [DiskFromDisk, DiskFromPath, DiskWithConfig, DiskFromSlice, DiskIter, DiskPar, DiskTreeSlice, DiskConfigs, LcFromDisk, LcWithConfig, LcReader, LcLateReader, LcIter, LcTreeSlice, LcConfigs, LcConfigsReplica];
    let o = ctx.pick("open", &ops);
    use std::os::unix::fs::PermissionsExt;
    let file = StoreConfig::data_path(&cfg.path, &cfg.id);
    std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o444)).unwrap();
    std::fs::set_permissions(&rep, std::fs::Permissions::from_mode(0o444)).unwrap();
    let before = snapshot(&ctx.dir);
    // the verdict file has to be writable by the unprivileged child
    let vf = ctx.dir.with_extension("verdict");
    let _ = vf;
    in_process(ctx, "read-only file", || {
        unsafe {
            // saved ids stay privileged, so that the verdict can be written afterwards
            if libc::setegid(65534) != 0 || libc::seteuid(65534) != 0 {
                return Ok(());
            }
        }
        let probe = std::fs::OpenOptions::new().write(true).open(&file);
        let res = if probe.is_ok() {
            Ok(()) // permissions are not enforced here
        } else {
            let cached = if LCS.contains(&o) { Some(d) } else { None };
            open::<U>(o, n, r.len(), &r, &other, &cfg, cached, &rep, expectation(m, o, 0))
        };
        unsafe {
            libc::seteuid(0);
            libc::setegid(0);
        }
        res
    })?;
    check!(snapshot(&ctx.dir) == before, "file changed", "a read-only open changed the files");
    ctx.op(1);
    ctx.state(h64(6, format!("{:?}", o).as_bytes()));
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    let mut s = Spec::new("C07");
    fn arity<U: Unsigned + 'static>(s: &mut Spec, q: bool, ns: &[usize], deep: bool) {
        let a = U::to_usize();
        for &n in ns {
            let rows = sizes(a, n).len() + 1;
            let mut mk: Vec<Make> = vec![];
            for c in CTORS.iter().filter(|c| c.named()) {
                mk.push(Make::Disk(*c));
                mk.push(Make::Mmap(*c));
                for d in 0..=rows - 2 {
                    mk.push(Make::Lc(*c, d));
                }
            }
            for d in 0..=rows - 2 {
                mk.push(Make::Compact(V1, d));
                mk.push(Make::Compact(V2, d));
            }
            for m in mk {
                let rep = matches!(m, Make::Compact(..)) || matches!(m, Make::Disk(Ctor::NewCfg) | Make::Mmap(Ctor::ByteSliceCfg) | Make::Lc(Ctor::ByteSliceCfg, _));
                let depth = if deep && rep { if q { 2 } else { 3 } } else { 1 };
                s.add(format!("history{}/arity{}/n{}/{:?}", depth, a, n, m), move |c| history::<U>(c, m, n, depth));
                if rep && (n <= 64 || !q) {
                    s.add(format!("size/arity{}/n{}/{:?}", a, n, m), move |c| wrong_size::<U>(c, m, n));
                    s.add(format!("readonly/arity{}/n{}/{:?}", a, n, m), move |c| read_only::<U>(c, m, n));
                }
            }
            s.add(format!("alive/arity{}/n{}", a, n), move |c| alive::<U>(c, n));
            s.add(format!("missing/arity{}/n{}", a, n), move |c| missing::<U>(c, n));
        }
    }
    if q {
        arity::<typenum::U2>(&mut s, q, &[4], true);
        arity::<typenum::U2>(&mut s, q, &[16], false);
        arity::<typenum::U4>(&mut s, q, &[16, 256], false);
        arity::<typenum::U8>(&mut s, q, &[64], false);
    } else {
        arity::<typenum::U2>(&mut s, q, &[4, 8], true);
        arity::<typenum::U2>(&mut s, q, &[2, 16, 32, 1024, 8192], false);
        arity::<typenum::U4>(&mut s, q, &[16], true);
        arity::<typenum::U4>(&mut s, q, &[4, 64, 256, 1024], false);
        arity::<typenum::U8>(&mut s, q, &[8, 64, 512, 4096], false);
        arity::<typenum::U16>(&mut s, q, &[16, 256], false);
    }
    s.add("huge full a2", |c| huge_full::<El<32>, typenum::U2>(c, 33));
    s.add("huge full a8", |c| huge_full::<El<32>, typenum::U8>(c, 11));
    s.add("huge cached a2", |c| huge_cached::<El<32>, typenum::U2>(c, 33, &[1, 17]));
    s.bound("trees of 2^33 leafs in sparse files of up to 549 GB");
    s.bound("every creator (7 persisting constructors x DiskStore, MmapStore, LevelCacheStore; compacted v1/v2; every number of discarded rows), ended with or without running destructors, in a process of its own");
    s.bound("then every sequence of openings (23 APIs) of length 1 (2 for the representative creators; 3 thorough), in one process or one process each; files compared byte by byte after each");
    s.bound("every other file size around the layout boundaries, every other expected leaf count and length; missing files twice; read-only files as an unprivileged user");
    s
}

fn main() {
    mc::engine::main(build)
}
