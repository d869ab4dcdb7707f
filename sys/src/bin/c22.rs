//! C22: what was synced survives a power failure.
//!
//! The calls that make data durable (fsync, fdatasync, msync) are interposed and keep a copy of
//! what the file held when they succeeded; everything else is lost in a power failure.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use sys::alg::MarkAlg;
use sys::ip::durable;
use typenum::{Unsigned, U2, U4, U8};

type A = MarkAlg;
type T<E, S, U> = MerkleTree<E, A, S, U>;

static FAILURES: AtomicU64 = AtomicU64::new(0);
static REOPENED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mk {
    New,
    Slice,
    Reopen,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Push,
    Write(usize),
    Copy(usize, usize),
    Read(usize),
    Reinit,
    /// the memory of a mapped store is given back
    Release,
    /// the store is dropped and opened again
    Reopen,
    Sync,
}

/// Every sequence of operations; whenever a sync has succeeded, and after each operation that
/// follows, the power fails: what had been synced is there.
fn seqs<E: Element + 'static, S: Store<E> + 'static>(ctx: &mut Ctx, mk: Mk, mapped: bool, level_cache: bool, cap: usize, depth: usize, ops: &[Op]) -> R {
    let cfg = StoreConfig::new(&ctx.dir, "d", 0);
    let path = StoreConfig::data_path(&ctx.dir, "d");
    let after = StoreConfig::new(&ctx.dir, "after", 0);
    let el = E::byte_len();
    durable::start();
    durable::watch(&path);
    let init: Vec<E> = match mk {
        Mk::New => vec![],
        Mk::Slice => items::<E>(Pat::Distinct, 90, 3),
        Mk::Reopen => items::<E>(Pat::Distinct, 90, cap),
    };
    let mut s: S = match mk {
        Mk::New => call(|| S::new_with_config(cap, 2, cfg.clone())).must("new_with_config")?,
        Mk::Slice => call(|| S::new_from_slice_with_config(cap, 2, &to_bytes(&init), cfg.clone())).must("new_from_slice_with_config")?,
        Mk::Reopen => {
            write_file(&path, &to_bytes(&init));
            durable::settle(&path);
            call(|| S::new_from_disk(cap, 2, &cfg)).must("new_from_disk")?
        }
    };
    let mut model = init;
    // the array at the last sync, and the elements written since
    let mut synced: Option<Vec<E>> = if mk == Mk::Reopen { Some(model.clone()) } else { None };
    let mut since: Vec<bool> = vec![false; cap];
    let mut what = format!("{:?}", mk);
    for step in 0..depth {
        let op = ctx.pick("op", ops);
        what = format!("{}, {:?}", what, op);
        let vals = items::<E>(Pat::Distinct, 1 + step as u64, cap);
        let mut put = |model: &mut Vec<E>, at: usize, v: &[E]| {
            if model.len() < at + v.len() {
                model.resize(at + v.len(), E::default());
            }
            model[at..at + v.len()].clone_from_slice(v);
            for w in &mut since[at..at + v.len()] {
                *w = true;
            }
        };
        match op {
            Op::Push => {
                if model.len() < cap {
                    call(|| s.push(vals[0].clone())).must("push")?;
                    let n = model.len();
                    put(&mut model, n, &vals[..1]);
                } else {
                    call(|| s.push(vals[0].clone())).must_refuse("push beyond the capacity")?;
                }
            }
            Op::Write(i) => {
                call(|| s.write_at(vals[0].clone(), i)).must("write_at")?;
                put(&mut model, i, &vals[..1]);
            }
            Op::Copy(k, i) => {
                call(|| s.copy_from_slice(&to_bytes(&vals[..k]), i)).must("copy_from_slice")?;
                put(&mut model, i, &vals[..k]);
            }
            Op::Read(i) => {
                if let Some(v) = call(|| s.read_at(i)).ok() {
                    check!(Some(&v) == model.get(i), "read", "{}: element {}", what, i);
                }
            }
            Op::Reinit => call(|| s.reinit()).must("reinit")?,
            Op::Release => {
                call(|| s.compact(2, cfg.clone(), StoreConfigDataVersion::One as u32)).must("compact")?;
            }
            Op::Reopen => {
                drop(s);
                s = call(|| S::new_from_disk(cap, 2, &cfg)).must("new_from_disk")?;
                model.resize(cap, E::default());
            }
            Op::Sync => {
                call(|| s.sync()).must("sync")?;
                synced = Some(model.clone());
                since = vec![false; cap];
            }
        }
        ctx.op(1);
        // the power fails
        if let Some(m) = &synced {
            FAILURES.fetch_add(1, SeqCst);
            let left = match durable::of(&path) {
                Some(b) => b,
                None => return fail("lost", format!("{}: nothing is left after a power failure", what)),
            };
            check!(left.len() == cap * el, "size", "{}: {} of {} bytes are left after a power failure", what, left.len(), cap * el);
            for (i, e) in m.iter().enumerate() {
                if !since[i] {
                    check!(left[i * el..(i + 1) * el] == *e.as_ref(), "lost", "{}: element {} that was synced is lost in a power failure", what, i);
                }
            }
            if matches!(op, Op::Sync) && !level_cache {
                // opened again after the failure
                write_file(&StoreConfig::data_path(&ctx.dir, "after"), &left);
                let t: S = call(|| S::new_from_disk(cap, 2, &after)).must("new_from_disk after a power failure")?;
                for (i, e) in m.iter().enumerate() {
                    let v = call(|| t.read_at(i)).must("read_at after a power failure")?;
                    check!(v == *e, "lost", "{}: element {} reads differently after a power failure", what, i);
                }
                REOPENED.fetch_add(1, SeqCst);
            }
            ctx.state(h64(mapped as u64, &left));
        }
    }
    durable::stop();
    Ok(())
}

/// A tree that was built, and then synced, is complete after a power failure; leafs that came from
/// an iterator are durable as soon as the constructor has returned.
fn built<E: Element + 'static, S: Store<E> + 'static, U: Unsigned + 'static>(ctx: &mut Ctx, ctor: Ctor, ns: &[usize], level_cache: bool) -> R {
    let n = ctx.pick("leafs", ns);
    let arity = U::to_usize();
    let it = items::<E>(Pat::Distinct, n as u64, n);
    let r = RefTree::new(ctor.leaf_row(&it), arity, true);
    let rows = if level_cache && r.row_count() > 2 { 1 } else { 0 };
    let cfg = StoreConfig::new(&ctx.dir, "t", rows);
    let path = StoreConfig::data_path(&ctx.dir, "t");
    let what = format!("{:?} of {} leafs, arity {}", ctor, n, arity);
    durable::start();
    durable::watch(&path);
    let t: T<E, S, U> = call(|| construct(ctor, &it, &r, &cfg)).must("construct")?;
    // the layout of a level cache tree's file depends on the constructor: what it holds now
    let want = if level_cache { std::fs::read(&path).unwrap_or_default() } else { r.bytes() };
    FAILURES.fetch_add(2, SeqCst);
    if !level_cache && matches!(ctor, Ctor::NewCfg | Ctor::FromDataCfg | Ctor::TryIterCfg | Ctor::ParCfg) {
        let left = durable::of(&path).unwrap_or_default();
        let k = n * E::byte_len();
        check!(left.len() >= k && left[..k] == want[..k], "leafs lost", "{}: leafs are lost in a power failure after the tree was built", what);
    }
    let s = t.data().expect("a base tree has its own store");
    call(|| s.sync()).must("sync")?;
    let left = durable::of(&path).unwrap_or_default();
    check!(left == want, "lost", "{}: the tree was synced, but is not complete after a power failure ({} of {} bytes)", what, left.len(), want.len());
    let after = StoreConfig::new(&ctx.dir, "after", rows);
    write_file(&StoreConfig::data_path(&ctx.dir, "after"), &left);
    if !level_cache {
        let t2: T<E, S, U> = call(|| T::<E, S, U>::from_data_store(S::new_from_disk(r.len(), arity, &after)?, n)).must("reopen after a power failure")?;
        check!(t2.root() == r.root(), "root", "{}: root after a power failure", what);
        REOPENED.fetch_add(1, SeqCst);
    }
    durable::stop();
    ctx.op(3);
    ctx.state(h64(ctor as u64, &left));
    Ok(())
}

/// A compaction that has returned is durable: it replaced the only copy of the tree.
fn compacted<E: Element + 'static, U: Unsigned + 'static>(ctx: &mut Ctx, ns: &[usize]) -> R {
    type Lc<E> = LevelCacheStore<E, std::fs::File>;
    let n = ctx.pick("leafs", ns);
    let arity = U::to_usize();
    let it = items::<E>(Pat::Distinct, n as u64, n);
    let r = RefTree::new(it.clone(), arity, true);
    let d = ctx.choose("rows", r.row_count() - 1);
    let v1 = ctx.choose("version", 2) == 0;
    let ctor = ctx.pick("ctor", &[Ctor::ByteSliceCfg, Ctor::DataStoreCfg]);
    let synced = ctx.choose("synced before", 2) == 1;
    let cfg = StoreConfig::new(&ctx.dir, "t", d);
    let path = StoreConfig::data_path(&ctx.dir, "t");
    let what = format!("{} leafs, arity {}, {} rows discarded, {}", n, arity, d, if v1 { "with base data" } else { "without base data" });
    durable::start();
    durable::watch(&path);
    let mut t: T<E, DiskStore<E>, U> = call(|| construct(ctor, &it, &r, &cfg)).must("construct")?;
    if synced {
        call(|| t.data().unwrap().sync()).must("sync")?;
    }
    let v = if v1 { StoreConfigDataVersion::One } else { StoreConfigDataVersion::Two } as u32;
    let out = call(|| t.compact(cfg.clone(), v));
    let done = match out {
        Out::Ok(b) => b,
        _ => return out.must_refuse("compact"),
    };
    check!(done, "compact", "{}: not compacted", what);
    let nodes = r.nodes();
    let mut want = if v1 { to_bytes(&r.rows[0]) } else { vec![] };
    want.extend(to_bytes(&nodes[nodes.len() - r.cached_nodes(d)..]));
    FAILURES.fetch_add(1, SeqCst);
    let left = durable::of(&path).unwrap_or_default();
    check!(left == want, "lost", "{}: the compacted tree is not complete after a power failure ({} of {} bytes)", what, left.len(), want.len());
    if v1 {
        let after = StoreConfig::new(&ctx.dir, "after", d);
        write_file(&StoreConfig::data_path(&ctx.dir, "after"), &left);
        let t2: T<E, Lc<E>, U> = call(|| T::<E, Lc<E>, U>::from_data_store(Lc::<E>::new_from_disk(r.len(), arity, &after)?, n)).must("reopen after a power failure")?;
        check!(t2.root() == r.root(), "root", "{}: root after a power failure", what);
        for i in [0, n / 2, n - 1] {
            let p = call(|| t2.gen_cached_proof(i, Some(d))).must("proof after a power failure")?;
            check!(call(|| p.validate::<A>()).must("validate")?, "proof", "{}: proof after a power failure", what);
        }
        REOPENED.fetch_add(1, SeqCst);
    }
    durable::stop();
    ctx.op(2);
    ctx.state(h64(d as u64, &left));
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C22");
    s.technique = "exhaustive enumeration of operation sequences with a power failure after every operation: the calls that make data durable are interposed, everything that was only written is lost";
    let depth = if th { 7 } else { 6 };
    macro_rules! fam {
        ($name:expr, $S:ident, $mapped:expr, $lc:expr, $E:ty, $cap:expr, $depth:expr) => {
            for mk in [Mk::New, Mk::Slice, Mk::Reopen] {
                if $lc && mk == Mk::Reopen {
                    continue;
                }
                s.add(format!("{} of {} elements of {} bytes, {:?}", $name, $cap, <$E>::byte_len(), mk), move |c| {
                    let cap: usize = $cap;
                    let mut ops = vec![Op::Sync, Op::Push, Op::Write(0), Op::Write(cap - 1), Op::Copy(cap / 2, 1), Op::Reinit];
                    if $mapped {
                        ops.push(Op::Release);
                    }
                    if !$lc {
                        ops.push(Op::Read(1));
                        ops.push(Op::Reopen);
                    }
                    seqs::<$E, $S<$E>>(c, mk, $mapped, $lc, cap, $depth, &ops)
                });
            }
        };
    }
    type Lcs<E> = LevelCacheStore<E, std::fs::File>;
    fam!("disk", DiskStore, false, false, El<32>, 7, depth);
    fam!("disk", DiskStore, false, false, El<32>, 511, depth - 1);
    fam!("disk", DiskStore, false, false, El<5>, 2047, depth - 1);
    fam!("mapped", MmapStore, true, false, El<32>, 7, depth);
    fam!("mapped", MmapStore, true, false, El<32>, 511, depth - 1);
    fam!("mapped", MmapStore, true, false, El<5>, 2047, depth - 1);
    fam!("level cache", Lcs, false, true, El<32>, 7, depth);
    fam!("level cache", Lcs, false, true, El<32>, 511, depth - 1);
    macro_rules! trees {
        ($E:ty, $U:ident, $max:expr, $big:expr) => {
            for ctor in [Ctor::NewCfg, Ctor::ByteSliceCfg, Ctor::FromDataCfg, Ctor::TryIterCfg, Ctor::ParCfg, Ctor::TreeSliceCfg, Ctor::DataStoreCfg] {
                let mut ns = sizes($U::to_usize(), $max);
                ns.extend_from_slice($big);
                let (n1, n2, n3) = (ns.clone(), ns.clone(), ns);
                s.add(format!("tree disk {:?} arity {} e{}", ctor, $U::to_usize(), <$E>::byte_len()), move |c| built::<$E, DiskStore<$E>, $U>(c, ctor, &n1, false));
                s.add(format!("tree mapped {:?} arity {} e{}", ctor, $U::to_usize(), <$E>::byte_len()), move |c| built::<$E, MmapStore<$E>, $U>(c, ctor, &n2, false));
                s.add(format!("tree level cache {:?} arity {} e{}", ctor, $U::to_usize(), <$E>::byte_len()), move |c| built::<$E, Lcs<$E>, $U>(c, ctor, &n3, true));
            }
            let m: usize = if th { 4096 } else { 1024 };
            s.add(format!("compaction arity {} e{}", $U::to_usize(), <$E>::byte_len()), move |c| compacted::<$E, $U>(c, &sizes($U::to_usize(), m)));
        };
    }
    trees!(El<32>, U2, 4096, &[1 << 15, 1 << 17]);
    trees!(El<8>, U2, 1024, &[]);
    trees!(El<32>, U4, 4096, &[1 << 16]);
    trees!(El<32>, U8, 4096, &[1 << 15]);
    s.bound("stores of 7, 511 and 2047 elements (1 to 4 pages): every sequence of 6 (thorough 7) or 5 (6) of up to 9 operations, with a power failure after each; trees by all seven persisting constructors, every size to 4096 leafs (arities 2, 4, 8) and one or two up to 2^17; compaction with every number of discarded rows and both versions, every size to 1024 (4096)");
    s.assume("fsync, fdatasync and msync(MS_SYNC) that return success made the file's contents, or the range, durable; nothing else does; the directory entry of a new file is durable");
    s.extra = Some(|| serde_json::json!({"power_failures": FAILURES.load(SeqCst), "reopened_after_a_power_failure": REOPENED.load(SeqCst)}));
    s
}

fn main() {
    mc::engine::main(build)
}
