//! C21: trees and stores give back what they hold and leave nothing behind but their data file.
use std::path::PathBuf;

use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::prelude::*;
use typenum::{Unsigned, U0, U2};

type E = El<32>;
type A = Alg<true>;

/// Open descriptors (what they refer to) and mappings of files.
fn held() -> (Vec<String>, Vec<String>) {
    let mut fds = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                let t = t.to_string_lossy().to_string();
                // the listing itself
                if !(t.starts_with("/proc/") && t.ends_with("/fd")) {
                    fds.push(format!("{} -> {}", e.file_name().to_string_lossy(), t));
                }
            }
        }
    }
    fds.sort();
    let mut maps = vec![];
    for l in std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines() {
        let p = l.splitn(6, ' ').nth(5).unwrap_or("").trim().to_string();
        if p.starts_with('/') && !p.contains(".so") && !p.contains("/release/") {
            maps.push(p);
        }
    }
    maps.sort();
    (fds, maps)
}

struct Watch {
    tmp: PathBuf,
    before: (Vec<String>, Vec<String>),
}
impl Watch {
    fn new(ctx: &Ctx) -> Self {
        // rayon and the standard library take what they keep for themselves
        static WARM: std::sync::Once = std::sync::Once::new();
        WARM.call_once(|| {
            let _ = (0..1000usize).into_par_iter().map(|x| x * 2).sum::<usize>();
            let its: Vec<E> = items(Pat::Distinct, 1, 4);
            let r = RefTree::<E>::new(its.clone(), 2, true);
            let c = StoreConfig::new(&ctx.dir, "warm", 0);
            if let Out::Ok(t) = call(|| construct::<E, A, DiskStore<E>, U2>(Ctor::New, &its, &r, &c)) {
                drop(t);
            }
        });
        let tmp = ctx.dir.join("tmp");
        let _ = std::fs::remove_dir_all(&tmp);
        std::fs::create_dir_all(&tmp).expect("scratch directory");
        std::env::set_var("TMPDIR", &tmp);
        Watch { tmp, before: held() }
    }
    /// Everything was dropped: only these files are left.
    fn done(&self, ctx: &mut Ctx, files: &[&str], what: &str) -> R {
        let now = held();
        check!(now.0 == self.before.0, "descriptor", "{}: descriptors still open: {:?}", what, now.0.iter().filter(|x| !self.before.0.contains(x)).collect::<Vec<_>>());
        check!(now.1 == self.before.1, "mapping", "{}: still mapped: {:?}", what, now.1.iter().filter(|x| !self.before.1.contains(x)).collect::<Vec<_>>());
        let left = snapshot(&self.tmp);
        check!(left.is_empty(), "temporary file", "{}: temporary files left: {:?}", what, left.iter().map(|x| &x.0).collect::<Vec<_>>());
        let mut left: Vec<String> = snapshot(&ctx.dir).into_iter().map(|x| x.0).collect();
        left.sort();
        let mut want: Vec<String> = files.iter().map(|f| f.to_string()).collect();
        want.sort();
        check!(left == want, "file", "{}: files left {:?}, expected {:?}", what, left, want);
        ctx.op(3);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
    Nothing,
    Read,
    Proofs,
    BadRead,
    Sync,
    Compact(u32),
    BadCompact,
    Reinit,
    Delete,
    BadDelete,
    Iterate,
    Reader,
    BadReader,
}
const DOS: [Do; 14] = [
    Do::Nothing,
    Do::Read,
    Do::Proofs,
    Do::BadRead,
    Do::Sync,
    Do::Compact(1),
    Do::Compact(2),
    Do::BadCompact,
    Do::Reinit,
    Do::Delete,
    Do::BadDelete,
    Do::Iterate,
    Do::Reader,
    Do::BadReader,
];

trait Extra<S: Store<E>> {
    fn reader(&mut self, _p: &std::path::Path) -> Option<bool> {
        None
    }
    fn iterate(&self) {}
}
macro_rules! iterate {
    ($($S:ty),*) => {$(
        impl Extra<$S> for MerkleTree<E, A, $S, U2> {
            fn iterate(&self) {
                if let Some(d) = self.data() {
                    let _ = call(|| Ok((d).into_par_iter().map(|x: E| x.as_ref()[0] as usize).sum::<usize>()));
                }
            }
        }
    )*};
}
iterate!(VecStoreAlias, DiskStore<E>);
type VecStoreAlias = VecStore<E>;
impl Extra<MmapStore<E>> for MerkleTree<E, A, MmapStore<E>, U2> {}
impl Extra<Lc<E>> for MerkleTree<E, A, Lc<E>, U2> {
    fn reader(&mut self, p: &std::path::Path) -> Option<bool> {
        Some(call(|| self.set_external_reader_path(p)).is_ok())
    }
}

/// Build, do up to `depth` things, drop.
fn life<S>(ctx: &mut Ctx, n: usize, depth: usize, named_file: bool) -> R
where
    S: Store<E>,
    MerkleTree<E, A, S, U2>: Extra<S>,
{
    let ctor = ctx.pick("ctor", &CTORS);
    let mut seq = vec![];
    for _ in 0..depth {
        let d = ctx.pick("do", &DOS);
        seq.push(d);
        if d == Do::Nothing {
            break;
        }
    }
    let its: Vec<E> = items(Pat::Distinct, 5, n);
    let r = RefTree::<E>::new(ctor.leaf_row(&its), 2, true);
    let rep = ctx.dir.join("replica");
    let w = Watch::new(ctx);
    write_file(&rep, &to_bytes(&r.rows[0]));
    let cfg = StoreConfig::new(&ctx.dir, "a", 1);
    let mut deleted = false;
    // some combinations are refused, with an error or a panic; they hold nothing either
    if let Out::Ok(mut t) = call(|| construct::<E, A, S, U2>(ctor, &its, &r, &cfg)) {
        for d in &seq {
            match *d {
                Do::Nothing => {}
                Do::Read => {
                    let mut b = vec![0u8; 32];
                    for i in (0..r.len()).step_by(1 + r.len() / 100) {
                        let _ = call(|| t.read_at(i));
                        let _ = call(|| t.read_into(i, &mut b));
                        let _ = call(|| t.read_range(0, i));
                    }
                }
                Do::Proofs => {
                    for i in (0..n).step_by(1 + n / 100) {
                        let _ = call(|| t.gen_proof(i));
                        for k in [None, Some(0), Some(1), Some(100)] {
                            let _ = call(|| t.gen_cached_proof(i, k));
                        }
                    }
                }
                Do::BadRead => {
                    let _ = call(|| t.read_at(r.len()));
                    let _ = call(|| t.read_range(0, r.len() + 1));
                    let _ = call(|| t.gen_proof(n));
                }
                Do::Sync => {
                    if let Some(d) = t.data() {
                        let _ = call(|| d.sync());
                    }
                }
                Do::Compact(v) => {
                    let _ = call(|| t.compact(cfg.clone(), v));
                    // the memory of a mapped store is given back
                    if std::any::type_name::<S>().contains("MmapStore") {
                        let m = held().1;
                        check!(m == w.before.1, "mapping", "{:?} {:?}: mapped after compaction: {:?}", ctor, seq, m);
                    }
                }
                Do::BadCompact => {
                    let _ = call(|| t.compact(StoreConfig::new(&ctx.dir, "none", 1), 1));
                    let _ = call(|| t.compact(StoreConfig::new(&ctx.dir, "a", 50), 2));
                }
                Do::Reinit => {
                    let _ = call(|| t.reinit());
                }
                Do::Delete => {
                    if call(|| t.delete(cfg.clone())).is_ok() {
                        deleted = true;
                    }
                }
                Do::BadDelete => {
                    let _ = call(|| t.delete(StoreConfig::new(&ctx.dir, "none", 1)));
                }
                Do::Iterate => t.iterate(),
                Do::Reader => {
                    t.reader(&rep);
                }
                Do::BadReader => {
                    t.reader(&ctx.dir.join("missing"));
                }
            }
            ctx.op(1);
        }
        drop(t);
    } else {
        let _ = std::fs::remove_file(StoreConfig::data_path(&cfg.path, &cfg.id));
        deleted = true;
    }
    let what = format!("{:?} {:?}", ctor, seq);
    let file = if named_file && ctor.named() && !deleted { vec!["replica", "sc-02-data-a.dat"] } else { vec!["replica"] };
    w.done(ctx, &file, &what)?;
    ctx.state(h64(ctor as u64, what.as_bytes()));
    Ok(())
}

/// Operations that are refused.
fn refused<S: Store<E>>(ctx: &mut Ctx) -> R {
    let which = ctx.choose("which", 12);
    let w = Watch::new(ctx);
    let its: Vec<E> = items(Pat::Distinct, 5, 8);
    let r = RefTree::<E>::new(its.clone(), 2, true);
    let cfg = StoreConfig::new(&ctx.dir, "a", 0);
    let file = StoreConfig::data_path(&cfg.path, &cfg.id);
    let b = to_bytes(&its);
    type T<S> = MerkleTree<E, A, S, U2>;
    let mut there = true;
    let _: Out<()> = match which {
        // leaf counts that form no tree
        0 => call(|| T::<S>::new(its[..3].to_vec()).map(|_| ())),
        1 => call(|| T::<S>::from_byte_slice(&b[..5 * 32]).map(|_| ())),
        2 => call(|| T::<S>::new_with_config(its[..3].to_vec(), cfg.clone()).map(|_| ())),
        3 => call(|| T::<S>::from_byte_slice_with_config(&b[..5 * 32], cfg.clone()).map(|_| ())),
        // errors on the way
        4 => call(|| T::<S>::try_from_iter((0..8).map(|i| if i < 5 { Ok(its[i]) } else { Err(anyhow::anyhow!("item")) })).map(|_| ())),
        5 => call(|| T::<S>::try_from_iter_with_config((0..8).map(|i| if i < 5 { Ok(its[i]) } else { Err(anyhow::anyhow!("item")) }), cfg.clone()).map(|_| ())),
        6 => call(|| T::<S>::from_tree_slice(&r.bytes()[..32 * 14], 8).map(|_| ())),
        7 => call(|| T::<S>::from_tree_slice_with_config(&r.bytes()[..32 * 14], 8, cfg.clone()).map(|_| ())),
        8 => call(|| T::<S>::from_data_store(S::new_from_slice(14, &r.bytes()[..32 * 14])?, 8).map(|_| ())),
        // files that are not what they should be
        9 => call(|| S::new_from_disk(15, 2, &cfg).map(|_| ())),
        10 => {
            write_file(&file, &b);
            call(|| S::new_from_disk(15, 2, &cfg).map(|_| ()))
        }
        _ => {
            write_file(&file, &b);
            call(|| T::<S>::new_with_config(its.clone(), cfg.clone()).map(|_| ()))
        }
    };
    if !file.exists() {
        there = false;
    }
    let files: Vec<&str> = if there { vec!["sc-02-data-a.dat"] } else { vec![] };
    w.done(ctx, &files, &format!("refused operation {}", which))?;
    ctx.op(1);
    ctx.state(which as u64);
    Ok(())
}

/// Compound trees over stores and replicas, and their drop.
fn compound<N: Unsigned, T: Unsigned>(ctx: &mut Ctx) -> R {
    let (c, d) = (N::to_usize(), T::to_usize().max(1));
    let good = ctx.choose("good", 3);
    let w = Watch::new(ctx);
    let n = 8;
    let mut cfgs = vec![];
    let mut offs = vec![];
    let mut all = vec![];
    let mut names = vec!["replica".to_string()];
    for k in 0..c * d {
        let its: Vec<E> = items(Pat::Distinct, 50 + k as u64, n);
        let cfg = StoreConfig::new(&ctx.dir, format!("s{}", k), 1);
        let t: MerkleTree<E, A, Lc<E>, U2> = call(|| MerkleTree::from_byte_slice_with_config(&to_bytes(&its), cfg.clone())).must("build")?;
        drop(t);
        offs.push(all.len());
        all.extend(to_bytes(&its));
        cfgs.push(cfg);
        names.push(format!("sc-02-data-s{}.dat", k));
    }
    let rep = ctx.dir.join("replica");
    write_file(&rep, &all);
    match good {
        // the last part is missing
        1 => {
            let _ = std::fs::remove_file(StoreConfig::data_path(&ctx.dir, &format!("s{}", c * d - 1)));
            names.pop();
        }
        // one offset too few
        2 => {
            offs.pop();
        }
        _ => {}
    }
    let rc = ReplicaConfig::new(&rep, offs);
    if T::to_usize() == 0 {
        let t = call(|| MerkleTree::<E, A, Lc<E>, U2, N>::from_store_configs_and_replica(n, &cfgs, &rc));
        check!(t.is_ok() == (good == 0), "compound", "from_store_configs_and_replica, case {}", good);
        if let Out::Ok(t) = t {
            for i in 0..n * c {
                call(|| t.gen_cached_proof(i, Some(1))).must("gen_cached_proof")?;
                ctx.op(1);
            }
        }
    } else {
        let t = call(|| MerkleTree::<E, A, Lc<E>, U2, N, T>::from_sub_tree_store_configs_and_replica(n, &cfgs, &rc));
        check!(t.is_ok() == (good == 0), "compound", "from_sub_tree_store_configs_and_replica, case {}", good);
        if let Out::Ok(t) = t {
            for i in 0..n * c * d {
                call(|| t.gen_cached_proof(i, Some(1))).must("gen_cached_proof")?;
                ctx.op(1);
            }
        }
    }
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    w.done(ctx, &names, &format!("compound {} x {} case {}", c, d, good))?;
    ctx.state(h64(good as u64, &all));
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    let mut s = Spec::new("C21");
    for (n, depth) in [(4usize, if q { 3 } else { 4 }), (16, if q { 2 } else { 3 })] {
        s.add(format!("life vec n={}", n), move |c| life::<VecStore<E>>(c, n, depth, false));
        s.add(format!("life disk n={}", n), move |c| life::<DiskStore<E>>(c, n, depth, true));
        s.add(format!("life mmap n={}", n), move |c| life::<MmapStore<E>>(c, n, depth, true));
        s.add(format!("life levelcache n={}", n), move |c| life::<Lc<E>>(c, n, depth, true));
    }
    // the chunked build
    s.add("life disk n=8192", move |c| life::<DiskStore<E>>(c, 8192, 1, true));
    s.add("life levelcache n=8192", move |c| life::<Lc<E>>(c, 8192, 1, true));
    s.add("life mmap n=8192", move |c| life::<MmapStore<E>>(c, 8192, 1, true));
    s.add("refused vec", refused::<VecStore<E>>);
    s.add("refused disk", refused::<DiskStore<E>>);
    s.add("refused mmap", refused::<MmapStore<E>>);
    s.add("refused levelcache", refused::<Lc<E>>);
    s.add("compound 2", compound::<U2, U0>);
    s.add("compound 3", compound::<typenum::U3, U0>);
    s.add("compound 2 x 2", compound::<U2, U2>);
    s.bound(format!("4 stores x 14 constructors x every sequence of up to {} of 13 operations (3 sizes, up to 8192 leafs), 12 refused operations per store, compound trees over replicas", if q { 3 } else { 4 }));
    s.bound("after the last drop: open descriptors, mappings of files, temporary directory, directory of the config");
    s.assume("memory on the heap is not accounted; what a refused creation leaves under the name of its own config is left open");
    s
}

fn main() {
    mc::engine::main(build)
}
