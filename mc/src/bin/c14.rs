//! C14: parallel iteration over a store yields each element once, in order.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::prelude::*;

type E = El<9>;

/// Enumerates split trees and consumption orders of whatever producer it is handed.
struct Explore<'a> {
    ctx: &'a mut Ctx,
    want: &'a [E],
    splits: usize,
}

impl<'a> ProducerCallback<E> for Explore<'a> {
    type Output = R;
    fn callback<P: Producer<Item = E>>(self, p: P) -> R {
        let Explore { ctx, want, splits } = self;
        let mut budget = splits;
        let mut leaves = 0;
        piece(ctx, p, want, &mut budget, &mut leaves)?;
        ctx.state(h64(leaves as u64, &to_bytes(want)));
        Ok(())
    }
}

fn piece<P: Producer<Item = E>>(ctx: &mut Ctx, p: P, want: &[E], budget: &mut usize, leaves: &mut usize) -> R {
    // 0: consume; 1 + k: split at k
    let n = if *budget > 0 { want.len() + 2 } else { 1 };
    let c = ctx.choose("piece", n);
    if c > 0 {
        *budget -= 1;
        let k = c - 1;
        let (a, b) = p.split_at(k);
        ctx.op(1);
        piece(ctx, a, &want[..k], budget, leaves)?;
        return piece(ctx, b, &want[k..], budget, leaves);
    }
    *leaves += 1;
    let mut it = p.into_iter();
    let (mut lo, mut hi) = (0, want.len());
    loop {
        check!(it.len() == hi - lo, "len", "a part with {} elements left reports {}", hi - lo, it.len());
        ctx.op(1);
        if lo == hi {
            break;
        }
        // 0: front, 1: back
        match ctx.choose("end", 2) {
            0 => {
                let v = it.next();
                check!(v == Some(want[lo]), "front", "front element {} of {} is {:?}", lo, want.len(), v);
                lo += 1;
            }
            _ => {
                hi -= 1;
                let v = it.next_back();
                check!(v == Some(want[hi]), "back", "back element {} of {} is {:?}", hi, want.len(), v);
            }
        }
    }
    for _ in 0..2 {
        check!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "beyond", "an exhausted part yields more elements");
    }
    ctx.op(4);
    Ok(())
}

/// The same for larger stores: parts are taken at the given positions and consumed in four ways.
struct Coarse<'a> {
    ctx: &'a mut Ctx,
    want: &'a [E],
    splits: usize,
}

impl<'a> ProducerCallback<E> for Coarse<'a> {
    type Output = R;
    fn callback<P: Producer<Item = E>>(self, p: P) -> R {
        let Coarse { ctx, want, splits } = self;
        let mut budget = splits;
        coarse_piece(ctx, p, want, &mut budget)
    }
}

fn coarse_piece<P: Producer<Item = E>>(ctx: &mut Ctx, p: P, want: &[E], budget: &mut usize) -> R {
    let len = want.len();
    if *budget > 0 {
        let mut at: Vec<usize> = vec![0, 1, 63, 64, 65, 127, 128, 129, 455, 456, len / 2, len.saturating_sub(1), len];
        at.retain(|&k| k <= len);
        at.sort_unstable();
        at.dedup();
        let c = ctx.choose("split", at.len() + 1);
        if c > 0 {
            *budget -= 1;
            let k = at[c - 1];
            let (a, b) = p.split_at(k);
            ctx.op(1);
            coarse_piece(ctx, a, &want[..k], budget)?;
            return coarse_piece(ctx, b, &want[k..], budget);
        }
    }
    let how = ctx.choose("order", 6);
    let mut it = p.into_iter();
    let (mut lo, mut hi) = (0, len);
    let mut turn = 0;
    while lo < hi {
        check!(it.len() == hi - lo, "len", "a part with {} elements left reports {}", hi - lo, it.len());
        turn += 1;
        let (front, skip) = match how {
            0 => (true, 0),
            1 => (false, 0),
            2 => (turn % 2 == 0, 0),
            3 => (turn % 4 != 0, 0),
            // as the skipping adaptors do
            4 => (turn % 3 != 0, turn % 5),
            _ => (turn % 2 == 0, turn % 70),
        };
        if skip >= hi - lo {
            check!(if front { it.nth(skip) } else { it.nth_back(skip) }.is_none(), "nth", "an element beyond the end");
            lo = hi;
        } else if front {
            let v = if skip == 0 { it.next() } else { it.nth(skip) };
            lo += skip;
            check!(v == Some(want[lo]), "front", "front element {} of {} is {:?}", lo, len, v);
            lo += 1;
        } else {
            let v = if skip == 0 { it.next_back() } else { it.nth_back(skip) };
            hi -= skip + 1;
            check!(v == Some(want[hi]), "back", "back element {} of {} is {:?}", hi, len, v);
        }
    }
    for _ in 0..2 {
        check!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "beyond", "an exhausted part yields more elements");
    }
    ctx.op(len);
    Ok(())
}

fn coarse(ctx: &mut Ctx, is_vec: bool, n: usize, splits: usize) -> R {
    let want = items::<E>(Pat::Distinct, 17, n);
    ctx.state(h64(n as u64, &[]));
    if is_vec {
        let s = vec(How::Slice, &want)?;
        (&s).with_producer(Coarse { ctx, want: &want, splits })
    } else {
        let s = disk(ctx, How::Slice, &want, 3)?;
        (&s).with_producer(Coarse { ctx, want: &want, splits })
    }
}

#[derive(Clone, Copy, Debug)]
enum How {
    Slice,
    Push,
    SliceCfg,
    Reopen,
    Tree,
}

fn disk(ctx: &Ctx, how: How, want: &[E], spare: usize) -> Result<DiskStore<E>, Fail> {
    let n = want.len();
    let cfg = StoreConfig::new(&ctx.dir, "d", 0);
    match how {
        How::Slice | How::Tree => call(|| DiskStore::new_from_slice(n + spare, &to_bytes(want))).must("new_from_slice"),
        How::SliceCfg => call(|| DiskStore::new_from_slice_with_config(n + spare, 2, &to_bytes(want), cfg)).must("new_from_slice_with_config"),
        How::Push => {
            let mut s = call(|| DiskStore::new(n + spare)).must("new")?;
            for e in want {
                call(|| s.push(*e)).must("push")?;
            }
            Ok(s)
        }
        How::Reopen => {
            write_file(&StoreConfig::data_path(&cfg.path, &cfg.id), &to_bytes(want));
            call(|| DiskStore::new_from_disk(n, 2, &cfg)).must("new_from_disk")
        }
    }
}

fn vec(how: How, want: &[E]) -> Result<VecStore<E>, Fail> {
    match how {
        How::Push => {
            let mut s = call(|| VecStore::new(want.len())).must("new")?;
            for e in want {
                call(|| s.push(*e)).must("push")?;
            }
            Ok(s)
        }
        _ => call(|| VecStore::new_from_slice(want.len(), &to_bytes(want))).must("new_from_slice"),
    }
}

fn splits(ctx: &mut Ctx, is_vec: bool, n: usize, splits: usize) -> R {
    let want = items::<E>(Pat::Distinct, 14, n);
    let owned = ctx.choose("owned", 2) == 1;
    macro_rules! go {
        ($s:expr) => {{
            let s = $s;
            if owned {
                check!(IndexedParallelIterator::len(&s) == n && ParallelIterator::opt_len(&s) == Some(n), "len", "reported length");
                let e = Explore { ctx, want: &want, splits };
                s.with_producer(e)
            } else {
                let r = &s;
                check!(IndexedParallelIterator::len(&r) == n && ParallelIterator::opt_len(&r) == Some(n), "len", "reported length");
                let e = Explore { ctx, want: &want, splits };
                r.with_producer(e)
            }
        }};
    }
    if is_vec {
        go!(vec(How::Slice, &want)?)
    } else {
        // room after the elements holds other data: it is not part of the range
        go!(disk(ctx, How::Slice, &want, 3)?)
    }
}

/// Adaptors of the parallel iterator, with every maximal and minimal piece length.
fn adaptors(ctx: &mut Ctx, is_vec: bool, ns: &[usize]) -> R {
    let n = ctx.pick("n", ns);
    let how = ctx.pick("how", &[How::Slice, How::Push, How::SliceCfg, How::Reopen, How::Tree]);
    let max = ctx.pick("max_len", &[1usize, 2, 3, 1 << 20]);
    let want = items::<E>(Pat::Distinct, 15, n);
    macro_rules! all {
        ($s:expr) => {{
            let s = $s;
            let r = &s;
            let it = || r.into_par_iter();
            // straight from the store
            check!(it().opt_len() == Some(n) && IndexedParallelIterator::len(&it()) == n, "length", "opt_len {:?}, len {}", it().opt_len(), IndexedParallelIterator::len(&it()));
            let v: Vec<E> = it().collect();
            check!(v == want, "collect", "collect of {} elements", n);
            let v: Vec<E> = it().filter(|_| true).collect();
            check!(v == want, "filter", "filter of {} elements", n);
            let v: Vec<E> = it().flat_map_iter(|e| [e]).collect();
            check!(v == want, "flat_map", "flat_map of {} elements", n);
            let (a, b): (Vec<E>, Vec<E>) = it().partition(|e| e.as_ref()[0] & 1 == 0);
            let (wa, wb): (Vec<E>, Vec<E>) = want.iter().cloned().partition(|e| e.as_ref()[0] & 1 == 0);
            check!(a == wa && b == wb, "partition", "partition of {} elements", n);
            let seen = std::sync::Mutex::new(vec![]);
            it().for_each(|e| seen.lock().unwrap().push(e));
            let mut seen: Vec<Vec<u8>> = seen.into_inner().unwrap().iter().map(|e| e.as_ref().to_vec()).collect();
            let mut all: Vec<Vec<u8>> = want.iter().map(|e| e.as_ref().to_vec()).collect();
            seen.sort();
            all.sort();
            check!(seen == all, "for_each", "for_each of {} elements", n);
            check!(it().find_first(|_| true) == want.first().cloned(), "find_first", "find_first");
            check!(it().find_last(|_| true) == want.last().cloned(), "find_last", "find_last");
            ctx.op(8);
            let v: Vec<E> = it().with_max_len(max).collect();
            check!(v == want, "collect", "collect of {} elements", n);
            let v: Vec<(usize, E)> = it().with_max_len(max).enumerate().collect();
            check!(v.iter().enumerate().all(|(i, (j, e))| i == *j && *e == want[i]) && v.len() == n, "enumerate", "enumerate");
            let v: Vec<E> = it().with_max_len(max).rev().collect();
            let mut w = want.clone();
            w.reverse();
            check!(v == w, "rev", "rev");
            for k in 1..=n.min(4).max(1) {
                let v: Vec<Vec<E>> = it().with_max_len(max).chunks(k).collect();
                let w: Vec<Vec<E>> = want.chunks(k).map(|c| c.to_vec()).collect();
                check!(v == w, "chunks", "chunks({})", k);
                let v: Vec<E> = it().with_max_len(max).skip(k).collect();
                check!(v[..] == want[k.min(n)..], "skip", "skip({})", k);
                let v: Vec<E> = it().with_max_len(max).take(k).collect();
                check!(v[..] == want[..k.min(n)], "take", "take({})", k);
                let v: Vec<E> = it().with_min_len(k).step_by(k).collect();
                let w: Vec<E> = want.iter().cloned().step_by(k).collect();
                check!(v == w, "step_by", "step_by({})", k);
            }
            let v: Vec<(E, E)> = it().with_max_len(max).zip(it()).collect();
            check!(v.len() == n && v.iter().enumerate().all(|(i, (a, b))| *a == want[i] && *b == want[i]), "zip", "zip");
            let cnt = it().with_max_len(max).count();
            check!(cnt == n, "count", "count {}", cnt);
            let f: Vec<E> = it()
                .with_max_len(max)
                .fold(Vec::new, |mut a: Vec<E>, e| {
                    a.push(e);
                    a
                })
                .reduce(Vec::new, |mut a, b| {
                    a.extend(b);
                    a
                });
            check!(f == want, "fold", "fold / reduce");
            let p = it().with_max_len(max).position_any(|e| n > 0 && e == want[n - 1]);
            check!(p == if n > 0 { Some(n - 1) } else { None }, "position", "position");
            ctx.op(10);
            // owned
            if max == 1 {
                check!(IndexedParallelIterator::len(&s) == n && s.opt_len() == Some(n), "length", "of an owned store");
                let v: Vec<E> = s.into_par_iter().collect();
                check!(v == want, "owned", "collect of an owned store");
            } else if max == 2 {
                let v: Vec<E> = s.into_par_iter().filter(|_| true).collect();
                check!(v == want, "owned", "filter of an owned store");
            } else {
                let v: Vec<E> = s.into_par_iter().with_max_len(max).collect();
                check!(v == want, "owned", "collect of an owned store");
            }
        }};
    }
    if is_vec {
        all!(vec(how, &want)?)
    } else {
        all!(disk(ctx, how, &want, 2)?)
    }
    ctx.state(h64(max as u64, &to_bytes(&want)));
    Ok(())
}

/// A tree built from a store's parallel iterator is the tree of its elements.
fn tree(ctx: &mut Ctx) -> R {
    type A = Alg<true>;
    let n = ctx.pick("n", &[2usize, 4, 64, 512]);
    let want = items::<E>(Pat::Distinct, 16, n);
    let d = disk(ctx, How::Push, &want, 0)?;
    let r = RefTree::new(Ctor::Par.leaf_row(&want), 2, true);
    let t = call(|| MerkleTree::<E, A, VecStore<E>, typenum::U2>::from_par_iter(&d)).must("from_par_iter")?;
    observe_full(ctx, &t, &r, "tree from a store")?;
    let t = call(|| MerkleTree::<E, A, DiskStore<E>, typenum::U2>::from_par_iter(d)).must("from_par_iter")?;
    observe_full(ctx, &t, &r, "tree from an owned store")
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C14");
    s.technique = "exhaustive enumeration of split trees and front/back consumption orders of the stores' producers";
    for is_vec in [true, false] {
        let name = if is_vec { "vec" } else { "disk" };
        let plan: &[(usize, usize)] = if th {
            &[(0, 5), (1, 5), (2, 5), (3, 5), (4, 5), (5, 4), (6, 4), (7, 3), (8, 3), (10, 2), (14, 1), (18, 0)]
        } else {
            &[(0, 3), (1, 4), (2, 4), (3, 4), (4, 4), (5, 3), (6, 3), (7, 2), (8, 2), (10, 1), (14, 0)]
        };
        for &(n, k) in plan {
            s.add(format!("{} n{} splits{}", name, n, k), move |c| splits(c, is_vec, n, k));
        }
        let ns: Vec<usize> = if th { (0..40).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 33] };
        s.add(format!("{} adaptors", name), move |c| adaptors(c, is_vec, &ns));
    }
    for is_vec in [true, false] {
        let name = if is_vec { "vec" } else { "disk" };
        for (n, k) in [(10usize, 1usize), (70, if th { 2 } else { 1 }), (140, 1), (500, 1), (3000, if th { 1 } else { 0 })] {
            s.add(format!("{} coarse n{}", name, n), move |c| coarse(c, is_vec, n, k));
        }
        let ns: Vec<usize> = if th { vec![64, 65, 127, 128, 129, 455, 456, 1000, 5000] } else { vec![127, 128, 129, 456, 1000] };
        s.add(format!("{} adaptors large", name), move |c| adaptors(c, is_vec, &ns));
    }
    s.add("tree", tree);
    s.bound("stores of 0..6 elements with up to 2-4 nested splits at every position, of up to 8 (12) with fewer, every front/back consumption order of every part; parts of stores of up to 500 (3000) elements around page and buffer boundaries in six consumption orders with skips; rayon adaptors over stores of up to 1000 (5000) elements with piece lengths 1, 2, 3 and unlimited");
    s
}

fn main() {
    mc::engine::main(build)
}
