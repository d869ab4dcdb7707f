//! C06: a compound tree is the ordered composition of its sub-trees.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use std::path::Path;
use typenum::{Unsigned, U0};

type E = El<32>;
type A = Alg<true>;
const V1: u32 = StoreConfigDataVersion::One as u32;
const V2: u32 = StoreConfigDataVersion::Two as u32;

fn reft(n: usize, a: usize, salt: u64) -> RefTree<E> {
    RefTree::new(items::<E>(Pat::Distinct, salt, n), a, true)
}
fn cfg(dir: &Path, id: &str, r: usize) -> StoreConfig {
    StoreConfig::new(dir, id, r)
}
fn base<S: Store<E>, U: Unsigned>(r: &RefTree<E>) -> Result<MerkleTree<E, A, S, U>, Fail> {
    call(|| MerkleTree::from_byte_slice(&to_bytes(&r.rows[0]))).must("base tree")
}
fn persist<U: Unsigned>(dir: &Path, id: &str, r: &RefTree<E>, compact: Option<(u32, usize)>) -> Result<StoreConfig, Fail> {
    let c = cfg(dir, id, compact.map(|x| x.1).unwrap_or(0));
    let mut t: MerkleTree<E, A, DiskStore<E>, U> = call(|| MerkleTree::from_byte_slice_with_config(&to_bytes(&r.rows[0]), c.clone())).must("persist")?;
    if let Some((v, _)) = compact {
        call(|| t.compact(c.clone(), v)).must("compact")?;
    }
    Ok(c)
}

/// The expected composition: `order` lists the base trees left to right.
struct Want {
    root: E,
    len: usize,
    rows: usize,
    leafs: Vec<E>,
}
fn want(bs: &[&RefTree<E>], n: usize, t: usize) -> Want {
    let roots: Vec<E> = bs.iter().map(|b| b.root()).collect();
    let sub: Vec<E> = roots.chunks(n).map(|g| ref_node(g, Some(1))).collect();
    let sublen = n * bs[0].len() + 1;
    let leafs = bs.iter().flat_map(|b| b.rows[0].iter().cloned()).collect();
    if t == 0 {
        Want { root: sub[0], len: sublen, rows: bs[0].row_count() + 1, leafs }
    } else {
        Want { root: ref_node(&sub, Some(1)), len: t * sublen + 1, rows: bs[0].row_count() + 2, leafs }
    }
}

fn observe<S: Store<E>, U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx, t: &MerkleTree<E, A, S, U, N, T>, w: &Want, cached: Option<usize>) -> R {
    check!(t.root() == w.root, "root", "root is not the hash of the sub-tree roots in order");
    check!(t.len() == w.len, "len", "len {} != {}", t.len(), w.len);
    check!(t.leafs() == w.leafs.len(), "leafs", "leafs {} != {}", t.leafs(), w.leafs.len());
    check!(t.row_count() == w.rows, "row_count", "row_count {} != {}", t.row_count(), w.rows);
    check!(!t.is_empty(), "is_empty", "a compound tree is reported as empty");
    check!(t.data().is_none(), "data", "a compound tree has no single store");
    for (i, l) in w.leafs.iter().enumerate() {
        let v = call(|| t.read_at(i)).must("read_at")?;
        check!(v == *l, "leaf", "leaf {} is {:?}, expected {:?}", i, v, l);
        let p = match cached {
            None => call(|| t.gen_proof(i)).must("gen_proof")?,
            Some(r) => call(|| t.gen_cached_proof(i, Some(r))).must("gen_cached_proof")?,
        };
        check!(p.item() == *l && p.root() == w.root, "proof", "proof of leaf {} is for another leaf or root", i);
        check!(call(|| p.validate::<A>()).must("validate")?, "proof invalid", "proof of leaf {} does not validate", i);
        ctx.op(2);
    }
    for i in [w.leafs.len(), w.leafs.len() + 1, w.len - 1, w.len, usize::MAX] {
        call(|| t.read_at(i)).must_err("read_at out of range")?;
        ctx.op(1);
    }
    ctx.state(h64(w.len as u64, w.root.as_ref()));
    Ok(())
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, n, out);
                cur.pop();
            }
        }
    }
    if n <= 4 {
        let mut out = vec![];
        go(&mut vec![], n, &mut out);
        out
    } else {
        // identity, reversal, rotations and all adjacent swaps
        let id: Vec<usize> = (0..n).collect();
        let mut out = vec![id.clone(), id.iter().rev().cloned().collect()];
        for k in 1..n {
            let mut r = id.clone();
            r.rotate_left(k);
            out.push(r);
            let mut s = id.clone();
            s.swap(k - 1, k);
            out.push(s);
        }
        out
    }
}

/// One level of composition.
fn two<U: Unsigned, N: Unsigned>(ctx: &mut Ctx, n: usize) -> R {
    let (a, c) = (U::to_usize(), N::to_usize());
    let rs: Vec<RefTree<E>> = (0..c).map(|k| reft(n, a, 10 + k as u64)).collect();
    let order = ctx.pick("order", &perms(c));
    let bs: Vec<&RefTree<E>> = order.iter().map(|k| &rs[*k]).collect();
    let w = want(&bs, c, 0);
    let dir = ctx.dir.clone();
    match ctx.choose("constructor", 9) {
        0 => {
            let mut ts = vec![];
            for b in &bs {
                ts.push(base::<VecStore<E>, U>(b)?);
            }
            let t: MerkleTree<E, A, VecStore<E>, U, N> = call(|| MerkleTree::from_trees(ts)).must("from_trees")?;
            observe(ctx, &t, &w, None)
        }
        1 => {
            let mut ts = vec![];
            for b in &bs {
                ts.push(base::<DiskStore<E>, U>(b)?);
            }
            let t: MerkleTree<E, A, DiskStore<E>, U, N> = call(|| MerkleTree::from_trees(ts)).must("from_trees")?;
            observe(ctx, &t, &w, None)?;
            observe(ctx, &t, &w, Some(0))
        }
        2 => {
            let v: Vec<Vec<u8>> = bs.iter().map(|b| b.bytes()).collect();
            let sl: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
            let t: MerkleTree<E, A, VecStore<E>, U, N> = call(|| MerkleTree::<E, A, VecStore<E>, U, N>::from_slices(&sl, n)).must("from_slices")?;
            observe(ctx, &t, &w, None)
        }
        3 => {
            let v: Vec<Vec<u8>> = bs.iter().map(|b| b.bytes()).collect();
            let sl: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
            let cf: Vec<StoreConfig> = (0..c).map(|k| cfg(&dir, &format!("s{}", k), 0)).collect();
            {
                let t: MerkleTree<E, A, DiskStore<E>, U, N> = call(|| MerkleTree::from_slices_with_configs(&sl, n, &cf)).must("from_slices_with_configs")?;
                observe(ctx, &t, &w, None)?;
            }
            // the files written are the trees
            let t: MerkleTree<E, A, DiskStore<E>, U, N> = call(|| MerkleTree::from_store_configs(n, &cf)).must("from_store_configs")?;
            observe(ctx, &t, &w, None)
        }
        4 => {
            let mut st = vec![];
            for b in &bs {
                st.push(call(|| MmapStore::<E>::new_from_slice(b.len(), &b.bytes())).must("store")?);
            }
            let t: MerkleTree<E, A, MmapStore<E>, U, N> = call(|| MerkleTree::from_stores(n, st)).must("from_stores")?;
            observe(ctx, &t, &w, None)
        }
        5 => {
            let mut cf = vec![];
            for (k, b) in bs.iter().enumerate() {
                cf.push(persist::<U>(&dir, &format!("p{}", k), b, None)?);
            }
            let t: MerkleTree<E, A, DiskStore<E>, U, N> = call(|| MerkleTree::from_store_configs(n, &cf)).must("from_store_configs")?;
            observe(ctx, &t, &w, None)?;
            let t: MerkleTree<E, A, MmapStore<E>, U, N> = call(|| MerkleTree::from_store_configs(n, &cf)).must("from_store_configs mmap")?;
            observe(ctx, &t, &w, None)
        }
        6 => {
            // level cache stores of version 1
            let rows = bs[0].row_count();
            let r = ctx.choose("rows", rows - 1);
            let mut cf = vec![];
            for (k, b) in bs.iter().enumerate() {
                cf.push(persist::<U>(&dir, &format!("p{}", k), b, Some((V1, r)))?);
            }
            let t: MerkleTree<E, A, Lc<E>, U, N> = call(|| MerkleTree::from_store_configs(n, &cf)).must("from_store_configs lc")?;
            observe(ctx, &t, &w, Some(r))
        }
        7 => {
            // mixed stores opened one by one
            let mut st = vec![];
            for (k, b) in bs.iter().enumerate() {
                let c = persist::<U>(&dir, &format!("p{}", k), b, None)?;
                st.push(call(|| DiskStore::<E>::new_from_disk(b.len(), a, &c)).must("open")?);
            }
            let t: MerkleTree<E, A, DiskStore<E>, U, N> = call(|| MerkleTree::from_stores(n, st)).must("from_stores")?;
            observe(ctx, &t, &w, None)
        }
        _ => replica::<U, N, U0>(ctx, &bs, n, &w),
    }
}

/// Level cache stores whose base data live in one replica file, at offsets of any order.
fn replica<U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx, bs: &[&RefTree<E>], n: usize, w: &Want) -> R {
    let dir = ctx.dir.clone();
    let rows = bs[0].row_count();
    let r = ctx.choose("rows", rows - 1);
    let mut cf = vec![];
    for (k, b) in bs.iter().enumerate() {
        cf.push(persist::<U>(&dir, &format!("p{}", k), b, Some((V2, r)))?);
    }
    let place = ctx.pick("placement", &perms(bs.len()));
    let gap = ctx.pick("gap", &[0usize, 1, 32, 33]);
    let lead = ctx.pick("lead", &[0usize, 7]);
    let mut file = vec![0xEEu8; lead];
    let mut offs = vec![0; bs.len()];
    for k in &place {
        offs[*k] = file.len();
        file.extend_from_slice(&to_bytes(&bs[*k].rows[0]));
        file.extend(std::iter::repeat(0xDDu8).take(gap));
    }
    let rp = dir.join("replica");
    write_file(&rp, &file);
    let rc = ReplicaConfig::new(rp, offs);
    let t: MerkleTree<E, A, Lc<E>, U, N, T> = if T::to_usize() == 0 {
        call(|| MerkleTree::from_store_configs_and_replica(n, &cf, &rc)).must("from_store_configs_and_replica")?
    } else {
        call(|| MerkleTree::from_sub_tree_store_configs_and_replica(n, &cf, &rc)).must("from_sub_tree_store_configs_and_replica")?
    };
    observe(ctx, &t, w, Some(r))
}

/// Two levels of composition.
fn three<U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx, n: usize) -> R {
    let (a, c, d) = (U::to_usize(), N::to_usize(), T::to_usize());
    let rs: Vec<RefTree<E>> = (0..c * d).map(|k| reft(n, a, 10 + k as u64)).collect();
    let order = ctx.pick("order", &perms(c * d));
    let bs: Vec<&RefTree<E>> = order.iter().map(|k| &rs[*k]).collect();
    let w = want(&bs, c, d);
    let dir = ctx.dir.clone();
    match ctx.choose("constructor", 6) {
        0 => {
            let mut ts = vec![];
            for b in &bs {
                ts.push(base::<VecStore<E>, U>(b)?);
            }
            let t: MerkleTree<E, A, VecStore<E>, U, N, T> = call(|| MerkleTree::from_sub_trees_as_trees(ts)).must("from_sub_trees_as_trees")?;
            observe(ctx, &t, &w, None)
        }
        1 => {
            let mut subs: Vec<MerkleTree<E, A, DiskStore<E>, U, N>> = vec![];
            for g in bs.chunks(c) {
                let mut ts = vec![];
                for b in g {
                    ts.push(base::<DiskStore<E>, U>(b)?);
                }
                subs.push(call(|| MerkleTree::from_trees(ts)).must("from_trees")?);
            }
            let t: MerkleTree<E, A, DiskStore<E>, U, N, T> = call(|| MerkleTree::from_sub_trees(subs)).must("from_sub_trees")?;
            observe(ctx, &t, &w, None)
        }
        2 => {
            let mut subs: Vec<MerkleTree<E, A, MmapStore<E>, U, N>> = vec![];
            for g in bs.chunks(c) {
                let mut st = vec![];
                for b in g {
                    st.push(call(|| MmapStore::<E>::new_from_slice(b.len(), &b.bytes())).must("store")?);
                }
                subs.push(call(|| MerkleTree::from_stores(n, st)).must("from_stores")?);
            }
            let t: MerkleTree<E, A, MmapStore<E>, U, N, T> = call(|| MerkleTree::from_sub_trees(subs)).must("from_sub_trees")?;
            observe(ctx, &t, &w, None)
        }
        3 => {
            let mut cf = vec![];
            for (k, b) in bs.iter().enumerate() {
                cf.push(persist::<U>(&dir, &format!("p{}", k), b, None)?);
            }
            let t: MerkleTree<E, A, DiskStore<E>, U, N, T> = call(|| MerkleTree::from_sub_tree_store_configs(n, &cf)).must("from_sub_tree_store_configs")?;
            observe(ctx, &t, &w, None)
        }
        4 => {
            let rows = bs[0].row_count();
            let r = ctx.choose("rows", rows - 1);
            let mut cf = vec![];
            for (k, b) in bs.iter().enumerate() {
                cf.push(persist::<U>(&dir, &format!("p{}", k), b, Some((V1, r)))?);
            }
            let t: MerkleTree<E, A, Lc<E>, U, N, T> = call(|| MerkleTree::from_sub_tree_store_configs(n, &cf)).must("from_sub_tree_store_configs lc")?;
            observe(ctx, &t, &w, Some(r))
        }
        _ => replica::<U, N, T>(ctx, &bs, n, &w),
    }
}

/// Every number of parts other than the right one is refused.
fn counts<U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx, n: usize) -> R {
    let (a, c, d) = (U::to_usize(), N::to_usize(), T::to_usize());
    let right = c * d.max(1);
    let m = ctx.choose("count", 2 * right + 3);
    let r = reft(n, a, 3);
    let dir = ctx.dir.clone();
    let mk = |k: usize| -> Result<Vec<MerkleTree<E, A, VecStore<E>, U>>, Fail> {
        let mut v = vec![];
        for _ in 0..k {
            v.push(base::<VecStore<E>, U>(&r)?);
        }
        Ok(v)
    };
    let judge = |o: Out<usize>, what: &str, right: usize| -> R {
        if m == right {
            o.must(what).map(|_| ())
        } else {
            o.must_err(&format!("{} with {} parts instead of {}", what, m, right))
        }
    };
    ctx.op(5);
    if d == 0 {
        let ts = mk(m)?;
        judge(call(|| Ok(MerkleTree::<E, A, VecStore<E>, U, N>::from_trees(ts)?.len())), "from_trees", c)?;
        let b = r.bytes();
        let sl: Vec<&[u8]> = (0..m).map(|_| &b[..]).collect();
        judge(call(|| Ok(MerkleTree::<E, A, VecStore<E>, U, N>::from_slices(&sl, n)?.len())), "from_slices", c)?;
        let st: Vec<VecStore<E>> = (0..m).map(|_| VecStore::new_from_slice(r.len(), &b).unwrap()).collect();
        judge(call(|| Ok(MerkleTree::<E, A, VecStore<E>, U, N>::from_stores(n, st)?.len())), "from_stores", c)?;
        let cf: Vec<StoreConfig> = (0..m).map(|k| cfg(&dir, &format!("s{}", k), 0)).collect();
        judge(call(|| Ok(MerkleTree::<E, A, DiskStore<E>, U, N>::from_slices_with_configs(&sl, n, &cf)?.len())), "from_slices_with_configs", c)?;
        for k in 0..2 * c + 3 {
            if k != m {
                let sl2: Vec<&[u8]> = (0..k).map(|_| &b[..]).collect();
                let cf2: Vec<StoreConfig> = (0..m).map(|k| cfg(&dir, &format!("z{}", k), 0)).collect();
                call(|| Ok(MerkleTree::<E, A, DiskStore<E>, U, N>::from_slices_with_configs(&sl2, n, &cf2)?.len()))
                    .must_err("from_slices_with_configs with lists of different lengths")?;
            }
        }
        let mut cp = vec![];
        for k in 0..m {
            cp.push(persist::<U>(&dir, &format!("p{}", k), &r, None)?);
        }
        judge(call(|| Ok(MerkleTree::<E, A, DiskStore<E>, U, N>::from_store_configs(n, &cp)?.len())), "from_store_configs", c)?;
    } else {
        let ts = mk(m)?;
        judge(call(|| Ok(MerkleTree::<E, A, VecStore<E>, U, N, T>::from_sub_trees_as_trees(ts)?.len())), "from_sub_trees_as_trees", right)?;
        let mut subs = vec![];
        for _ in 0..m {
            let g = mk(c)?;
            subs.push(call(|| MerkleTree::<E, A, VecStore<E>, U, N>::from_trees(g)).must("from_trees")?);
        }
        judge(call(|| Ok(MerkleTree::<E, A, VecStore<E>, U, N, T>::from_sub_trees(subs)?.len())), "from_sub_trees", d)?;
        let mut cp = vec![];
        for k in 0..m {
            cp.push(persist::<U>(&dir, &format!("p{}", k), &r, None)?);
        }
        judge(call(|| Ok(MerkleTree::<E, A, DiskStore<E>, U, N, T>::from_sub_tree_store_configs(n, &cp)?.len())), "from_sub_tree_store_configs", right)?;
    }
    // replica: configs and offsets of every pair of lengths
    let mut cp = vec![];
    for k in 0..m {
        cp.push(persist::<U>(&dir, &format!("r{}", k), &r, Some((V2, 0)))?);
    }
    let rp = dir.join("replica");
    write_file(&rp, &to_bytes(&r.rows[0]));
    for o in 0..2 * right + 3 {
        let rc = ReplicaConfig::new(rp.clone(), vec![0; o]);
        let out = if d == 0 {
            call(|| Ok(MerkleTree::<E, A, Lc<E>, U, N>::from_store_configs_and_replica(n, &cp, &rc)?.len()))
        } else {
            call(|| Ok(MerkleTree::<E, A, Lc<E>, U, N, T>::from_sub_tree_store_configs_and_replica(n, &cp, &rc)?.len()))
        };
        ctx.op(1);
        if o == m && m == right {
            out.must("configs and replica")?;
        } else {
            out.must_err(&format!("{} configs and {} offsets for {} trees", m, o, right))?;
        }
    }
    ctx.state(h64(m as u64, b"counts"));
    Ok(())
}

/// One part of a different size, at every position.
fn unequal<U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx, n: usize, other: usize) -> R {
    let (a, c, d) = (U::to_usize(), N::to_usize(), T::to_usize());
    let total = c * d.max(1);
    if total < 2 {
        return Ok(());
    }
    let at = ctx.choose("position", total);
    let r = reft(n, a, 3);
    let x = reft(other, a, 4);
    let part = |k: usize| if k == at { &x } else { &r };
    let mut ts = vec![];
    for k in 0..total {
        ts.push(base::<VecStore<E>, U>(part(k))?);
    }
    ctx.op(3);
    if d == 0 {
        call(|| MerkleTree::<E, A, VecStore<E>, U, N>::from_trees(ts).map(|_| ())).must_err("unequal from_trees")?;
        let b: Vec<Vec<u8>> = (0..total).map(|k| part(k).bytes()).collect();
        let sl: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect();
        call(|| MerkleTree::<E, A, VecStore<E>, U, N>::from_slices(&sl, n).map(|_| ())).must_err("unequal from_slices")?;
        let st: Vec<VecStore<E>> = b.iter().map(|b| VecStore::new_from_slice(b.len() / 32, b).unwrap()).collect();
        call(|| MerkleTree::<E, A, VecStore<E>, U, N>::from_stores(n, st).map(|_| ())).must_err("unequal from_stores")?;
    } else {
        call(|| MerkleTree::<E, A, VecStore<E>, U, N, T>::from_sub_trees_as_trees(ts).map(|_| ())).must_err("unequal from_sub_trees_as_trees")?;
        if d >= 2 {
            let g = at / c;
            let mut subs = vec![];
            for k in 0..d {
                let mut v = vec![];
                for _ in 0..c {
                    v.push(base::<VecStore<E>, U>(if k == g { &x } else { &r })?);
                }
                subs.push(call(|| MerkleTree::<E, A, VecStore<E>, U, N>::from_trees(v)).must("from_trees")?);
            }
            call(|| MerkleTree::<E, A, VecStore<E>, U, N, T>::from_sub_trees(subs).map(|_| ())).must_err("unequal from_sub_trees")?;
        }
    }
    let mut cf = vec![];
    for k in 0..total {
        cf.push(persist::<U>(&ctx.dir, &format!("q{}", k), part(k), None)?);
    }
    if d == 0 {
        call(|| MerkleTree::<E, A, DiskStore<E>, U, N>::from_store_configs(n, &cf).map(|_| ())).must_err("unequal from_store_configs")?;
    } else {
        call(|| MerkleTree::<E, A, DiskStore<E>, U, N, T>::from_sub_tree_store_configs(n, &cf).map(|_| ())).must_err("unequal from_sub_tree_store_configs")?;
    }
    ctx.state(h64(at as u64, b"unequal"));
    Ok(())
}

/// Parts of the wrong layer: base trees for a type with a top layer, and the like.
fn layers<U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx) -> R {
    let (a, c, d) = (U::to_usize(), N::to_usize(), T::to_usize());
    let r = reft(a, a, 3);
    let b = r.bytes();
    // as many base trees as either layer has parts
    for (x, m) in [c, d, c * d].into_iter().enumerate() {
        let mut ts = vec![];
        for _ in 0..m {
            ts.push(base::<VecStore<E>, U>(&r)?);
        }
        call(|| MerkleTree::<E, A, VecStore<E>, U, N, T>::from_trees(ts).map(|_| ())).must_err("from_trees of a type with a top layer")?;
        let st: Vec<VecStore<E>> = (0..m).map(|_| VecStore::new_from_slice(r.len(), &b).unwrap()).collect();
        call(|| MerkleTree::<E, A, VecStore<E>, U, N, T>::from_stores(a, st).map(|_| ())).must_err("from_stores of a type with a top layer")?;
        let sl: Vec<&[u8]> = (0..m).map(|_| &b[..]).collect();
        let cf: Vec<StoreConfig> = (0..m).map(|k| cfg(&ctx.dir, &format!("s{}-{}", x, k), 0)).collect();
        call(|| MerkleTree::<E, A, DiskStore<E>, U, N, T>::from_slices_with_configs(&sl, a, &cf).map(|_| ())).must_err("from_slices_with_configs of a type with a top layer")?;
        let mut cp = vec![];
        for k in 0..m {
            cp.push(persist::<U>(&ctx.dir, &format!("p{}-{}", x, k), &r, None)?);
        }
        call(|| MerkleTree::<E, A, DiskStore<E>, U, N, T>::from_store_configs(a, &cp).map(|_| ())).must_err("from_store_configs of a type with a top layer")?;
        let mut subs = vec![];
        for _ in 0..m {
            subs.push(base::<VecStore<E>, U>(&r)?);
        }
        call(|| MerkleTree::<E, A, VecStore<E>, U, U0, T>::from_sub_trees(subs).map(|_| ())).must_err("from_sub_trees of base trees")?;
        let mut ts = vec![];
        for _ in 0..m {
            ts.push(base::<VecStore<E>, U>(&r)?);
        }
        call(|| MerkleTree::<E, A, VecStore<E>, U, U0, T>::from_sub_trees_as_trees(ts).map(|_| ())).must_err("from_sub_trees_as_trees without sub-trees")?;
        let mut ts = vec![];
        for _ in 0..m {
            ts.push(base::<VecStore<E>, U>(&r)?);
        }
        call(|| MerkleTree::<E, A, VecStore<E>, U, N, U0>::from_sub_trees_as_trees(ts).map(|_| ())).must_err("from_sub_trees_as_trees without a top layer")?;
        ctx.op(7);
    }
    let rp = ctx.dir.join("replica");
    write_file(&rp, &to_bytes(&r.rows[0]));
    let mut cp = vec![];
    let r2 = reft(a * a, a, 3);
    for k in 0..c {
        cp.push(persist::<U>(&ctx.dir, &format!("r{}", k), &r2, Some((V2, 0)))?);
    }
    write_file(&rp, &to_bytes(&r2.rows[0]));
    let rc = ReplicaConfig::new(rp, vec![0; c]);
    call(|| MerkleTree::<E, A, Lc<E>, U, N, T>::from_store_configs_and_replica(a * a, &cp, &rc).map(|_| ())).must_err("from_store_configs_and_replica of a type with a top layer")?;
    call(|| MerkleTree::<E, A, Lc<E>, U, N, U0>::from_store_configs_and_replica(a * a, &cp, &rc).map(|_| ())).must("from_store_configs_and_replica")?;
    ctx.state(h64(a as u64, b"layers"));
    Ok(())
}

fn shapes<U: Unsigned + 'static>(s: &mut Spec, q: bool) {
    let a = U::to_usize();
    macro_rules! sub {
        ($($N:ident),*) => { $( {
            let c = typenum::$N::to_usize();
            let max = if q { if c <= 3 { 64 } else if c == 4 { 16 } else { 8 } } else { 256 };
            for n in sizes(a, max.max(a)) {
                s.add(format!("two/{}-{}/n{}", a, c, n), move |x| two::<U, typenum::$N>(x, n));
            }
            s.add(format!("counts/{}-{}", a, c), move |x| counts::<U, typenum::$N, U0>(x, a));
            for o in [a * a] {
                s.add(format!("unequal/{}-{}/{}", a, c, o), move |x| unequal::<U, typenum::$N, U0>(x, a, o));
                s.add(format!("unequal/{}-{}/-{}", a, c, o), move |x| unequal::<U, typenum::$N, U0>(x, o, a));
            }
        } )* }
    }
    sub!(U1, U2, U3, U4, U5, U8);
    macro_rules! top {
        ($(($N:ident, $T:ident)),*) => { $( {
            let (c, d) = (typenum::$N::to_usize(), typenum::$T::to_usize());
            let max = if q { if c * d <= 3 { 64 } else { a } } else { 64 };
            for n in sizes(a, max.max(a)) {
                s.add(format!("three/{}-{}-{}/n{}", a, c, d, n), move |x| three::<U, typenum::$N, typenum::$T>(x, n));
            }
            s.add(format!("counts/{}-{}-{}", a, c, d), move |x| counts::<U, typenum::$N, typenum::$T>(x, a));
            s.add(format!("unequal/{}-{}-{}", a, c, d), move |x| unequal::<U, typenum::$N, typenum::$T>(x, a, a * a));
        } )* }
    }
    top!((U1, U1), (U1, U2), (U2, U1), (U3, U1), (U1, U3), (U2, U2), (U3, U2), (U2, U3), (U4, U2), (U2, U4));
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    let mut s = Spec::new("C06");
    macro_rules! ly {
        ($(($U:ident, $N:ident, $T:ident)),*) => { $( {
            s.add(format!("layers/{}-{}-{}", typenum::$U::to_usize(), typenum::$N::to_usize(), typenum::$T::to_usize()), |x| layers::<typenum::$U, typenum::$N, typenum::$T>(x));
        } )* }
    }
    ly!((U2, U1, U1), (U2, U2, U1), (U2, U1, U2), (U2, U2, U2), (U2, U3, U2), (U2, U2, U3), (U4, U4, U2), (U4, U2, U2));
    shapes::<typenum::U2>(&mut s, q);
    shapes::<typenum::U4>(&mut s, q);
    if !q {
        shapes::<typenum::U8>(&mut s, q);
    } else {
        s.add("two/8-2/n64", move |x| two::<typenum::U8, typenum::U2>(x, 64));
        s.add("three/8-2-2/n8", move |x| three::<typenum::U8, typenum::U2, typenum::U2>(x, 8));
        s.add("three/8-8-2/n8", move |x| three::<typenum::U8, typenum::U8, typenum::U2>(x, 8));
    }
    s.bound("sub-tree counts 1,2,3,4,5,8 and 10 (sub, top) pairs; all orders of up to 4 distinct parts (rotations, swaps, reversal beyond); all constructors; all placements of the parts in the replica x gaps x lead; every leaf index; every count 0..2k+2; an unequal part at every position");
    s
}

fn main() {
    mc::engine::main(build)
}
