//! C05: a cached proof equals the full proof for every number of discarded rows.
use mc::*;
use merkletree::merkle::*;
use merkletree::proof::Proof;
use merkletree::store::*;
use std::path::{Path, PathBuf};
use typenum::Unsigned;

type E = El<32>;
const V1: u32 = StoreConfigDataVersion::One as u32;
const V2: u32 = StoreConfigDataVersion::Two as u32;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    V1,
    V2(usize),
    /// opened like a v1 store, reader set afterwards
    V2Late,
    /// built directly as a level cache store
    Direct,
}

fn cfg(dir: &Path, id: &str, r: usize) -> StoreConfig {
    StoreConfig::new(dir, id, r)
}

fn replica(dir: &Path, id: &str, data: &[u8], off: usize) -> PathBuf {
    let p = dir.join(format!("replica-{}", id));
    let mut b = vec![0x77u8; off];
    b.extend_from_slice(data);
    b.extend_from_slice(&[0x99u8; 40]);
    write_file(&p, &b);
    p
}

fn open<A, U>(dir: &Path, id: &str, r: &RefTree<El<32>>, rc: usize, k: Kind) -> Result<MerkleTree<E, A, Lc<E>, U>, Fail>
where
    A: RefAlg<E>,
    U: Unsigned,
{
    let n = r.leafs();
    let a = U::to_usize();
    let c = cfg(dir, id, rc);
    let data = to_bytes(&r.rows[0]);
    if let Kind::Direct = k {
        let rep = replica(dir, id, &data, 0);
        let mut t: MerkleTree<E, A, Lc<E>, U> = call(|| MerkleTree::from_byte_slice_with_config(&data, c)).must("build lc")?;
        call(|| t.set_external_reader_path(&rep)).must("reader")?;
        return Ok(t);
    }
    let mut t: MerkleTree<E, A, DiskStore<E>, U> = call(|| MerkleTree::from_byte_slice_with_config(&data, c.clone())).must("build")?;
    call(|| t.compact(c.clone(), if k == Kind::V1 { V1 } else { V2 })).must("compact")?;
    drop(t);
    let store: Lc<E> = match k {
        Kind::V1 => call(|| LevelCacheStore::new_from_disk(r.len(), a, &c)).must("open v1")?,
        Kind::V2(off) => {
            let rep = replica(dir, id, &data, off);
            let rd = call(|| ExternalReader::new_from_config(&ReplicaConfig::new(rep, vec![off]), 0)).must("reader")?;
            call(|| LevelCacheStore::new_from_disk_with_reader(r.len(), a, &c, rd)).must("open v2")?
        }
        _ => {
            let rep = replica(dir, id, &data, 0);
            let mut s: Lc<E> = call(|| LevelCacheStore::new_from_disk(r.len(), a, &c)).must("open late")?;
            call(|| s.set_external_reader(ExternalReader::new_from_path(&rep)?)).must("reader")?;
            s
        }
    };
    call(|| MerkleTree::from_data_store(store, n)).must("from_data_store")
}

fn same_base<A: RefAlg<E>, U: Unsigned>(p: &Proof<E, U>, r: &RefTree<E>, i: usize, what: &str) -> R {
    let (l, path) = r.proof(i);
    check!(*p.lemma() == l, "lemma", "{}: leaf {}: lemma differs from the full proof", what, i);
    check!(*p.path() == path, "path", "{}: leaf {}: path differs from the full proof", what, i);
    check!(p.sub_tree_proof.is_none(), "sub", "{}: sub proof", what);
    check!(call(|| p.validate::<A>()).must("validate")?, "validate", "{}: leaf {} does not validate", what, i);
    Ok(())
}

fn same<U: Unsigned>(p: &Proof<E, U>, q: &Proof<E, U>) -> bool {
    p.lemma() == q.lemma()
        && p.path() == q.path()
        && p.top_layer_nodes() == q.top_layer_nodes()
        && p.sub_layer_nodes() == q.sub_layer_nodes()
        && match (&p.sub_tree_proof, &q.sub_tree_proof) {
            (None, None) => true,
            (Some(a), Some(b)) => same(a, b),
            _ => false,
        }
}

fn requests(rows: usize) -> Vec<Option<usize>> {
    let mut v: Vec<Option<usize>> = (0..=rows + 1).map(Some).collect();
    v.push(Some(1000));
    v.push(Some(usize::MAX));
    v.push(None);
    v
}

fn reft<A: RefAlg<E>>(n: usize, a: usize, salt: u64) -> RefTree<E> {
    RefTree::new(items::<E>(Pat::Distinct, salt, n), a, A::HEIGHT)
}

fn leaves(n: usize, all: usize, a: usize) -> Vec<usize> {
    if n <= all {
        return (0..n).collect();
    }
    // both ends and both sides of every segment boundary of every row
    let mut v = vec![];
    let mut w = n / a;
    while w >= 1 {
        for k in 0..=n / w {
            if v.len() > 600 {
                break;
            }
            for x in [(k * w).wrapping_sub(1), k * w, k * w + 1] {
                if x < n {
                    v.push(x);
                }
            }
        }
        w /= a;
    }
    v.push(n - 1);
    v.sort();
    v.dedup();
    v
}

fn uncompacted<A: RefAlg<E>, U: Unsigned>(ctx: &mut Ctx, n: usize, named: bool, all: usize) -> R {
    let a = U::to_usize();
    let r = reft::<A>(n, a, 5);
    let data = to_bytes(&r.rows[0]);
    let t: MerkleTree<E, A, DiskStore<E>, U> = if named {
        call(|| MerkleTree::from_byte_slice_with_config(&data, cfg(&ctx.dir, "u", 0))).must("build")?
    } else {
        call(|| MerkleTree::from_byte_slice(&data)).must("build")?
    };
    for rq in requests(r.row_count()) {
        for i in leaves(n, all, a) {
            let p = call(|| t.gen_cached_proof(i, rq)).must("gen_cached_proof")?;
            same_base::<A, U>(&p, &r, i, &format!("uncompacted rows={:?}", rq))?;
            let f = call(|| t.gen_proof(i)).must("gen_proof")?;
            check!(same(&p, &f), "proof", "leaf {}: the cached proof is not equal to the full proof", i);
            ctx.op(2);
            ctx.state(h64(i as u64, &to_bytes(p.lemma())) ^ h64(9, format!("{:?}", rq).as_bytes()));
        }
        call(|| t.gen_cached_proof(n, rq)).must_err("out of range")?;
    }
    Ok(())
}

fn compacted<A: RefAlg<E>, U: Unsigned>(ctx: &mut Ctx, n: usize, rc: usize, k: Kind, all: usize) -> R {
    let a = U::to_usize();
    let r = reft::<A>(n, a, 6);
    let t = open::<A, U>(&ctx.dir, "t", &r, rc, k)?;
    let max = r.row_count() - 2;
    for rq in requests(r.row_count()) {
        let eff = match rq {
            Some(x) => x.min(max),
            None => StoreConfig::default_rows_to_discard(n, a),
        };
        for i in leaves(n, all, a) {
            ctx.op(1);
            if eff < rc {
                call(|| t.gen_cached_proof(i, rq)).must_err("needs discarded rows")?;
                if i > 4 * a {
                    break;
                }
                continue;
            }
            let p = call(|| t.gen_cached_proof(i, rq)).must("gen_cached_proof")?;
            same_base::<A, U>(&p, &r, i, &format!("{:?} compacted={} rows={:?}", k, rc, rq))?;
            ctx.state(h64(i as u64, &to_bytes(p.lemma())) ^ h64(9, format!("{:?}", rq).as_bytes()));
        }
        call(|| t.gen_cached_proof(n, rq)).must_err("out of range")?;
    }
    // the complete proof needs all rows
    let p = call(|| t.gen_proof(n / 2));
    if rc == 0 {
        same_base::<A, U>(&p.must("gen_proof of a store without discarded rows")?, &r, n / 2, "full")?;
    } else {
        p.must_err("gen_proof without the rows")?;
    }
    Ok(())
}

enum Tr<A: RefAlg<E>, U: Unsigned> {
    Disk(MerkleTree<E, A, DiskStore<E>, U>),
    Lc(MerkleTree<E, A, Lc<E>, U>),
}

fn layer<A: RefAlg<E>, U: Unsigned>(p: &Proof<E, U>, roots: &[E], k: usize, what: &str) -> Result<E, Fail> {
    let root = ref_node(roots, if A::HEIGHT { Some(1) } else { None });
    let mut l: Vec<E> = roots.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, r)| *r).collect();
    l.push(root);
    check!(*p.lemma() == l, "lemma", "{}: lemma of the layer differs", what);
    check!(*p.path() == vec![k], "path", "{}: path {:?} != [{}]", what, p.path(), k);
    check!(p.sub_tree_proof.is_some(), "subproof", "{}: no sub proof", what);
    check!(call(|| p.validate::<A>()).must("validate")?, "validate", "{}: cached proof rejected", what);
    Ok(root)
}

/// `ends`: only the leafs at both ends of each part, instead of all
fn compound<A: RefAlg<E>, U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx, n: usize, rc: usize, k: Option<Kind>, ends: bool) -> R {
    let a = U::to_usize();
    let (cn, tn) = (N::to_usize(), T::to_usize());
    let count = cn * tn.max(1);
    let rs: Vec<RefTree<E>> = (0..count).map(|x| reft::<A>(n, a, 50 + x as u64)).collect();
    let mut disk = vec![];
    let mut lc = vec![];
    for (x, r) in rs.iter().enumerate() {
        let id = format!("t{}", x);
        let t = match k {
            None => Tr::Disk(call(|| MerkleTree::<E, A, DiskStore<E>, U>::from_byte_slice(&to_bytes(&r.rows[0]))).must("build")?),
            Some(k) => Tr::Lc(open::<A, U>(&ctx.dir, &id, r, rc, k)?),
        };
        match t {
            Tr::Disk(t) => disk.push(t),
            Tr::Lc(t) => lc.push(t),
        }
    }
    if k.is_none() {
        drive::<A, DiskStore<E>, U, N, T>(ctx, disk, &rs, n, rc, ends)
    } else {
        drive::<A, Lc<E>, U, N, T>(ctx, lc, &rs, n, rc, ends)
    }
}

fn drive<A: RefAlg<E>, S: Store<E>, U: Unsigned, N: Unsigned, T: Unsigned>(ctx: &mut Ctx, trees: Vec<MerkleTree<E, A, S, U>>, rs: &[RefTree<E>], n: usize, rc: usize, ends: bool) -> R {
    let (cn, tn) = (N::to_usize(), T::to_usize());
    let t: MerkleTree<E, A, S, U, N, T> = if tn == 0 {
        call(|| MerkleTree::from_trees(trees)).must("from_trees")?
    } else {
        call(|| MerkleTree::from_sub_trees_as_trees(trees)).must("from_sub_trees_as_trees")?
    };
    let roots: Vec<E> = rs.iter().map(|r| r.root()).collect();
    let sroots: Vec<E> = roots.chunks(cn).map(|g| ref_node(g, if A::HEIGHT { Some(1) } else { None })).collect();
    let max = rs[0].row_count() - 2;
    for rq in requests(rs[0].row_count()) {
        let eff = match rq {
            Some(x) => x.min(max),
            None => StoreConfig::default_rows_to_discard(n, U::to_usize()),
        };
        for i in 0..n * rs.len() {
            if ends && !(i % n < 2 || i % n >= n - 2 || i % n == n / 2) {
                continue;
            }
            ctx.op(1);
            if eff < rc {
                call(|| t.gen_cached_proof(i, rq)).must_err("needs discarded rows")?;
                continue;
            }
            let p = call(|| t.gen_cached_proof(i, rq)).must("gen_cached_proof")?;
            let b = i / n;
            let what = format!("rows={:?} leaf {}", rq, i);
            if tn > 0 {
                let g = b / cn;
                let root = layer::<A, U>(&p, &sroots, g, &what)?;
                check!(root == t.root(), "root", "root");
                let m = p.sub_tree_proof.as_ref().unwrap();
                layer::<A, U>(m, &roots[g * cn..(g + 1) * cn], b % cn, &what)?;
                same_base::<A, U>(m.sub_tree_proof.as_ref().unwrap(), &rs[b], i % n, &what)?;
                check!(p.top_layer_nodes() == tn && p.sub_layer_nodes() == cn, "layers", "layer counts");
            } else {
                layer::<A, U>(&p, &roots, b, &what)?;
                same_base::<A, U>(p.sub_tree_proof.as_ref().unwrap(), &rs[b], i % n, &what)?;
                check!(p.top_layer_nodes() == 0 && p.sub_layer_nodes() == cn, "layers", "layer counts");
            }
            if rc == 0 {
                let f = call(|| t.gen_proof(i)).must("gen_proof")?;
                check!(same(&p, &f), "proof", "leaf {}: the cached proof is not equal to the full proof", i);
            }
            ctx.state(h64(i as u64, &to_bytes(p.lemma())) ^ h64(9, format!("{:?}", rq).as_bytes()));
        }
        call(|| t.gen_cached_proof(n * rs.len(), rq)).must_err("out of range")?;
        call(|| t.gen_cached_proof(usize::MAX, rq)).must_err("out of range")?;
    }
    Ok(())
}

fn arity<U: Unsigned + 'static>(s: &mut Spec, q: bool) {
    let a = U::to_usize();
    let (max, all) = if q { (if a == 2 { 1 << 10 } else { 1 << 12 }, 256) } else { (1 << 13, 1 << 10) };
    for n in sizes(a, max).into_iter().rev() {
        let rows = sizes(a, n).len() + 1;
        s.add(format!("full/arity{}/n{}", a, n), move |c| uncompacted::<Alg<true>, U>(c, n, true, all));
        if n <= all {
            s.add(format!("full/arity{}/n{}/plain", a, n), move |c| uncompacted::<Plain, U>(c, n, false, all));
        }
        for rc in 0..=rows - 2 {
            for k in [Kind::V1, Kind::V2(0), Kind::V2(57), Kind::V2Late, Kind::Direct] {
                s.add(format!("cached/arity{}/n{}/r{}/{:?}", a, n, rc, k), move |c| compacted::<Alg<true>, U>(c, n, rc, k, all));
            }
        }
    }
    macro_rules! comp {
        ($(($N:ident, $T:ident)),*) => { $(
            for n in sizes(a, if q { 64 } else { 512 }) {
                let rows = sizes(a, n).len() + 1;
                let tag = format!("compound/{}-{}-{}/n{}", a, typenum::$N::to_usize(), typenum::$T::to_usize(), n);
                s.add(format!("{}/disk", tag), move |c| compound::<Alg<true>, U, typenum::$N, typenum::$T>(c, n, 0, None, false));
                for rc in 0..=rows - 2 {
                    for k in [Kind::V1, Kind::V2(64)] {
                        s.add(format!("{}/r{}/{:?}", tag, rc, k), move |c| compound::<Alg<true>, U, typenum::$N, typenum::$T>(c, n, rc, Some(k), false));
                    }
                }
            }
        )* }
    }
    // parts from which more rows than the default number are discarded
    let n = match a {
        2 => 1 << 9,
        4 => 1 << 14,
        8 => 1 << 12,
        _ => 1 << 16,
    };
    let rows = sizes(a, n).len() + 1;
    for rc in StoreConfig::default_rows_to_discard(n, a)..=rows - 2 {
        for k in [Kind::V1, Kind::V2(64)] {
            s.add(format!("compound/{}-2-0/deep/n{}/r{}/{:?}", a, n, rc, k), move |c| compound::<Plain, U, typenum::U2, typenum::U0>(c, n, rc, Some(k), true));
            s.add(format!("compound/{}-2-2/deep/n{}/r{}/{:?}", a, n, rc, k), move |c| compound::<Plain, U, typenum::U2, typenum::U2>(c, n, rc, Some(k), true));
        }
    }
    comp!((U1, U0), (U2, U0), (U3, U0), (U8, U0), (U2, U2), (U3, U2), (U1, U3), (U2, U5));
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    let mut s = Spec::new("C05");
    arity::<typenum::U2>(&mut s, q);
    arity::<typenum::U4>(&mut s, q);
    arity::<typenum::U8>(&mut s, q);
    arity::<typenum::U16>(&mut s, q);
    s.add("huge a2", |c| huge_cached::<El<32>, typenum::U2>(c, 33, &[1, 2, 7, 12]));
    s.add("huge a4", |c| huge_cached::<El<32>, typenum::U4>(c, 17, &[1, 2, 5]));
    s.add("huge a8", |c| huge_cached::<El<32>, typenum::U8>(c, 11, &[1, 2, 4]));
    s.bound("compacted trees of 2^33 and 2^34 leafs in sparse files, replica offsets 0 and beyond 4 GiB, leafs around every power of two");
    s.bound("arities 2,4,8,16; every valid leaf count up to the bound; every number of compacted rows; every requested number of rows (0..rows+1, huge, none); uncompacted, v1, v2 with reader at two offsets, v2 with the reader set later, level cache built directly; compound and compound-compound of them, also of deep parts (512 to 65536 leafs each, leafs at the ends and in the middle of each part) from which the default and every larger number of rows was discarded");
    s.bound(if q { "every leaf up to 256 leafs, then (up to 2^12) the leafs around segment boundaries" } else { "every leaf up to 1024 leafs, then (up to 2^13) the leafs around segment boundaries" });
    s.assume("stores that do not implement read_range_into (VecStore, MmapStore) do not offer cached proofs");
    s
}

fn main() {
    mc::engine::main(build)
}
