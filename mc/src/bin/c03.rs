//! C03: completeness of proofs for every leaf of every shape.
use mc::*;
use merkletree::merkle::*;
use merkletree::proof::Proof;
use merkletree::store::*;
use typenum::{Unsigned, U0};

struct Base<E> {
    items: Vec<E>,
    r: RefTree<E>,
}

fn bases<E: Element>(count: usize, n: usize, arity: usize, height: bool, from_data: bool) -> Vec<Base<E>> {
    (0..count)
        .map(|k| {
            let its: Vec<E> = items(Pat::Distinct, 100 + k as u64, n);
            let c = if from_data { Ctor::FromData } else { Ctor::ByteSlice };
            let r = RefTree::new(c.leaf_row(&its), arity, height);
            Base { items: its, r }
        })
        .collect()
}

fn mk<E, A, S, U>(b: &Base<E>, from_data: bool) -> anyhow::Result<MerkleTree<E, A, S, U>>
where
    E: Element + 'static,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
{
    let c = if from_data { Ctor::FromData } else { Ctor::ByteSlice };
    construct(c, &b.items, &b.r, &StoreConfig::default())
}

fn check_base<E: Element + 'static, A: RefAlg<E>, U: Unsigned>(p: &Proof<E, U>, r: &RefTree<E>, i: usize, what: &str) -> R {
    let (l, path) = r.proof(i);
    check!(p.sub_tree_proof.is_none(), "subproof", "{}: base proof with a sub proof", what);
    check!(*p.lemma() == l, "lemma", "{}: leaf {}: lemma differs from the siblings", what, i);
    check!(*p.path() == path, "path", "{}: leaf {}: path {:?} != {:?}", what, i, p.path(), path);
    check!(p.item() == r.rows[0][i], "item", "{}: leaf {}: item differs", what, i);
    check!(p.root() == r.root(), "root", "{}: leaf {}: root differs", what, i);
    check!(p.top_layer_nodes() == 0 && p.sub_layer_nodes() == 0, "layers", "{}: layers of a base proof", what);
    check!(call(|| p.validate::<A>()).must("validate")?, "validate", "{}: leaf {}: genuine proof rejected", what, i);
    Ok(())
}

fn with_data<E: Element + 'static, A: RefAlg<E>, U: Unsigned>(p: &Proof<E, U>, b: &Base<E>, i: usize, from_data: bool) -> R {
    if !from_data {
        return Ok(());
    }
    let o = Obj(b.items[i].as_ref().to_vec());
    check!(call(|| p.validate_with_data::<A>(&o)).must("validate_with_data")?, "validate_with_data", "leaf {}: original data rejected", i);
    Ok(())
}

fn one_base<E, A, S, U>(ctx: &mut Ctx, n: usize, fd: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
{
    let b = bases::<E>(1, n, U::to_usize(), A::HEIGHT, fd).pop().unwrap();
    let t = call(|| mk::<E, A, S, U>(&b, fd)).must("construct")?;
    for i in 0..n {
        let p = call(|| t.gen_proof(i)).must("gen_proof")?;
        check_base::<E, A, U>(&p, &b.r, i, "base")?;
        with_data::<E, A, U>(&p, &b, i, fd)?;
        ctx.op(3);
        ctx.state(h64(i as u64, &to_bytes(p.lemma())));
    }
    call(|| t.gen_proof(n)).must_err("gen_proof out of range")?;
    call(|| t.gen_proof(usize::MAX)).must_err("gen_proof out of range")?;
    Ok(())
}

fn layer<E: Element + 'static, A: RefAlg<E>, U: Unsigned>(p: &Proof<E, U>, roots: &[E], k: usize, what: &str) -> Result<E, Fail> {
    let root = ref_node(roots, if A::HEIGHT { Some(1) } else { None });
    let mut l: Vec<E> = roots.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, r)| r.clone()).collect();
    l.push(root.clone());
    check!(*p.lemma() == l, "lemma", "{}: lemma of the layer differs", what);
    check!(*p.path() == vec![k], "path", "{}: path {:?} != [{}]", what, p.path(), k);
    check!(p.root() == root, "root", "{}: root differs", what);
    check!(p.sub_tree_proof.is_some(), "subproof", "{}: no sub proof", what);
    check!(p.sub_tree_root() == roots[k], "sub_tree_root", "{}: sub tree root differs", what);
    check!(call(|| p.validate::<A>()).must("validate")?, "validate", "{}: genuine proof rejected", what);
    Ok(root)
}

fn two<E, A, S, U, N>(ctx: &mut Ctx, n: usize, fd: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
    N: Unsigned,
{
    let c = N::to_usize();
    let bs = bases::<E>(c, n, U::to_usize(), A::HEIGHT, fd);
    let mut trees = vec![];
    for b in &bs {
        trees.push(call(|| mk::<E, A, S, U>(b, fd)).must("construct")?);
    }
    let t: MerkleTree<E, A, S, U, N> = call(|| MerkleTree::from_trees(trees)).must("from_trees")?;
    let roots: Vec<E> = bs.iter().map(|b| b.r.root()).collect();
    for i in 0..n * c {
        let p = call(|| t.gen_proof(i)).must("gen_proof")?;
        let k = i / n;
        let root = layer::<E, A, U>(&p, &roots, k, "compound")?;
        check!(root == t.root(), "tree root", "root of the compound tree");
        check_base::<E, A, U>(p.sub_tree_proof.as_ref().unwrap(), &bs[k].r, i % n, "compound")?;
        check!(p.item() == bs[k].r.rows[0][i % n], "item", "compound leaf {}: item() is not the leaf", i);
        check!(p.top_layer_nodes() == 0 && p.sub_layer_nodes() == c, "layers", "layer counts {} {}", p.top_layer_nodes(), p.sub_layer_nodes());
        with_data::<E, A, U>(&p, &bs[k], i % n, fd)?;
        ctx.op(4);
        ctx.state(h64(i as u64, &to_bytes(p.lemma())));
    }
    call(|| t.gen_proof(n * c)).must_err("gen_proof out of range")?;
    Ok(())
}

fn three<E, A, S, U, N, T>(ctx: &mut Ctx, n: usize, fd: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    S: Store<E>,
    U: Unsigned,
    N: Unsigned,
    T: Unsigned,
{
    let (c, d) = (N::to_usize(), T::to_usize());
    let bs = bases::<E>(c * d, n, U::to_usize(), A::HEIGHT, fd);
    let mut trees = vec![];
    for b in &bs {
        trees.push(call(|| mk::<E, A, S, U>(b, fd)).must("construct")?);
    }
    let t: MerkleTree<E, A, S, U, N, T> = if ctx.choose("composition", 2) == 0 {
        call(|| MerkleTree::from_sub_trees_as_trees(trees)).must("from_sub_trees_as_trees")?
    } else {
        let mut subs: Vec<MerkleTree<E, A, S, U, N>> = vec![];
        let mut it = trees.into_iter();
        for _ in 0..d {
            let g: Vec<_> = it.by_ref().take(c).collect();
            subs.push(call(|| MerkleTree::from_trees(g)).must("from_trees")?);
        }
        call(|| MerkleTree::from_sub_trees(subs)).must("from_sub_trees")?
    };
    let roots: Vec<E> = bs.iter().map(|b| b.r.root()).collect();
    let sroots: Vec<E> = roots.chunks(c).map(|g| ref_node(g, if A::HEIGHT { Some(1) } else { None })).collect();
    for i in 0..n * c * d {
        let p = call(|| t.gen_proof(i)).must("gen_proof")?;
        let g = i / (n * c);
        let b = i / n;
        let root = layer::<E, A, U>(&p, &sroots, g, "top")?;
        check!(root == t.root(), "tree root", "root of the compound tree");
        let sp = p.sub_tree_proof.as_ref().unwrap();
        layer::<E, A, U>(sp, &roots[g * c..(g + 1) * c], b % c, "middle")?;
        check_base::<E, A, U>(sp.sub_tree_proof.as_ref().unwrap(), &bs[b].r, i % n, "bottom")?;
        check!(p.item() == bs[b].r.rows[0][i % n], "item", "leaf {}: item() is not the leaf", i);
        check!(p.top_layer_nodes() == d && p.sub_layer_nodes() == c, "layers", "layer counts");
        with_data::<E, A, U>(&p, &bs[b], i % n, fd)?;
        ctx.op(6);
        ctx.state(h64(i as u64, &to_bytes(p.lemma())));
    }
    call(|| t.gen_proof(n * c * d)).must_err("gen_proof out of range")?;
    Ok(())
}

fn shapes<U: Unsigned + 'static>(s: &mut Spec, q: bool) {
    let a = U::to_usize();
    type E = El<32>;
    let maxb = if q { 1 << 14 } else { 1 << 16 };
    for n in sizes(a, maxb).into_iter().rev() {
        for fd in [true, false] {
            let tag = format!("base/arity{}/n{}/{}", a, n, if fd { "data" } else { "raw" });
            s.add(format!("{}/plain/vec", tag), move |c| one_base::<E, Plain, VecStore<E>, U>(c, n, fd));
            s.add(format!("{}/height/vec", tag), move |c| one_base::<E, Alg<true>, VecStore<E>, U>(c, n, fd));
            if n <= 1 << 12 {
                s.add(format!("{}/height/disk", tag), move |c| one_base::<E, Alg<true>, DiskStore<E>, U>(c, n, fd));
                s.add(format!("{}/height/mmap", tag), move |c| one_base::<E, Alg<true>, MmapStore<E>, U>(c, n, fd));
                s.add(format!("{}/builtin", tag), move |c| one_base::<[u8; 32], Plain, VecStore<[u8; 32]>, U>(c, n, fd));
            }
        }
    }
    let maxc = if q { 256 } else { 1024 };
    macro_rules! sub {
        ($($N:ident),*) => { $(
            for n in sizes(a, maxc) {
                let tag = format!("compound/{}-{}/n{}", a, typenum::$N::to_usize(), n);
                s.add(format!("{}/height", tag), move |c| two::<E, Alg<true>, VecStore<E>, U, typenum::$N>(c, n, true));
                s.add(format!("{}/plain", tag), move |c| two::<E, Plain, DiskStore<E>, U, typenum::$N>(c, n, false));
            }
        )* }
    }
    sub!(U1, U2, U3, U4, U5, U6, U7, U8, U9, U12, U16, U32, U64);
    let maxt = if q { 64 } else { 256 };
    macro_rules! top {
        ($(($N:ident, $T:ident)),*) => { $(
            for n in sizes(a, maxt) {
                let tag = format!("top/{}-{}-{}/n{}", a, typenum::$N::to_usize(), typenum::$T::to_usize(), n);
                s.add(format!("{}/height", tag), move |c| three::<E, Alg<true>, VecStore<E>, U, typenum::$N, typenum::$T>(c, n, true));
                s.add(format!("{}/plain", tag), move |c| three::<E, Plain, VecStore<E>, U, typenum::$N, typenum::$T>(c, n, false));
            }
        )* }
    }
    top!((U1, U1), (U2, U1), (U1, U2), (U2, U2), (U2, U3), (U3, U2), (U4, U2), (U2, U4), (U3, U5), (U5, U3), (U8, U2), (U1, U8), (U8, U1), (U4, U8), (U7, U6), (U16, U8));
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    let mut s = Spec::new("C03");
    shapes::<typenum::U2>(&mut s, q);
    shapes::<typenum::U4>(&mut s, q);
    shapes::<typenum::U8>(&mut s, q);
    shapes::<typenum::U16>(&mut s, q);
    for n in sizes(32, if q { 1 << 10 } else { 1 << 15 }) {
        s.add(format!("base/arity32/n{}", n), move |c| one_base::<El<32>, Alg<true>, VecStore<El<32>>, typenum::U32>(c, n, true));
    }
    for n in sizes(64, 1 << 12) {
        s.add(format!("base/arity64/n{}", n), move |c| one_base::<El<32>, Alg<true>, VecStore<El<32>>, typenum::U64>(c, n, true));
    }
    // more leafs than 16 bits can index
    s.add("base/arity2/n131072", |c| one_base::<El<32>, Alg<true>, VecStore<El<32>>, typenum::U2>(c, 1 << 17, true));
    s.add("base/arity4/n262144", |c| one_base::<El<32>, Alg<true>, VecStore<El<32>>, typenum::U4>(c, 1 << 18, false));
    s.add("base/arity8/n262144", |c| one_base::<El<32>, Plain, DiskStore<El<32>>, typenum::U8>(c, 1 << 18, false));
    let _: Option<U0> = None;
    s.add("huge a2", |c| huge_full::<El<32>, typenum::U2>(c, 33));
    s.add("huge a4", |c| huge_full::<El<32>, typenum::U4>(c, 17));
    s.add("huge a8", |c| huge_full::<El<20>, typenum::U8>(c, 11));
    s.bound("trees of 2^33 and 2^34 leafs in sparse files of up to 731 GB, leafs around every power of two");
    s.bound(format!("base trees: arities 2,4,8,16,32,64, every valid leaf count up to {} and 2^17 (2^18 for arities 4, 8), every leaf", if q { 1 << 14 } else { 1 << 16 }));
    s.bound("compound: sub-tree counts 1-9,12,16,32,64; compound-compound: 16 (sub, top) pairs, both ways of composing; every leaf");
    s.bound("height dependent and independent algorithms; trees from data and from raw leafs");
    s
}

fn main() {
    mc::engine::main(build)
}
