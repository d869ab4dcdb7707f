//! C12: malformed input is refused with an error.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use rayon::prelude::*;
use typenum::{Unsigned, U0, U1, U2, U3, U4, U5, U6, U7, U8};

type E = El<6>;
type A = Alg<true>;
type T<S, U, V = U0, W = U0> = MerkleTree<E, A, S, U, V, W>;

fn valid(n: usize, b: usize) -> bool {
    if b < 2 || b & (b - 1) != 0 || n < b {
        return false;
    }
    let mut n = n;
    while n > 1 {
        if n % b != 0 {
            return false;
        }
        n /= b;
    }
    true
}

/// An iterator whose size hint is what we say.
struct Hinted<I> {
    it: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum C {
    Bytes,
    BytesCfg,
    New,
    NewCfg,
    Data,
    DataCfg,
    Iter,
    IterCfg,
    Par,
    ParCfg,
}
const CS: [C; 10] = [C::Bytes, C::BytesCfg, C::New, C::NewCfg, C::Data, C::DataCfg, C::Iter, C::IterCfg, C::Par, C::ParCfg];
impl C {
    fn named(self) -> bool {
        matches!(self, C::BytesCfg | C::NewCfg | C::DataCfg | C::IterCfg | C::ParCfg)
    }
}

fn make<S: Store<E>, U: Unsigned, V: Unsigned, W: Unsigned>(c: C, its: &[E], cfg: StoreConfig) -> Out<T<S, U, V, W>> {
    let v = its.to_vec();
    call(|| match c {
        C::Bytes => T::<S, U, V, W>::from_byte_slice(&to_bytes(its)),
        C::BytesCfg => T::<S, U, V, W>::from_byte_slice_with_config(&to_bytes(its), cfg),
        C::New => T::<S, U, V, W>::new(v),
        C::NewCfg => T::<S, U, V, W>::new_with_config(v, cfg),
        C::Data => T::<S, U, V, W>::from_data(v),
        C::DataCfg => T::<S, U, V, W>::from_data_with_config(v, cfg),
        C::Iter => T::<S, U, V, W>::try_from_iter(v.into_iter().map(Ok)),
        C::IterCfg => T::<S, U, V, W>::try_from_iter_with_config(v.into_iter().map(Ok), cfg),
        C::Par => T::<S, U, V, W>::from_par_iter(v.into_par_iter()),
        C::ParCfg => T::<S, U, V, W>::from_par_iter_with_config(v.into_par_iter(), cfg),
    })
}

/// Every leaf count.
fn counts<S: Store<E>, U: Unsigned>(ctx: &mut Ctx, lc: bool, ns: &[usize]) -> R {
    let c = ctx.pick("ctor", &CS);
    if lc && !c.named() {
        // a level cache store cannot be built without a config
        return Ok(());
    }
    for &n in ns {
        let its = items::<E>(Pat::Distinct, 12, n);
        let cfg = StoreConfig::new(&ctx.dir, format!("n{}", n), 0);
        let o = make::<S, U, U0, U0>(c, &its, cfg);
        ctx.op(1);
        if valid(n, U::to_usize()) {
            let t = o.must(&format!("{:?} of {} leafs, arity {}", c, n, U::to_usize()))?;
            check!(t.leafs() == n, "leafs", "{} leafs", t.leafs());
            // indices out of range
            for i in [n, n + 1, t.len(), 2 * t.len() + 1, 1 << 40] {
                call(|| t.gen_proof(i)).must_err("gen_proof out of range")?;
                for r in [None, Some(0), Some(1), Some(100)] {
                    call(|| t.gen_cached_proof(i, r)).must_err("gen_cached_proof out of range")?;
                }
                ctx.op(5);
            }
            let mut buf = vec![0; 6];
            for i in [t.len(), t.len() + 1, 2 * t.len() + 1, 1 << 40] {
                call(|| t.read_at(i)).must_err("read_at out of range")?;
                call(|| t.read_into(i, &mut buf)).must_err("read_into out of range")?;
                call(|| t.read_range(i, i + 1)).must_err("read_range out of range")?;
                call(|| t.read_range(0, i + 1)).must_err("read_range beyond the end")?;
                ctx.op(4);
            }
            call(|| t.read_range(1, 1)).must_err("empty read_range")?;
            call(|| t.read_range(2, 1)).must_err("reversed read_range")?;
        } else {
            o.must_err(&format!("{:?} of {} leafs, arity {}", c, n, U::to_usize()))?;
        }
    }
    ctx.state(c as u64);
    Ok(())
}

/// Every byte length.
fn bytes<S: Store<E>, U: Unsigned>(ctx: &mut Ctx, lc: bool, lens: &[usize]) -> R {
    let named = lc || ctx.choose("named", 2) == 1;
    for &len in lens {
        let b = to_bytes(&items::<E>(Pat::Distinct, 5, len / 6 + 1))[..len].to_vec();
        let cfg = StoreConfig::new(&ctx.dir, format!("l{}", len), 0);
        let o = call(|| if named { T::<S, U>::from_byte_slice_with_config(&b, cfg) } else { T::<S, U>::from_byte_slice(&b) });
        ctx.op(1);
        if len % 6 == 0 && valid(len / 6, U::to_usize()) {
            o.must("from_byte_slice")?;
        } else {
            o.must_err(&format!("from_byte_slice of {} bytes", len))?;
        }
    }
    Ok(())
}

/// Serialized trees and stores of every size, for every claimed leaf count.
fn serialized<S: Store<E>, U: Unsigned>(ctx: &mut Ctx, lc: bool, max: usize) -> R {
    let b = U::to_usize();
    let named = lc || ctx.choose("named", 2) == 1;
    let leafs = ctx.choose("leafs", max + 1);
    let r = if valid(leafs, b) { Some(RefTree::new(items::<E>(Pat::Distinct, 5, leafs), b, true)) } else { None };
    let tree_len = r.as_ref().map(|r| r.len());
    let top = 6 * (2 * max + 3);
    for len in 0..=top {
        let mut data = r.as_ref().map(|r| r.bytes()).unwrap_or_default();
        data.resize(len, 0x31);
        let cfg = StoreConfig::new(&ctx.dir, format!("s{}", len), 0);
        let o = call(|| if named { T::<S, U>::from_tree_slice_with_config(&data, leafs, cfg) } else { T::<S, U>::from_tree_slice(&data, leafs) });
        ctx.op(1);
        if Some(len) == tree_len.map(|l| l * 6) {
            if lc && !named {
                continue;
            }
            let t = o.must("from_tree_slice")?;
            check!(t.root() == r.as_ref().unwrap().root(), "root", "root");
        } else {
            o.must_err(&format!("from_tree_slice of {} bytes for {} leafs", len, leafs))?;
        }
    }
    // stores of every length
    if lc {
        return Ok(());
    }
    for k in 0..=2 * max + 3 {
        let mut s = call(|| S::new(2 * max + 4)).must("new")?;
        for v in items::<E>(Pat::Distinct, 5, k) {
            call(|| s.push(v)).must("push")?;
        }
        let o = call(|| T::<S, U>::from_data_store(s, leafs));
        ctx.op(1);
        if Some(k) == tree_len {
            o.must("from_data_store")?;
        } else {
            o.must_err(&format!("from_data_store of a store of {} elements for {} leafs", k, leafs))?;
        }
    }
    Ok(())
}

/// Larger serialized trees and stores, of nearly the right size.
fn near<S: Store<E>, U: Unsigned>(ctx: &mut Ctx, lc: bool, leafs: usize) -> R {
    let r = RefTree::new(items::<E>(Pat::Distinct, 5, leafs), U::to_usize(), true);
    let named = lc || ctx.choose("named", 2) == 1;
    let (l, full) = (r.len(), r.bytes());
    let mut lens: Vec<usize> = vec![0, 1, leafs * 6, leafs * 6 + 6, leafs * 12, l * 12, l * 6 + 4096, l * 6 + 65536];
    lens.extend(l * 6 - 13..=l * 6 + 13);
    for k in 1..r.row_count() {
        // without the lowest or the highest rows
        lens.push(r.cached_nodes(k - 1) * 6);
        lens.push((l - r.cached_nodes(k - 1)) * 6);
    }
    lens.sort();
    lens.dedup();
    for len in lens {
        let mut data = full.clone();
        data.resize(len, 0x31);
        let cfg = StoreConfig::new(&ctx.dir, format!("s{}", len), 0);
        let o = call(|| if named { T::<S, U>::from_tree_slice_with_config(&data, leafs, cfg) } else { T::<S, U>::from_tree_slice(&data, leafs) });
        ctx.op(1);
        if len == l * 6 {
            if lc && !named {
                continue;
            }
            let t = o.must("from_tree_slice")?;
            check!(t.root() == r.root(), "root", "root");
        } else {
            o.must_err(&format!("from_tree_slice of {} bytes for {} leafs", len, leafs))?;
        }
    }
    // another number of leafs for the same data
    for n in [0, 1, 2, leafs / U::to_usize(), leafs - 1, leafs + 1, leafs * U::to_usize(), l, l - 1] {
        if n == leafs {
            continue;
        }
        let cfg = StoreConfig::new(&ctx.dir, format!("n{}", n), 0);
        let o = call(|| if named { T::<S, U>::from_tree_slice_with_config(&full, n, cfg) } else { T::<S, U>::from_tree_slice(&full, n) });
        o.must_err(&format!("from_tree_slice of {} nodes for {} leafs", l, n))?;
        ctx.op(1);
    }
    if lc {
        return Ok(());
    }
    for k in [0, 1, leafs, leafs + 1, l - 2, l - 1, l, l + 1, l + 2] {
        let nodes: Vec<E> = r.nodes().into_iter().cycle().take(k).collect();
        let s = call(|| S::new_from_slice(l + 4, &to_bytes(&nodes))).must("new_from_slice")?;
        let o = call(|| T::<S, U>::from_data_store(s, leafs));
        ctx.op(1);
        if k == l {
            o.must("from_data_store")?;
        } else {
            o.must_err(&format!("from_data_store of a store of {} elements for {} leafs", k, leafs))?;
        }
    }
    Ok(())
}

/// Iterators with unknown or wrong lengths.
fn hints<S: Store<E>, U: Unsigned>(ctx: &mut Ctx, lc: bool, n: usize, yields: &[usize]) -> R {
    let named = lc || ctx.choose("named", 2) == 1;
    let y = ctx.pick("yields", yields);
    let hint = ctx.pick("hint", &[(0usize, None), (n, None), (0, Some(n)), (n, Some(n)), (n, Some(n * U::to_usize())), (0, Some(n + 1)), (0, Some(0)), (0, Some(1))]);
    let what = ctx.pick("ctor", &["iter", "new", "data"]);
    let its = items::<E>(Pat::Distinct, 7, y);
    let cfg = StoreConfig::new(&ctx.dir, "h", 0);
    let o = match what {
        "iter" => {
            let it = Hinted { it: its.clone().into_iter().map(Ok), hint };
            call(|| if named { T::<S, U>::try_from_iter_with_config(it, cfg) } else { T::<S, U>::try_from_iter(it) })
        }
        "new" => {
            let it = Hinted { it: its.clone().into_iter(), hint };
            call(|| if named { T::<S, U>::new_with_config(it, cfg) } else { T::<S, U>::new(it) })
        }
        _ => {
            let it = Hinted { it: its.clone().into_iter(), hint };
            call(|| if named { T::<S, U>::from_data_with_config(it, cfg) } else { T::<S, U>::from_data(it) })
        }
    };
    ctx.op(1);
    if hint.1 == Some(y) && valid(y, U::to_usize()) {
        let t = o.must("iterator with the right hint")?;
        check!(t.leafs() == y, "leafs", "{}", t.leafs());
        let row = match what {
            "data" => Ctor::FromData.leaf_row(&its),
            _ => Ctor::TryIter.leaf_row(&its),
        };
        check!(t.root() == RefTree::new(row, U::to_usize(), true).root(), "root", "root");
    } else {
        o.must_err(&format!("an iterator of {} items with the size hint {:?}", y, hint))?;
    }
    Ok(())
}

/// An error at every position of the sequence.
fn errors<S: Store<E>, U: Unsigned>(ctx: &mut Ctx, lc: bool, n: usize, all: bool) -> R {
    let named = lc || ctx.choose("named", 2) == 1;
    // position n: an error after the announced items; a second, different error may follow
    let pos = if all {
        ctx.choose("position", n + 1)
    } else {
        let b = BUILD_DATA_BLOCK_SIZE;
        let mut v: Vec<usize> = vec![0, 1, 255, 256, 257, n / 2, n - 1, n, b - 1, b, b + 1];
        v.retain(|p| *p <= n);
        v.sort();
        v.dedup();
        ctx.pick("position", &v)
    };
    let second = n < 10000 && ctx.choose("second", 2) == 1;
    let its = items::<E>(Pat::Distinct, 7, n);
    let seq: Vec<anyhow::Result<E>> = (0..=n)
        .filter(|i| *i < n || pos == n)
        .map(|i| {
            if i == pos {
                Err(anyhow::anyhow!("first-injected-error"))
            } else if second && i > pos {
                Err(anyhow::anyhow!("later-injected-error"))
            } else {
                Ok(its[i])
            }
        })
        .collect();
    let it = Hinted { it: seq.into_iter(), hint: (n, Some(n)) };
    let cfg = StoreConfig::new(&ctx.dir, "e", 0);
    let o = call(|| if named { T::<S, U>::try_from_iter_with_config(it, cfg) } else { T::<S, U>::try_from_iter(it) });
    ctx.op(1);
    match o {
        Out::Ok(_) => fail("accepted", format!("an iterator with an error at {} of {} was accepted", pos, n)),
        Out::Err(e) => {
            check!(e.contains("first-injected-error"), "other error", "error at {} of {}: another error was returned: {}", pos, n, e);
            Ok(())
        }
        Out::Panic(e) => fail("panic", format!("error at {} of {}: panic: {}", pos, n, e)),
    }
}

/// Layered shapes handed to constructors of base trees.
fn shapes<S: Store<E>, V: Unsigned, W: Unsigned>(ctx: &mut Ctx, lc: bool) -> R {
    type U = U2;
    let its = items::<E>(Pat::Distinct, 7, 8);
    let r = RefTree::new(its.clone(), 2, true);
    for c in CS {
        if lc && !c.named() {
            continue;
        }
        let cfg = StoreConfig::new(&ctx.dir, format!("{:?}", c), 0);
        make::<S, U, V, W>(c, &its, cfg).must_err(&format!("{:?} of a layered shape", c))?;
        ctx.op(1);
    }
    if !lc {
        call(|| T::<S, U, V, W>::from_tree_slice(&r.bytes(), 8)).must_err("from_tree_slice of a layered shape")?;
        call(|| T::<S, U, V, W>::from_data_store(S::new_from_slice(15, &r.bytes())?, 8)).must_err("from_data_store of a layered shape")?;
    }
    call(|| T::<S, U, V, W>::from_tree_slice_with_config(&r.bytes(), 8, StoreConfig::new(&ctx.dir, "x", 0))).must_err("from_tree_slice_with_config of a layered shape")?;
    call(|| {
        let s = S::new_from_slice_with_config(15, 2, &r.bytes(), StoreConfig::new(&ctx.dir, "y", 0))?;
        T::<S, U, V, W>::from_data_store(s, 8)
    })
    .must_err("from_data_store of a layered shape")?;
    ctx.op(4);
    Ok(())
}

/// Arities that are not powers of two.
fn arities<U: Unsigned>(ctx: &mut Ctx) -> R {
    let c = ctx.pick("ctor", &CS);
    for n in 0..70 {
        let its = items::<E>(Pat::Distinct, 7, n);
        let cfg = StoreConfig::new(&ctx.dir, format!("{}", n), 0);
        make::<DiskStore<E>, U, U0, U0>(c, &its, cfg.clone()).must_err("an arity that is not a power of two")?;
        make::<VecStore<E>, U, U0, U0>(c, &its, cfg).must_err("an arity that is not a power of two")?;
        call(|| T::<VecStore<E>, U>::from_tree_slice(&to_bytes(&its), n)).must_err("from_tree_slice")?;
        call(|| T::<VecStore<E>, U>::from_data_store(VecStore::new_from_slice(n, &to_bytes(&its))?, n)).must_err("from_data_store")?;
        ctx.op(4);
    }
    Ok(())
}

/// Leaf indices of layered trees.
fn compound_index<V: Unsigned, W: Unsigned>(ctx: &mut Ctx) -> R {
    type U = U2;
    let n = 4;
    let its = items::<E>(Pat::Distinct, 7, n);
    let mk = || T::<VecStore<E>, U>::from_byte_slice(&to_bytes(&its));
    let (v, w) = (V::to_usize(), W::to_usize());
    macro_rules! probe {
        ($t:expr, $leafs:expr) => {{
            let t = $t;
            let l: usize = $leafs;
            for i in (l..l + 40).chain([t.len(), t.len() + 1, 1 << 40]) {
                if i < l {
                    continue;
                }
                call(|| t.read_at(i)).must_err("read_at out of range")?;
                call(|| t.gen_proof(i)).must_err("gen_proof out of range")?;
                for r in [None, Some(0), Some(1), Some(50)] {
                    call(|| t.gen_cached_proof(i, r)).must_err("gen_cached_proof out of range")?;
                }
                ctx.op(6);
            }
            for i in 0..l {
                call(|| t.read_at(i)).must("read_at")?;
                call(|| t.gen_proof(i)).must("gen_proof")?;
                ctx.op(2);
            }
        }};
    }
    let sub = || -> anyhow::Result<T<VecStore<E>, U, V>> { T::from_trees((0..v).map(|_| mk()).collect::<anyhow::Result<Vec<_>>>()?) };
    if w == 0 {
        probe!(call(sub).must("compound")?, n * v);
    } else {
        let top = call(|| T::<VecStore<E>, U, V, W>::from_sub_trees((0..w).map(|_| sub()).collect::<anyhow::Result<Vec<_>>>()?)).must("top")?;
        probe!(top, n * v * w);
    }
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C12");
    s.technique = "exhaustive enumeration of leaf counts, byte lengths, size hints, error positions and shapes on every constructor and store against the validity predicate";
    let max = if th { 300 } else { 70 };
    let many: Vec<usize> = if th { (0..40).collect() } else { vec![0, 1, 2, 3, 4, 7, 8, 9, 12, 14, 15, 16, 17, 31, 32, 33] };
    macro_rules! st {
        ($S:ident, $lc:expr) => {{
            for a in [2usize, 4, 8, 16] {
                with_small_arity!(a, U, {
                    let ns: Vec<usize> = (0..=max).collect();
                    s.add(format!("{} counts a{}", stringify!($S), a), move |c| counts::<$S<E>, U>(c, $lc, &ns));
                    for big in if th { vec![128usize, 256, 512, 1024, 2048, 4096, 16384, 65536] } else { vec![128, 256, 1024, 4096, 8192] } {
                        let ns = vec![big - 2, big - 1, big, big + 1, big + 2, big + big / 2, big - big / 4, big + 16];
                        s.add(format!("{} counts around {} a{}", stringify!($S), big, a), move |c| counts::<$S<E>, U>(c, $lc, &ns));
                    }
                    for n in sizes(a, if th { 65536 } else { 4096 }) {
                        if n > 32 {
                            s.add(format!("{} nearly serialized a{} n{}", stringify!($S), a, n), move |c| near::<$S<E>, U>(c, $lc, n));
                        }
                    }
                    s.add(format!("{} serialized a{}", stringify!($S), a), move |c| serialized::<$S<E>, U>(c, $lc, if th { 40 } else { 18 }));
                    for n in sizes(a, 16) {
                        let m = many.clone();
                        s.add(format!("{} hints a{} n{}", stringify!($S), a, n), move |c| hints::<$S<E>, U>(c, $lc, n, &m));
                        s.add(format!("{} errors a{} n{}", stringify!($S), a, n), move |c| errors::<$S<E>, U>(c, $lc, n, true));
                    }
                });
            }
            s.add(format!("{} bytes a2", stringify!($S)), move |c| bytes::<$S<E>, U2>(c, $lc, &(0..=if th { 1000 } else { 200 }).collect::<Vec<_>>()));
            s.add(format!("{} more bytes a2", stringify!($S)), move |c| {
                bytes::<$S<E>, U2>(c, $lc, &[64usize, 256, 1024, 4096].iter().flat_map(|n| n * 6 - 13..=n * 6 + 13).collect::<Vec<_>>())
            });
            s.add(format!("{} bytes a8", stringify!($S)), move |c| bytes::<$S<E>, U8>(c, $lc, &(0..=if th { 1000 } else { 400 }).collect::<Vec<_>>()));
            s.add(format!("{} errors n1024", stringify!($S)), move |c| errors::<$S<E>, U2>(c, $lc, 1024, th));
            s.add(format!("{} errors n4096", stringify!($S)), move |c| errors::<$S<E>, U4>(c, $lc, 4096, false));
            s.add(format!("{} errors n524288", stringify!($S)), move |c| errors::<$S<E>, U2>(c, $lc, 2 * BUILD_DATA_BLOCK_SIZE, false));
            s.add(format!("{} hints n262144", stringify!($S)), move |c| hints::<$S<E>, U2>(c, $lc, BUILD_DATA_BLOCK_SIZE, &[BUILD_DATA_BLOCK_SIZE - 1, BUILD_DATA_BLOCK_SIZE + 1, 2 * BUILD_DATA_BLOCK_SIZE + 1]));
            s.add(format!("{} hints n256", stringify!($S)), move |c| hints::<$S<E>, U2>(c, $lc, 256, &[0, 255, 256, 257, 300, 511, 512, 513, 600, 1024]));
            s.add(format!("{} shapes", stringify!($S)), move |c| {
                shapes::<$S<E>, U1, U0>(c, $lc)?;
                clean(c);
                shapes::<$S<E>, U2, U0>(c, $lc)?;
                clean(c);
                shapes::<$S<E>, U2, U2>(c, $lc)?;
                clean(c);
                shapes::<$S<E>, U0, U2>(c, $lc)
            });
        }};
    }
    fn clean(c: &Ctx) {
        for f in std::fs::read_dir(&c.dir).unwrap().flatten() {
            let _ = std::fs::remove_file(f.path());
        }
    }
    type LcS<E> = Lc<E>;
    st!(VecStore, false);
    st!(DiskStore, false);
    st!(MmapStore, false);
    st!(LcS, true);
    s.add("arity 0", arities::<U0>);
    s.add("arity 1", arities::<U1>);
    s.add("arity 3", arities::<U3>);
    s.add("arity 5", arities::<U5>);
    s.add("arity 6", arities::<U6>);
    s.add("arity 7", arities::<U7>);
    s.add("index 2-1", compound_index::<U1, U0>);
    s.add("index 2-2", compound_index::<U2, U0>);
    s.add("index 2-3", compound_index::<U3, U0>);
    s.add("index 2-4-2", compound_index::<U4, U2>);
    s.add("index 2-2-3", compound_index::<U2, U3>);
    s.add("index 2-1-1", compound_index::<U1, U1>);
    s.bound("four stores, arities 2, 4, 8, 16 (and 0, 1, 3, 5, 6, 7): every leaf count up to 70 (thorough 300), every byte length up to 400 (1000), serialized trees of every byte length for every claimed leaf count up to 18 (40), leaf counts, byte lengths and serialized trees around every valid size up to 8192 (65536), iterators with 8 size hints and up to 40 yielded items (and around 256, 512), an error at every position of up to 16 items and around block boundaries of 1024, 4096 and 2^19 items, layered shapes");
    s.assume("announced sizes small enough to be allocated");
    s
}

fn main() {
    mc::engine::main(build)
}
