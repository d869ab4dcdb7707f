//! C13: size arithmetic is consistent with the tree it describes.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use typenum::{Unsigned, U0, U1, U2, U3, U4, U8};

/// Widths of the rows of the tree, leafs first; None if there is no such tree.
fn rows(leafs: usize, b: usize) -> Option<Vec<usize>> {
    if b < 2 || leafs < b {
        return None;
    }
    let mut v = vec![leafs];
    let mut w = leafs;
    while w > 1 {
        if w % b != 0 {
            return None;
        }
        w /= b;
        v.push(w);
    }
    Some(v)
}

fn pow2(b: usize) -> bool {
    b != 0 && b & (b - 1) == 0
}

/// All functions for one tree.
fn one(ctx: &mut Ctx, leafs: usize, b: usize) -> R {
    let r = rows(leafs, b).expect("valid");
    let len: usize = r.iter().sum();
    let what = format!("{} leafs, arity {}", leafs, b);
    let l = call(|| get_merkle_tree_len(leafs, b)).must("get_merkle_tree_len")?;
    check!(l == len, "len", "{}: length {} instead of {}", what, l, len);
    let rc = call(|| Ok(get_merkle_tree_row_count(leafs, b))).must("row_count")?;
    check!(rc == r.len(), "row_count", "{}: row count {} instead of {}", what, rc, r.len());
    check!(call(|| Ok(is_merkle_tree_size_valid(leafs, b))).must("is_valid")?, "valid", "{}: not valid", what);
    let back = call(|| get_merkle_tree_leafs(len, b)).must("get_merkle_tree_leafs")?;
    check!(back == leafs, "leafs", "{}: {} leafs computed from the length", what, back);
    let pl = get_merkle_proof_lemma_len(r.len(), b);
    check!(pl == 2 + (r.len() - 1) * (b - 1), "lemma len", "{}: proof length {}", what, pl);
    for d in 0..r.len() + 2 {
        let c = call(|| get_merkle_tree_cache_size(leafs, b, d));
        if d + 1 < r.len() {
            let want: usize = r[1 + d..].iter().sum();
            let c = c.must("cache_size")?;
            check!(c == want, "cache_size", "{}: cache of {} discarded rows has {} nodes instead of {}", what, d, c, want);
        } else {
            c.must_err("cache_size with all rows discarded")?;
        }
        ctx.op(1);
    }
    let d = call(|| Ok(StoreConfig::default_rows_to_discard(leafs, b))).must("default rows")?;
    check!(d + 1 < r.len(), "default rows", "{}: {} rows discarded by default of {} rows", what, d, r.len());
    call(|| get_merkle_tree_cache_size(leafs, b, d)).must("cache of the default")?;
    ctx.op(7);
    ctx.state(h64(leafs as u64, &(b as u64).to_le_bytes()));
    Ok(())
}

fn all_sizes(ctx: &mut Ctx, b: usize) -> R {
    // every power of the arity whose tree length is representable with room to spare
    let mut n = b;
    loop {
        one(ctx, n, b)?;
        match n.checked_mul(b) {
            Some(m) if m < 1usize << 62 => n = m,
            _ => return Ok(()),
        }
    }
}

/// Every small leaf count and length.
fn small(ctx: &mut Ctx, b: usize, max: usize) -> R {
    use std::collections::HashMap;
    let mut lens: HashMap<usize, usize> = HashMap::new();
    let mut n = b;
    while n <= 4 * max {
        lens.insert(rows(n, b).unwrap().iter().sum(), n);
        n *= b;
    }
    for n in 0..=max {
        let r = rows(n, b);
        let v = call(|| Ok(is_merkle_tree_size_valid(n, b))).must("is_valid")?;
        // a single leaf is a power of every arity, but no tree can be built from it
        if n != 1 {
            check!(v == r.is_some(), "valid", "{} leafs, arity {}: valid is {}", n, b, v);
        }
        let l = call(|| get_merkle_tree_len(n, b));
        match &r {
            Some(r) => {
                let l = l.must("get_merkle_tree_len")?;
                check!(l == r.iter().sum::<usize>(), "len", "{} leafs, arity {}: length {}", n, b, l);
            }
            None => {
                l.must_err(&format!("get_merkle_tree_len of {} leafs, arity {}", n, b))?;
                for d in 0..3 {
                    call(|| get_merkle_tree_cache_size(n, b, d)).must_err(&format!("get_merkle_tree_cache_size of {} leafs, arity {}", n, b))?;
                }
            }
        }
        // n as a length
        let l = call(|| get_merkle_tree_leafs(n, b));
        match lens.get(&n) {
            Some(k) => {
                let l = l.must("get_merkle_tree_leafs")?;
                check!(l == *k, "leafs", "length {}, arity {}: {} leafs", n, b, l);
            }
            None if n == 1 => check!(!l.is_panic(), "leafs of 1", "panic"),
            None => l.must_err(&format!("get_merkle_tree_leafs of length {}, arity {}", n, b))?,
        }
        ctx.op(3);
    }
    Ok(())
}

/// Lengths and leaf counts next to valid ones, up to large sizes.
fn near(ctx: &mut Ctx, b: usize) -> R {
    let mut n = b;
    while n < 1usize << 45 {
        let len: usize = rows(n, b).unwrap().iter().sum();
        for d in 1..=20usize {
            for m in [n.wrapping_sub(d), n + d] {
                if m < 1 << 50 && m > 1 && rows(m, b).is_none() {
                    check!(!is_merkle_tree_size_valid(m, b), "valid", "{} leafs, arity {} reported valid", m, b);
                    call(|| get_merkle_tree_len(m, b)).must_err(&format!("get_merkle_tree_len of {} leafs, arity {}", m, b))?;
                    ctx.op(2);
                }
            }
            for l in [len.wrapping_sub(d), len + d] {
                // is it the length of another tree?
                let mut k = b;
                let mut other = l <= 1 || l >= 1 << 50;
                while k <= l && !other {
                    other = rows(k, b).unwrap().iter().sum::<usize>() == l;
                    k *= b;
                }
                if !other {
                    call(|| get_merkle_tree_leafs(l, b)).must_err(&format!("get_merkle_tree_leafs of length {}, arity {}", l, b))?;
                    ctx.op(1);
                }
            }
        }
        n *= b;
    }
    Ok(())
}

/// Arities that are not powers of two.
fn bad_arity(ctx: &mut Ctx) -> R {
    for b in [0usize, 3, 5, 6, 7, 9, 10, 11, 12, 15, 17, 24, 48, 100] {
        for n in 0..200usize {
            check!(!is_merkle_tree_size_valid(n, b), "valid", "arity {} reported valid", b);
            call(|| get_merkle_tree_len(n, b)).must_err(&format!("get_merkle_tree_len arity {}", b))?;
            call(|| get_merkle_tree_leafs(n, b)).must_err(&format!("get_merkle_tree_leafs arity {}", b))?;
            ctx.op(3);
        }
    }
    for n in 0..200usize {
        check!(!is_merkle_tree_size_valid(n, 1), "valid", "arity 1 reported valid");
    }
    Ok(())
}

/// Lengths of layered trees: formula, and the tree that is actually built.
fn layered<B: Unsigned, S: Unsigned, T: Unsigned>(ctx: &mut Ctx) -> R {
    let (b, s, t) = (B::to_usize(), S::to_usize(), T::to_usize());
    let mut n = b;
    while n < 1usize << 40 {
        let base: usize = rows(n, b).unwrap().iter().sum();
        let want = if t > 0 {
            (base * s + 1) * t + 1
        } else if s > 0 {
            base * s + 1
        } else {
            base
        };
        let l = call(|| get_merkle_tree_len_generic::<B, S, T>(n)).must("get_merkle_tree_len_generic")?;
        check!(l == want, "generic len", "{} leafs, arities {} {} {}: length {} instead of {}", n, b, s, t, l, want);
        ctx.op(1);
        n *= b;
    }
    for n in 0..b {
        call(|| get_merkle_tree_len_generic::<B, S, T>(n)).must_err("too few leafs")?;
    }
    Ok(())
}

/// The numbers of real trees.
fn real<U: Unsigned, S: Unsigned, T: Unsigned>(ctx: &mut Ctx, n: usize) -> R {
    type E = El<8>;
    type A = Alg<true>;
    type V = VecStore<E>;
    let b = U::to_usize();
    let leaf = items::<E>(Pat::Distinct, 1, n);
    let mk = || MerkleTree::<E, A, V, U>::from_byte_slice(&to_bytes(&leaf));
    let r = rows(n, b).unwrap();
    let t0 = call(mk).must("base")?;
    check!(t0.data().unwrap().len() == get_merkle_tree_len(n, b).unwrap_or(0), "stored len", "stored {}", t0.data().unwrap().len());
    let p = call(|| t0.gen_proof(n - 1)).must("proof")?;
    check!(p.lemma().len() == get_merkle_proof_lemma_len(r.len(), b), "proof len", "proof length {}", p.lemma().len());
    check!(t0.row_count() == r.len(), "rows", "rows");
    let generic = call(|| get_merkle_tree_len_generic::<U, S, T>(n)).must("generic")?;
    let got = if T::to_usize() > 0 {
        let mut v = vec![];
        for _ in 0..T::to_usize() {
            let ts = (0..S::to_usize()).map(|_| mk()).collect::<anyhow::Result<Vec<_>>>().unwrap();
            v.push(call(|| MerkleTree::<E, A, V, U, S>::from_trees(ts)).must("compound")?);
        }
        call(|| MerkleTree::<E, A, V, U, S, T>::from_sub_trees(v)).must("top")?.len()
    } else if S::to_usize() > 0 {
        let ts = (0..S::to_usize()).map(|_| mk()).collect::<anyhow::Result<Vec<_>>>().unwrap();
        call(|| MerkleTree::<E, A, V, U, S>::from_trees(ts)).must("compound")?.len()
    } else {
        t0.len()
    };
    check!(got == generic, "generic", "a real tree has length {}, computed {}", got, generic);
    ctx.op(5);
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C13");
    s.technique = "exhaustive enumeration of arities, sizes and lengths against sums of row widths, and against real trees";
    for k in 1..=16 {
        let b = 1usize << k;
        s.add(format!("sizes a{}", b), move |c| all_sizes(c, b));
        s.add(format!("near a{}", b), move |c| near(c, b));
        let max = if th { 1 << 22 } else { 1 << 17 };
        if k <= 10 {
            s.add(format!("small a{}", b), move |c| small(c, b, max));
        }
    }
    s.add("bad arity", bad_arity);
    macro_rules! lay {
        ($($b:ident $s:ident $t:ident $n:expr),*) => {$(
            s.add(format!("layered {} {} {}", $b::to_usize(), $s::to_usize(), $t::to_usize()), layered::<$b, $s, $t>);
            s.add(format!("real {} {} {}", $b::to_usize(), $s::to_usize(), $t::to_usize()), |c| {
                for n in sizes($b::to_usize(), $n) {
                    real::<$b, $s, $t>(c, n)?;
                }
                Ok(())
            });
        )*};
    }
    lay!(U2 U0 U0 1024, U4 U0 U0 1024, U8 U0 U0 4096, U2 U1 U0 64, U2 U2 U0 64, U2 U3 U0 64, U2 U8 U0 64, U4 U2 U0 64, U8 U2 U0 64, U8 U8 U0 64,
         U2 U1 U1 32, U2 U2 U2 32, U2 U4 U2 32, U2 U3 U2 32, U4 U2 U4 64, U8 U4 U2 64, U8 U8 U2 64, U4 U1 U3 64);
    let _ = pow2(2);
    s.bound("arities 2^1..2^16; every size up to 2^62; every leaf count and length up to 2^17 (thorough 2^22) for arities up to 2^10; +-20 around every valid size up to 2^45; layered shapes of 18 arity combinations");
    s.assume("a leaf count or length of 1 (a bare leaf) is left open");
    s
}

fn main() {
    mc::engine::main(build)
}
