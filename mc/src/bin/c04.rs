//! C04: soundness of proofs: the verdict equals the reference verdict on every modified proof.
use mc::*;
use merkletree::merkle::*;
use merkletree::proof::Proof;
use merkletree::store::*;
use typenum::{Unsigned, U0};

/// Reference representation of a proof.
#[derive(Clone, Debug, PartialEq)]
struct Rp<E> {
    layer: usize, // 0 base, 1 sub-tree layer, 2 top layer
    sub: Option<Box<Rp<E>>>,
    lemma: Vec<E>,
    path: Vec<usize>,
}

fn to_rp<E: Element, U: Unsigned>(p: &Proof<E, U>) -> Rp<E> {
    let layer = if p.top_layer_nodes() > 0 { 2 } else if p.sub_layer_nodes() > 0 { 1 } else { 0 };
    Rp { layer, sub: p.sub_tree_proof.as_ref().map(|s| Box::new(to_rp(s))), lemma: p.lemma().clone(), path: p.path().clone() }
}

/// Build the implementation's proof.  Lemmas that `Proof::new` refuses are forced in through
/// `lemma_mut` when `force` is set.
fn from_rp<E: Element, U: Unsigned, N: Unsigned, T: Unsigned>(r: &Rp<E>) -> anyhow::Result<Proof<E, U>> {
    let sub = match &r.sub {
        Some(s) => Some(Box::new(from_rp::<E, U, N, T>(s)?)),
        None => None,
    };
    match r.layer {
        2 => Proof::new::<T, N>(sub, r.lemma.clone(), r.path.clone()),
        1 => Proof::new::<U0, N>(sub, r.lemma.clone(), r.path.clone()),
        _ => {
            let want = 2 + r.path.len() * (U::to_usize() - 1);
            if r.lemma.len() == want {
                Proof::new::<U0, U0>(sub, r.lemma.clone(), r.path.clone())
            } else {
                // get past the length check, then force the lemma
                let mut l = r.lemma.clone();
                l.resize(want, E::default());
                let mut p = Proof::new::<U0, U0>(sub, l, r.path.clone())?;
                *p.lemma_mut() = r.lemma.clone();
                Ok(p)
            }
        }
    }
}

fn ref_ok<E: Element>(r: &Rp<E>, arity: usize, n: usize, t: usize, h: bool) -> bool {
    match r.layer {
        0 => r.sub.is_none() && ref_verify(&r.lemma, &r.path, arity, h),
        l => {
            let a = if l == 1 { n } else { t };
            let s = match &r.sub {
                Some(s) => s,
                None => return false,
            };
            if r.lemma.len() != a || r.path.len() != 1 || r.path[0] >= a {
                return false;
            }
            if !ref_ok(s, arity, n, t, h) {
                return false;
            }
            let mut ch: Vec<E> = r.lemma[..a - 1].to_vec();
            ch.insert(r.path[0], s.lemma[s.lemma.len() - 1].clone());
            ref_node(&ch, if h { Some(1) } else { None }) == r.lemma[a - 1]
        }
    }
}

fn ref_item<E: Element>(r: &Rp<E>) -> E {
    match &r.sub {
        Some(s) => ref_item(s),
        None => r.lemma[0].clone(),
    }
}

fn flip<E: Element>(e: &E, byte: usize, bit: usize) -> E {
    let mut v = e.as_ref().to_vec();
    v[byte] ^= 1 << bit;
    E::from_slice(&v)
}

/// Every single modification of a proof.  `dense` also flips every byte.
fn mutants<E: Element>(r: &Rp<E>, arity: usize, others: &[Rp<E>], pool: &[E], dense: bool, out: &mut Vec<(String, Rp<E>)>) {
    let mut push = |d: String, m: Rp<E>| {
        if m != *r {
            out.push((d, m));
        }
    };
    let n = r.lemma.len();
    for k in 0..n {
        let mut put = |d: String, e: E| {
            let mut m = r.clone();
            m.lemma[k] = e;
            push(format!("layer {} lemma[{}] {}", r.layer, k, d), m);
        };
        for (x, e) in pool.iter().enumerate() {
            put(format!("= pool {}", x), e.clone());
        }
        put("= default".into(), E::default());
        for j in 0..n {
            put(format!("= lemma[{}]", j), r.lemma[j].clone());
        }
        if dense {
            for b in 0..E::byte_len() {
                put(format!("flip byte {}", b), flip(&r.lemma[k], b, b % 8));
            }
            if k == n - 1 || k == 0 {
                for b in 0..E::byte_len() * 8 {
                    put(format!("flip bit {}", b), flip(&r.lemma[k], b / 8, b % 8));
                }
            }
        } else {
            put("flip first".into(), flip(&r.lemma[k], 0, 0));
            put("flip last".into(), flip(&r.lemma[k], E::byte_len() - 1, 7));
        }
        // swaps
        for j in k + 1..n {
            let mut m = r.clone();
            m.lemma.swap(k, j);
            push(format!("layer {} swap lemma {} {}", r.layer, k, j), m);
        }
        // removal, duplication, insertion
        let mut m = r.clone();
        m.lemma.remove(k);
        push(format!("layer {} remove lemma[{}]", r.layer, k), m);
        let mut m = r.clone();
        m.lemma.insert(k, r.lemma[k].clone());
        push(format!("layer {} duplicate lemma[{}]", r.layer, k), m);
        let mut m = r.clone();
        m.lemma.insert(k, E::default());
        push(format!("layer {} insert at lemma[{}]", r.layer, k), m);
    }
    let mut m = r.clone();
    m.lemma.push(r.lemma.last().cloned().unwrap_or_default());
    push(format!("layer {} append", r.layer), m);
    let mut m = r.clone();
    m.lemma.reverse();
    push(format!("layer {} reverse lemma", r.layer), m);
    let mut m = r.clone();
    m.lemma.clear();
    push(format!("layer {} empty lemma", r.layer), m);
    // path
    let w = if r.layer == 0 { arity } else { n };
    for l in 0..r.path.len() {
        for v in (0..=w).chain([usize::MAX]) {
            let mut m = r.clone();
            m.path[l] = v;
            push(format!("layer {} path[{}]={}", r.layer, l, v), m);
        }
        for j in l + 1..r.path.len() {
            let mut m = r.clone();
            m.path.swap(l, j);
            push(format!("layer {} swap path {} {}", r.layer, l, j), m);
        }
        let mut m = r.clone();
        m.path.remove(l);
        push(format!("layer {} remove path[{}]", r.layer, l), m);
        // drop a whole level
        if r.layer == 0 && r.path.len() > 1 {
            let mut m = r.clone();
            m.path.remove(l);
            let hi = (1 + (l + 1) * (arity - 1)).min(n);
            m.lemma.drain((1 + l * (arity - 1)).min(hi)..hi);
            push(format!("drop level {}", l), m);
        }
    }
    for v in [0, 1] {
        let mut m = r.clone();
        m.path.push(v);
        push(format!("layer {} append path {}", r.layer, v), m);
    }
    if r.layer == 0 {
        let mut m = r.clone();
        m.path.push(0);
        let root = m.lemma.pop().unwrap_or_default();
        for _ in 0..arity - 1 {
            m.lemma.push(E::default());
        }
        m.lemma.push(root);
        push("extra level".into(), m);
        // all pairs of path positions
        for l in 0..r.path.len() {
            for j in l + 1..r.path.len() {
                for a in 0..arity.min(4) {
                    for b in 0..arity.min(4) {
                        let mut m = r.clone();
                        m.path[l] = a;
                        m.path[j] = b;
                        push(format!("path[{}]={} path[{}]={}", l, a, j, b), m);
                    }
                }
            }
        }
    }
    // sub proofs
    if let Some(s) = &r.sub {
        let mut m = r.clone();
        m.sub = None;
        push(format!("layer {} no sub proof", r.layer), m);
        for (x, o) in others.iter().enumerate() {
            if let Some(os) = &o.sub {
                let mut m = r.clone();
                m.sub = Some(os.clone());
                push(format!("layer {} sub proof of {}", r.layer, x), m);
                if let (Some(oss), Some(_)) = (&os.sub, &s.sub) {
                    let mut m = r.clone();
                    m.sub.as_mut().unwrap().sub = Some(oss.clone());
                    push(format!("layer {} sub sub proof of {}", r.layer, x), m);
                }
            }
            let mut m = r.clone();
            m.lemma = o.lemma.clone();
            push(format!("layer {} lemma of {}", r.layer, x), m);
            let mut m = r.clone();
            m.path = o.path.clone();
            push(format!("layer {} path of {}", r.layer, x), m);
        }
        // a layer in place of its sub proof, and the other way round
        let mut m = r.clone();
        let inner = m.sub.take().unwrap();
        push("sub proof alone".into(), *inner);
        if r.layer == 1 {
            let mut m = r.clone();
            m.sub = Some(Box::new(r.clone()));
            push("layer nested in itself".into(), m);
        }
        if r.layer == 2 {
            if let Some(ss) = &s.sub {
                let mut m = r.clone();
                m.sub = Some(ss.clone());
                push("middle layer skipped".into(), m);
            }
        }
        let sub_others: Vec<Rp<E>> = others.iter().filter_map(|o| o.sub.as_ref().map(|s| (**s).clone())).collect();
        let mut inner = vec![];
        mutants(s, arity, &sub_others, pool, dense, &mut inner);
        for (d, im) in inner {
            let mut m = r.clone();
            m.sub = Some(Box::new(im));
            out.push((format!("sub: {}", d), m));
        }
    } else {
        for (x, o) in others.iter().enumerate() {
            let mut m = r.clone();
            m.lemma = o.lemma.clone();
            if m != *r {
                out.push((format!("lemma of {}", x), m));
            }
            let mut m = r.clone();
            m.path = o.path.clone();
            if m != *r {
                out.push((format!("path of {}", x), m));
            }
            let mut m = r.clone();
            m.sub = Some(Box::new(o.clone()));
            out.push((format!("embeds the proof {}", x), m));
        }
        // a base proof has nothing embedded, not even itself
        let mut m = r.clone();
        m.sub = Some(Box::new(r.clone()));
        out.push(("embeds itself".into(), m.clone()));
        let mut mm = r.clone();
        mm.sub = Some(Box::new(m.clone()));
        out.push(("embeds itself twice".into(), mm));
        if n > 0 {
            m.lemma[0] = E::default();
            out.push(("another leaf, embeds the genuine proof".into(), m.clone()));
            let inner = m.sub.as_mut().unwrap();
            inner.lemma[0] = E::default();
            out.push(("embeds a broken proof, another leaf".into(), m));
            let mut m = r.clone();
            let mut i = r.clone();
            i.lemma[0] = E::default();
            m.sub = Some(Box::new(i));
            out.push(("embeds a broken proof".into(), m));
        }
    }
}

/// `data`: the leaf of the genuine proof, and what it was made from.
fn judge<E, A, U, N, T>(ctx: &mut Ctx, m: &Rp<E>, d: &str, data: (&E, &Obj)) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
    N: Unsigned,
    T: Unsigned,
{
    let want = ref_ok(m, U::to_usize(), N::to_usize(), T::to_usize(), A::HEIGHT);
    ctx.op(1);
    let p = match call(|| from_rp::<E, U, N, T>(m)) {
        Out::Ok(p) => p,
        Out::Err(e) => {
            check!(!want, "new refused", "a valid proof is refused: {} ({})", d, e);
            return Ok(());
        }
        Out::Panic(e) => return fail("new panic", format!("{}: {}", d, e)),
    };
    let got = call(|| p.validate::<A>());
    match got {
        Out::Ok(v) => {
            check!(v == want, if v { "tampered accepted" } else { "valid rejected" }, "{}: validate is {} but the proof is {}", d, v, if want { "valid" } else { "invalid" });
        }
        Out::Err(e) => check!(!want, "valid error", "{}: validate fails on a valid proof: {}", d, e),
        Out::Panic(e) => return fail("validate panic", format!("{}: validation panicked: {}", d, e)),
    }
    match call(|| p.validate_with_data::<A>(data.1)) {
        Out::Ok(v) => {
            let want = want && ref_item(m) == *data.0;
            check!(v == want, if v { "tampered accepted" } else { "valid rejected" }, "{}: validate_with_data is {} but must be {}", d, v, want);
        }
        Out::Err(e) => check!(!want, "valid error", "{}: validate_with_data fails on a valid proof: {}", d, e),
        Out::Panic(e) => return fail("validate panic", format!("{}: validation with data panicked: {}", d, e)),
    }
    Ok(())
}

fn attack<E, A, U, N, T>(ctx: &mut Ctx, p: &Proof<E, U>, it: &E, others: &[Rp<E>], pool: &[E], pairs: bool, dense: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
    N: Unsigned,
    T: Unsigned,
{
    let rp = to_rp(p);
    let (leaf, obj) = (ref_item(&rp), Obj(it.as_ref().to_vec()));
    let data = (&leaf, &obj);
    judge::<E, A, U, N, T>(ctx, &rp, "genuine", data)?;
    check!(ref_ok(&rp, U::to_usize(), N::to_usize(), T::to_usize(), A::HEIGHT), "genuine", "the generated proof is not valid");
    let mut ms = vec![];
    mutants(&rp, U::to_usize(), others, pool, dense, &mut ms);
    for (d, m) in &ms {
        judge::<E, A, U, N, T>(ctx, m, d, data)?;
        ctx.state(h64(1, d.as_bytes()) ^ h64(2, p.path().iter().map(|x| *x as u8).collect::<Vec<_>>().as_slice()) ^ h64(3, ref_item(&rp).as_ref()));
    }
    if pairs {
        let small: Vec<E> = pool.iter().take(1).cloned().collect();
        let mut first = vec![];
        mutants(&rp, U::to_usize(), &others[..others.len().min(1)], &small, false, &mut first);
        for (d1, m1) in &first {
            let mut second = vec![];
            if m1.lemma.is_empty() {
                continue;
            }
            mutants(m1, U::to_usize(), &others[..others.len().min(1)], &small, false, &mut second);
            for (d2, m2) in &second {
                judge::<E, A, U, N, T>(ctx, m2, &format!("{}; {}", d1, d2), data)?;
            }
            ctx.beat();
        }
    }
    Ok(())
}

fn data_attack<E, A, U>(ctx: &mut Ctx, p: &Proof<E, U>, i: usize, its: &[E]) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
{
    let good = Obj(its[i].as_ref().to_vec());
    check!(call(|| p.validate_with_data::<A>(&good)).must("validate_with_data")?, "data rejected", "original data of leaf {} rejected", i);
    let mut bad: Vec<Vec<u8>> = its.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, e)| e.as_ref().to_vec()).collect();
    for b in 0..E::byte_len() * 8 {
        bad.push(flip(&its[i], b / 8, b % 8).as_ref().to_vec());
    }
    bad.push(vec![]);
    bad.push(good.0[..good.0.len() - 1].to_vec());
    bad.push([&good.0[..], &[0]].concat());
    bad.push([&[0], &good.0[..]].concat());
    bad.push(ref_leaf::<E>(&good.0).as_ref().to_vec());
    bad.push(ref_digest::<E>(&good.0).as_ref().to_vec());
    for b in bad {
        let r = call(|| p.validate_with_data::<A>(&Obj(b.clone()))).must("validate_with_data")?;
        check!(!r, "wrong data accepted", "leaf {}: data {:02x?} accepted", i, b);
    }
    ctx.op(its.len());
    // right data, tampered proof
    let mut q = p.clone();
    let l = q.lemma().len();
    q.lemma_mut()[l - 1] = E::default();
    let r = call(|| q.validate_with_data::<A>(&good)).must("validate_with_data")?;
    check!(!r, "tampered accepted", "wrong root accepted with the right data");
    Ok(())
}

fn mk_base<E, A, U>(k: usize, n: usize) -> anyhow::Result<(MerkleTree<E, A, VecStore<E>, U>, Vec<E>)>
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
{
    let its: Vec<E> = items(Pat::Distinct, 500 + k as u64, n);
    let t = MerkleTree::from_data(its.iter().map(|i| Obj(i.as_ref().to_vec())))?;
    Ok((t, its))
}

fn base<E, A, U>(ctx: &mut Ctx, n: usize, pairs: bool, dense: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
{
    let i = ctx.choose("leaf", n);
    let (t, its) = call(|| mk_base::<E, A, U>(0, n)).must("construct")?;
    let p = call(|| t.gen_proof(i)).must("gen_proof")?;
    let mut others = vec![];
    for j in [(i + 1) % n, i ^ 1, (i + n / 2) % n, n - 1 - i] {
        if j != i && j < n {
            others.push(to_rp(&call(|| t.gen_proof(j)).must("gen_proof")?));
        }
    }
    let pool = vec![t.root(), call(|| t.read_at((i + 1) % n)).must("read")?, its[i].clone(), items::<E>(Pat::Ones, 0, 1)[0].clone()];
    attack::<E, A, U, U0, U0>(ctx, &p, &its[i], &others, &pool, pairs, dense)?;
    data_attack::<E, A, U>(ctx, &p, i, &its)
}

fn two<E, A, U, N>(ctx: &mut Ctx, n: usize, pairs: bool, dense: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
    N: Unsigned,
{
    let c = N::to_usize();
    let i = ctx.choose("leaf", n * c);
    let mut ts = vec![];
    let mut its = vec![];
    for k in 0..c {
        let (t, x) = call(|| mk_base::<E, A, U>(k, n)).must("construct")?;
        ts.push(t);
        its.extend(x);
    }
    let t: MerkleTree<E, A, VecStore<E>, U, N> = call(|| MerkleTree::from_trees(ts)).must("from_trees")?;
    let p = call(|| t.gen_proof(i)).must("gen_proof")?;
    let mut others = vec![];
    for j in [(i + 1) % (n * c), (i + n) % (n * c), (i + n + 1) % (n * c)] {
        if j != i {
            others.push(to_rp(&call(|| t.gen_proof(j)).must("gen_proof")?));
        }
    }
    let pool = vec![t.root(), call(|| t.read_at((i + 1) % n)).must("read")?];
    attack::<E, A, U, N, U0>(ctx, &p, &its[i], &others, &pool, pairs, dense)?;
    data_attack::<E, A, U>(ctx, &p, i, &its)
}

fn three<E, A, U, N, T>(ctx: &mut Ctx, n: usize, pairs: bool, dense: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
    N: Unsigned,
    T: Unsigned,
{
    let (c, d) = (N::to_usize(), T::to_usize());
    let i = ctx.choose("leaf", n * c * d);
    let mut ts = vec![];
    let mut its = vec![];
    for k in 0..c * d {
        let (t, x) = call(|| mk_base::<E, A, U>(k, n)).must("construct")?;
        ts.push(t);
        its.extend(x);
    }
    let t: MerkleTree<E, A, VecStore<E>, U, N, T> = call(|| MerkleTree::from_sub_trees_as_trees(ts)).must("compose")?;
    let p = call(|| t.gen_proof(i)).must("gen_proof")?;
    let mut others = vec![];
    for j in [(i + 1) % (n * c * d), (i + n) % (n * c * d), (i + n * c) % (n * c * d), (i + n * c + n) % (n * c * d)] {
        if j != i {
            others.push(to_rp(&call(|| t.gen_proof(j)).must("gen_proof")?));
        }
    }
    let pool = vec![t.root()];
    attack::<E, A, U, N, T>(ctx, &p, &its[i], &others, &pool, pairs, dense)?;
    data_attack::<E, A, U>(ctx, &p, i, &its)
}

/// `Proof::new` for arities known at run time.
fn labelled<E: Element, U: Unsigned>(n: usize, t: usize, sub: Option<Box<Proof<E, U>>>, lemma: Vec<E>, path: Vec<usize>) -> anyhow::Result<Proof<E, U>> {
    use typenum::*;
    macro_rules! m {
        ($T:ident) => {
            match n {
                0 => Proof::new::<$T, U0>(sub, lemma, path),
                1 => Proof::new::<$T, U1>(sub, lemma, path),
                2 => Proof::new::<$T, U2>(sub, lemma, path),
                3 => Proof::new::<$T, U3>(sub, lemma, path),
                4 => Proof::new::<$T, U4>(sub, lemma, path),
                _ => Proof::new::<$T, U5>(sub, lemma, path),
            }
        };
    }
    match t {
        0 => m!(U0),
        1 => m!(U1),
        2 => m!(U2),
        3 => m!(U3),
        4 => m!(U4),
        _ => m!(U5),
    }
}

/// Genuine lemmas and paths under every combination of layer arities: validation never panics, and
/// a layer only validates under the arity it has.
fn labels<E, A, U, N, T>(ctx: &mut Ctx, n: usize, tampered: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
    N: Unsigned,
    T: Unsigned,
{
    let (c, d) = (N::to_usize(), T::to_usize());
    let mut ts = vec![];
    for k in 0..c.max(1) * d.max(1) {
        ts.push(call(|| mk_base::<E, A, U>(k, n)).must("construct")?.0);
    }
    let i = ctx.choose("leaf", n * c.max(1) * d.max(1));
    let p = if d > 0 {
        let t: MerkleTree<E, A, VecStore<E>, U, N, T> = call(|| MerkleTree::from_sub_trees_as_trees(ts)).must("compose")?;
        call(|| t.gen_proof(i)).must("gen_proof")?
    } else {
        let t: MerkleTree<E, A, VecStore<E>, U, N> = call(|| MerkleTree::from_trees(ts)).must("compose")?;
        call(|| t.gen_proof(i)).must("gen_proof")?
    };
    let rp = to_rp(&p);
    let mut layers = vec![&rp];
    while let Some(s) = &layers[layers.len() - 1].sub {
        layers.push(s);
    }
    layers.reverse(); // base first
    let total = 36usize.pow(layers.len() as u32);
    for x in 0..total {
        let lab: Vec<(usize, usize)> = (0..layers.len() as u32).map(|k| (x / 36usize.pow(k) % 6, x / 36usize.pow(k) / 6 % 6)).collect();
        relabelled::<E, A, U>(ctx, &layers, &lab, tampered)?;
    }
    Ok(())
}

fn relabelled<E, A, U>(ctx: &mut Ctx, layers: &[&Rp<E>], lab: &[(usize, usize)], tampered: bool) -> R
where
    E: Element + 'static,
    A: RefAlg<E>,
    U: Unsigned,
{
    let mut q: Option<Box<Proof<E, U>>> = None;
    let mut want = true;
    for (k, (l, (ln, lt))) in layers.iter().zip(lab).enumerate() {
        let mut lemma = l.lemma.clone();
        if tampered && k == 0 {
            lemma[0] = E::default();
        }
        // a layer only validates under the arity it was made with
        let a = if *lt > 0 { *lt } else { *ln };
        want &= if k == 0 { a == 0 && !tampered } else { a == l.lemma.len() };
        let sub = q.take();
        match call(|| labelled::<E, U>(*ln, *lt, sub, lemma, l.path.clone())) {
            Out::Ok(x) => q = Some(Box::new(x)),
            Out::Err(_) => return Ok(()),
            Out::Panic(e) => return fail("new panic", format!("layer arities {:?}: {}", lab, e)),
        }
    }
    let q = q.unwrap();
    ctx.op(1);
    match call(|| q.validate::<A>()) {
        Out::Ok(v) => check!(!v || want, "relabelled accepted", "layer arities (sub, top) {:?} accepted", lab),
        Out::Err(_) => {}
        Out::Panic(e) => return fail("validate panic", format!("layer arities (sub, top) {:?}: validation panicked: {}", lab, e)),
    }
    ctx.state(h64(7, format!("{:?}", lab).as_bytes()));
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let q = tier == Tier::Quick;
    let mut s = Spec::new("C04");
    type E = El<32>;
    macro_rules! b {
        ($($U:ident $max:expr),*) => { $( for n in sizes(typenum::$U::to_usize(), $max) {
            let pairs = n <= if q { 16 } else { 64 };
            s.add(format!("base/arity{}/n{}/plain", typenum::$U::to_usize(), n), move |c| base::<E, Plain, typenum::$U>(c, n, pairs && typenum::$U::to_usize() <= 4, true));
            s.add(format!("base/arity{}/n{}/height", typenum::$U::to_usize(), n), move |c| base::<E, Alg<true>, typenum::$U>(c, n, false, true));
        } )* }
    }
    if q {
        b!(U2 64, U4 64, U8 64, U16 16);
    } else {
        b!(U2 1024, U4 1024, U8 512, U16 256);
    }
    s.add("base/e8/arity2/n16", |c| base::<El<8>, Plain, typenum::U2>(c, 16, false, true));
    s.add("base/builtin/arity2/n16", |c| base::<[u8; 32], Plain, typenum::U2>(c, 16, false, true));
    s.add("base/builtin/arity4/n16", |c| base::<[u8; 32], Plain, typenum::U4>(c, 16, false, true));
    macro_rules! t2 {
        ($(($U:ident, $N:ident)),*) => { $( for n in sizes(typenum::$U::to_usize(), if q { 8 } else { 64 }) {
            let pairs = !q && n <= 4;
            s.add(format!("compound/{}-{}/n{}/plain", typenum::$U::to_usize(), typenum::$N::to_usize(), n), move |c| two::<E, Plain, typenum::$U, typenum::$N>(c, n, pairs || n <= 4, true));
            s.add(format!("compound/{}-{}/n{}/height", typenum::$U::to_usize(), typenum::$N::to_usize(), n), move |c| two::<E, Alg<true>, typenum::$U, typenum::$N>(c, n, false, true));
        } )* }
    }
    t2!((U2, U1), (U2, U2), (U2, U3), (U2, U4), (U4, U2), (U4, U3), (U4, U5), (U8, U2), (U8, U8));
    macro_rules! t3 {
        ($(($U:ident, $N:ident, $T:ident)),*) => { $( for n in sizes(typenum::$U::to_usize(), if q { 4 } else { 16 }) {
            s.add(format!("top/{}-{}-{}/n{}/plain", typenum::$U::to_usize(), typenum::$N::to_usize(), typenum::$T::to_usize(), n), move |c| three::<E, Plain, typenum::$U, typenum::$N, typenum::$T>(c, n, !q && n <= 4, true));
            s.add(format!("top/{}-{}-{}/n{}/height", typenum::$U::to_usize(), typenum::$N::to_usize(), typenum::$T::to_usize(), n), move |c| three::<E, Alg<true>, typenum::$U, typenum::$N, typenum::$T>(c, n, false, true));
        } )* }
    }
    t3!((U2, U1, U1), (U2, U2, U2), (U2, U3, U2), (U2, U2, U3), (U4, U2, U2), (U4, U4, U2), (U4, U1, U2));
    macro_rules! lb {
        ($(($U:ident, $N:ident, $T:ident)),*) => { $( for tampered in [false, true] {
            s.add(format!("labels/{}-{}-{}/{}", typenum::$U::to_usize(), typenum::$N::to_usize(), typenum::$T::to_usize(), tampered), move |c| labels::<E, Plain, typenum::$U, typenum::$N, typenum::$T>(c, typenum::$U::to_usize(), tampered));
        } )* }
    }
    lb!((U2, U1, U0), (U2, U2, U0), (U2, U3, U0), (U4, U4, U0), (U2, U1, U1), (U2, U2, U2), (U2, U3, U2));
    s.scenarios.reverse();
    s.bound("every assignment of sub and top arities 0..5 to every layer of compound and compound-compound proofs");
    s.bound("every leaf of: base arities 2,4,8 (and 16) up to the listed sizes; 9 compound and 7 compound-compound shapes");
    s.bound("all single modifications: each lemma entry replaced by pool values, every other entry, default, each byte flipped (each bit of leaf and root); all swaps, removals, insertions; all path values and pairs of path values; levels dropped / added; sub-proofs exchanged, removed, nested");
    s.bound("all pairs of modifications for the smallest shapes");
    s.assume("the digest has no accidental collisions on the enumerated inputs");
    s
}

fn main() {
    mc::engine::main(build)
}
