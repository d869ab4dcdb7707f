//! C15: values are hashed through a fixed byte stream.
use mc::*;
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::{Element, MerkleTree};
use merkletree::store::VecStore;
use std::hash::Hasher;

/// Records every byte it is fed.
#[derive(Clone, Default, Debug, PartialEq)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

fn rec<T: ?Sized + Hashable<Rec>>(v: &T) -> Vec<u8> {
    let mut r = Rec::default();
    v.hash(&mut r);
    r.0
}
fn rec_slice<T: Hashable<Rec>>(v: &[T]) -> Vec<u8> {
    let mut r = Rec::default();
    T::hash_slice(v, &mut r);
    r.0
}

/// The value, references to it, and slices made of it.
fn value<T: Hashable<Rec> + Clone + std::fmt::Debug>(ctx: &mut Ctx, v: &T, want: &[u8]) -> R {
    let same = |got: Vec<u8>, how: &str| -> R {
        check!(got == want, "stream", "{} of {:?} feeds {:02x?} instead of {:02x?}", how, v, got, want);
        Ok(())
    };
    same(rec(v), "hash")?;
    same(rec(&v), "hash of a reference")?;
    same(rec(&&v), "hash of a reference to a reference")?;
    let mut m = v.clone();
    same(rec(&&mut m), "hash of a mutable reference")?;
    same(rec(&(v.clone(),)), "hash of a 1-tuple")?;
    // appended to what was fed before
    let mut r = Rec(vec![1, 2, 3]);
    v.hash(&mut r);
    check!(r.0[..3] == [1, 2, 3] && r.0[3..] == *want, "append", "hash of {:?} after other data", v);
    ctx.op(6);
    Ok(())
}

/// Slices of the values: bulk hashing is item by item hashing.
fn slices<T: Hashable<Rec> + Clone + std::fmt::Debug>(ctx: &mut Ctx, vs: &[T], max: usize) -> R {
    let k = ctx.choose("items", max + 1);
    let mut s = vec![];
    for _ in 0..k {
        s.push(vs[ctx.choose("item", vs.len())].clone());
    }
    let want: Vec<u8> = s.iter().flat_map(|v| rec(v)).collect();
    check!(rec_slice(&s) == want, "hash_slice", "hash_slice of {:?} feeds {:02x?} instead of {:02x?}", s, rec_slice(&s), want);
    check!(rec(&s[..]) == want, "slice", "hash of the slice {:?} feeds {:02x?} instead of {:02x?}", s, rec(&s[..]), want);
    check!(rec(&&s[..]) == want, "slice ref", "hash of a reference to the slice {:?}", s);
    let refs: Vec<&T> = s.iter().collect();
    check!(rec(&refs[..]) == want, "slice of refs", "hash of a slice of references {:?}", s);
    let tup: Vec<(T, T)> = s.iter().map(|v| (v.clone(), v.clone())).collect();
    let w2: Vec<u8> = s.iter().flat_map(|v| [rec(v), rec(v)].concat()).collect();
    check!(rec(&tup[..]) == w2, "slice of tuples", "hash of a slice of pairs {:?}", s);
    check!(rec(&(1u8, &s[..], 2u8)) == [vec![1], want, vec![2]].concat(), "slice in tuple", "hash of a tuple with the slice {:?}", s);
    ctx.op(6);
    ctx.state(h64(k as u64, &w2));
    Ok(())
}

macro_rules! ints {
    ($s:ident, $($t:ident),*) => {$(
        $s.add(concat!(stringify!($t), " values"), |c| {
            const N: u32 = <$t>::BITS;
            if N <= 16 {
                for i in 0..1u32 << N {
                    value(c, &(i as $t), &(i as $t).to_ne_bytes())?;
                }
            } else {
                // every pair of bits, and their complements
                for a in 0..N {
                    for b in 0..=a {
                        let v: $t = ((1 as $t) << a) | ((1 as $t) << b);
                        for v in [v, !v, v.wrapping_sub(1), v.wrapping_neg()] {
                            value(c, &v, &v.to_ne_bytes())?;
                        }
                    }
                }
                value(c, &(0 as $t), &(0 as $t).to_ne_bytes())?;
            }
            Ok(())
        });
        $s.add(concat!(stringify!($t), " slices"), |c| slices::<$t>(c, &[0, 1, <$t>::MAX, <$t>::MIN, 0x52], 4));
    )*};
}

fn texts(max: usize) -> Vec<String> {
    let alpha = ["a", "\0", "\u{ff}", "é", "𝄞", "\u{1}"];
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for a in alpha {
                next.push(format!("{}{}", l, a));
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

fn byte_strings(max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<u8>> = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for a in [0u8, 1, 0x7f, 0xff] {
                let mut v = l.clone();
                v.push(a);
                next.push(v);
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

fn arrays<const N: usize>(ctx: &mut Ctx) -> R {
    let mut vals: Vec<[u8; N]> = vec![[0; N], [0xff; N]];
    for i in 0..N {
        let mut a = [0; N];
        a[i] = i as u8 + 1;
        vals.push(a);
        let mut a = [0; N];
        for (k, x) in a.iter_mut().enumerate() {
            *x = (k + i) as u8;
        }
        vals.push(a);
    }
    for v in &vals {
        value(ctx, v, v)?;
    }
    let few: Vec<[u8; N]> = vals.iter().take(4).cloned().collect();
    for a in &few {
        for b in &few {
            let s = [*a, *b];
            check!(rec_slice(&s) == [&a[..], &b[..]].concat(), "hash_slice", "hash_slice of arrays of {}", N);
            check!(rec(&s[..]) == [&a[..], &b[..]].concat(), "slice", "slice of arrays of {}", N);
            ctx.op(2);
        }
    }
    let none: [[u8; N]; 0] = [];
    check!(rec(&none[..]).is_empty() && rec_slice(&none).is_empty(), "empty", "empty slice");
    Ok(())
}

fn tuples(ctx: &mut Ctx) -> R {
    // components of different widths and kinds, every arity
    let (a, b, c, d, e, f, g, h, i, j, k, l) =
        (0x11u8, 0x2233u16, 0x4455_6677u32, "text", true, [9u8, 8, 7], -3i8, 'é', 0x0102_0304_0506_0708u64, vec![5u8, 6], (), String::from("end"));
    let parts: Vec<Vec<u8>> = vec![
        rec(&a), rec(&b), rec(&c), rec(&d), rec(&e), rec(&f), rec(&g), rec(&h), rec(&i), rec(&j), rec(&k), rec(&l),
    ];
    let want: Vec<Vec<u8>> = vec![
        vec![0x11],
        0x2233u16.to_ne_bytes().to_vec(),
        0x4455_6677u32.to_ne_bytes().to_vec(),
        b"text".to_vec(),
        vec![1],
        vec![9, 8, 7],
        vec![0xfd],
        (0xe9u32).to_ne_bytes().to_vec(),
        0x0102_0304_0506_0708u64.to_ne_bytes().to_vec(),
        vec![5, 6],
        vec![],
        b"end".to_vec(),
    ];
    check!(parts == want, "parts", "components {:?}", parts);
    let upto = |n: usize| -> Vec<u8> { want[..n].concat() };
    macro_rules! t {
        ($n:expr, $t:expr) => {
            check!(rec(&$t) == upto($n), "tuple", "a tuple of {} components feeds {:02x?} instead of {:02x?}", $n, rec(&$t), upto($n));
            ctx.op(1);
        };
    }
    check!(rec(&()).is_empty(), "unit", "unit feeds something");
    t!(1, (a,));
    t!(2, (a, b));
    t!(3, (a, b, c));
    t!(4, (a, b, c, d));
    t!(5, (a, b, c, d, e));
    t!(6, (a, b, c, d, e, f));
    t!(7, (a, b, c, d, e, f, g));
    t!(8, (a, b, c, d, e, f, g, h));
    t!(9, (a, b, c, d, e, f, g, h, i));
    t!(10, (a, b, c, d, e, f, g, h, i, j.clone()));
    t!(11, (a, b, c, d, e, f, g, h, i, j.clone(), k));
    t!(12, (a, b, c, d, e, f, g, h, i, j.clone(), k, l.clone()));
    // nesting is flat
    t!(6, ((a, b), (c, (d, e)), f));
    t!(5, (((((a,), b), c), d), e));
    t!(5, (a, (b, (c, (d, (e,))))));
    // every order of three components
    let x = 1u8;
    let y = 0x0203u16;
    let z = "z";
    let (rx, ry, rz) = (rec(&x), rec(&y), rec(&z));
    check!(rec(&(x, y, z)) == [rx.clone(), ry.clone(), rz.clone()].concat(), "order", "xyz");
    check!(rec(&(x, z, y)) == [rx.clone(), rz.clone(), ry.clone()].concat(), "order", "xzy");
    check!(rec(&(y, x, z)) == [ry.clone(), rx.clone(), rz.clone()].concat(), "order", "yxz");
    check!(rec(&(y, z, x)) == [ry.clone(), rz.clone(), rx.clone()].concat(), "order", "yzx");
    check!(rec(&(z, x, y)) == [rz.clone(), rx.clone(), ry.clone()].concat(), "order", "zxy");
    check!(rec(&(z, y, x)) == [rz, ry, rx].concat(), "order", "zyx");
    ctx.op(7);
    Ok(())
}

fn pointers(ctx: &mut Ctx) -> R {
    for addr in [0usize, 1, 8, 0x1000, 0xffff_ffff, usize::MAX - 7, 0x0123_4567_89ab_cdef] {
        let p = addr as *const u32;
        let q = addr as *mut u64;
        value(ctx, &p, &addr.to_ne_bytes())?;
        value(ctx, &q, &addr.to_ne_bytes())?;
    }
    let data = [1u8, 2, 3, 4, 5];
    for n in 0..=5usize {
        let s: *const [u8] = &data[..n];
        let a = data.as_ptr() as usize;
        let want = [a.to_ne_bytes(), n.to_ne_bytes()].concat();
        check!(rec(&s) == want, "fat pointer", "fat pointer of {} elements", n);
        let m = s as *mut [u8];
        check!(rec(&m) == want, "fat pointer", "fat mutable pointer of {} elements", n);
        ctx.op(2);
    }
    Ok(())
}

/// Default algorithm: hash returns what was fed.
#[derive(Clone, Default, Debug)]
struct Echo(Vec<u8>);
impl Hasher for Echo {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Bytes(Vec<u8>);
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Algorithm<Bytes> for Echo {
    fn hash(&mut self) -> Bytes {
        Bytes(self.0.clone())
    }
}

fn algorithm(ctx: &mut Ctx, max: usize) -> R {
    let pool: Vec<Bytes> = [&b""[..], &b"\0"[..], &b"\x01"[..], &b"ab"[..], &[0xff; 32][..]].iter().map(|b| Bytes(b.to_vec())).collect();
    let k = ctx.choose("children", max + 1);
    let mut ch = vec![];
    for i in 0..k {
        // long lists only vary in their last entries
        let m = if i < 3 { pool.len() } else { 1 };
        ch.push(if m == 1 { Bytes(vec![i as u8]) } else { pool[ctx.choose("child", m)].clone() });
    }
    let mut want = vec![1u8];
    for c in &ch {
        want.extend_from_slice(&c.0);
    }
    for h in [0usize, 1, 7] {
        let mut a = Echo::default();
        let got = a.multi_node(&ch, h);
        check!(got.0 == want, "multi_node", "multi_node of {:?} covers {:02x?}", ch, got.0);
        if k == 2 {
            let mut a = Echo::default();
            let got = a.node(ch[0].clone(), ch[1].clone(), h);
            check!(got.0 == want, "node", "node of {:?} covers {:02x?}", ch, got.0);
        }
        ctx.op(2);
    }
    if k == 1 {
        let mut a = Echo::default();
        let got = a.leaf(ch[0].clone());
        let mut w = vec![0u8];
        w.extend_from_slice(&ch[0].0);
        check!(got.0 == w, "leaf", "leaf of {:?} covers {:02x?}", ch, got.0);
        check!(got.0 != Echo::default().multi_node(&ch, 0).0, "separation", "leaf like interior");
        // a used algorithm continues its stream; a reset one starts over
        let again = a.leaf(ch[0].clone());
        check!(again.0 == [w.clone(), w.clone()].concat(), "stream", "the stream is not continued");
        Algorithm::<Bytes>::reset(&mut a);
        check!(a.0.is_empty(), "reset", "reset leaves {:02x?}", a.0);
        check!(a.leaf(ch[0].clone()).0 == w, "reset", "leaf after reset");
        ctx.op(4);
    }
    Ok(())
}

/// Bytes that tell every position from its neighbours.
fn run(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + i / 251 + seed * 13) as u8).collect()
}

/// Children and leafs of every length.
fn lengths(ctx: &mut Ctx, n: usize) -> R {
    for k in [1usize, 2, 3, 4, 8, 16] {
        for uneven in [false, true] {
            let ch: Vec<Bytes> = (0..k).map(|i| Bytes(run(if uneven { n + i } else { n }, i + 1))).collect();
            let mut want = vec![1u8];
            for c in &ch {
                want.extend_from_slice(&c.0);
            }
            for h in [0usize, 1, 2, 31, 64, usize::MAX] {
                check!(Echo::default().multi_node(&ch, h).0 == want, "multi_node", "multi_node of {} children of {} bytes at height {}", k, n, h);
                if k == 2 {
                    let got = Echo::default().node(ch[0].clone(), ch[1].clone(), h);
                    check!(got.0 == want, "node", "node of children of {} bytes at height {}", n, h);
                    let got = Echo::default().node(ch[1].clone(), ch[0].clone(), h);
                    let w = [vec![1u8], ch[1].0.clone(), ch[0].0.clone()].concat();
                    check!(got.0 == w, "node", "node of children of {} bytes in the other order", n);
                }
                ctx.op(2);
            }
        }
    }
    let l = run(n, 3);
    check!(Echo::default().leaf(Bytes(l.clone())).0 == [vec![0u8], l].concat(), "leaf", "leaf of {} bytes", n);
    ctx.op(1);
    Ok(())
}

/// Long texts, byte strings and slices.
fn long(ctx: &mut Ctx, n: usize) -> R {
    let b = run(n, 1);
    value(ctx, &b, &b)?;
    check!(rec(&b[..]) == b, "bytes", "byte slice of {}", n);
    check!(rec(&b[n / 3..]) == b[n / 3..], "bytes", "odd byte slice of {}", n);
    let t: String = (0..n).map(|i| if i % 5 == 4 { 'é' } else { (b'a' + (i % 26) as u8) as char }).collect();
    value(ctx, &t, t.as_bytes())?;
    value(ctx, &t.as_str(), t.as_bytes())?;
    fn items<T: Hashable<Rec>>(n: usize, f: impl Fn(usize) -> T, bytes: impl Fn(usize) -> Vec<u8>) -> R {
        let v: Vec<T> = (0..n).map(f).collect();
        let want: Vec<u8> = (0..n).flat_map(bytes).collect();
        let ty = std::any::type_name::<T>();
        check!(rec_slice(&v) == want, "hash_slice", "hash_slice of {} {}", n, ty);
        check!(rec(&v[..]) == want, "slice", "slice of {} {}", n, ty);
        if n > 2 {
            let l = rec(&v[1]).len();
            let (a, z) = (rec(&v[0]).len(), rec(&v[n - 1]).len());
            check!(l == 0 || rec(&v[1..n - 1]) == want[a..want.len() - z], "slice", "inner slice of {} {}", n, ty);
        }
        Ok(())
    }
    macro_rules! of {
        ($($t:ty),*) => {$(
            items(n, |i| (i as u128).wrapping_mul(0x0123_4567_89ab_cdef_1357_9bdf_0246_8ace) as $t, |i| ((i as u128).wrapping_mul(0x0123_4567_89ab_cdef_1357_9bdf_0246_8ace) as $t).to_ne_bytes().to_vec())?;
        )*};
    }
    of!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
    items(n, |i| i % 3 == 0, |i| vec![(i % 3 == 0) as u8])?;
    items(n, |i| char::from_u32(i as u32 % 0xd800).unwrap(), |i| (i as u32 % 0xd800).to_ne_bytes().to_vec())?;
    items(n, |i| (i as u8, i as u32), |i| [vec![i as u8], (i as u32).to_ne_bytes().to_vec()].concat())?;
    items(n, |i| [i as u8, 1, 2], |i| vec![i as u8, 1, 2])?;
    items(n, |i| { let mut a = [0x5au8; 64]; a[63] = i as u8; a }, |i| { let mut a = vec![0x5au8; 64]; a[63] = i as u8; a })?;
    items(n, |i| run(i % 70, i), |i| run(i % 70, i))?;
    items(n, |i| "x".repeat(i % 9), |i| vec![b'x'; i % 9])?;
    ctx.op(40);
    Ok(())
}

/// Types hash like the documented stream when they are leafs of a tree (hash, then leaf hash).
fn through_tree(ctx: &mut Ctx) -> R {
    type E = El<16>;
    type T = MerkleTree<E, Plain, VecStore<E>, typenum::U2>;
    fn go<O: Hashable<Plain> + Clone>(ctx: &mut Ctx, objs: &[O], streams: &[Vec<u8>]) -> R {
        let t = call(|| T::from_data(objs.to_vec())).must("from_data")?;
        let leafs: Vec<E> = streams.iter().map(|s| ref_leaf::<E>(ref_digest::<E>(s).as_ref())).collect();
        let r = RefTree::new(leafs, 2, false);
        check!(t.root() == r.root(), "root", "tree of objects");
        let p = call(|| t.gen_proof(1)).must("proof")?;
        check!(call(|| p.validate::<Plain>()).must("validate")?, "proof", "proof");
        check!(call(|| p.validate_with_data::<Plain>(&objs[1])).must("validate_with_data")?, "data", "the proof refuses the original data");
        ctx.op(4);
        Ok(())
    }
    go(ctx, &[1u8, 2, 3, 4], &[vec![1], vec![2], vec![3], vec![4]])?;
    go(ctx, &["a", "", "b", "ab"], &[b"a".to_vec(), vec![], b"b".to_vec(), b"ab".to_vec()])?;
    go(ctx, &["x".to_string(), "yz".into()], &[b"x".to_vec(), b"yz".to_vec()])?;
    go(ctx, &[(1u8, "q"), (2, "r")], &[vec![1, b'q'], vec![2, b'r']])?;
    go(ctx, &[vec![1u8, 2], vec![], vec![0], vec![3; 40]], &[vec![1, 2], vec![], vec![0], vec![3; 40]])?;
    go(ctx, &[[7u8; 32], [8; 32]], &[vec![7; 32], vec![8; 32]])?;
    go(ctx, &[true, false], &[vec![1], vec![0]])?;
    go(ctx, &[(), ()], &[vec![], vec![]])
}

/// The element type of 32 bytes.
fn element32(ctx: &mut Ctx) -> R {
    check!(<[u8; 32]>::byte_len() == 32, "byte_len", "byte_len");
    for i in 0..32 {
        for v in [1u8, 0x80, 0xff] {
            let mut b = [0u8; 32];
            b[i] = v;
            let e = call(|| Ok(<[u8; 32] as Element>::from_slice(&b))).must("from_slice")?;
            check!(e == b, "from_slice", "from_slice");
            let mut o = [0x55u8; 32];
            e.copy_to_slice(&mut o);
            check!(o == b, "copy_to_slice", "copy_to_slice");
            ctx.op(2);
        }
    }
    for n in 0..70usize {
        if n != 32 {
            call(|| Ok(<[u8; 32] as Element>::from_slice(&vec![0; n]))).must_refuse("from_slice of another length")?;
        }
    }
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C15");
    s.technique = "exhaustive enumeration of small value domains of every hashable type with a recording hasher against the byte stream specification";
    ints!(s, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
    s.add("bool", |c| {
        value(c, &false, &[0])?;
        value(c, &true, &[1])
    });
    s.add("bool slices", |c| slices(c, &[false, true], 5));
    s.add("char", |c| {
        for i in 0..=0x10ffffu32 {
            if let Some(ch) = char::from_u32(i) {
                check!(rec(&ch) == i.to_ne_bytes(), "char", "char {:x}", i);
                c.op(1);
            }
        }
        value(c, &'x', &('x' as u32).to_ne_bytes())
    });
    s.add("char slices", |c| slices(c, &['a', '\0', '\u{10ffff}', 'é'], 4));
    let tl = if th { 5 } else { 4 };
    s.add("text", move |c| {
        for t in texts(tl) {
            value(c, &t, t.as_bytes())?;
            value(c, &t.as_str(), t.as_bytes())?;
            check!(rec(t.as_str()) == t.as_bytes(), "str", "str {:?}", t);
        }
        Ok(())
    });
    s.add("text slices", |c| slices::<String>(c, &["".into(), "a".into(), "\0".into(), "bc".into()], 4));
    s.add("str slices", |c| slices::<&str>(c, &["", "a", "\0", "bc"], 4));
    s.add("byte vectors", move |c| {
        for b in byte_strings(tl + 1) {
            value(c, &b, &b)?;
            check!(rec(&b[..]) == b, "bytes", "byte slice");
        }
        Ok(())
    });
    s.add("byte vector slices", |c| slices::<Vec<u8>>(c, &[vec![], vec![0], vec![1, 2, 3]], 4));
    s.add("arrays", |c| {
        arrays::<0>(c)?;
        arrays::<1>(c)?;
        arrays::<2>(c)?;
        arrays::<3>(c)?;
        arrays::<16>(c)?;
        arrays::<20>(c)?;
        arrays::<32>(c)?;
        arrays::<33>(c)?;
        arrays::<64>(c)?;
        arrays::<200>(c)
    });
    s.add("array slices", |c| slices::<[u8; 3]>(c, &[[0; 3], [1, 2, 3], [0xff; 3]], 4));
    s.add("tuple slices", |c| slices::<(u8, u16)>(c, &[(0, 0), (1, 2), (0xff, 0xffff)], 4));
    s.add("unit slices", |c| slices::<()>(c, &[()], 4));
    s.add("tuples", tuples);
    s.add("pointers", pointers);
    s.add("algorithm", move |c| algorithm(c, if th { 130 } else { 66 }));
    let lmax = if th { 1100 } else { 300 };
    for n in (0..=lmax).chain([301, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65536, 65537].into_iter().filter(move |n| *n > lmax)) {
        if n < 8192 {
            s.add(format!("algorithm, {} bytes", n), move |c| lengths(c, n));
        }
        s.add(format!("long values, {} items", n), move |c| long(c, n));
    }
    s.add("through a tree", through_tree);
    s.add("element", element32);
    s.bound("all 8 and 16 bit integers, all characters, all two-bit patterns of wider integers, all texts of up to 4 (5) of 6 characters, all byte strings of up to 5 (6) of 4 bytes, slices of up to 4 items of every type, tuples of every arity, byte arrays of 10 sizes, up to 66 (130) children; texts, byte strings, slices of every type, children and leafs of every length up to 300 (1100) and around powers of two up to 65536");
    s.assume("the default Hasher methods for integers feed their native-endian bytes");
    s
}

fn main() {
    mc::engine::main(build)
}
