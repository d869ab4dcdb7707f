//! Reference model: an independent statement of what trees, proofs and encodings are.

use std::hash::Hasher;

use merkletree::hash::Algorithm;
use merkletree::merkle::Element;

/// The largest element.
pub const MAX_EL: usize = 256;

/// Element of `N` bytes.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct El<const N: usize>(pub [u8; N]);

impl<const N: usize> Default for El<N> {
    fn default() -> Self {
        El([0; N])
    }
}
impl<const N: usize> AsRef<[u8]> for El<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> std::fmt::Debug for El<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for b in self.0.iter().take(6) {
            write!(f, "{:02x}", b)?;
        }
        Ok(())
    }
}
impl<const N: usize> Element for El<N> {
    fn byte_len() -> usize {
        N
    }
    fn from_slice(b: &[u8]) -> Self {
        assert_eq!(b.len(), N, "element of a wrong size");
        let mut a = [0; N];
        a.copy_from_slice(b);
        El(a)
    }
    fn copy_to_slice(&self, b: &mut [u8]) {
        b.copy_from_slice(&self.0)
    }
}
impl<H: Hasher, const N: usize> merkletree::hash::Hashable<H> for El<N> {
    fn hash(&self, state: &mut H) {
        state.write(&self.0)
    }
}

/// The digest function used by the test algorithms: a keyed mixing of the whole byte string.
pub fn digest(data: &[u8], out: &mut [u8]) {
    let mut a: u64 = 0x243F_6A88_85A3_08D3 ^ (data.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut b: u64 = 0x1319_8A2E_0370_7344;
    let mut mix = |v: u64| -> u64 {
        let m = ((a ^ v) as u128).wrapping_mul((b ^ 0xA076_1D64_78BD_642F) as u128 | 1);
        a = (m as u64).rotate_left(23) ^ v.wrapping_mul(0xE703_7ED1_A0B4_28DB);
        b = ((m >> 64) as u64).wrapping_add(b.rotate_left(41)) ^ a;
        a ^ b
    };
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        mix(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
    }
    let mut l = [0u8; 8];
    let r = it.remainder();
    l[..r.len()].copy_from_slice(r);
    mix(u64::from_le_bytes(l));
    mix(0x5851_F42D_4C95_7F2D);
    for (i, o) in out.chunks_mut(8).enumerate() {
        let v = mix(i as u64 + 1).to_le_bytes();
        let n = o.len();
        o.copy_from_slice(&v[..n]);
    }
}

/// Test algorithm.  It hashes exactly the bytes written since the last reset; `hash()` does not
/// reset.  With `H`, nodes depend on the height they are computed with.
#[derive(Clone, Default, Debug)]
pub struct Alg<const H: bool> {
    buf: Vec<u8>,
}

impl<const H: bool> Hasher for Alg<H> {
    fn finish(&self) -> u64 {
        unreachable!("finish is not used")
    }
    fn write(&mut self, bytes: &[u8]) {
        self.buf.extend_from_slice(bytes)
    }
}

impl<E: Element, const H: bool> Algorithm<E> for Alg<H> {
    fn hash(&mut self) -> E {
        let mut out = [0u8; MAX_EL];
        digest(&self.buf, &mut out[..E::byte_len()]);
        E::from_slice(&out[..E::byte_len()])
    }
    fn reset(&mut self) {
        self.buf.clear();
    }
    fn node(&mut self, left: E, right: E, height: usize) -> E {
        self.multi_node(&[left, right], height)
    }
    fn multi_node(&mut self, nodes: &[E], height: usize) -> E {
        if H {
            self.buf.extend_from_slice(&(height as u64).to_le_bytes());
        }
        self.buf.push(1);
        for n in nodes {
            self.buf.extend_from_slice(n.as_ref());
        }
        let mut out = [0u8; MAX_EL];
        digest(&self.buf, &mut out[..E::byte_len()]);
        E::from_slice(&out[..E::byte_len()])
    }
}

/// Test algorithm that relies on the crate's own leaf / node / multi_node / reset.
#[derive(Clone, Default, Debug)]
pub struct Plain {
    buf: Vec<u8>,
}
impl Hasher for Plain {
    fn finish(&self) -> u64 {
        unreachable!("finish is not used")
    }
    fn write(&mut self, bytes: &[u8]) {
        self.buf.extend_from_slice(bytes)
    }
}
impl<E: Element> Algorithm<E> for Plain {
    fn hash(&mut self) -> E {
        let mut out = [0u8; MAX_EL];
        digest(&self.buf, &mut out[..E::byte_len()]);
        E::from_slice(&out[..E::byte_len()])
    }
}

/// How the reference evaluates the algorithm under test.
pub trait RefAlg<E: Element>: Algorithm<E> + Clone + std::fmt::Debug + Send + Sync + 'static {
    const HEIGHT: bool;
    const NAME: &'static str;
}
impl<E: Element> RefAlg<E> for Plain {
    const HEIGHT: bool = false;
    const NAME: &'static str = "plain";
}
impl<E: Element> RefAlg<E> for Alg<true> {
    const HEIGHT: bool = true;
    const NAME: &'static str = "height";
}
impl<E: Element> RefAlg<E> for Alg<false> {
    const HEIGHT: bool = false;
    const NAME: &'static str = "own";
}

pub fn ref_digest<E: Element>(data: &[u8]) -> E {
    let mut out = [0u8; MAX_EL];
    digest(data, &mut out[..E::byte_len()]);
    E::from_slice(&out[..E::byte_len()])
}

pub fn ref_leaf<E: Element>(item: &[u8]) -> E {
    let mut b = Vec::with_capacity(1 + item.len());
    b.push(0u8);
    b.extend_from_slice(item);
    ref_digest(&b)
}

pub fn ref_node<E: Element>(children: &[E], height: Option<usize>) -> E {
    let mut b = Vec::with_capacity(9 + children.len() * E::byte_len());
    if let Some(h) = height {
        b.extend_from_slice(&(h as u64).to_le_bytes());
    }
    b.push(1u8);
    for c in children {
        b.extend_from_slice(c.as_ref());
    }
    ref_digest(&b)
}

/// A base tree: the rows from the leafs to the root.
#[derive(Clone, Debug)]
pub struct RefTree<E> {
    pub arity: usize,
    pub rows: Vec<Vec<E>>,
}

impl<E: Element> RefTree<E> {
    pub fn new(leafs: Vec<E>, arity: usize, height: bool) -> Self {
        let mut rows = vec![leafs];
        while rows.last().unwrap().len() > 1 {
            let h = rows.len() - 1;
            let prev = rows.last().unwrap();
            assert_eq!(prev.len() % arity, 0, "reference: not a valid size");
            let next = prev
                .chunks(arity)
                .map(|c| ref_node(c, if height { Some(h) } else { None }))
                .collect();
            rows.push(next);
        }
        RefTree { arity, rows }
    }
    pub fn leafs(&self) -> usize {
        self.rows[0].len()
    }
    pub fn root(&self) -> E {
        self.rows.last().unwrap()[0].clone()
    }
    pub fn row_count(&self) -> usize {
        self.rows.len()
    }
    pub fn nodes(&self) -> Vec<E> {
        self.rows.iter().flat_map(|r| r.iter().cloned()).collect()
    }
    pub fn len(&self) -> usize {
        self.rows.iter().map(|r| r.len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn bytes(&self) -> Vec<u8> {
        to_bytes(&self.nodes())
    }
    /// (lemma, path) of leaf `i`
    pub fn proof(&self, i: usize) -> (Vec<E>, Vec<usize>) {
        let mut lemma = vec![self.rows[0][i].clone()];
        let mut path = vec![];
        let mut j = i;
        for r in &self.rows[..self.rows.len() - 1] {
            let g = j / self.arity * self.arity;
            for k in g..g + self.arity {
                if k != j {
                    lemma.push(r[k].clone());
                }
            }
            path.push(j - g);
            j /= self.arity;
        }
        lemma.push(self.root());
        (lemma, path)
    }
    /// number of nodes above the `discard` rows that follow the base row
    pub fn cached_nodes(&self, discard: usize) -> usize {
        self.rows[1 + discard..].iter().map(|r| r.len()).sum()
    }
}

pub fn to_bytes<E: Element>(v: &[E]) -> Vec<u8> {
    let mut b = Vec::with_capacity(v.len() * E::byte_len());
    for e in v {
        b.extend_from_slice(e.as_ref());
    }
    b
}

/// Value patterns of leaf items.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pat {
    Distinct,
    Zero,
    Ones,
    Periodic,
    LowEntropy,
}
pub const PATS: [Pat; 5] = [Pat::Distinct, Pat::Zero, Pat::Ones, Pat::Periodic, Pat::LowEntropy];

pub fn items<E: Element>(pat: Pat, salt: u64, n: usize) -> Vec<E> {
    (0..n)
        .map(|i| match pat {
            Pat::Distinct => {
                let mut b = [0u8; 17];
                b[0] = 0xA5;
                b[1..9].copy_from_slice(&(i as u64).to_le_bytes());
                b[9..17].copy_from_slice(&salt.to_le_bytes());
                ref_digest(&b)
            }
            Pat::Zero => E::default(),
            Pat::Ones => E::from_slice(&vec![0xFF; E::byte_len()]),
            Pat::Periodic => E::from_slice(&vec![(i % 4) as u8; E::byte_len()]),
            Pat::LowEntropy => {
                let mut v = vec![0u8; E::byte_len()];
                let s = (i as u32).to_le_bytes();
                for (k, b) in s.iter().enumerate() {
                    if k < v.len() {
                        v[k] = *b;
                    }
                }
                E::from_slice(&v)
            }
        })
        .collect()
}

/// Reference verification of a base proof given as (lemma, path).
pub fn ref_verify<E: Element>(lemma: &[E], path: &[usize], arity: usize, height: bool) -> bool {
    if lemma.len() != 2 + path.len() * (arity - 1) || path.is_empty() || path.iter().any(|p| *p >= arity) {
        return false;
    }
    let mut cur = lemma[0].clone();
    for (l, p) in path.iter().enumerate() {
        let sib = &lemma[1 + l * (arity - 1)..1 + (l + 1) * (arity - 1)];
        let mut ch: Vec<E> = sib.to_vec();
        ch.insert(*p, cur);
        cur = ref_node(&ch, if height { Some(l) } else { None });
    }
    cur == lemma[lemma.len() - 1]
}
