//! Algorithms that tell the scheduler or the injector when a node is being hashed.
use mc::*;
use merkletree::hash::Algorithm;
use merkletree::merkle::Element;
use std::hash::Hasher;

/// `Alg<true>` with a marked point before every leaf and node.
#[derive(Clone, Default, Debug)]
pub struct MarkAlg(Alg<true>);

impl Hasher for MarkAlg {
    fn finish(&self) -> u64 {
        unreachable!()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
}
impl<E: Element> Algorithm<E> for MarkAlg {
    fn hash(&mut self) -> E {
        self.0.hash()
    }
    fn reset(&mut self) {
        <Alg<true> as Algorithm<E>>::reset(&mut self.0)
    }
    fn leaf(&mut self, l: E) -> E {
        crate::ip::mark();
        self.0.leaf(l)
    }
    fn node(&mut self, l: E, r: E, h: usize) -> E {
        crate::ip::mark();
        self.0.node(l, r, h)
    }
    fn multi_node(&mut self, n: &[E], h: usize) -> E {
        crate::ip::mark();
        self.0.multi_node(n, h)
    }
}
impl<E: Element> RefAlg<E> for MarkAlg {
    const HEIGHT: bool = true;
    const NAME: &'static str = "height";
}

/// `Alg<true>` with a marked point before every `N`-th leaf or node, which may be made to panic.
#[derive(Clone, Default, Debug)]
pub struct SparseAlg<const N: usize>(Alg<true>);
static HASHED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// the hash (counted from 1) that panics
pub static PANIC_AT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn sparse(n: usize) {
    let k = HASHED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    if k % n == 0 {
        crate::sched::mark();
    }
    if k + 1 == PANIC_AT.load(std::sync::atomic::Ordering::SeqCst) {
        panic!("planned panic");
    }
}
impl<const N: usize> Hasher for SparseAlg<N> {
    fn finish(&self) -> u64 {
        unreachable!()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
}
impl<E: Element, const N: usize> Algorithm<E> for SparseAlg<N> {
    fn hash(&mut self) -> E {
        self.0.hash()
    }
    fn reset(&mut self) {
        <Alg<true> as Algorithm<E>>::reset(&mut self.0)
    }
    fn leaf(&mut self, l: E) -> E {
        sparse(N);
        self.0.leaf(l)
    }
    fn node(&mut self, l: E, r: E, h: usize) -> E {
        sparse(N);
        self.0.node(l, r, h)
    }
    fn multi_node(&mut self, n: &[E], h: usize) -> E {
        sparse(N);
        self.0.multi_node(n, h)
    }
}
impl<E: Element, const N: usize> RefAlg<E> for SparseAlg<N> {
    const HEIGHT: bool = true;
    const NAME: &'static str = "height";
}

/// An element every use of which by the code under test is a scheduling point.
#[derive(Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct PtEl(pub El<8>);
impl Clone for PtEl {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        crate::sched::mark();
        PtEl(self.0)
    }
}
impl AsRef<[u8]> for PtEl {
    fn as_ref(&self) -> &[u8] {
        self.0.as_ref()
    }
}
impl Element for PtEl {
    fn byte_len() -> usize {
        crate::sched::mark();
        8
    }
    fn from_slice(b: &[u8]) -> Self {
        crate::sched::mark();
        PtEl(El::from_slice(b))
    }
    fn copy_to_slice(&self, b: &mut [u8]) {
        crate::sched::mark();
        self.0.copy_to_slice(b)
    }
}
