//! A store in memory whose operations are scheduling points, and may be made to fail.
use std::ops;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};

use crate::sched;
use anyhow::{bail, ensure, Result};
use mc::*;
use merkletree::hash::Algorithm;
use merkletree::merkle::Element;
use merkletree::store::*;
use typenum::Unsigned;

/// Reads (or writes) that include this element fail.
pub static FAIL_READ: AtomicIsize = AtomicIsize::new(-1);
pub static FAIL_WRITE: AtomicIsize = AtomicIsize::new(-1);
pub static FAIL_SYNC: AtomicIsize = AtomicIsize::new(-1);
pub static FAILED: AtomicUsize = AtomicUsize::new(0);
pub const INJECTED: &str = "injected failure";

fn trip(which: &AtomicIsize, at: usize, n: usize) -> Result<()> {
    let w = which.load(SeqCst);
    if w >= at as isize && w < (at + n) as isize {
        FAILED.fetch_add(1, SeqCst);
        bail!(INJECTED);
    }
    Ok(())
}

macro_rules! pt_store {
    ($name:ident, $($build:item)?) => {
        #[derive(Debug, Clone)]
        pub struct $name<E: Element> {
            pub v: Vec<E>,
            /// which elements have been written
            pub w: Vec<bool>,
        }
        impl<E: Element> $name<E> {
            fn put(&mut self, i: usize, e: E) {
                if self.v.len() <= i {
                    self.v.resize(i + 1, E::default());
                    self.w.resize(i + 1, false);
                }
                self.v[i] = e;
                self.w[i] = true;
            }
        }
        impl<E: Element> Store<E> for $name<E> {
            fn new_with_config(size: usize, _: usize, _: StoreConfig) -> Result<Self> {
                Self::new(size)
            }
            fn new(size: usize) -> Result<Self> {
                Ok($name { v: Vec::with_capacity(size), w: Vec::with_capacity(size) })
            }
            fn new_from_slice_with_config(size: usize, _: usize, data: &[u8], _: StoreConfig) -> Result<Self> {
                Self::new_from_slice(size, data)
            }
            fn new_from_slice(size: usize, data: &[u8]) -> Result<Self> {
                let mut s = Self::new(size)?;
                for (i, c) in data.chunks(E::byte_len()).enumerate() {
                    s.put(i, E::from_slice(c));
                }
                Ok(s)
            }
            fn new_from_disk(_: usize, _: usize, _: &StoreConfig) -> Result<Self> {
                bail!("not on disk")
            }
            fn write_at(&mut self, el: E, index: usize) -> Result<()> {
                sched::mark();
                self.put(index, el);
                sched::mark();
                Ok(())
            }
            fn copy_from_slice(&mut self, buf: &[u8], start: usize) -> Result<()> {
                sched::mark();
                ensure!(buf.len() % E::byte_len() == 0, "odd length");
                trip(&FAIL_WRITE, start, buf.len() / E::byte_len())?;
                for (i, c) in buf.chunks(E::byte_len()).enumerate() {
                    self.put(start + i, E::from_slice(c));
                }
                sched::mark();
                Ok(())
            }
            fn compact(&mut self, _: usize, _: StoreConfig, _: u32) -> Result<bool> {
                Ok(false)
            }
            fn delete(_: StoreConfig) -> Result<()> {
                Ok(())
            }
            fn read_at(&self, index: usize) -> Result<E> {
                sched::mark();
                ensure!(index < self.v.len(), "out of range");
                Ok(self.v[index].clone())
            }
            fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
                sched::mark();
                trip(&FAIL_READ, r.start, r.len())?;
                ensure!(r.start <= r.end && r.end <= self.v.len(), "out of range");
                let v = self.v[r].to_vec();
                sched::mark();
                Ok(v)
            }
            fn read_into(&self, i: usize, buf: &mut [u8]) -> Result<()> {
                ensure!(i < self.v.len(), "out of range");
                self.v[i].copy_to_slice(buf);
                Ok(())
            }
            fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
                ensure!(start <= end && end <= self.v.len(), "out of range");
                buf.copy_from_slice(&to_bytes(&self.v[start..end]));
                Ok(())
            }
            fn len(&self) -> usize {
                sched::mark();
                self.v.len()
            }
            fn loaded_from_disk(&self) -> bool {
                sched::mark();
                false
            }
            fn is_empty(&self) -> bool {
                sched::mark();
                self.v.is_empty()
            }
            fn push(&mut self, el: E) -> Result<()> {
                sched::mark();
                let n = self.v.len();
                self.put(n, el);
                Ok(())
            }
            fn sync(&self) -> Result<()> {
                sched::mark();
                trip(&FAIL_SYNC, 0, 1)
            }
            $($build)?
        }
    };
}

// the crate's own build
pt_store!(PtStore,);
// stops after the data has been populated
pt_store!(PopStore,
    fn build<A: Algorithm<E>, U: Unsigned>(&mut self, leafs: usize, _: usize, _: Option<StoreConfig>) -> Result<E> {
        ensure!(self.v.len() == leafs, "Inconsistent data");
        Ok(self.v[leafs - 1].clone())
    }
);
