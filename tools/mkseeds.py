#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.rs, meta.json) from tools/seeds/*.py; usage: mkseeds.py [ID...]"""
import difflib, glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# cwd: the merkletree sources. Builds demo.rs against them in a scratch directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.71.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_INCREMENTAL
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/scratch"
cp "$D/demo.rs" "$W/src/main.rs"
cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat >"$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
merkletree = { path = "$R" }
anyhow = "1"
typenum = "1"
rayon = "1"
libc = "0.2"
[profile.dev]
opt-level = 1
debug = 0
T
cd "$W" || exit 2
export TMPDIR="$W/scratch"
cargo build --offline -q 2>"$W/log" || { cat "$W/log"; exit 3; }
timeout 200 "$W/target/debug/demo" "$W/scratch"
'''
PRE = r'''#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use std::hash::Hasher;
use std::path::PathBuf;
use anyhow::Result;
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::*;
use merkletree::proof::Proof;
use merkletree::store::*;
use rayon::prelude::*;
use typenum::{U0, U1, U2, U3, U4, U5, U8, U16};

type E = [u8; 32];
type Lc = LevelCacheStore<E, std::fs::File>;

/// A toy hash; interior nodes depend on their height.
#[derive(Clone, Default, Debug)]
struct H(Vec<u8>);
fn mix(b: &[u8]) -> E {
    let mut o = [0u8; 32];
    for k in 0..4u64 {
        let mut h = 0xcbf29ce484222325u64 ^ (k << 56);
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
            h ^= h >> 31;
        }
        o[k as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    o
}
impl Hasher for H {
    fn finish(&self) -> u64 { unimplemented!() }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
impl Algorithm<E> for H {
    fn hash(&mut self) -> E { mix(&self.0) }
    fn reset(&mut self) { self.0.clear() }
    fn leaf(&mut self, l: E) -> E { let mut b = vec![0]; b.extend(l); mix(&b) }
    fn node(&mut self, l: E, r: E, height: usize) -> E { self.multi_node(&[l, r], height) }
    fn multi_node(&mut self, n: &[E], height: usize) -> E {
        let mut b = vec![1, height as u8];
        for x in n { b.extend(x) }
        mix(&b)
    }
}
fn leafs(n: usize) -> Vec<E> { (0..n as u64).map(|i| mix(&i.to_le_bytes())).collect() }
fn bytes(v: &[E]) -> Vec<u8> { v.concat() }
/// all nodes, row after row
fn nodes(l: &[E], arity: usize) -> Vec<E> {
    let mut all = l.to_vec();
    let mut row = l.to_vec();
    let mut h = 0;
    while row.len() > 1 {
        row = row.chunks(arity).map(|c| H::default().multi_node(c, h)).collect();
        all.extend(row.iter());
        h += 1;
    }
    all
}
fn dir() -> PathBuf { PathBuf::from(std::env::args().nth(1).expect("scratch directory")) }
fn cfg(id: &str, rows: usize) -> StoreConfig { StoreConfig::new(dir(), id, rows) }

'''
seeds = {}
def seed(id, prop, edits, needs, breaks, demo):
    assert id not in seeds, id
    seeds[id] = (prop, edits, needs, breaks, demo)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
want = sys.argv[1:] or sorted(seeds)
for id in want:
    prop, edits, needs, breaks, demo = seeds[id]
    files = {}
    for path, old, new in edits:
        s = files.setdefault(path, [subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path], text=True)] * 2)
        if s[1].count(old) != 1:
            sys.exit(f"{id}: {path}: {s[1].count(old)} matches of {old!r}")
        files[path] = [s[0], s[1].replace(old, new)]
    patch = ""
    for path, (a, b) in files.items():
        patch += f"diff --git a/{path} b/{path}\n"
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + path, "b/" + path))
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(PRE + demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
