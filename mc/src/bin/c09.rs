//! C09: level cache reads return the right node or are refused.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use std::io::Read;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use typenum::{Unsigned, U2};

type A = Alg<true>;
const V1: u32 = StoreConfigDataVersion::One as u32;
const V2: u32 = StoreConfigDataVersion::Two as u32;

/// Behaviour of the external source.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Good,
    Fails,
    /// delivers nothing
    Nothing,
    /// delivers one byte less than asked
    OneLess,
    /// delivers half of what is asked
    Half,
    /// only the given call fails
    FailsOnce(usize),
    /// only the given call delivers less
    ShortOnce(usize),
}

struct Src {
    data: Arc<Vec<u8>>,
    mode: Mode,
    calls: AtomicUsize,
    /// the bytes of the base data of the tree: nothing else may be asked for
    base: (usize, usize),
}
impl Read for Src {
    fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> {
        panic!("the source is only read through read_fn")
    }
}
fn src_read(start: usize, end: usize, buf: &mut [u8], s: &Src) -> anyhow::Result<usize> {
    let k = s.calls.fetch_add(1, SeqCst);
    assert!(
        start <= end && s.base.0 <= start && end <= s.base.1,
        "the source is asked for bytes {}..{}, the base data are {}..{}",
        start,
        end,
        s.base.0,
        s.base.1
    );
    let want = end - start;
    assert!(buf.len() >= want, "the source is asked for {} bytes with a buffer of {}", want, buf.len());
    let short = |n: usize, buf: &mut [u8]| {
        buf[..n].copy_from_slice(&s.data[start..start + n]);
        Ok(n)
    };
    match s.mode {
        Mode::Fails => Err(anyhow::anyhow!("injected")),
        Mode::FailsOnce(n) if n == k => Err(anyhow::anyhow!("injected")),
        Mode::Nothing => Ok(0),
        Mode::OneLess if want > 0 => short(want - 1, buf),
        Mode::Half => short(want / 2, buf),
        Mode::ShortOnce(n) if n == k => short(want / 2, buf),
        _ => {
            if end > s.data.len() {
                return Err(anyhow::anyhow!("end of the source"));
            }
            buf[..want].copy_from_slice(&s.data[start..end]);
            Ok(want)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// base and cached rows on disk, no reader
    V1Disk,
    /// base and cached rows on disk, and a reader is set later
    V1Reader,
    /// cached rows on disk, reader given at opening
    V2Reader,
    /// cached rows on disk, reader set after opening
    V2Late,
    /// cached rows on disk, reader set twice (the last one counts)
    V2Reset,
    /// cached rows on disk, no reader
    V2None,
    /// built directly as a level cache store, no reader
    BuiltNone,
    /// built directly as a level cache store, reader set
    BuiltReader,
    /// complete tree handed to new_from_slice_with_config
    Slice,
}
const KINDS: [Kind; 9] =
    [Kind::V1Disk, Kind::V1Reader, Kind::V2Reader, Kind::V2Late, Kind::V2Reset, Kind::V2None, Kind::BuiltNone, Kind::BuiltReader, Kind::Slice];
impl Kind {
    fn reader(self) -> bool {
        matches!(self, Kind::V1Reader | Kind::V2Reader | Kind::V2Late | Kind::V2Reset | Kind::BuiltReader)
    }
    fn base_on_disk(self) -> bool {
        matches!(self, Kind::V1Disk | Kind::V1Reader | Kind::Slice)
    }
}

fn put_file<E: Element>(cfg: &StoreConfig, r: &RefTree<E>, kind: Kind, rows: usize) {
    let nodes = r.nodes();
    let mut b = if kind.base_on_disk() { to_bytes(&r.rows[0]) } else { vec![] };
    b.extend(to_bytes(&nodes[nodes.len() - r.cached_nodes(rows)..]));
    write_file(&StoreConfig::data_path(&cfg.path, &cfg.id), &b);
}

fn open<E: Element, U: Unsigned, Rd: Read + Send + Sync>(
    cfg: &StoreConfig,
    r: &RefTree<E>,
    kind: Kind,
    mut mk: impl FnMut(bool) -> ExternalReader<Rd>,
) -> Result<LevelCacheStore<E, Rd>, Fail>
where
    A: RefAlg<E>,
{
    let (len, b) = (r.len(), U::to_usize());
    let rows = cfg.rows_to_discard;
    Ok(match kind {
        Kind::BuiltNone | Kind::BuiltReader => {
            let mut s = call(|| LevelCacheStore::<E, Rd>::new_with_config(len, b, cfg.clone())).must("new_with_config")?;
            for l in &r.rows[0] {
                call(|| s.push(l.clone())).must("push")?;
            }
            let root = call(|| s.build::<A, U>(r.leafs(), r.row_count(), Some(cfg.clone()))).must("build")?;
            check!(root == r.root(), "root", "build returned another root");
            if kind == Kind::BuiltReader {
                call(|| s.set_external_reader(mk(true))).must("set_external_reader")?;
            }
            s
        }
        Kind::Slice => call(|| LevelCacheStore::<E, Rd>::new_from_slice_with_config(len, b, &r.bytes(), cfg.clone())).must("new_from_slice_with_config")?,
        _ => {
            put_file(cfg, r, kind, rows);
            match kind {
                Kind::V2Reader => call(|| LevelCacheStore::<E, Rd>::new_from_disk_with_reader(len, b, cfg, mk(true))).must("new_from_disk_with_reader")?,
                _ => {
                    let mut s = call(|| LevelCacheStore::<E, Rd>::new_from_disk(len, b, cfg)).must("new_from_disk")?;
                    if kind == Kind::V2Reset {
                        call(|| s.set_external_reader(mk(false))).must("set_external_reader")?;
                    }
                    if kind.reader() {
                        call(|| s.set_external_reader(mk(true))).must("set_external_reader")?;
                    }
                    s
                }
            }
        }
    })
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Want {
    Nodes,
    Refused,
    Either,
}

/// What a read of the nodes `s..e` has to do.
fn want<E: Element>(r: &RefTree<E>, rows: usize, kind: Kind, mode: Mode, s: usize, e: usize) -> Want {
    let (n, len) = (r.leafs(), r.len());
    let cs = len - r.cached_nodes(rows);
    if s >= e {
        // an empty or reversed range asks for nothing: refused, or nothing is returned
        return Want::Either;
    }
    if e > len {
        return Want::Refused;
    }
    if s >= cs {
        // cached rows never depend on the source, but a store without any base data may refuse
        return if kind.reader() || kind.base_on_disk() { Want::Nodes } else { Want::Either };
    }
    if e <= n {
        if kind.reader() {
            return match mode {
                Mode::Good => Want::Nodes,
                _ if kind.base_on_disk() => Want::Either,
                _ => Want::Refused,
            };
        }
        return if kind.base_on_disk() { Want::Nodes } else { Want::Refused };
    }
    // from here on the range crosses out of the base row
    if cs > n {
        return Want::Refused;
    }
    if kind.reader() {
        return if mode == Mode::Good || kind.base_on_disk() { Want::Either } else { Want::Refused };
    }
    if kind.base_on_disk() {
        Want::Nodes
    } else {
        Want::Refused
    }
}

fn judge<E: Element>(w: Want, out: Out<Vec<u8>>, nodes: &[E], what: &str) -> R {
    judge_bytes(w, out, &to_bytes(nodes), what)
}
fn judge_bytes(w: Want, out: Out<Vec<u8>>, want: &[u8], what: &str) -> R {
    match out {
        Out::Ok(b) => {
            check!(w != Want::Refused, "accepted", "{}: served although it is not available", what);
            check!(b == want, "wrong data", "{}: returned something else", what);
        }
        Out::Err(e) => check!(w != Want::Nodes, "refused", "{}: refused although available: {}", what, e),
        Out::Panic(e) => check!(w != Want::Nodes, "panic", "{}: panicked: {}", what, e),
    }
    Ok(())
}

/// Every single, range and into-buffer read.
fn all_reads<E: Element, Rd: Read + Send + Sync>(ctx: &mut Ctx, s: &LevelCacheStore<E, Rd>, r: &RefTree<E>, rows: usize, kind: Kind, mode: Mode) -> R {
    let idx: Vec<usize> = (0..r.len() + 3).collect();
    some_reads(ctx, s, r, rows, kind, mode, &idx)?;
    // byte offsets that do not fit in the address space
    let el = E::byte_len();
    let m = usize::MAX / el;
    for f in [usize::MAX, m + 2, m + 1, m, m - 1, 1 << 63, 1 << 60, 1 << 59, 1 << 58, (1 << 59) + 1] {
        let mut buf = vec![0u8; el];
        call(|| s.read_at(f)).must_err("read_at far beyond the length")?;
        call(|| s.read_into(f, &mut buf)).must_err("read_into far beyond the length")?;
        for (x, y) in [(f, f.wrapping_add(1)), (f - 1, f), (0, f), (f, 0), (f, 1), (r.leafs(), f)] {
            call(|| s.read_range(x..y)).must_err("read_range far beyond the length")?;
            call(|| s.read_range_into(x, y, &mut buf)).must_err("read_range_into far beyond the length")?;
        }
        ctx.op(14);
    }
    // buffers that do not have the size of what is read
    if mode == Mode::Good && r.len() <= 40 {
        for n in 0..=r.len() + 1 {
            for size in [n * el, n * el + 1, (n * el).saturating_sub(1)] {
                let mut buf = vec![0x77u8; size];
                for a in 0..r.len() {
                    if size != el {
                        call(|| s.read_into(a, &mut buf)).must_refuse("read_into a buffer of another size")?;
                    }
                    // narrow ranges, and the wide ones that end with a row or the tree
                    let ends: Vec<usize> = [a, a + 1, a + 2, r.leafs(), r.len() - r.cached_nodes(rows), r.len()].into_iter().filter(|b| *b >= a && *b <= r.len()).collect();
                    for b in ends {
                        if size != (b - a) * el {
                            call(|| s.read_range_into(a, b, &mut buf)).must_refuse("read_range_into a buffer of another size")?;
                            ctx.op(1);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Every single, range and into-buffer read at these nodes.
fn some_reads<E: Element, Rd: Read + Send + Sync>(ctx: &mut Ctx, s: &LevelCacheStore<E, Rd>, r: &RefTree<E>, rows: usize, kind: Kind, mode: Mode, idx: &[usize]) -> R {
    let nodes = r.nodes();
    let len = nodes.len();
    check!(Store::len(s) == len, "len", "len {} != {}", Store::len(s), len);
    let get = |a: usize, b: usize| -> &[E] {
        if a <= b && b <= len {
            &nodes[a..b]
        } else {
            &[]
        }
    };
    let el = E::byte_len();
    for &a in idx {
        let w = want(r, rows, kind, mode, a, a + 1);
        let what = format!("{:?} {:?} rows {} node {}", kind, mode, rows, a);
        let o = call(|| s.read_at(a)).map(|e| e.as_ref().to_vec());
        judge(w, o, get(a, a + 1), &format!("read_at {}", what))?;
        let mut buf = vec![0x77u8; el];
        let o = call(|| s.read_into(a, &mut buf)).map(|_| buf.clone());
        judge(w, o, get(a, a + 1), &format!("read_into {}", what))?;
        for &b in idx {
            let w = want(r, rows, kind, mode, a, b);
            let what = format!("{:?} {:?} rows {} nodes {}..{}", kind, mode, rows, a, b);
            let o = call(|| s.read_range(a..b)).map(|v| to_bytes(&v));
            judge(w, o, get(a, b), &format!("read_range {}", what))?;
            let mut buf = vec![0x77u8; b.saturating_sub(a) * el];
            let o = call(|| s.read_range_into(a, b, &mut buf)).map(|_| buf.clone());
            judge(w, o, get(a, b), &format!("read_range_into {}", what))?;
            ctx.op(2);
        }
        ctx.op(2);
    }
    Ok(())
}

trait MapOut<T> {
    fn map<V>(self, f: impl FnOnce(T) -> V) -> Out<V>;
}
impl<T> MapOut<T> for Out<T> {
    fn map<V>(self, f: impl FnOnce(T) -> V) -> Out<V> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::Err(e) => Out::Err(e),
            Out::Panic(e) => Out::Panic(e),
        }
    }
}

const OFFSETS: [usize; 5] = [0, 1, 31, 32, 5000];

fn reft<E: Element, U: Unsigned>(n: usize) -> RefTree<E> {
    RefTree::new(items::<E>(Pat::Distinct, 9, n), U::to_usize(), true)
}

fn source<E: Element>(r: &RefTree<E>, offset: usize, tail: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..offset).map(|i| (i * 7 + 1) as u8).collect();
    b.extend(to_bytes(&r.rows[0]));
    b.extend(vec![0xC3; tail]);
    b
}

/// Base data in a file, at every offset.
fn files<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize) -> R
where
    A: RefAlg<E>,
{
    let r = reft::<E, U>(n);
    let kind = ctx.pick("kind", &KINDS);
    let rows = ctx.choose("rows", r.row_count() - 1);
    let cfg = StoreConfig::new(&ctx.dir, "c", rows);
    let (offset, tail) = if kind.reader() { (ctx.pick("offset", &OFFSETS), ctx.pick("tail", &[0usize, 64])) } else { (0, 0) };
    let rep = ctx.dir.join("replica");
    write_file(&rep, &source(&r, offset, tail));
    let junk = ctx.dir.join("junk");
    write_file(&junk, &vec![0x11; rep.metadata().unwrap().len() as usize]);
    // the offset is the second one of two
    let rc = ReplicaConfig::new(rep, vec![3, offset]);
    let s = open::<E, U, std::fs::File>(&cfg, &r, kind, |real| {
        if real {
            ExternalReader::new_from_config(&rc, 1).expect("reader")
        } else {
            ExternalReader::new_from_path(&junk).expect("reader")
        }
    })?;
    all_reads(ctx, &s, &r, rows, kind, Mode::Good)?;
    ctx.state(h64(rows as u64 * 1000 + kind as u64 * 100_000 + offset as u64, &r.bytes()));
    Ok(())
}

/// Larger trees: reads around row, page and buffer boundaries.
fn large<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize) -> R
where
    A: RefAlg<E>,
{
    let r = reft::<E, U>(n);
    let kind = ctx.pick("kind", &[Kind::V1Disk, Kind::V2Reader, Kind::BuiltReader, Kind::Slice]);
    let rows = ctx.choose("rows", r.row_count() - 1);
    let cfg = StoreConfig::new(&ctx.dir, "c", rows);
    let offset = if kind.reader() { ctx.pick("offset", &[0usize, 5000]) } else { 0 };
    let rep = ctx.dir.join("replica");
    write_file(&rep, &source(&r, offset, 0));
    let s = open::<E, U, std::fs::File>(&cfg, &r, kind, |_| ExternalReader::new_from_config(&ReplicaConfig::new(&rep, vec![offset]), 0).expect("reader"))?;
    let (len, el) = (r.len(), E::byte_len());
    let cs = len - r.cached_nodes(rows);
    let mut idx = vec![0, 1, len, len + 1, n / 2, n - 1, n, n + 1, cs.saturating_sub(1), cs, cs + 1];
    for page in [4096usize, 8192, 65536] {
        let k = page / el;
        for i in [k - 1, k, k + 1, cs + k, cs + k - 1] {
            if i <= len {
                idx.push(i);
            }
        }
    }
    idx.sort_unstable();
    idx.dedup();
    some_reads(ctx, &s, &r, rows, kind, Mode::Good, &idx)?;
    ctx.state(h64(rows as u64 * 1000 + kind as u64 * 100_000 + offset as u64, &to_bytes(&r.rows[0][..1])));
    Ok(())
}

/// Reads of bytes, not of elements: every byte range.
fn bytes<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize) -> R
where
    A: RefAlg<E>,
{
    let r = reft::<E, U>(n);
    let kind = ctx.pick("kind", &KINDS);
    let rows = ctx.choose("rows", r.row_count() - 1);
    let cfg = StoreConfig::new(&ctx.dir, "c", rows);
    let offset = if kind.reader() { ctx.pick("offset", &[0usize, 31]) } else { 0 };
    let rep = ctx.dir.join("replica");
    write_file(&rep, &source(&r, offset, 3));
    let s = open::<E, U, std::fs::File>(&cfg, &r, kind, |_| ExternalReader::new_from_config(&ReplicaConfig::new(&rep, vec![offset]), 0).expect("reader"))?;
    let el = E::byte_len();
    let b = to_bytes(&r.nodes());
    for x in 0..b.len() {
        for y in x + 1..=b.len() {
            // available if every element it touches is
            let whole = (x / el, (y + el - 1) / el);
            let w = want(&r, rows, kind, Mode::Good, whole.0, whole.1);
            let what = format!("{:?} rows {} bytes {}..{}", kind, rows, x, y);
            judge_bytes(w, call(|| s.store_read_range(x, y)), &b[x..y], &format!("store_read_range {}", what))?;
            let mut buf = vec![0x77u8; y - x];
            let o = call(|| s.store_read_into(x, y, &mut buf)).map(|_| buf.clone());
            judge_bytes(w, o, &b[x..y], &format!("store_read_into {}", what))?;
            ctx.op(2);
        }
        // beyond the end of the tree
        call(|| s.store_read_range(x, b.len() + 1)).must_refuse("store_read_range beyond the end")?;
        let mut buf = vec![0u8; b.len() + 1 - x];
        call(|| s.store_read_into(x, b.len() + 1, &mut buf)).must_refuse("store_read_into beyond the end")?;
        for size in [b.len() - x, b.len() + 2 - x] {
            let mut buf = vec![0u8; size];
            call(|| s.store_read_into(x, b.len() + 1, &mut buf)).must_refuse("store_read_into with another buffer")?;
        }
    }
    ctx.state(h64(rows as u64 * 1000 + kind as u64 * 100_000 + offset as u64, &b));
    Ok(())
}

/// A base file that ends early: everything beyond its end is refused.
fn truncated<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize) -> R
where
    A: RefAlg<E>,
{
    let r = reft::<E, U>(n);
    let el = E::byte_len();
    let offset = ctx.pick("offset", &[0usize, 40]);
    let have = ctx.choose("bytes", n * el);
    let rows = ctx.choose("rows", r.row_count() - 1);
    let cfg = StoreConfig::new(&ctx.dir, "c", rows);
    let rep = ctx.dir.join("replica");
    write_file(&rep, &source(&r, offset, 0)[..offset + have]);
    let rc = ReplicaConfig::new(rep, vec![offset]);
    let s = open::<E, U, std::fs::File>(&cfg, &r, Kind::V2Reader, |_| ExternalReader::new_from_config(&rc, 0).expect("reader"))?;
    let nodes = r.nodes();
    for a in 0..n {
        for b in a + 1..=n {
            let o = call(|| s.read_range(a..b)).map(|v| to_bytes(&v));
            judge(if b * el <= have { Want::Nodes } else { Want::Refused }, o, &nodes[a..b], &format!("{}..{} of a file of {} bytes", a, b, have))?;
            let mut buf = vec![0; (b - a) * el];
            let o = call(|| s.read_range_into(a, b, &mut buf)).map(|_| buf.clone());
            judge(if b * el <= have { Want::Nodes } else { Want::Refused }, o, &nodes[a..b], &format!("into {}..{} of a file of {} bytes", a, b, have))?;
            ctx.op(2);
        }
    }
    // proofs: correct or refused
    let t = call(|| MerkleTree::<E, A, Lc<E>, U>::from_data_store(s, n)).must("from_data_store")?;
    for i in 0..n {
        match call(|| t.gen_cached_proof(i, Some(rows))) {
            Out::Ok(p) => {
                let (l, path) = r.proof(i);
                check!(*p.lemma() == l && *p.path() == path, "proof", "proof of leaf {} from a truncated source is wrong", i);
            }
            Out::Err(_) => {}
            Out::Panic(e) => return fail("proof panic", e),
        }
        ctx.op(1);
    }
    Ok(())
}

/// Source that misbehaves.
fn faulty<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize) -> R
where
    A: RefAlg<E>,
{
    let r = reft::<E, U>(n);
    let kind = ctx.pick("kind", &[Kind::V1Reader, Kind::V2Reader, Kind::V2Late, Kind::BuiltReader]);
    let rows = ctx.choose("rows", r.row_count() - 1);
    let mode = ctx.pick("mode", &[Mode::Good, Mode::Fails, Mode::Nothing, Mode::OneLess, Mode::Half]);
    let offset = ctx.pick("offset", &[0usize, 9]);
    let cfg = StoreConfig::new(&ctx.dir, "c", rows);
    let data = Arc::new(source(&r, offset, 5));
    let s = open::<E, U, Src>(&cfg, &r, kind, |_| ExternalReader {
        offset,
        source: Src { data: data.clone(), mode, calls: AtomicUsize::new(0), base: (offset, offset + r.leafs() * E::byte_len()) },
        read_fn: src_read,
    })?;
    all_reads(ctx, &s, &r, rows, kind, mode)?;
    // proofs on top of it
    let t = call(|| MerkleTree::<E, A, LevelCacheStore<E, Src>, U>::from_data_store(s, n)).must("from_data_store")?;
    for i in 0..n {
        match call(|| t.gen_cached_proof(i, Some(rows))) {
            Out::Ok(p) => {
                let (l, path) = r.proof(i);
                check!(*p.lemma() == l && *p.path() == path, "proof", "{:?}: proof of leaf {} is wrong", mode, i);
            }
            Out::Err(e) => check!(mode != Mode::Good, "proof refused", "{}", e),
            Out::Panic(e) => return fail("proof panic", e),
        }
        ctx.op(1);
    }
    Ok(())
}

/// A single bad answer of the source at any point of generating a proof or reading.
fn once<E: Element, U: Unsigned>(ctx: &mut Ctx, n: usize) -> R
where
    A: RefAlg<E>,
{
    let r = reft::<E, U>(n);
    let rows = ctx.choose("rows", r.row_count() - 1);
    let leaf = ctx.choose("leaf", n);
    let k = ctx.choose("call", 12);
    let short = ctx.choose("short", 2) == 1;
    let mode = if short { Mode::ShortOnce(k) } else { Mode::FailsOnce(k) };
    let cfg = StoreConfig::new(&ctx.dir, "c", rows);
    let data = Arc::new(source(&r, 4, 0));
    let s = open::<E, U, Src>(&cfg, &r, Kind::V2Reader, |_| ExternalReader {
        offset: 4,
        source: Src { data: data.clone(), mode, calls: AtomicUsize::new(0), base: (4, 4 + r.leafs() * E::byte_len()) },
        read_fn: src_read,
    })?;
    let t = call(|| MerkleTree::<E, A, LevelCacheStore<E, Src>, U>::from_data_store(s, n)).must("from_data_store")?;
    let (l, path) = r.proof(leaf);
    let mut oks = 0;
    for _ in 0..16 {
        match call(|| t.gen_cached_proof(leaf, Some(rows))) {
            Out::Ok(p) => {
                oks += 1;
                check!(*p.lemma() == l && *p.path() == path, "proof", "{:?}: proof of leaf {} is wrong", mode, leaf);
            }
            Out::Err(_) => {}
            Out::Panic(e) => return fail("proof panic", e),
        }
        ctx.op(1);
    }
    check!(oks >= 15, "not recovered", "{:?}: {} of 16 proofs failed after a single bad answer", mode, 16 - oks);
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C09");
    s.technique = "exhaustive enumeration of every read of every small level cache store, configuration, reader offset and reader behaviour, against an availability model";
    for a in [2usize, 4, 8, 16] {
        let max = match (a, th) {
            (2, false) => 32,
            (2, true) => 128,
            (4, false) => 16,
            (4, true) => 64,
            (8, false) => 8,
            (8, true) => 64,
            (_, false) => 16,
            (_, true) => 16,
        };
        for n in sizes(a, max) {
            with_small_arity!(a, U, {
                s.add(format!("files a{} n{}", a, n), move |c| files::<El<32>, U>(c, n));
                if n <= 32 {
                    s.add(format!("files e5 a{} n{}", a, n), move |c| files::<El<5>, U>(c, n));
                }
                if n <= 16 || th {
                    s.add(format!("faulty a{} n{}", a, n), move |c| faulty::<El<32>, U>(c, n));
                    s.add(format!("once a{} n{}", a, n), move |c| once::<El<32>, U>(c, n));
                }
                if n <= 8 || (th && n <= 16) {
                    s.add(format!("bytes a{} n{}", a, n), move |c| bytes::<El<5>, U>(c, n));
                    s.add(format!("truncated a{} n{}", a, n), move |c| truncated::<El<8>, U>(c, n));
                }
            });
        }
    }
    if !th {
        s.add("files a8 n64", |c| files::<El<32>, typenum::U8>(c, 64));
    }
    for (a, n) in [(2usize, 4096usize), (4, 4096), (8, 4096)] {
        with_small_arity!(a, U, {
            s.add(format!("large a{} n{}", a, n), move |c| large::<El<32>, U>(c, n));
            if th {
                s.add(format!("large a{} n{}", a, 8 * n), move |c| large::<El<32>, U>(c, if a == 4 { 4 * n } else { 8 * n }));
            }
        });
    }
    s.add("truncated e32 n4", |c| truncated::<El<32>, U2>(c, 4));
    let _ = (V1, V2);
    s.add("huge a2 e32", |c| huge_cached::<El<32>, typenum::U2>(c, 33, &[1, 3, 10]));
    s.add("huge a8 e5", |c| huge_cached::<El<5>, typenum::U8>(c, 11, &[0, 1, 3]));
    s.bound("stores of 2^33 leafs in sparse files, replica offsets 0 and beyond 4 GiB, reads around every power of two");
    s.bound("arities 2..16, up to 64 leafs (thorough 128), every number of discarded rows, nine ways of opening, every pair (start, end) up to two past the length and indices whose byte offset overflows, trees of 4096 (thorough up to 32768) leafs around row, page and 64 KiB boundaries, reader offsets 0, 1, 31, 32, 5000, five reader behaviours, one bad answer at each of the first 12 calls, a base file truncated at every byte; every byte range of trees of up to 8 (16) leafs; buffers of every other number of elements");
    s
}

fn main() {
    mc::engine::main(build)
}
