//! C17: stores with different names are isolated; deletion removes exactly one store.
use std::path::{Path, PathBuf};

use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use typenum::U2;

type E = El<32>;
type A = Alg<true>;
const N: usize = 4;
const ROWS: usize = 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Layout {
    Full,
    V1,
    V2,
}
use Layout::*;

fn bytes_of(l: Layout, t: &RefTree<E>) -> Vec<u8> {
    let nodes = t.nodes();
    let cached = &nodes[nodes.len() - t.cached_nodes(ROWS)..];
    match l {
        Full => to_bytes(&nodes),
        V1 => [to_bytes(&t.rows[0]), to_bytes(cached)].concat(),
        V2 => to_bytes(cached),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Disk,
    Mmap,
    Lc,
    Vec,
}

enum H {
    Disk(MerkleTree<E, A, DiskStore<E>, U2>, bool),
    Mmap(MerkleTree<E, A, MmapStore<E>, U2>, bool),
    Lc(MerkleTree<E, A, Lc<E>, U2>),
    Vec(MerkleTree<E, A, VecStore<E>, U2>),
}
impl H {
    fn delete(&self, c: StoreConfig) -> anyhow::Result<()> {
        match self {
            H::Disk(t, _) => t.delete(c),
            H::Mmap(t, _) => t.delete(c),
            H::Lc(t) => t.delete(c),
            H::Vec(t) => t.delete(c),
        }
    }
}

/// One (directory, id) pair: what its file has to contain and the tree that is open on it.
struct Slot {
    dir: PathBuf,
    id: &'static str,
    salt: u64,
    gen: u64,
    r: RefTree<E>,
    layout: Layout,
    file: Option<Vec<u8>>,
    replica: PathBuf,
    h: Option<H>,
}

impl Slot {
    fn new(dir: PathBuf, id: &'static str, salt: u64, replicas: &Path) -> Self {
        let _ = std::fs::create_dir_all(&dir);
        let r = RefTree::new(items::<E>(Pat::Distinct, salt * 100, N), 2, true);
        Slot { dir, id, salt, gen: 0, r, layout: Full, file: None, replica: replicas.join(format!("r{}", salt)), h: None }
    }
    fn cfg(&self) -> StoreConfig {
        StoreConfig::new(&self.dir, self.id, ROWS)
    }
    fn create(&mut self, k: Kind) -> R {
        self.gen += 1;
        self.r = RefTree::new(items::<E>(Pat::Distinct, self.salt * 100 + self.gen, N), 2, true);
        write_file(&self.replica, &to_bytes(&self.r.rows[0]));
        let b = to_bytes(&self.r.rows[0]);
        let c = self.cfg();
        self.layout = Full;
        self.h = Some(match k {
            Kind::Disk => H::Disk(call(|| MerkleTree::from_byte_slice_with_config(&b, c)).must("create disk")?, true),
            Kind::Mmap => H::Mmap(call(|| MerkleTree::from_byte_slice_with_config(&b, c)).must("create mmap")?, true),
            Kind::Lc => {
                self.layout = V2;
                let mut t: MerkleTree<E, A, Lc<E>, U2> = call(|| MerkleTree::from_byte_slice_with_config(&b, c)).must("create lc")?;
                call(|| t.set_external_reader_path(&self.replica)).must("reader")?;
                H::Lc(t)
            }
            Kind::Vec => H::Vec(call(|| MerkleTree::from_byte_slice_with_config(&b, c)).must("create vec")?),
        });
        self.file = if k == Kind::Vec { None } else { Some(bytes_of(self.layout, &self.r)) };
        Ok(())
    }
    fn reopen(&mut self, k: Kind) -> R {
        self.h = None;
        let c = self.cfg();
        let len = self.r.len();
        self.h = Some(match (self.layout, k) {
            (Full, Kind::Mmap) => {
                let s = call(|| MmapStore::<E>::new_from_disk(len, 2, &c)).must("reopen mmap")?;
                H::Mmap(call(|| MerkleTree::from_data_store(s, N)).must("reopen mmap")?, true)
            }
            (Full, _) => {
                let s = call(|| DiskStore::<E>::new_from_disk(len, 2, &c)).must("reopen disk")?;
                H::Disk(call(|| MerkleTree::from_data_store(s, N)).must("reopen disk")?, true)
            }
            (V1, _) => {
                let s = call(|| Lc::<E>::new_from_disk(len, 2, &c)).must("reopen v1")?;
                H::Lc(call(|| MerkleTree::from_data_store(s, N)).must("reopen v1")?)
            }
            (V2, _) => {
                let rd = ExternalReader::new_from_path(&self.replica).expect("replica");
                let s = call(|| Lc::<E>::new_from_disk_with_reader(len, 2, &c, rd)).must("reopen v2")?;
                H::Lc(call(|| MerkleTree::from_data_store(s, N)).must("reopen v2")?)
            }
        });
        Ok(())
    }
    /// The open tree still answers everything, and the file has the expected bytes.
    fn check(&self, ctx: &mut Ctx, what: &str) -> R {
        let p = StoreConfig::data_path(&self.dir, self.id);
        match (&self.file, std::fs::read(&p)) {
            (None, Err(_)) => {}
            (Some(b), Ok(h)) => check!(*b == h, "file bytes", "{}: the file of {:?} does not hold its tree any more", what, self.id),
            (Some(_), Err(e)) => return fail("file gone", format!("{}: the file of {:?} is gone: {}", what, self.id, e)),
            (None, Ok(_)) => return fail("file left", format!("{}: {:?} still has a file", what, self.id)),
        }
        let what = format!("{} [{}]", what, self.id);
        match &self.h {
            None => {}
            Some(H::Disk(t, true)) => same_tree(ctx, t, &self.r, None, &what)?,
            Some(H::Mmap(t, true)) => same_tree(ctx, t, &self.r, None, &what)?,
            Some(H::Vec(t)) => same_tree(ctx, t, &self.r, None, &what)?,
            Some(H::Lc(t)) => same_tree(ctx, t, &self.r, Some(if self.layout == Full { 0 } else { ROWS }), &what)?,
            Some(H::Disk(t, false)) => check!(t.root() == self.r.root(), "root", "{}: root", what),
            Some(H::Mmap(t, false)) => check!(t.root() == self.r.root(), "root", "{}: root", what),
        }
        ctx.op(1);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Create(Kind),
    Reopen(Kind),
    Close,
    Compact(u32),
    Reinit,
    Write(Kind),
    /// Store::delete of a store type
    Delete(Kind),
    /// through a tree that is open on slot .0
    DeleteThrough(usize),
}

fn delete_static(k: Kind, c: StoreConfig) -> Out<()> {
    match k {
        Kind::Disk => call(|| DiskStore::<E>::delete(c)),
        Kind::Mmap => call(|| MmapStore::<E>::delete(c)),
        Kind::Lc => call(|| <Lc<E> as Store<E>>::delete(c)),
        Kind::Vec => call(|| VecStore::<E>::delete(c)),
    }
}

/// All files below the store directories are the expected ones.
fn no_strays(ctx: &Ctx, slots: &[Slot], bystanders: &[(String, Vec<u8>)], what: &str) -> R {
    let mut want: Vec<(String, Vec<u8>)> = bystanders.to_vec();
    for s in slots {
        if let Some(b) = &s.file {
            let p = StoreConfig::data_path(&s.dir, s.id);
            let rel = p.strip_prefix(ctx.dir.join("stores")).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
            want.push((rel, b.clone()));
        }
    }
    want.sort();
    let have = snapshot(&ctx.dir.join("stores"));
    check!(have == want, "stray files", "{}: the directories hold {:?}, expected {:?}", what, have.iter().map(|x| &x.0).collect::<Vec<_>>(), want.iter().map(|x| &x.0).collect::<Vec<_>>());
    Ok(())
}

fn sequences(ctx: &mut Ctx, names: &[(&'static str, &'static str)], depth: usize, kinds: &[Kind]) -> R {
    let root = ctx.dir.join("stores");
    let replicas = ctx.dir.join("replicas");
    let _ = std::fs::create_dir_all(&replicas);
    let mut slots: Vec<Slot> = names.iter().enumerate().map(|(i, (d, id))| Slot::new(root.join(d), id, i as u64 + 1, &replicas)).collect();
    // files of other programs in the same directory
    let by = vec![("a/sc-02-data-.dat.bak".to_string(), vec![1u8, 2, 3]), ("a/x".to_string(), vec![9u8; 40]), ("a/sc-01-data-x.dat".to_string(), vec![7u8; 64])];
    for (n, b) in &by {
        write_file(&root.join(n), b);
    }
    let mut by = by;
    by.sort();
    for step in 0..depth {
        let mut ops: Vec<(usize, Op)> = vec![];
        for i in 0..slots.len() {
            let s = &slots[i];
            if s.file.is_none() && s.h.is_none() {
                for k in kinds {
                    ops.push((i, Op::Create(*k)));
                }
                ops.push((i, Op::Delete(Kind::Disk)));
                ops.push((i, Op::Delete(Kind::Mmap)));
                ops.push((i, Op::Delete(Kind::Lc)));
                for j in 0..slots.len() {
                    if j != i && slots[j].h.is_some() {
                        ops.push((i, Op::DeleteThrough(j)));
                    }
                }
                continue;
            }
            match &s.h {
                Some(H::Disk(_, true)) => {
                    ops.push((i, Op::Compact(1)));
                    ops.push((i, Op::Compact(2)));
                }
                Some(H::Mmap(_, true)) => ops.push((i, Op::Compact(2))),
                Some(H::Mmap(_, false)) => ops.push((i, Op::Reinit)),
                _ => {}
            }
            if s.h.is_some() {
                ops.push((i, Op::Close));
            } else {
                ops.push((i, Op::Reopen(Kind::Disk)));
                if s.layout == Full {
                    ops.push((i, Op::Reopen(Kind::Mmap)));
                    ops.push((i, Op::Write(Kind::Disk)));
                    ops.push((i, Op::Write(Kind::Mmap)));
                }
            }
            for k in [Kind::Disk, Kind::Mmap, Kind::Lc, Kind::Vec] {
                ops.push((i, Op::Delete(k)));
            }
            for j in 0..slots.len() {
                if slots[j].h.is_some() {
                    ops.push((i, Op::DeleteThrough(j)));
                }
            }
        }
        let (i, op) = ctx.pick("op", &ops);
        let what = format!("step {} {:?} on {:?}", step, op, names[i]);
        let cfg = slots[i].cfg();
        match op {
            Op::Create(k) => slots[i].create(k)?,
            Op::Reopen(k) => slots[i].reopen(k)?,
            Op::Close => {
                let s = &mut slots[i];
                s.h = None;
            }
            Op::Compact(v) => {
                let s = &mut slots[i];
                match s.h.as_mut() {
                    Some(H::Disk(t, fresh)) => {
                        call(|| t.compact(cfg, v)).must("compact")?;
                        *fresh = false;
                        s.layout = if v == 1 { V1 } else { V2 };
                        s.file = Some(bytes_of(s.layout, &s.r));
                    }
                    Some(H::Mmap(t, m)) => {
                        call(|| t.compact(cfg, v)).must("compact")?;
                        *m = false;
                    }
                    _ => unreachable!(),
                }
            }
            Op::Reinit => {
                if let Some(H::Mmap(t, m)) = slots[i].h.as_mut() {
                    call(|| t.reinit()).must("reinit")?;
                    *m = true;
                }
            }
            Op::Write(k) => {
                // the complete tree of other leafs, element by element, into the file of this name
                let s = &mut slots[i];
                s.gen += 1;
                s.r = RefTree::new(items::<E>(Pat::Distinct, s.salt * 100 + s.gen, N), 2, true);
                write_file(&s.replica, &to_bytes(&s.r.rows[0]));
                let nodes = s.r.nodes();
                if k == Kind::Disk {
                    let mut d = call(|| DiskStore::<E>::new_from_disk(nodes.len(), 2, &cfg)).must("open")?;
                    for (j, n) in nodes.iter().enumerate() {
                        call(|| d.write_at(*n, j)).must("write_at")?;
                    }
                } else {
                    let mut d = call(|| MmapStore::<E>::new_from_disk(nodes.len(), 2, &cfg)).must("open")?;
                    call(|| d.copy_from_slice(&to_bytes(&nodes), 0)).must("copy_from_slice")?;
                }
                s.file = Some(to_bytes(&nodes));
            }
            Op::Delete(_) | Op::DeleteThrough(_) => {
                let (k, r) = match op {
                    Op::Delete(k) => (k, delete_static(k, cfg)),
                    Op::DeleteThrough(j) => {
                        let h = slots[j].h.as_ref().unwrap();
                        let k = if matches!(h, H::Vec(_)) { Kind::Vec } else { Kind::Disk };
                        (k, call(|| h.delete(cfg)))
                    }
                    _ => unreachable!(),
                };
                if k == Kind::Vec {
                    // nothing to remove for stores in memory
                    r.must("VecStore::delete")?;
                    ctx.op(1);
                } else if slots[i].file.is_none() {
                    r.must_err("deletion of a store that does not exist")?;
                    ctx.op(1);
                } else {
                    r.must("delete")?;
                    let s = &mut slots[i];
                    s.file = None;
                    ctx.op(1);
                    // a tree still open on the deleted file goes on answering until it is closed
                    s.check(ctx, &what)?;
                    if !matches!(s.h, Some(H::Vec(_))) {
                        s.h = None;
                    }
                }
            }
        }
        ctx.op(1);
        for s in &slots {
            s.check(ctx, &what)?;
        }
        no_strays(ctx, &slots, &by, &what)?;
        let st: Vec<u8> = slots.iter().flat_map(|s| [s.file.is_some() as u8, s.layout as u8, s.h.is_some() as u8]).collect();
        ctx.state(h64(1, &st));
    }
    Ok(())
}

const IDS: [&str; 24] = [
    "", "a", "A", "aa", "a-", "-a", "a.dat", "a.da", ".", "..", "0", "00", "000", "01", "1", "data", "data-a", "sc-02-data-a", "a b", "a\n", "ä", "tree-d", "tree-c", "*",
];

/// Every pair of names: different files, each directly inside its directory.
fn names(ctx: &mut Ctx) -> R {
    let i = ctx.choose("first", IDS.len());
    let j = ctx.choose("second", IDS.len());
    let same_dir = ctx.choose("same dir", 2) == 1;
    if i == j && same_dir {
        return Ok(());
    }
    let root = ctx.dir.join("stores");
    let d1 = root.join("d");
    let d2 = if same_dir { d1.clone() } else { root.join("d").join(["e", "d"][(i + j) % 2]) };
    let _ = std::fs::create_dir_all(&d1);
    let _ = std::fs::create_dir_all(&d2);
    let (p, q) = (StoreConfig::data_path(&d1, IDS[i]), StoreConfig::data_path(&d2, IDS[j]));
    check!(p != q, "same path", "{:?} in {:?} and {:?} in {:?} share {:?}", IDS[i], d1, IDS[j], d2, p);
    check!(p.parent() == Some(&d1) && q.parent() == Some(&d2), "outside", "{:?} or {:?} is not directly in its directory", p, q);
    let replicas = ctx.dir.join("replicas");
    let _ = std::fs::create_dir_all(&replicas);
    let mut s = [Slot::new(d1, IDS[i], 1, &replicas), Slot::new(d2, IDS[j], 2, &replicas)];
    let kinds = [Kind::Disk, Kind::Mmap, Kind::Lc];
    let k1 = ctx.pick("kind 1", &kinds);
    let k2 = ctx.pick("kind 2", &kinds);
    s[0].create(k1)?;
    no_strays(ctx, &s, &[], "first created")?;
    s[1].create(k2)?;
    s[0].check(ctx, "both")?;
    s[1].check(ctx, "both")?;
    no_strays(ctx, &s, &[], "both created")?;
    let (a, b) = if ctx.choose("delete", 2) == 0 { (0, 1) } else { (1, 0) };
    let k = ctx.pick("delete as", &kinds);
    let c = s[a].cfg();
    delete_static(k, c.clone()).must("delete")?;
    s[a].file = None;
    s[a].h = None;
    s[b].check(ctx, "one deleted")?;
    no_strays(ctx, &s, &[], "one deleted")?;
    delete_static(k, c).must_err("second deletion")?;
    s[b].reopen(Kind::Disk)?;
    s[b].check(ctx, "reopened")?;
    s[a].create(k1)?;
    s[a].check(ctx, "name used again")?;
    s[b].check(ctx, "name used again")?;
    no_strays(ctx, &s, &[], "name used again")?;
    ctx.op(6);
    ctx.state(h64(2, p.to_string_lossy().as_bytes()));
    ctx.state(h64(2, q.to_string_lossy().as_bytes()));
    Ok(())
}

/// Configs derived from one another name only what they say.
fn derived(ctx: &mut Ctx) -> R {
    let id = ctx.pick("id", &IDS);
    let id2 = ctx.pick("id2", &IDS);
    let size = ctx.pick("size", &[None, Some(7usize)]);
    let size2 = ctx.pick("size2", &[None, Some(9usize)]);
    let rows = ctx.pick("rows", &[0usize, 3]);
    let mut c = StoreConfig::new(&ctx.dir, id, rows);
    c.size = size;
    let d = StoreConfig::from_config(&c, id2, size2);
    check!(d.path == c.path && d.id == id2 && d.rows_to_discard == rows && d.size == size2.or(size), "from_config", "{:?} from {:?}", d, c);
    check!(c.path == ctx.dir && c.id == id && c.rows_to_discard == rows && c.size == size, "config", "{:?}", c);
    ctx.op(2);
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C17");
    s.technique = "exhaustive enumeration of interleaved operation sequences over several named stores on the real code, against one independent model per name and the exact contents of the directories";
    let d = move |q: usize| if th { q + 1 } else { q };
    use Kind::*;
    // split by the kinds that may be created, so that the scenarios run in parallel
    let sets: [&[Kind]; 6] = [&[Disk], &[Mmap], &[Lc], &[Disk, Mmap], &[Disk, Lc], &[Mmap, Vec]];
    for k in sets {
        for (x, y) in [(("a", "x"), ("a", "x1")), (("a", "x"), ("b", "x")), (("a", "x"), ("a", "X"))] {
            let dd = if k.len() == 1 { d(5) } else { d(4) };
            s.add(format!("two {:?} {:?} {:?}", x, y, k), move |c| sequences(c, &[x, y], dd, k));
        }
        s.add(format!("three {:?}", k), move |c| sequences(c, &[("a", "x"), ("a", "x-y"), ("b", "x")], d(4) - (k.len() > 1) as usize, k));
    }
    s.add("names", names);
    s.add("derived configs", derived);
    s.bound(format!("2 names: all sequences of {} (one store kind) or {} (two kinds) operations; 3 names: {} or {}; operations: create, reopen, close, compact v1/v2, reinit, rewrite, delete through every store type and through every open tree", d(5), d(4), d(4), d(4) - 1));
    s.bound(format!("all ordered pairs of {} ids in the same and in nested directories, with every pair of store kinds", IDS.len()));
    s.assume("ids without path separators; a case sensitive file system");
    s
}

fn main() {
    mc::engine::main(build)
}
