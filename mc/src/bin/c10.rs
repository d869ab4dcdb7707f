//! C10: every store behaves as an array of elements under every operation sequence.
use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Vec,
    VecCfg,
    VecSlice,
    Disk,
    DiskCfg,
    DiskSlice,
    DiskSliceCfg,
    DiskReopen,
    Mmap,
    MmapCfg,
    MmapSlice,
    MmapSliceCfg,
    MmapReopen,
    LcCfg,
    LcSliceCfg,
    LcAnon,
    LcAnonSlice,
}
use Kind::*;
const VECS: [Kind; 3] = [Vec, VecCfg, VecSlice];
const DISKS: [Kind; 5] = [Disk, DiskCfg, DiskSlice, DiskSliceCfg, DiskReopen];
const MMAPS: [Kind; 5] = [Mmap, MmapCfg, MmapSlice, MmapSliceCfg, MmapReopen];
const LCS: [Kind; 4] = [LcCfg, LcSliceCfg, LcAnon, LcAnonSlice];

impl Kind {
    fn bounded(self) -> bool {
        !VECS.contains(&self)
    }
    fn range_into(self) -> bool {
        DISKS.contains(&self) || LCS.contains(&self)
    }
    fn takes_initial(self) -> bool {
        matches!(self, VecSlice | DiskSlice | DiskSliceCfg | MmapSlice | MmapSliceCfg | LcSliceCfg | LcAnonSlice)
    }
    fn reopens(self) -> bool {
        matches!(self, DiskReopen | MmapReopen)
    }
    /// an anonymous level cache store has no layout to read by: reads may be refused
    fn may_refuse_reads(self) -> bool {
        matches!(self, LcAnon | LcAnonSlice)
    }
    fn named(self) -> bool {
        matches!(self, DiskCfg | DiskSliceCfg | DiskReopen | MmapCfg | MmapSliceCfg | MmapReopen | LcCfg | LcSliceCfg)
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Write(usize),
    /// number of elements, start
    Copy(usize, usize),
    /// number of whole elements, extra bytes, start
    Ragged(usize, usize, usize),
    Push,
    Sync,
    Reinit,
    /// give the memory back, and take it again
    CompactReinit,
    /// give the memory back, and write
    CompactWrite(usize),
    CompactWriteAt(usize),
    CompactPush,
}

/// Element indices whose byte offset does not fit in the address space.
fn far(el: usize) -> std::vec::Vec<usize> {
    let m = usize::MAX / el;
    vec![usize::MAX, usize::MAX - 1, m + 2, m + 1, m, m - 1, 1 << 63, 1 << 62, 1 << 61, 1 << 60, 1 << 59, 1 << 58, (1 << 61) + 1, (1 << 60) + 1, (1 << 59) + 1]
}

/// No access to such an index may succeed.
fn far_ops<E: Element + 'static, S: Store<E> + 'static>(ctx: &mut Ctx, kind: Kind, cap: usize, branches: usize, fill: usize) -> R {
    let init = items::<E>(Pat::Distinct, 100, if kind.takes_initial() { fill } else if kind.reopens() { cap } else { 0 });
    let mut s: S = make(ctx, kind, cap, branches, &init)?;
    let mut model = init;
    if !kind.takes_initial() && !kind.reopens() {
        for e in items::<E>(Pat::Distinct, 100, fill) {
            call(|| s.push(e.clone())).must("push")?;
            model.push(e);
        }
    }
    let el = E::byte_len();
    let idx: std::vec::Vec<usize> = (0..cap + 2).collect();
    for f in far(el) {
        let mut b = vec![0u8; el];
        call(|| s.read_at(f)).must_err("read_at far beyond the length")?;
        call(|| s.read_into(f, &mut b)).must_err("read_into far beyond the length")?;
        for i in [0, 1, cap, f, f.wrapping_add(1), f.wrapping_sub(1)] {
            // reversed and far ranges
            for (x, y) in [(f, i), (i, f)] {
                if x == y {
                    continue;
                }
                call(|| s.read_range(x..y)).must_err("read_range far beyond the length")?;
                if kind.range_into() {
                    for n in [0usize, 1, 2] {
                        let mut b = vec![0u8; el * n];
                        call(|| s.read_range_into(x, y, &mut b)).must_err("read_range_into far beyond the length")?;
                    }
                }
                ctx.op(2);
            }
        }
        if kind.bounded() {
            let v = items::<E>(Pat::Distinct, 7, 2);
            call(|| s.write_at(v[0].clone(), f)).must_err("write_at far beyond the capacity")?;
            call(|| s.copy_from_slice(&to_bytes(&v), f)).must_err("copy_from_slice far beyond the capacity")?;
            call(|| s.copy_from_slice(&to_bytes(&v[..1]), f)).must_err("copy_from_slice far beyond the capacity")?;
        }
        ctx.op(4);
        sweep(ctx, &s, &model, kind, &idx, "after refused far accesses")?;
    }
    for i in 0..cap {
        for j in 0..i {
            call(|| s.read_range(i..j)).must_err("reversed read_range")?;
            if kind.range_into() {
                let mut b = vec![0u8; el * (i - j)];
                call(|| s.read_range_into(i, j, &mut b)).must_err("reversed read_range_into")?;
            }
            ctx.op(2);
        }
    }
    Ok(())
}

/// Reads into a buffer that is smaller or larger than what is read: refused, at every size.
fn misfit<E: Element + 'static, S: Store<E> + 'static>(ctx: &mut Ctx, kind: Kind, cap: usize, branches: usize, fill: usize) -> R {
    let init = items::<E>(Pat::Distinct, 100, if kind.takes_initial() { fill } else if kind.reopens() { cap } else { 0 });
    let mut s: S = make(ctx, kind, cap, branches, &init)?;
    let mut model = init;
    if !kind.takes_initial() && !kind.reopens() {
        for e in items::<E>(Pat::Distinct, 100, fill) {
            call(|| s.push(e.clone())).must("push")?;
            model.push(e);
        }
    }
    let el = E::byte_len();
    let idx: std::vec::Vec<usize> = (0..cap + 2).collect();
    for size in 0..(cap + 2) * el {
        let mut b = vec![0u8; size];
        for i in 0..cap + 2 {
            if size != el {
                call(|| s.read_into(i, &mut b)).must_refuse("read_into a buffer of another size")?;
                ctx.op(1);
            }
            if kind.range_into() {
                for j in i..cap + 2 {
                    if size != (j - i) * el {
                        call(|| s.read_range_into(i, j, &mut b)).must_refuse("read_range_into a buffer of another size")?;
                        ctx.op(1);
                    }
                }
            }
        }
    }
    sweep(ctx, &s, &model, kind, &idx, "after refused buffers")?;
    ctx.state(h64(kind as u64, &to_bytes(&model)));
    Ok(())
}

/// A store whose file is filled; every write of bytes at every position, read back as bytes and elements.
fn disk_bytes<E: Element + 'static>(ctx: &mut Ctx, kind: Kind, cap: usize) -> R {
    let init = items::<E>(Pat::Distinct, 100, cap);
    let start: std::vec::Vec<E> = if kind.takes_initial() || kind.reopens() { init.clone() } else { vec![] };
    let mut s: DiskStore<E> = make(ctx, kind, cap, 2, &start)?;
    if start.is_empty() {
        call(|| s.copy_from_slice(&to_bytes(&init), 0)).must("copy_from_slice")?;
    }
    let total = cap * E::byte_len();
    let mut model = to_bytes(&init);
    check!(s.store_size() == total, "store_size", "store_size {} of {} bytes", s.store_size(), total);
    for at in 0..total + 3 {
        for n in 1..total + 3 {
            let v: std::vec::Vec<u8> = (0..n).map(|i| (at * 31 + n * 7 + i) as u8).collect();
            let r = call(|| s.store_copy_from_slice(at, &v));
            if at + n > total {
                r.must_refuse("store_copy_from_slice beyond the capacity")?;
            } else {
                r.must("store_copy_from_slice")?;
                model[at..at + n].clone_from_slice(&v);
            }
            check!(s.len() == cap, "len", "len {} after writing bytes", s.len());
            let all = call(|| s.store_read_range(0, total)).must("store_read_range")?;
            check!(all == model, "bytes", "{:?}: contents after writing {} bytes at {}", kind, n, at);
            if at + n <= total + 1 && at < total {
                let mut b = vec![0x3Cu8; n];
                let r = call(|| s.store_read_into(at, at + n, &mut b));
                if at + n <= total {
                    r.must("store_read_into")?;
                    check!(b == model[at..at + n], "bytes", "{:?}: store_read_into({}, {})", kind, at, at + n);
                } else {
                    r.must_refuse("store_read_into beyond the capacity")?;
                    call(|| s.store_read_range(at, at + n)).must_refuse("store_read_range beyond the capacity")?;
                }
            }
            ctx.op(3);
        }
        let i = at.min(total - 1) / E::byte_len();
        let e = call(|| s.read_at(i)).must("read_at")?;
        check!(e.as_ref() == &model[i * E::byte_len()..(i + 1) * E::byte_len()], "read_at", "{:?}: element {} after writing bytes", kind, i);
    }
    ctx.state(h64(kind as u64, &model));
    Ok(())
}

fn make<E: Element + 'static, S: Store<E> + 'static>(ctx: &Ctx, kind: Kind, cap: usize, branches: usize, init: &[E]) -> Result<S, Fail> {
    let cfg = StoreConfig::new(&ctx.dir, "a", 0);
    let b = to_bytes(init);
    match kind {
        Vec | Disk | Mmap | LcAnon => call(|| S::new(cap)).must("new"),
        VecCfg | DiskCfg | MmapCfg | LcCfg => call(|| S::new_with_config(cap, branches, cfg)).must("new_with_config"),
        VecSlice | DiskSlice | MmapSlice | LcAnonSlice => call(|| S::new_from_slice(cap, &b)).must("new_from_slice"),
        DiskSliceCfg | MmapSliceCfg | LcSliceCfg => call(|| S::new_from_slice_with_config(cap, branches, &b, cfg)).must("new_from_slice_with_config"),
        DiskReopen | MmapReopen => {
            let p = StoreConfig::data_path(&cfg.path, &cfg.id);
            write_file(&p, &b);
            call(|| S::new_from_disk(cap, branches, &cfg)).must("new_from_disk")
        }
    }
}

fn sweep<E: Element + 'static, S: Store<E> + 'static>(ctx: &mut Ctx, s: &S, model: &[E], kind: Kind, idx: &[usize], what: &str) -> R {
    check!(s.len() == model.len(), "len", "{}: len {} != {}", what, s.len(), model.len());
    check!(s.is_empty() == model.is_empty(), "is_empty", "{}: is_empty {}", what, s.is_empty());
    let lenient = kind.may_refuse_reads();
    let mut buf = vec![0u8; E::byte_len()];
    for &i in idx {
        let v = call(|| s.read_at(i));
        for b in buf.iter_mut() {
            *b = 0x3C;
        }
        let w = call(|| s.read_into(i, &mut buf));
        if i < model.len() {
            if !(lenient && !v.is_ok()) {
                check!(v.must("read_at")? == model[i], "read_at", "{}: read_at({}) is not the last value written", what, i);
            }
            if !(lenient && !w.is_ok()) {
                w.must("read_into")?;
                check!(&buf[..] == model[i].as_ref(), "read_into", "{}: read_into({})", what, i);
            }
        } else {
            v.must_err("read_at beyond the length")?;
            w.must_err("read_into beyond the length")?;
        }
        ctx.op(2);
        for &j in idx {
            if j <= i {
                continue;
            }
            let v = call(|| s.read_range(i..j));
            let mut rb = vec![0x3Cu8; (j - i) * E::byte_len()];
            let w = if kind.range_into() { Some(call(|| s.read_range_into(i, j, &mut rb))) } else { None };
            if j <= model.len() {
                if !(lenient && !v.is_ok()) {
                    check!(v.must("read_range")?[..] == model[i..j], "read_range", "{}: read_range({}..{})", what, i, j);
                }
                if let Some(w) = w {
                    if !(lenient && !w.is_ok()) {
                        w.must("read_range_into")?;
                        check!(rb == to_bytes(&model[i..j]), "read_range_into", "{}: read_range_into({}, {})", what, i, j);
                    }
                }
            } else {
                v.must_err("read_range beyond the length")?;
                if let Some(w) = w {
                    w.must_err("read_range_into beyond the length")?;
                }
            }
            ctx.op(2);
        }
    }
    // the contents as a slice
    let any = s as &dyn std::any::Any;
    if let Some(v) = any.downcast_ref::<VecStore<E>>() {
        check!(v[..] == *model, "deref", "{}: the slice of the store differs", what);
    } else if let Some(m) = any.downcast_ref::<MmapStore<E>>() {
        let b = to_bytes(model);
        let o = call(|| Ok(m[..].to_vec()));
        if let Out::Ok(v) = o {
            check!(v.len() >= b.len() && v[..b.len()] == b[..], "deref", "{}: the mapped bytes differ", what);
        }
    }
    let l = call(|| s.last());
    match model.last() {
        Some(m) => {
            if !(lenient && !l.is_ok()) {
                check!(l.must("last")? == *m, "last", "{}: last()", what);
            }
        }
        None => l.must_err("last of an empty store")?,
    }
    ctx.op(3);
    Ok(())
}

fn seqs<E: Element + 'static, S: Store<E> + 'static>(ctx: &mut Ctx, kinds: &[Kind], cap: usize, branches: usize, depth: usize, ops: &[Op], idx: &[usize]) -> R {
    let kind = ctx.pick("kind", kinds);
    let init: std::vec::Vec<E> = match kind {
        VecSlice | DiskSlice | DiskSliceCfg | MmapSlice | MmapSliceCfg | LcSliceCfg | LcAnonSlice => {
            let k = ctx.pick("initial", &[1usize, 2]);
            items::<E>(Pat::Distinct, 100, k)
        }
        DiskReopen | MmapReopen => items::<E>(Pat::Distinct, 100, cap),
        _ => vec![],
    };
    let most = ops.iter().map(|o| if let Op::Copy(k, _) = o { *k } else { 0 }).max().unwrap_or(0).max(4);
    let mut s: S = make(ctx, kind, cap, branches, &init)?;
    let mut model = init;
    sweep(ctx, &s, &model, kind, idx, "fresh")?;
    for step in 0..depth {
        let op = ctx.pick("op", ops);
        let what = format!("{:?} step {} {:?}", kind, step, op);
        let vals: std::vec::Vec<E> = items::<E>(Pat::Distinct, 1 + step as u64, if matches!(op, Op::Copy(..)) { most } else { 4 });
        let write = |model: &mut std::vec::Vec<E>, at: usize, v: &[E]| {
            if model.len() < at + v.len() {
                model.resize(at + v.len(), E::default());
            }
            model[at..at + v.len()].clone_from_slice(v);
        };
        match op {
            Op::Write(i) => {
                let r = call(|| s.write_at(vals[0].clone(), i));
                if kind.bounded() && i >= cap {
                    r.must_err("write_at beyond the capacity")?;
                } else {
                    r.must("write_at")?;
                    write(&mut model, i, &vals[..1]);
                }
            }
            Op::Copy(k, i) => {
                let r = call(|| s.copy_from_slice(&to_bytes(&vals[..k]), i));
                if k == 0 {
                    // nothing is written; a store may or may not take `i` as reached
                    if r.is_ok() && i > model.len() && s.len() == i {
                        model.resize(i, E::default());
                    }
                } else if kind.bounded() && i + k > cap {
                    r.must_err("copy_from_slice beyond the capacity")?;
                } else {
                    r.must("copy_from_slice")?;
                    write(&mut model, i, &vals[..k]);
                }
            }
            Op::Ragged(k, x, i) => {
                let mut b = to_bytes(&vals[..k]);
                b.extend(vec![0x99; x]);
                call(|| s.copy_from_slice(&b, i)).must_err("copy_from_slice of a fraction of an element")?;
            }
            Op::Push => {
                let r = call(|| s.push(vals[0].clone()));
                if kind.bounded() && model.len() >= cap {
                    r.must_err("push beyond the capacity")?;
                } else {
                    r.must("push")?;
                    model.push(vals[0].clone());
                }
            }
            Op::Sync => call(|| s.sync()).must("sync")?,
            Op::Reinit => call(|| s.reinit()).must("reinit")?,
            Op::CompactReinit => {
                let cfg = StoreConfig::new(&ctx.dir, "a", 0);
                call(|| s.compact(branches, cfg, StoreConfigDataVersion::One as u32)).must("compact")?;
                check!(s.len() == model.len(), "len", "{}: len {} after giving the memory back", what, s.len());
                if let Some(m) = model.first() {
                    if let Some(v) = call(|| s.read_at(0)).ok() {
                        check!(v == *m, "read_at", "{}: read_at(0) after giving the memory back", what);
                    }
                }
                call(|| s.reinit()).must("reinit")?
            }
            Op::CompactWriteAt(i) => {
                let cfg = StoreConfig::new(&ctx.dir, "a", 0);
                call(|| s.compact(branches, cfg, StoreConfigDataVersion::One as u32)).must("compact")?;
                let r = call(|| s.write_at(vals[0].clone(), i));
                if kind.bounded() && i >= cap {
                    r.must_refuse("write_at beyond the capacity")?;
                    call(|| s.reinit()).must("reinit")?;
                } else {
                    r.must("write_at")?;
                    write(&mut model, i, &vals[..1]);
                }
            }
            Op::CompactPush => {
                let cfg = StoreConfig::new(&ctx.dir, "a", 0);
                call(|| s.compact(branches, cfg, StoreConfigDataVersion::One as u32)).must("compact")?;
                let r = call(|| s.push(vals[0].clone()));
                if kind.bounded() && model.len() >= cap {
                    r.must_refuse("push beyond the capacity")?;
                    call(|| s.reinit()).must("reinit")?;
                } else {
                    r.must("push")?;
                    model.push(vals[0].clone());
                }
            }
            Op::CompactWrite(i) => {
                let cfg = StoreConfig::new(&ctx.dir, "a", 0);
                call(|| s.compact(branches, cfg, StoreConfigDataVersion::One as u32)).must("compact")?;
                call(|| s.copy_from_slice(&to_bytes(&vals[..1]), i)).must("copy_from_slice")?;
                write(&mut model, i, &vals[..1]);
            }
        }
        ctx.op(1);
        sweep(ctx, &s, &model, kind, idx, &what)?;
        ctx.state(h64(kind as u64, &to_bytes(&model)));
    }
    // the file holds the array
    if kind.named() {
        drop(s);
        let b = std::fs::read(StoreConfig::data_path(&ctx.dir, "a")).unwrap_or_default();
        let mut want = to_bytes(&model);
        want.resize(cap * E::byte_len(), 0);
        check!(b == want, "file", "{:?}: the file does not hold the array", kind);
    }
    Ok(())
}

/// Initial data that does not fit or is not made of whole elements.
fn initial<E: Element + 'static, S: Store<E> + 'static>(ctx: &mut Ctx, cap: usize, branches: usize) -> R {
    let named = ctx.choose("named", 2) == 1;
    let bytes = ctx.choose("bytes", (cap + 2) * E::byte_len());
    let data: std::vec::Vec<u8> = to_bytes(&items::<E>(Pat::Distinct, 3, cap + 2))[..bytes].to_vec();
    let cfg = StoreConfig::new(&ctx.dir, "a", 0);
    let r = call(|| if named { S::new_from_slice_with_config(cap, branches, &data, cfg) } else { S::new_from_slice(cap, &data) });
    ctx.op(1);
    if bytes % E::byte_len() != 0 {
        return r.must_err("a fraction of an element as initial data");
    }
    if bytes > cap * E::byte_len() {
        return r.must_err("initial data beyond the capacity");
    }
    let s = r.must("new_from_slice")?;
    check!(s.len() == bytes / E::byte_len(), "len", "length {}", s.len());
    Ok(())
}

fn ops(idx: &[usize], max_block: usize, cap: usize) -> std::vec::Vec<Op> {
    let mut v = vec![Op::Push];
    for &i in idx {
        if i <= cap {
            v.push(Op::Write(i));
        }
    }
    for k in 0..=max_block {
        for &i in idx {
            if i <= cap {
                v.push(Op::Copy(k, i));
            }
        }
    }
    v.push(Op::Ragged(0, 1, 0));
    v.push(Op::Ragged(1, 1, 0));
    v.push(Op::Ragged(2, 2, 1));
    v.push(Op::Sync);
    v.push(Op::Reinit);
    v
}

fn build(tier: Tier) -> Spec {
    let th = tier == Tier::Thorough;
    let mut s = Spec::new("C10");
    s.technique = "exhaustive enumeration of operation sequences on every store, all reads compared with an array model after each operation";
    let depth = if th { 4 } else { 3 };
    macro_rules! fam {
        ($name:expr, $S:ident, $kinds:expr) => {{
            for k in $kinds {
                s.add(format!("{} {:?}", $name, k), move |c| {
                    seqs::<El<5>, $S<El<5>>>(c, &[k], 3, 2, depth, &ops(&[0, 1, 2, 3], 3, 3), &[0, 1, 2, 3, 4])
                });
                for fill in [0usize, 1, 7] {
                    s.add(format!("{} misfit {:?} {}", $name, k, fill), move |c| misfit::<El<8>, $S<El<8>>>(c, k, 7, 2, fill));
                    s.add(format!("{} far {:?} {}", $name, k, fill), move |c| far_ops::<El<32>, $S<El<32>>>(c, k, 7, 2, fill));
                    s.add(format!("{} far e5 {:?} {}", $name, k, fill), move |c| far_ops::<El<5>, $S<El<5>>>(c, k, 7, 2, fill));
                }
                // blocks larger than pages and buffers
                s.add(format!("{} block {:?}", $name, k), move |c| {
                    let mut ops = vec![Op::Push, Op::Write(2048), Op::Sync];
                    for (n, i) in [(127usize, 1usize), (128, 0), (128, 128), (2047, 1), (2048, 0), (2049, 2047), (4096, 3), (4095, 0), (4095, 1), (4096, 0)] {
                        ops.push(Op::Copy(n, i));
                    }
                    seqs::<El<32>, $S<El<32>>>(c, &[k], 4095, 2, 2, &ops, &[0, 1, 127, 128, 129, 2046, 2047, 2048, 2049, 4094, 4095, 4096])
                });
                if matches!(k, Vec | VecCfg | VecSlice | Mmap | MmapCfg | MmapSlice | MmapSliceCfg | MmapReopen) {
                    s.add(format!("{} compact {:?}", $name, k), move |c| {
                        seqs::<El<32>, $S<El<32>>>(
                            c,
                            &[k],
                            7,
                            2,
                            depth + 1,
                            &[Op::Push, Op::Write(4), Op::Copy(2, 2), Op::Copy(3, 5), Op::CompactReinit, Op::CompactWrite(0), Op::CompactWriteAt(6), Op::CompactWriteAt(7), Op::CompactPush],
                            &[0, 1, 2, 3, 4, 5, 6, 7, 8],
                        )
                    });
                }
                s.add(format!("{} deep {:?}", $name, k), move |c| {
                    seqs::<El<32>, $S<El<32>>>(
                        c,
                        &[k],
                        7,
                        2,
                        depth + 2,
                        &[Op::Push, Op::Write(0), Op::Write(4), Op::Write(7), Op::Copy(2, 2), Op::Copy(2, 6), Op::Sync],
                        &[0, 1, 2, 3, 4, 5, 6, 7, 8],
                    )
                });
                // several pages
                s.add(format!("{} wide {:?}", $name, k), move |c| {
                    let idx = [0usize, 1, 126, 127, 128, 130, 254, 255];
                    seqs::<El<32>, $S<El<32>>>(c, &[k], 255, 2, 2, &ops(&idx, 3, 255), &[0, 1, 2, 125, 126, 127, 128, 129, 131, 254, 255, 256])
                });
            }
            s.add(format!("{} initial", $name), |c| initial::<El<4>, $S<El<4>>>(c, 3, 2));
        }};
    }
    type Lcs<E> = Lc<E>;
    fam!("vec", VecStore, VECS);
    fam!("disk", DiskStore, DISKS);
    fam!("mmap", MmapStore, MMAPS);
    fam!("lc", Lcs, LCS);
    for k in DISKS {
        s.add(format!("disk bytes {:?}", k), move |c| disk_bytes::<El<5>>(c, k, 7));
    }
    for levels in [27u32, 33] {
        s.add(format!("huge disk {}", levels), move |c| huge_writes::<El<32>, DiskStore<El<32>>>(c, levels, true, |_| true));
        s.add(format!("huge mapped {}", levels), move |c| huge_writes::<El<32>, MmapStore<El<32>>>(c, levels, false, |_| true));
        s.add(format!("huge level cache {}", levels), move |c| huge_writes::<El<32>, Lc<El<32>>>(c, levels, true, |_| true));
        s.add(format!("huge disk e5 {}", levels), move |c| huge_writes::<El<5>, DiskStore<El<5>>>(c, levels, true, |_| true));
        s.add(format!("huge mapped e5 {}", levels), move |c| huge_writes::<El<5>, MmapStore<El<5>>>(c, levels, false, |_| true));
    }
    s.bound("stores of 2^34 elements in sparse files of up to 549 GB, writes and reads around every power of two");
    s.bound("capacity 3: every sequence of up to 3 (thorough 4) of 26 operations; capacity 7: sequences of 5 (6) of 7 operations; capacity 255 (several pages): sequences of 2; capacity 4095: sequences of 2 of 13 operations with blocks of up to 4096 elements; memory given back (compact) and taken again anywhere in sequences of 4 (5) on the mapped and memory stores; element indices around every power of two from 2^58 and around the largest whose byte offset does not overflow, reversed ranges; every initial byte length; every size of read buffer; every byte range of a DiskStore written; all reads after each step");
    s.assume("the level cache store is only required to behave as an array when it has a config that discards nothing; MmapStore and VecStore do not offer read_range_into");
    s
}

fn main() {
    mc::engine::main(build)
}
