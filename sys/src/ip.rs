//! Interposition of the operating system calls that the code under test makes.
//!
//! The functions below have the names of the libc functions that std and memmap2 call, so that the
//! linker binds those calls to them; the real calls are made with the syscall instruction.  While
//! the injector is armed every call is counted and recorded, and the planned calls fail, transfer
//! less than asked, or end the process.

#![allow(clippy::missing_safety_doc)]

use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Open,
    Stat,
    Pread,
    Pwrite,
    Read,
    Write,
    Seek,
    Trunc,
    Fsync,
    Mmap,
    Copy,
    Unlink,
    /// not a call: a point marked by a callback of the harness (a node is being hashed)
    Mark,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// the call fails with this errno
    Errno(i32),
    /// this call and all later calls of its kind fail with this errno
    Sticky(i32),
    /// at most so many bytes are transferred (0: end of file / nothing written)
    Short(usize),
    /// the process ends before the call
    Stop,
    /// the process ends after a prefix of the transfer
    Torn(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rec {
    pub kind: Kind,
    pub len: usize,
}

pub const STOP_CODE: i32 = 77;

static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static MARKS: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut LOG: Vec<Rec> = Vec::new();
static mut PLAN: Vec<(usize, Fault)> = Vec::new();
static mut STICKY: Vec<(Kind, i32)> = Vec::new();
static HIT: AtomicUsize = AtomicUsize::new(0);

static NTH_KIND: AtomicI64 = AtomicI64::new(-1);
static NTH: AtomicI64 = AtomicI64::new(-1);
static NTH_ERR: AtomicI64 = AtomicI64::new(0);

/// Whatever else is planned, the `n`-th call of this kind from now on fails.
pub fn nth(kind: Kind, n: usize, errno: i32) {
    NTH_KIND.store(kind as i64, SeqCst);
    NTH_ERR.store(errno as i64, SeqCst);
    NTH.store(n as i64, SeqCst);
}

/// Start counting; `plan` gives faults by call index.
pub fn arm(plan: &[(usize, Fault)], marks: bool) {
    unsafe {
        LOG.clear();
        LOG.reserve(4096);
        PLAN = plan.to_vec();
        STICKY = Vec::with_capacity(8);
    }
    COUNT.store(0, SeqCst);
    HIT.store(0, SeqCst);
    MARKS.store(marks, SeqCst);
    ARMED.store(true, SeqCst);
}

/// Stop counting; returns the calls made since `arm` and how many faults took effect.
pub fn disarm() -> (Vec<Rec>, usize) {
    ARMED.store(false, SeqCst);
    unsafe {
        (std::mem::take(&mut LOG), HIT.load(SeqCst))
    }
}

/// How many planned faults have taken effect.
pub fn hits() -> usize {
    HIT.load(SeqCst)
}

/// Suspend and continue counting within an armed operation.
pub fn pause() {
    ARMED.store(false, SeqCst);
}
pub fn resume() {
    ARMED.store(true, SeqCst);
}

fn lock() {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, SeqCst);
}

enum Act {
    Real,
    Err(i32),
    Max(usize),
    Torn(usize),
}

#[inline]
fn enter(kind: Kind, len: usize) -> Act {
    crate::sched::point(kind as u32);
    if NTH_KIND.load(SeqCst) == kind as i64 && NTH.fetch_sub(1, SeqCst) == 0 {
        HIT.fetch_add(1, SeqCst);
        return Act::Err(NTH_ERR.load(SeqCst) as i32);
    }
    if !ARMED.load(SeqCst) {
        return Act::Real;
    }
    if kind == Kind::Mark && !MARKS.load(SeqCst) {
        return Act::Real;
    }
    lock();
    let i = COUNT.fetch_add(1, SeqCst);
    let r = unsafe {
        if LOG.len() < 100_000 {
            LOG.push(Rec { kind, len });
        }
        match PLAN.iter().find(|p| p.0 == i) {
            Some((_, f)) => {
                HIT.fetch_add(1, SeqCst);
                match *f {
                    Fault::Errno(e) => Act::Err(e),
                    Fault::Sticky(e) => {
                        STICKY.push((kind, e));
                        Act::Err(e)
                    }
                    Fault::Short(n) => Act::Max(n),
                    Fault::Stop => exit_now(),
                    Fault::Torn(n) => Act::Torn(n),
                }
            }
            None => match STICKY.iter().find(|s| s.0 == kind) {
                Some((_, e)) => Act::Err(*e),
                None => Act::Real,
            },
        }
    };
    unlock();
    r
}

fn exit_now() -> ! {
    unsafe {
        raw(231, STOP_CODE as i64, 0, 0, 0, 0, 0); // exit_group
    }
    loop {}
}

/// A marked point (see `Kind::Mark`).
#[inline]
pub fn mark() {
    let _ = enter(Kind::Mark, 0);
}

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe fn simple(kind: Kind, n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    match enter(kind, 0) {
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::Torn(_) => exit_now(),
        _ => ret(raw(n, a, b, c, d, e, f)),
    }
}

/// a transfer of at most `len` bytes
unsafe fn transfer(kind: Kind, len: usize, f: impl Fn(usize) -> i64) -> i64 {
    match enter(kind, len) {
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::Max(0) => 0,
        Act::Max(n) => ret(f(n.min(len))),
        Act::Torn(n) => {
            if n > 0 {
                f(n.min(len));
            }
            exit_now()
        }
        Act::Real => ret(f(len)),
    }
}

/// What would be left of the files after a power failure: their contents when they were last
/// synced, by the calls that were made.  What has only been written is lost.
pub mod durable {
    use super::*;
    use std::os::unix::fs::MetadataExt;
    use std::path::{Path, PathBuf};

    static ON: AtomicBool = AtomicBool::new(false);
    static SYNCS: AtomicUsize = AtomicUsize::new(0);
    static mut FILES: Vec<(u64, Vec<u8>)> = Vec::new();
    static mut PATHS: Vec<PathBuf> = Vec::new();

    /// Start with nothing durable.
    pub fn start() {
        unsafe {
            FILES = Vec::new();
            PATHS = Vec::new();
        }
        SYNCS.store(0, SeqCst);
        ON.store(true, SeqCst);
    }
    pub fn stop() {
        ON.store(false, SeqCst);
    }
    /// Successful syncs so far.
    pub fn syncs() -> usize {
        SYNCS.load(SeqCst)
    }
    /// A file that is also covered by a sync of the whole file system.
    pub fn watch(p: &Path) {
        unsafe { PATHS.push(p.to_path_buf()) }
    }
    /// The file as it is now counts as durable.
    pub fn settle(p: &Path) {
        if let (Ok(m), Ok(b)) = (std::fs::metadata(p), std::fs::read(p)) {
            put(m.ino(), b);
        }
    }
    /// The durable contents of the file.
    pub fn of(p: &Path) -> Option<Vec<u8>> {
        let ino = std::fs::metadata(p).ok()?.ino();
        unsafe { FILES.iter().find(|f| f.0 == ino).map(|f| f.1.clone()) }
    }

    fn put(ino: u64, b: Vec<u8>) {
        lock();
        unsafe {
            match FILES.iter_mut().find(|f| f.0 == ino) {
                Some(f) => f.1 = b,
                None => FILES.push((ino, b)),
            }
        }
        unlock();
    }

    pub(super) fn file(fd: i32) {
        if !ON.load(SeqCst) {
            return;
        }
        SYNCS.fetch_add(1, SeqCst);
        settle(Path::new(&format!("/proc/self/fd/{}", fd)));
    }

    pub(super) fn all() {
        if !ON.load(SeqCst) {
            return;
        }
        SYNCS.fetch_add(1, SeqCst);
        for p in unsafe { PATHS.clone() } {
            settle(&p);
        }
    }

    pub(super) fn range(a: usize, n: usize) {
        if !ON.load(SeqCst) {
            return;
        }
        SYNCS.fetch_add(1, SeqCst);
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        for l in maps.lines() {
            // start-end perms offset dev inode path
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 5 || !w[1].ends_with('s') {
                continue;
            }
            let h = |s: &str| usize::from_str_radix(s, 16).unwrap_or(0);
            let (lo, hi) = match w[0].split_once('-') {
                Some((x, y)) => (h(x), h(y)),
                None => continue,
            };
            let (from, to) = (a.max(lo), ((a + n + 4095) & !4095).min(hi));
            if from >= to {
                continue;
            }
            let ino: u64 = w[4].parse().unwrap_or(0);
            // the file as it is now, for its length and contents
            let now = std::fs::read(format!("/proc/self/map_files/{:x}-{:x}", lo, hi)).or_else(|_| std::fs::read(w.get(5).copied().unwrap_or("")));
            let now = match now {
                Ok(b) => b,
                Err(_) => continue,
            };
            let (x, y) = (h(w[2]) + from - lo, (h(w[2]) + to - lo).min(now.len()));
            if x >= y {
                continue;
            }
            let mut d = unsafe { FILES.iter().find(|f| f.0 == ino).map(|f| f.1.clone()).unwrap_or_default() };
            d.resize(now.len(), 0);
            d[x..y].copy_from_slice(&now[x..y]);
            put(ino, d);
        }
    }
}

pub static OPENS: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    simple(Kind::Open, 2, path as i64, flags as i64, mode as i64, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    simple(Kind::Open, 257, dir as i64, path as i64, flags as i64, mode as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    simple(Kind::Stat, 332, dir as i64, path as i64, flags as i64, mask as i64, buf as i64, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const i8, buf: *mut u8) -> i32 {
    simple(Kind::Stat, 4, path as i64, buf as i64, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, buf: *mut u8) -> i32 {
    simple(Kind::Stat, 5, fd as i64, buf as i64, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, buf: *mut u8) -> i32 {
    fstat64(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    transfer(Kind::Pread, n, |n| raw(17, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    transfer(Kind::Pwrite, n, |n| raw(18, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    transfer(Kind::Read, n, |n| raw(0, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    transfer(Kind::Write, n, |n| raw(1, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    simple(Kind::Seek, 8, fd as i64, off, whence as i64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    simple(Kind::Trunc, 77, fd as i64, len, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    let r = simple(Kind::Fsync, 74, fd as i64, 0, 0, 0, 0, 0) as i32;
    if r == 0 {
        durable::file(fd);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    let r = simple(Kind::Fsync, 75, fd as i64, 0, 0, 0, 0, 0) as i32;
    if r == 0 {
        durable::file(fd);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn msync(a: *mut u8, n: usize, fl: i32) -> i32 {
    let r = simple(Kind::Fsync, 26, a as i64, n as i64, fl as i64, 0, 0, 0) as i32;
    if r == 0 && fl & 4 != 0 {
        durable::range(a as usize, n);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    raw(162, 0, 0, 0, 0, 0, 0);
    durable::all();
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: i32) -> i32 {
    let r = simple(Kind::Fsync, 306, fd as i64, 0, 0, 0, 0, 0) as i32;
    if r == 0 {
        durable::all();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8 {
    if fd < 0 {
        return ret(raw(9, a as i64, n as i64, prot as i64, fl as i64, fd as i64, off)) as *mut u8;
    }
    simple(Kind::Mmap, 9, a as i64, n as i64, prot as i64, fl as i64, fd as i64, off) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8 {
    mmap64(a, n, prot, fl, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: i32, oi: *mut i64, fo: i32, oo: *mut i64, n: usize, fl: u32) -> isize {
    transfer(Kind::Copy, n, |n| raw(326, fi as i64, oi as i64, fo as i64, oo as i64, n as i64, fl as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: i32, fi: i32, off: *mut i64, n: usize) -> isize {
    transfer(Kind::Copy, n, |n| raw(40, fo as i64, fi as i64, off as i64, n as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(fi: i32, oi: *mut i64, fo: i32, oo: *mut i64, n: usize, fl: u32) -> isize {
    transfer(Kind::Copy, n, |n| raw(275, fi as i64, oi as i64, fo as i64, oo as i64, n as i64, fl as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    simple(Kind::Unlink, 87, p as i64, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, p: *const i8, fl: i32) -> i32 {
    simple(Kind::Unlink, 263, d as i64, p as i64, fl as i64, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    simple(Kind::Unlink, 82, a as i64, b as i64, 0, 0, 0, 0) as i32
}

/// The fault variants of a recorded call.
pub fn faults(r: &Rec, deep: bool) -> Vec<Fault> {
    use libc::*;
    let mut v: Vec<Fault> = vec![];
    let e = |v: &mut Vec<Fault>, l: &[i32]| v.extend(l.iter().map(|e| Fault::Errno(*e)));
    match r.kind {
        Kind::Open => {
            e(&mut v, &[EIO, EACCES, EMFILE, EINTR, ENOENT]);
            if deep {
                e(&mut v, &[ENFILE, EROFS, ENOSPC, EEXIST]);
            }
            v.extend([Fault::Sticky(EIO), Fault::Sticky(EACCES)]);
        }
        Kind::Stat => {
            e(&mut v, &[EIO, EACCES]);
            v.push(Fault::Sticky(EIO));
        }
        Kind::Pread | Kind::Read => {
            e(&mut v, &[EIO, EINTR]);
            shorts(&mut v, r.len);
            v.push(Fault::Sticky(EIO));
        }
        Kind::Pwrite | Kind::Write => {
            e(&mut v, &[EIO, ENOSPC, EINTR]);
            shorts(&mut v, r.len);
            v.push(Fault::Sticky(ENOSPC));
        }
        Kind::Copy => {
            e(&mut v, &[EIO, ENOSPC, EINTR]);
            // the copied length is given as an upper bound by std
            v.extend([Fault::Short(1), Fault::Short(8), Fault::Short(13), Fault::Short(0)]);
            e(&mut v, &[ENOSYS, EXDEV, EINVAL, EPERM]);
            v.extend([Fault::Sticky(ENOSPC), Fault::Sticky(EXDEV)]);
        }
        Kind::Seek => e(&mut v, &[EIO, EINVAL]),
        Kind::Trunc => {
            e(&mut v, &[EIO, EINTR, EFBIG]);
            v.push(Fault::Sticky(EIO));
        }
        Kind::Fsync => {
            e(&mut v, &[EIO, EINTR, ENOSPC]);
            v.push(Fault::Sticky(EIO));
        }
        Kind::Mmap => {
            e(&mut v, &[ENOMEM, EACCES]);
            v.push(Fault::Sticky(ENOMEM));
        }
        Kind::Unlink => e(&mut v, &[EIO, EACCES, EBUSY]),
        Kind::Mark => {}
    }
    v
}

fn shorts(v: &mut Vec<Fault>, n: usize) {
    let mut l = vec![0usize, 1, n / 2, n.saturating_sub(1)];
    l.sort();
    l.dedup();
    l.retain(|x| *x < n);
    v.extend(l.into_iter().map(Fault::Short));
}
