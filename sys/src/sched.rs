//! A controlled scheduler for real threads.
//!
//! Exactly one registered thread runs at a time (it holds the baton).  Threads are registered when
//! they are created with pthread_create; blocking in the kernel happens only through futex, which
//! is modelled: a waiting thread is disabled until it is woken.  At the points where another
//! thread could run instead (system calls, wake-ups, and points marked by the harness), and whenever
//! the running thread blocks, the scheduler asks for a choice.  The choices of an execution are a
//! prefix given by the explorer followed by zeros, and they are recorded.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicUsize, Ordering::SeqCst};

use crate::ip::raw;

const MAXT: usize = 64;
pub const MAXREC: usize = 4000;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Free,
    Enabled,
    /// waits on a futex word; may time out
    Futex(usize, bool),
    Join(usize),
    Done,
}

struct Th {
    st: St,
    timed_out: bool,
    pthread: u64,
}

const TH0: Th = Th { st: St::Free, timed_out: false, pthread: 0 };
static mut TH: [Th; MAXT] = [TH0; MAXT];
#[allow(clippy::declare_interior_mutable_const)]
const SEM0: AtomicI32 = AtomicI32::new(0);
static SEM: [AtomicI32; MAXT] = [SEM0; MAXT];
static N: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static CHOICES: AtomicBool = AtomicBool::new(false);
static BUDGET: AtomicUsize = AtomicUsize::new(0);
static FREE_BLOCK: AtomicBool = AtomicBool::new(true);
static KINDS: AtomicU32 = AtomicU32::new(0);
static FULL: AtomicUsize = AtomicUsize::new(0);
static SHARD: AtomicUsize = AtomicUsize::new(0);
static SHARDS: AtomicUsize = AtomicUsize::new(1);
static YIELDS: AtomicUsize = AtomicUsize::new(0);
static mut WAITQ: Vec<(usize, usize)> = Vec::new(); // (futex address, thread), in waiting order

/// What the explorer and the execution share.
#[repr(C)]
pub struct Share {
    pub nprefix: AtomicUsize,
    pub prefix: [AtomicU32; MAXREC],
    pub nrec: AtomicUsize,
    pub rec: [AtomicU32; MAXREC],
    pub of: [AtomicU32; MAXREC],
    pub status: AtomicU32,
    pub switches: AtomicUsize,
    pub points: AtomicUsize,
    pub threads: AtomicUsize,
    pub trace: AtomicUsize,
    pub msglen: AtomicUsize,
    pub msg: [std::sync::atomic::AtomicU8; 4096],
}
static mut SHARE: *const Share = std::ptr::null();

pub const DEADLOCK: u32 = 2;
pub const LIVELOCK: u32 = 3;
pub const DIVERGED: u32 = 4;
pub const HORIZON: u32 = 5;

pub fn share() -> &'static Share {
    unsafe {
        if SHARE.is_null() {
            let p = raw(9, 0, std::mem::size_of::<Share>() as i64, 3, 0x21, -1, 0);
            assert!(p > 0);
            SHARE = p as *const Share;
        }
        &*SHARE
    }
}

fn quit(status: u32) -> ! {
    share().status.store(status, SeqCst);
    unsafe {
        raw(231, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// Bits of the point kinds at which preemption is offered.
pub const P_IO: u32 = 1;
pub const P_MARK: u32 = 2;
pub const P_WAKE: u32 = 4;
/// A thread that wakes another one may be preempted at no cost.
pub const P_FREE_WAKE: u32 = 8;

/// Register the calling thread as the first one; from now on threads are scheduled.
pub fn start() {
    ME.with(|m| m.set(0));
    N.store(1, SeqCst);
    unsafe {
        TH[0].st = St::Enabled;
        WAITQ.reserve(1024);
    }
    ON.store(true, SeqCst);
}

/// Offer choices from now on: up to `budget` preemptions at points of the kinds given.
pub fn explore(budget: usize, kinds: u32, free_block: bool) {
    BUDGET.store(budget, SeqCst);
    FULL.store(budget, SeqCst);
    KINDS.store(kinds, SeqCst);
    FREE_BLOCK.store(free_block, SeqCst);
    CHOICES.store(true, SeqCst);
}
/// Explore only the schedules whose first preemption is at a point with number `i` modulo `n`.
pub fn shard(i: usize, n: usize) {
    SHARD.store(i, SeqCst);
    SHARDS.store(n, SeqCst);
}
pub fn quiet() {
    CHOICES.store(false, SeqCst);
}

fn choose(n: usize) -> usize {
    let s = share();
    let i = s.nrec.load(SeqCst);
    if i >= MAXREC {
        quit(HORIZON);
    }
    let c = if i < s.nprefix.load(SeqCst) { s.prefix[i].load(SeqCst) as usize } else { 0 };
    if c >= n {
        quit(DIVERGED);
    }
    s.rec[i].store(c as u32, SeqCst);
    s.of[i].store(n as u32, SeqCst);
    s.nrec.store(i + 1, SeqCst);
    c
}

/// The enabled threads in round-robin order after `me` (without `me`).
fn others(me: usize) -> ([usize; MAXT], usize) {
    let n = N.load(SeqCst);
    let mut v = [0; MAXT];
    let mut k = 0;
    for d in 1..n {
        let t = (me + d) % n;
        if unsafe { TH[t].st } == St::Enabled {
            v[k] = t;
            k += 1;
        }
    }
    (v, k)
}

fn wait_baton(me: usize) {
    while SEM[me].compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
        unsafe {
            raw(202, &SEM[me] as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
}
fn give_baton(t: usize) {
    let s = share();
    s.switches.fetch_add(1, SeqCst);
    let h = s.trace.load(SeqCst);
    s.trace.store((h.rotate_left(7) ^ t).wrapping_mul(0x9E37_79B9_7F4A_7C15), SeqCst);
    SEM[t].store(1, SeqCst);
    unsafe {
        raw(202, &SEM[t] as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

fn switch_to(me: usize, t: usize) {
    if t == me {
        return;
    }
    give_baton(t);
    wait_baton(me);
}

/// The running thread cannot continue: run another one.
fn block(me: usize) {
    let t = next_after_block(me);
    switch_to(me, t);
}

fn next_after_block(me: usize) -> usize {
    let (v, k) = others(me);
    unsafe {
        if k == 0 {
            if TH[me].st == St::Enabled {
                return me;
            }
            // time passes only when nothing else can happen
            let n = N.load(SeqCst);
            for t in 0..n {
                if let St::Futex(a, true) = TH[t].st {
                    TH[t].timed_out = true;
                    TH[t].st = St::Enabled;
                    WAITQ.retain(|w| !(w.0 == a && w.1 == t));
                    return t;
                }
            }
            quit(DEADLOCK);
        }
    }
    if k > 1 && CHOICES.load(SeqCst) {
        if FREE_BLOCK.load(SeqCst) {
            return v[choose(k)];
        }
        // delay bounded: anything but the first costs
        if BUDGET.load(SeqCst) > 0 {
            let c = choose(k);
            if c > 0 {
                BUDGET.fetch_sub(1, SeqCst);
            }
            return v[c];
        }
    }
    v[0]
}

/// A point where another thread may run first.
fn preempt(kind: u32) {
    if !ON.load(SeqCst) || !CHOICES.load(SeqCst) || KINDS.load(SeqCst) & kind == 0 {
        return;
    }
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let p = share().points.fetch_add(1, SeqCst);
    let b = BUDGET.load(SeqCst);
    let free = kind == P_WAKE && KINDS.load(SeqCst) & P_FREE_WAKE != 0 && b < FULL.load(SeqCst);
    if free {
        let (v, k) = others(me);
        let c = if k > 0 { choose(k + 1) } else { 0 };
        if c > 0 {
            switch_to(me, v[c - 1]);
        }
        return;
    }
    if b == 0 || (b == FULL.load(SeqCst) && p % SHARDS.load(SeqCst) != SHARD.load(SeqCst)) {
        return;
    }
    let (v, k) = others(me);
    if k == 0 {
        return;
    }
    let c = choose(k + 1);
    if c > 0 {
        BUDGET.fetch_sub(1, SeqCst);
        switch_to(me, v[c - 1]);
    }
}

#[inline]
pub fn point(kind: u32) {
    if ON.load(SeqCst) {
        preempt(if kind == crate::ip::Kind::Mark as u32 { P_MARK } else { P_IO });
    }
}

/// A point marked by the harness.
pub fn mark() {
    if ON.load(SeqCst) {
        preempt(P_MARK);
    }
}

fn yield_now() {
    if !ON.load(SeqCst) {
        return;
    }
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    if YIELDS.fetch_add(1, SeqCst) > 2_000_000 {
        quit(LIVELOCK);
    }
    let (v, k) = others(me);
    if k > 0 {
        switch_to(me, v[0]);
    }
}

unsafe fn futex(addr: usize, op: i64, val: i64, timeout: i64) -> i64 {
    let me = ME.with(|m| m.get());
    match op & 0x7f {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val as u32 {
                return -(libc::EAGAIN as i64);
            }
            {
                TH[me].st = St::Futex(addr, timeout != 0);
                TH[me].timed_out = false;
                WAITQ.push((addr, me));
                block(me);
                if TH[me].timed_out {
                    TH[me].timed_out = false;
                    return -(libc::ETIMEDOUT as i64);
                }
            }
            0
        }
        1 | 10 => {
            let mut n = 0;
            while n < val {
                match WAITQ.iter().position(|w| w.0 == addr) {
                    Some(i) => {
                        let (_, t) = WAITQ.remove(i);
                        TH[t].st = St::Enabled;
                        n += 1;
                    }
                    None => break,
                }
            }
            if n > 0 {
                preempt(P_WAKE);
            }
            n
        }
        _ => quit(HORIZON),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = if n == 202 && ON.load(SeqCst) && ME.with(|m| m.get()) != usize::MAX {
        futex(a as usize, b, c, d)
    } else {
        raw(n, a, b, c, d, e, f)
    };
    if (-4095..0).contains(&r) {
        crate::ip::set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ON.load(SeqCst) && ME.with(|m| m.get()) != usize::MAX {
        yield_now();
        0
    } else {
        raw(24, 0, 0, 0, 0, 0, 0) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
    if ON.load(SeqCst) && ME.with(|m| m.get()) != usize::MAX {
        yield_now();
        return 0;
    }
    let r = raw(35, a as i64, b as i64, 0, 0, 0, 0);
    if r < 0 {
        crate::ip::set_errno(-r as i32);
        -1
    } else {
        0
    }
}

type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Boot {
    id: usize,
    f: Start,
    arg: *mut u8,
}

extern "C" fn boot(p: *mut u8) -> *mut u8 {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    ME.with(|m| m.set(b.id));
    wait_baton(b.id);
    let r = (b.f)(b.arg);
    // finished: wake those who join it and hand the baton on
    unsafe {
        TH[b.id].st = St::Done;
        for t in 0..N.load(SeqCst) {
            if TH[t].st == St::Join(b.id) {
                TH[t].st = St::Enabled;
            }
        }
    }
    let t = next_after_block(b.id);
    ME.with(|m| m.set(usize::MAX));
    give_baton(t);
    r
}

unsafe fn real(name: &[u8]) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    assert!(!p.is_null());
    p
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut u64, attr: *const u8, f: Start, arg: *mut u8) -> i32 {
    type F = unsafe extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32;
    let g: F = std::mem::transmute(real(b"pthread_create\0"));
    if !ON.load(SeqCst) || ME.with(|m| m.get()) == usize::MAX {
        return g(out, attr, f, arg);
    }
    let id = N.load(SeqCst);
    assert!(id < MAXT, "too many threads");
    let b = Box::into_raw(Box::new(Boot { id, f, arg }));
    let r = g(out, attr, boot, b as *mut u8);
    if r == 0 {
        {
            TH[id].st = St::Enabled;
            TH[id].pthread = *out;
        }
        N.store(id + 1, SeqCst);
        share().threads.store(id + 1, SeqCst);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, ret: *mut *mut u8) -> i32 {
    type F = unsafe extern "C" fn(u64, *mut *mut u8) -> i32;
    let g: F = std::mem::transmute(real(b"pthread_join\0"));
    let me = ME.with(|m| m.get());
    if ON.load(SeqCst) && me != usize::MAX {
        for i in 0..N.load(SeqCst) {
            if TH[i].pthread == t && TH[i].st != St::Done {
                TH[me].st = St::Join(i);
                block(me);
                break;
            }
        }
    }
    g(t, ret)
}
