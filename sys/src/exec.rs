//! One execution under the controlled scheduler, in a process of its own, as part of an exploration.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use crate::sched::{self, share};
use mc::*;

pub static POINTS: AtomicU64 = AtomicU64::new(0);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static MAXTHREADS: AtomicU64 = AtomicU64::new(0);

/// Run `body` under the schedule that the explorer chooses.  The body calls `sched::explore` when
/// its set-up is done.
pub fn controlled(ctx: &mut Ctx, threads: usize, body: impl FnOnce() -> R) -> R {
    let s = share();
    let slot: usize = ctx.dir.file_name().and_then(|n| n.to_str()).and_then(|n| n[1..].parse().ok()).unwrap_or(0);
    let pre = ctx.remaining();
    let n = pre.len().min(sched::MAXREC);
    for (i, c) in pre.iter().take(n).enumerate() {
        s.prefix[i].store(*c, SeqCst);
    }
    s.nprefix.store(n, SeqCst);
    for a in [&s.nrec, &s.switches, &s.points, &s.threads, &s.trace, &s.msglen] {
        a.store(0, SeqCst);
    }
    s.status.store(0, SeqCst);
    let r = in_child(move || {
        std::env::set_var("RAYON_NUM_THREADS", threads.to_string());
        unsafe {
            libc::alarm(60);
            // one thread runs at a time: let them all run on one processor
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
                if !cpus.is_empty() {
                    let mut one: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(cpus[slot % cpus.len()], &mut one);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                }
            }
        }
        sched::start();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        sched::quiet();
        let (k, m) = match r {
            Ok(Ok(())) => return 0,
            Ok(Err(f)) => (f.key, f.msg),
            Err(_) => ("panic".to_string(), format!("panic: {}", last_panic())),
        };
        let b = format!("{}\n{}", k, m);
        let s = share();
        for (i, c) in b.bytes().take(4096).enumerate() {
            s.msg[i].store(c, SeqCst);
        }
        s.msglen.store(b.len().min(4096), SeqCst);
        1
    });
    POINTS.fetch_add(s.points.load(SeqCst) as u64, SeqCst);
    SWITCHES.fetch_add(s.switches.load(SeqCst) as u64, SeqCst);
    MAXTHREADS.fetch_max(s.threads.load(SeqCst) as u64, SeqCst);
    // hand the choices that were made to the explorer
    for i in 0..s.nrec.load(SeqCst) {
        let (c, n) = (s.rec[i].load(SeqCst) as usize, s.of[i].load(SeqCst) as usize);
        let d = ctx.choose("schedule", n);
        assert!(c == d, "nondeterministic harness: schedule replay");
    }
    ctx.op(1 + s.points.load(SeqCst));
    ctx.state(s.trace.load(SeqCst) as u64);
    match s.status.load(SeqCst) {
        sched::DEADLOCK => return fail("deadlock", format!("deadlock after {} scheduling choices", s.nrec.load(SeqCst))),
        sched::LIVELOCK => return fail("livelock", "no progress: the threads only yield".to_string()),
        sched::DIVERGED => panic!("nondeterministic harness: the execution diverged from its prefix"),
        sched::HORIZON => panic!("nondeterministic harness: horizon"),
        _ => {}
    }
    match r {
        Ok(0) => Ok(()),
        Ok(1) => {
            let b: Vec<u8> = (0..s.msglen.load(SeqCst)).map(|i| s.msg[i].load(SeqCst)).collect();
            let t = String::from_utf8_lossy(&b).to_string();
            let mut it = t.splitn(2, '\n');
            let k = it.next().unwrap_or("?").to_string();
            fail(k, it.next().unwrap_or("?").to_string())
        }
        Ok(c) => fail("crash", format!("the process exited with {}", c)),
        Err(s) if s == libc::SIGALRM => fail("hang", "the execution does not end".to_string()),
        Err(s) => fail("crash", format!("the process died from signal {}", s)),
    }
}
