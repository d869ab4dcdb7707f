//! Stateless explicit-enumeration engine.
//!
//! A property is a list of scenarios.  A scenario is a program that asks the engine to resolve
//! nondeterministic choices (`Ctx::choose`) and drives the *real* merkletree code with them.  The
//! engine enumerates the complete choice tree of every scenario by depth-first backtracking
//! (re-execution from the start, no sampling), in forked worker processes, so that crashes and
//! hangs of the code under test are observed instead of ending the check.

use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        key: key.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail($key, format!($($arg)*));
        }
    };
}

/// What a call into the implementation did.
#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}

impl<T> Out<T> {
    /// The operation has to succeed.
    pub fn must(self, key: &str) -> Result<T, Fail> {
        match self {
            Out::Ok(v) => Ok(v),
            Out::Err(e) => fail(format!("{}:err", key), format!("{}: unexpected error: {}", key, e)),
            Out::Panic(e) => fail(
                format!("{}:panic", key),
                format!("{}: unexpected panic: {}", key, e),
            ),
        }
    }
    /// The operation has to report an error (neither success nor panic).
    pub fn must_err(self, key: &str) -> R {
        match self {
            Out::Ok(_) => fail(format!("{}:accepted", key), format!("{}: accepted", key)),
            Out::Err(_) => Ok(()),
            Out::Panic(e) => fail(
                format!("{}:panic", key),
                format!("{}: panicked instead of returning an error: {}", key, e),
            ),
        }
    }
    /// The operation must not succeed (error or panic).
    pub fn must_refuse(self, key: &str) -> R {
        match self {
            Out::Ok(_) => fail(format!("{}:accepted", key), format!("{}: accepted", key)),
            _ => Ok(()),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    LAST_PANIC
        .lock()
        .map(|s| s.clone())
        .unwrap_or_else(|_| "?".into())
}

pub fn call<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(format!("{:#}", e)),
        Err(_) => Out::Panic(last_panic()),
    }
}

pub fn h64(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = seed ^ 0x9E37_79B9_7F4A_7C15 ^ (bytes.len() as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        h = (h ^ v).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    h = (h ^ u64::from_le_bytes(last)).wrapping_mul(0x9FB2_1C65_1E98_DF25);
    h ^= h >> 32;
    h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    h ^ (h >> 29)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    prefix: Vec<u32>,
    rec: Vec<(u32, u32, String)>,
    /// scratch directory, emptied before every execution
    pub dir: PathBuf,
    states: HashSet<u64>,
    transitions: u64,
    notes: Vec<String>,
    slot: Option<&'static Slot>,
    scen_hash: u64,
    keep_notes: bool,
}

impl Ctx {
    /// Resolve a nondeterministic choice in `0..n`.
    pub fn choose(&mut self, label: &str, n: usize) -> usize {
        assert!(n > 0, "empty choice {}", label);
        let i = self.rec.len();
        let c = if i < self.prefix.len() {
            self.prefix[i]
        } else {
            0
        };
        assert!((c as usize) < n, "nondeterministic harness at {}", label);
        self.rec.push((c, n as u32, String::new()));
        if let Some(s) = self.slot {
            if i < MAXC {
                s.choices[i].store(c, SeqCst);
                s.nchoices.store(i + 1, SeqCst);
            }
        }
        if self.keep_notes {
            self.rec[i].2 = format!("{}={}", label, c);
        }
        c as usize
    }
    pub fn pick<T: Clone + std::fmt::Debug>(&mut self, label: &str, xs: &[T]) -> T {
        let i = self.choose(label, xs.len());
        if self.keep_notes {
            self.rec.last_mut().unwrap().2 = format!("{}={:?}", label, xs[i]);
        }
        xs[i].clone()
    }
    /// Count `n` operations executed on the implementation and judged by the oracle.
    pub fn op(&mut self, n: usize) {
        self.transitions += n as u64;
        if let Some(s) = self.slot {
            s.beat.store(now_ms(), SeqCst);
        }
    }
    /// Record an observed implementation state.
    pub fn state(&mut self, h: u64) {
        let k = h64(self.scen_hash, &h.to_le_bytes());
        self.states.insert(k);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.keep_notes {
            self.notes.push(f());
        }
    }
    /// The choices still prescribed for this execution.
    pub fn remaining(&self) -> Vec<u32> {
        self.prefix.get(self.rec.len()..).unwrap_or(&[]).to_vec()
    }
    /// Signal progress to the supervisor's hang detection.
    pub fn beat(&self) {
        if let Some(s) = self.slot {
            s.beat.store(now_ms(), SeqCst);
        }
    }
}

type Body = Box<dyn Fn(&mut Ctx) -> R>;

pub struct Scenario {
    pub name: String,
    pub run: Body,
}

pub struct Spec {
    pub property: &'static str,
    pub level: &'static str,
    pub technique: &'static str,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub scenarios: Vec<Scenario>,
    /// additional coverage entries measured at the end (key -> json)
    pub extra: Option<fn() -> Value>,
    pub workers: usize,
}

impl Spec {
    pub fn new(property: &'static str) -> Self {
        Spec {
            property,
            level: "model_checking",
            technique: "",
            bounds: vec![],
            assumptions: vec![],
            scenarios: vec![],
            extra: None,
            workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
        }
    }
    pub fn add(&mut self, name: impl Into<String>, run: impl Fn(&mut Ctx) -> R + 'static) {
        self.scenarios.push(Scenario {
            name: name.into(),
            run: Box::new(run),
        });
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
}

const MAXC: usize = 4096;
const MAXW: usize = 32;

#[repr(C)]
struct Slot {
    scenario: AtomicUsize,
    beat: AtomicU64,
    nchoices: AtomicUsize,
    choices: [AtomicU32; MAXC],
}

#[repr(C)]
struct Shared {
    next: AtomicUsize,
    stop: AtomicUsize,
    slots: [Slot; MAXW],
}

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

fn scratch_base(property: &str) -> PathBuf {
    let free = |p: &str| -> u64 {
        let c = std::ffi::CString::new(p).unwrap();
        unsafe {
            let mut s: libc::statvfs = std::mem::zeroed();
            if libc::statvfs(c.as_ptr(), &mut s) == 0 {
                s.f_bavail as u64 * s.f_frsize as u64
            } else {
                0
            }
        }
    };
    let root = if std::env::var_os("MC_SCRATCH").is_some() {
        PathBuf::from(std::env::var_os("MC_SCRATCH").unwrap())
    } else if free("/dev/shm") > (3 << 30) {
        PathBuf::from("/dev/shm")
    } else {
        PathBuf::from("/tmp")
    };
    for i in 0..1000 {
        let p = root.join(format!("mtmc-{}-{}-{}", property, std::process::id(), i));
        if fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    panic!("cannot create a scratch directory");
}

fn clean_dir(d: &Path) {
    if let Ok(rd) = fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = fs::remove_dir_all(&p);
            } else {
                let _ = fs::remove_file(&p);
            }
        }
    }
}

fn run_once(scen: &Scenario, ctx: &mut Ctx) -> R {
    clean_dir(&ctx.dir);
    ctx.rec.clear();
    ctx.notes.clear();
    if let Some(s) = ctx.slot {
        s.nchoices.store(0, SeqCst);
        s.beat.store(now_ms(), SeqCst);
    }
    match catch_unwind(AssertUnwindSafe(|| (scen.run)(ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            if m.contains("nondeterministic harness") {
                eprintln!("HARNESS ERROR: {}", m);
                std::process::exit(3);
            }
            fail("panic", format!("panic: {}", m))
        }
    }
}

fn next_prefix(rec: &[(u32, u32, String)]) -> Option<Vec<u32>> {
    let mut i = rec.len();
    while i > 0 {
        i -= 1;
        if rec[i].0 + 1 < rec[i].1 {
            let mut p: Vec<u32> = rec[..i].iter().map(|r| r.0).collect();
            p.push(rec[i].0 + 1);
            return Some(p);
        }
    }
    None
}

fn load_known(verif: &Path, property: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(verif.join("known_findings.jsonl")) {
        for l in s.lines().filter(|l| !l.trim().is_empty()) {
            let j: Value = match serde_json::from_str(l) {
                Ok(j) => j,
                Err(e) => {
                    eprintln!("known_findings.jsonl: {}", e);
                    std::process::exit(2);
                }
            };
            if j["status"] == "open" && j["property"] == property {
                v.push((
                    format!("{}|{}", j["scenario"].as_str().unwrap_or("*"), j["key"].as_str().unwrap_or("")),
                    j["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    v
}

fn is_known<'a>(known: &'a [(String, String)], scen: &str, f: &Fail) -> Option<&'a (String, String)> {
    let k = format!("{}|{}", scen, f.key);
    known.iter().find(|(n, _)| *n == k)
}

fn set_limits() {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 16 << 30,
            rlim_max: 16 << 30,
        };
        // private memory; files far larger than the memory may be mapped
        libc::setrlimit(libc::RLIMIT_DATA, &l);
        let l = libc::rlimit {
            rlim_cur: 4 << 40,
            rlim_max: 4 << 40,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} ({})", msg, loc);
        }
    }));
}

fn worker(spec: &Spec, tier: Tier, w: usize, sh: &'static Shared, base: &Path, known: &[(String, String)]) {
    let dir = base.join(format!("w{}", w));
    fs::create_dir_all(&dir).unwrap();
    let tmp = base.join(format!("t{}", w));
    fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    set_limits();
    install_hook();
    let slot = &sh.slots[w];
    let mut ctx = Ctx {
        tier,
        prefix: vec![],
        rec: vec![],
        dir,
        states: HashSet::new(),
        transitions: 0,
        notes: vec![],
        slot: Some(slot),
        scen_hash: 0,
        keep_notes: false,
    };
    let mut execs = 0u64;
    let mut maxdepth = 0usize;
    let mut done_scen = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut findings: Vec<Value> = vec![];
    let mut seen_known: HashSet<String> = HashSet::new();
    let mut scen_times: Vec<(u64, String)> = vec![];
    'outer: loop {
        let i = sh.next.fetch_add(1, SeqCst);
        if i >= spec.scenarios.len() || sh.stop.load(SeqCst) != 0 {
            break;
        }
        slot.scenario.store(i + 1, SeqCst);
        let scen = &spec.scenarios[i];
        ctx.scen_hash = h64(7, scen.name.as_bytes());
        ctx.prefix.clear();
        let t0 = now_ms();
        let mut first = true;
        loop {
            ctx.keep_notes = first && samples.len() < 2;
            let r = run_once(scen, &mut ctx);
            execs += 1;
            maxdepth = maxdepth.max(ctx.rec.len());
            if ctx.keep_notes {
                samples.push(json!({"scenario": scen.name,
                    "choices": ctx.rec.iter().map(|r| r.2.clone()).collect::<Vec<_>>(),
                    "observations": ctx.notes.iter().take(12).collect::<Vec<_>>(),
                    "verdict": if r.is_ok() {"held"} else {"failed"}}));
            }
            first = false;
            if let Err(f) = r {
                let choices: Vec<u32> = ctx.rec.iter().map(|r| r.0).collect();
                let k = is_known(known, &scen.name, &f).cloned();
                if let Some((k, what)) = k {
                    if seen_known.insert(k.clone()) {
                        findings.push(json!({"known": k, "what": what}));
                    }
                } else {
                    findings.push(json!({"scenario": scen.name, "choices": choices, "key": f.key, "msg": f.msg}));
                    sh.stop.store(1, SeqCst);
                    break 'outer;
                }
            }
            if sh.stop.load(SeqCst) != 0 {
                break 'outer;
            }
            match next_prefix(&ctx.rec) {
                Some(p) => ctx.prefix = p,
                None => break,
            }
        }
        done_scen += 1;
        scen_times.push((now_ms() - t0, scen.name.clone()));
        slot.scenario.store(0, SeqCst);
    }
    clean_dir(&ctx.dir);
    let mut sb: Vec<u8> = Vec::with_capacity(ctx.states.len() * 8);
    for s in &ctx.states {
        sb.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(base.join(format!("states{}", w)), &sb).unwrap();
    scen_times.sort();
    scen_times.reverse();
    scen_times.truncate(8);
    let extra = spec.extra.map(|f| f()).unwrap_or(Value::Null);
    let j = json!({"execs": execs, "transitions": ctx.transitions, "maxdepth": maxdepth, "done": done_scen,
        "samples": samples, "findings": findings, "extra": extra, "slow": scen_times});
    fs::write(base.join(format!("out{}", w)), serde_json::to_vec(&j).unwrap()).unwrap();
}

fn write_replay(verif: &Path, spec: &Spec, tier: Tier, scen: &str, choices: &[u32], key: &str, msg: &str) -> PathBuf {
    let d = verif.join("replays");
    let _ = fs::create_dir_all(&d);
    let h = h64(1, format!("{}{:?}", scen, choices).as_bytes());
    let p = d.join(format!("{}-{:016x}.json", spec.property, h));
    let j = json!({"property": spec.property, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "scenario": scen, "choices": choices, "key": key, "msg": msg});
    let _ = fs::write(&p, serde_json::to_vec_pretty(&j).unwrap());
    p
}

pub fn main(build: fn(Tier) -> Spec) {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> Option<String> {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned())
    };
    let verif = PathBuf::from(get("--verif").unwrap_or_else(|| "/verif".into()));
    let tier = match get("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .as_deref()
    {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if let Some(f) = get("--replay") {
        let j: Value = serde_json::from_slice(&fs::read(&f).expect("replay file")).expect("replay json");
        let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let spec = build(tier);
        let scen = spec
            .scenarios
            .iter()
            .find(|s| s.name == j["scenario"].as_str().unwrap_or(""))
            .expect("scenario of the replay file");
        let base = scratch_base(spec.property);
        let dir = base.join("w0");
        fs::create_dir_all(&dir).unwrap();
        std::env::set_var("TMPDIR", &base);
        install_hook();
        let choices: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect();
        // Run in a child so that a crash of the code under test is reported too.
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            set_limits();
            let mut ctx = Ctx {
                tier, prefix: choices, rec: vec![], dir, states: HashSet::new(), transitions: 0,
                notes: vec![], slot: None, scen_hash: 0, keep_notes: true,
            };
            let r = run_once(scen, &mut ctx);
            println!("scenario {}", scen.name);
            for r in &ctx.rec {
                println!("  choice {}", r.2);
            }
            for n in &ctx.notes {
                println!("  {}", n);
            }
            match r {
                Ok(()) => println!("held"),
                Err(f) => {
                    println!("FAILED [{}] {}", f.key, f.msg);
                    std::process::exit(1)
                }
            }
            std::process::exit(0);
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let _ = fs::remove_dir_all(&base);
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else {
            println!("killed by signal {}", libc::WTERMSIG(st));
            1
        };
        if code == 1 {
            println!("VIOLATION property={} replay={}", spec.property, f);
        }
        std::process::exit(code);
    }

    let mut spec = build(tier);
    if let Some(o) = get("--only") {
        spec.scenarios.retain(|s| s.name.contains(&o));
    }
    if args.iter().any(|a| a == "--list") {
        for s in &spec.scenarios {
            println!("{}", s.name);
        }
        return;
    }
    {
        let mut names = HashSet::new();
        for s in &spec.scenarios {
            assert!(names.insert(s.name.clone()), "duplicate scenario {}", s.name);
        }
    }
    let known = load_known(&verif, spec.property);
    let base = scratch_base(spec.property);
    let sh = shared();
    let nw = spec.workers.min(spec.scenarios.len().max(1)).min(MAXW);
    if std::env::var_os("RAYON_NUM_THREADS").is_none() {
        std::env::set_var("RAYON_NUM_THREADS", "3");
    }
    let mut pids = vec![];
    for w in 0..nw {
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            worker(&spec, tier, w, sh, &base, &known);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    // Supervise.
    let hang_ms: u64 = std::env::var("MC_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(240_000);
    let mut alive: Vec<bool> = vec![true; nw];
    let mut deaths: Vec<(usize, String)> = vec![];
    let mut harness_error = false;
    while alive.iter().any(|a| *a) {
        for w in 0..nw {
            if !alive[w] {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            if r == pids[w] {
                alive[w] = false;
                if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    if s == libc::SIGKILL {
                        // not something the code under test does to itself
                        harness_error = true;
                        eprintln!("worker {} was killed from outside", w);
                    } else {
                        deaths.push((w, format!("crash: the process died from signal {}", s)));
                    }
                    sh.stop.store(1, SeqCst);
                } else if libc::WEXITSTATUS(st) == 3 {
                    harness_error = true;
                    sh.stop.store(1, SeqCst);
                } else if libc::WEXITSTATUS(st) != 0 {
                    deaths.push((w, format!("crash: the process exited with {}", libc::WEXITSTATUS(st))));
                    sh.stop.store(1, SeqCst);
                }
                continue;
            }
            let b = sh.slots[w].beat.load(SeqCst);
            if sh.slots[w].scenario.load(SeqCst) != 0 && b != 0 && now_ms().saturating_sub(b) > hang_ms {
                unsafe {
                    libc::kill(pids[w], libc::SIGKILL);
                    libc::waitpid(pids[w], &mut st, 0);
                }
                alive[w] = false;
                deaths.push((w, format!("hang: no progress for {} s", hang_ms / 1000)));
                sh.stop.store(1, SeqCst);
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    // Collect.
    let mut states: HashSet<u64> = HashSet::new();
    let (mut execs, mut trans, mut done, mut maxdepth) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut violations: Vec<(String, Vec<u32>, String, String)> = vec![];
    let mut known_hit: Vec<String> = vec![];
    let mut extra = serde_json::Map::new();
    let mut slow: Vec<(u64, String)> = vec![];
    for w in 0..nw {
        if let Ok(b) = fs::read(base.join(format!("states{}", w))) {
            for c in b.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Ok(b) = fs::read(base.join(format!("out{}", w))) {
            let j: Value = serde_json::from_slice(&b).unwrap();
            execs += j["execs"].as_u64().unwrap();
            trans += j["transitions"].as_u64().unwrap();
            done += j["done"].as_u64().unwrap();
            maxdepth = maxdepth.max(j["maxdepth"].as_u64().unwrap());
            if samples.len() < 4 {
                samples.extend(j["samples"].as_array().unwrap().iter().take(1).cloned());
            }
            for s in j["slow"].as_array().unwrap() {
                slow.push((s[0].as_u64().unwrap(), s[1].as_str().unwrap().to_string()));
            }
            for f in j["findings"].as_array().unwrap() {
                if f["known"].is_string() {
                    let s = f["what"].as_str().unwrap().to_string();
                    if !known_hit.contains(&s) {
                        known_hit.push(s);
                    }
                } else {
                    violations.push((
                        f["scenario"].as_str().unwrap().into(),
                        f["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect(),
                        f["key"].as_str().unwrap().into(),
                        f["msg"].as_str().unwrap().into(),
                    ));
                }
            }
            if let Some(o) = j["extra"].as_object() {
                for (k, v) in o {
                    match (v.as_u64(), extra.get(k).and_then(|x: &Value| x.as_u64())) {
                        (Some(a), Some(b)) => {
                            extra.insert(k.clone(), json!(a + b));
                        }
                        _ => {
                            extra.insert(k.clone(), v.clone());
                        }
                    }
                }
            }
        }
    }
    for (w, why) in deaths {
        let sl = &sh.slots[w];
        let si = sl.scenario.load(SeqCst);
        if si == 0 {
            harness_error = true;
            eprintln!("worker {} died outside of a scenario: {}", w, why);
            continue;
        }
        let n = sl.nchoices.load(SeqCst);
        let ch: Vec<u32> = (0..n).map(|i| sl.choices[i].load(SeqCst)).collect();
        let name = spec.scenarios[si - 1].name.clone();
        let f = Fail { key: if why.starts_with("hang") { "hang".into() } else { "crash".into() }, msg: why };
        violations.push((name, ch, f.key, f.msg));
    }
    let _ = fs::remove_dir_all(&base);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let wall = t0.elapsed().as_secs_f64();
    let complete = done as usize == spec.scenarios.len() && violations.is_empty() && !harness_error;
    let mut cov = serde_json::Map::new();
    cov.insert("states".into(), json!(states.len()));
    cov.insert("transitions".into(), json!(trans));
    cov.insert("traces_validated_against_impl".into(), json!(execs));
    cov.insert("exhaustive".into(), json!(complete));
    cov.insert("scenarios".into(), json!(done));
    cov.insert("max_choice_depth".into(), json!(maxdepth));
    cov.insert("samples".into(), json!(samples));
    cov.insert("bounds".into(), json!(spec.bounds));
    if spec.level != "model_checking" {
        cov.insert("evaluations".into(), json!(execs));
        cov.insert("distinct_nontrivial".into(), json!(states.len()));
        cov.insert("rule".into(), json!(spec.technique));
    }
    for (k, v) in extra {
        cov.insert(k, v);
    }
    let ev = json!({
        "property": spec.property,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": spec.level,
        "coverage": Value::Object(cov),
        "assumptions": spec.assumptions,
        "wall_s": wall,
        "violations": violations.len(),
    });
    let evdir = verif.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if get("--only").is_none() {
        fs::write(evdir.join(format!("{}.json", spec.property)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    }
    println!(
        "{} [{}]: {} scenarios of {}, {} executions, {} transitions, {} distinct states, depth {}, {:.1} s",
        spec.property,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        done, spec.scenarios.len(), execs, trans, states.len(), maxdepth, wall
    );
    if std::env::var_os("MC_SLOW").is_some() {
        slow.sort();
        for s in slow.iter().rev().take(12) {
            println!("  {} ms {}", s.0, s.1);
        }
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", spec.property, k);
    }
    if !violations.is_empty() {
        for (scen, ch, key, msg) in &violations {
            let p = write_replay(&verif, &spec, tier, scen, ch, key, msg);
            println!("  failed: {} {:?}: [{}] {}", scen, ch, key, msg.chars().take(2000).collect::<String>());
            println!("VIOLATION property={} replay={}", spec.property, p.display());
        }
        std::process::exit(1);
    }
    if harness_error || done as usize != spec.scenarios.len() {
        println!("harness error: incomplete run");
        std::process::exit(2);
    }
    std::process::exit(0);
}
