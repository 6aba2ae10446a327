//! A small explicit-choice model checker that drives the real `image` crate.
//!
//! A *harness* is a closure over a chooser [`Ch`].  Every source of nondeterminism of the closed
//! system (which operation, which argument out of a finite alphabet, how the environment answers a
//! read, where a work-stealing split happens ...) is a call of [`Ch::pick`].  [`Check::explore`]
//! enumerates *every* sequence of choices: it runs the closure with a prefix, takes choice 0 at
//! every later point, and schedules each untaken alternative as a new prefix, so that every
//! complete execution is run exactly once.  Nothing is sampled.
//!
//! The process supervises itself: the exploration runs in a child, every worker publishes the
//! choices of the execution in flight in a shared mapping, and a child that dies (abort, stack
//! overflow, allocation beyond the cap) or hangs is turned into a violation of the execution that
//! is shown, by replaying it alone, to be responsible.
#![allow(clippy::all)]

pub mod codec;
pub mod corpus;
pub mod forge;
pub mod io;
pub mod paths;
pub mod samples;
pub mod writers;
pub mod jpegforge;
pub mod jpegmodel;
pub mod resample;
pub mod util;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub use util::*;

// ------------------------------------------------------------------------------------------------
// Allocation accounting (per thread) and a process-wide cap.
// ------------------------------------------------------------------------------------------------

pub struct Alloc;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
static TOTAL: AtomicUsize = AtomicUsize::new(0);
/// The whole process may hold at most this much; beyond it allocation fails, which aborts.
const PROCESS_CAP: usize = 6 << 30;

fn note(delta: i64, size: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + delta;
        c.set(v);
        if delta > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = BIGGEST.try_with(|b| {
                if size > b.get() {
                    b.set(size)
                }
            });
        }
    });
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TOTAL.fetch_add(l.size(), Relaxed) + l.size() > PROCESS_CAP {
            TOTAL.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if TOTAL.fetch_add(l.size(), Relaxed) + l.size() > PROCESS_CAP {
            TOTAL.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        TOTAL.fetch_sub(l.size(), Relaxed);
        note(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && TOTAL.fetch_add(n - l.size(), Relaxed) + (n - l.size()) > PROCESS_CAP {
            TOTAL.fetch_sub(n - l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        if n < l.size() {
            TOTAL.fetch_sub(l.size() - n, Relaxed);
        }
        note(n as i64 - l.size() as i64, n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// Runs `f` and returns its result with the peak of bytes this thread held on top of what it held
/// at the start, and the largest single request.
pub fn alloc_scope<T>(f: impl FnOnce() -> T) -> (T, u64, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    BIGGEST.with(|b| b.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, peak.max(0) as u64, BIGGEST.with(|b| b.get()))
}

// ------------------------------------------------------------------------------------------------
// Panics
// ------------------------------------------------------------------------------------------------

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static SHOW_PANICS: AtomicBool = AtomicBool::new(false);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if SHOW_PANICS.load(Relaxed) {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`; a panic becomes `Err("panic: <message> @ <file:line>")`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let l = l.strip_prefix("/repo/").unwrap_or(&l).to_string();
            Err(format!("panic: {m} @ {l}"))
        }
    }
}

// ------------------------------------------------------------------------------------------------
// The chooser
// ------------------------------------------------------------------------------------------------

/// A property violation: `key` identifies the failing input, call site or history (it is what
/// known findings are matched by), `msg` explains it.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
impl Viol {
    pub fn new(key: impl Into<String>, msg: impl Into<String>) -> Viol {
        Viol { key: key.into(), msg: msg.into() }
    }
    pub fn prefix(mut self, p: &str) -> Viol {
        self.msg = format!("{p}: {}", self.msg);
        self
    }
}
impl From<String> for Viol {
    fn from(m: String) -> Self {
        Viol { key: String::new(), msg: m }
    }
}
impl From<&str> for Viol {
    fn from(m: &str) -> Self {
        Viol { key: String::new(), msg: m.into() }
    }
}
pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}
pub type Res = Result<(), Viol>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Viol::from(format!($($a)*))); } };
}
/// As `ensure!` with the key of the violation.
#[macro_export]
macro_rules! need {
    ($c:expr, $k:expr, $($a:tt)*) => { if !($c) { return Err($crate::Viol { key: ($k).into(), msg: format!($($a)*) }); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($r:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Viol::from(format!("{}: got {}, expected {}", format!($($r)*), $crate::short(&format!("{:?}", a)), $crate::short(&format!("{:?}", b))))); }
    }};
}

pub fn short(s: &str) -> String {
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...[{} chars]", &s[..k], s.len())
    } else {
        s.to_string()
    }
}

const SLOT_WORDS: usize = 4096;
const SLOTS: usize = 33;

struct Shared(*mut u32);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
fn map_shared(path: &str) -> Shared {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .open(path)
        .expect("shared file");
    f.set_len((SLOTS * SLOT_WORDS * 4) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_WORDS * 4, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    Shared(p as *mut u32)
}

/// One execution's chooser and recorder.
pub struct Ch<'a> {
    prefix: &'a [u32],
    trace: Vec<(u32, u32)>,
    slot: *mut u32,
    states: &'a mut HashSet<u64>,
    outcomes: &'a mut HashSet<u64>,
    steps: u64,
    want_sample: bool,
    sample: Option<String>,
    nontrivial: bool,
    validated: u64,
    pub quick: bool,
}
impl<'a> Ch<'a> {
    /// A choice among `n` alternatives; 0 is the default.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "choice point without alternatives");
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("MC-DIVERGENCE: choice {c} of {n} at point {i}");
        }
        self.trace.push((c, n as u32));
        if !self.slot.is_null() && i + 3 < SLOT_WORDS {
            unsafe {
                std::ptr::write_volatile(self.slot.add(i + 3), c);
                std::ptr::write_volatile(self.slot.add(1), i as u32 + 1);
            }
        }
        c as usize
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// An inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.pick((hi - lo + 1) as usize) as i64
    }
    /// A model/implementation state reached (hash of a canonical form), after a transition.
    pub fn state(&mut self, h: u64) {
        self.steps += 1;
        if self.states.len() < 2_000_000 {
            self.states.insert(h);
        }
    }
    /// A transition whose state is not recorded separately.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
    /// What this execution observed, for counting distinct outcomes.
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(h);
        }
    }
    /// The execution compared the implementation with the model/oracle in a non-trivial way.
    pub fn validated(&mut self) {
        self.nontrivial = true;
        self.validated += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(short(&f()));
        }
    }
}

// ------------------------------------------------------------------------------------------------
// The check
// ------------------------------------------------------------------------------------------------

#[derive(Default, Clone)]
struct Part {
    name: String,
    executions: u64,
    nontrivial: u64,
    validated: u64,
    points: u64,
    transitions: u64,
    states: u64,
    outcomes: u64,
    exhausted: bool,
    wall: f64,
    bound: String,
}

struct Queue {
    items: Vec<Vec<u32>>,
    active: usize,
    stop: bool,
}

pub struct Check {
    pub id: &'static str,
    level: &'static str,
    rule: &'static str,
    pub quick: bool,
    seed: u64,
    /// Lists one violation per key and goes on; for working on a check only.
    triage: bool,
    t0: Instant,
    parts: Vec<Part>,
    samples: Vec<String>,
    viols: Vec<(String, Vec<u32>, Viol)>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    replay: Option<(String, Vec<u32>)>,
    replayed: bool,
    shared: Option<Shared>,
    budget: Duration,
    assumptions: Vec<String>,
    part_filter: Option<String>,
    hang_s: u64,
}

fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Known findings: /verif/known_findings.jsonl, lines `{"property": "C..", "key": "..", "what": ".."}`;
/// lines with "status": "fixed" suppress nothing.
fn load_known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.jsonl", verif_dir())).unwrap_or_default();
    let field = |l: &str, k: &str| -> Option<String> {
        let i = l.find(&format!("\"{k}\""))?;
        let r = &l[i + k.len() + 2..];
        let r = &r[r.find('"')? + 1..];
        let mut out = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '\\' => out.push(it.next()?),
                '"' => return Some(out),
                c => out.push(c),
            }
        }
        None
    };
    text.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .filter(|l| field(l, "property").as_deref() == Some(id))
        .filter(|l| field(l, "status").as_deref() == Some("known"))
        .filter_map(|l| Some((field(l, "key")?, field(l, "what")?)))
        .collect()
}

fn save_replay(id: &str, part: &str, choices: &[u32], v: &Viol) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let h = hash_of(&(part, choices));
    let path = format!("{dir}/{id}-{:08x}.replay", h as u32);
    let body = format!(
        "part {part}\nchoices {}\nkey {}\nwhat {}\n# replay: /verif/run.sh {id} --replay {path}\n",
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
        v.key.replace('\n', " "),
        v.msg.replace('\n', " ")
    );
    let _ = std::fs::write(&path, body);
    path
}

fn read_replay(path: &str) -> (String, Vec<u32>) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut part = String::new();
    let mut choices = vec![];
    for l in t.lines() {
        if let Some(p) = l.strip_prefix("part ") {
            part = p.to_string();
        }
        if let Some(p) = l.strip_prefix("choices") {
            choices = p.split_whitespace().map(|x| x.parse().unwrap()).collect();
        }
    }
    (part, choices)
}

impl Check {
    /// `level` as in the evidence schema.  `rule`: what one execution is and what makes it count.
    pub fn start(id: &'static str, level: &'static str, rule: &'static str) -> Check {
        let args: Vec<String> = std::env::args().collect();
        let quick = std::env::var("VERIF_TIER").map(|t| t != "thorough").unwrap_or(true);
        let mut replay = None;
        let mut part_filter = None;
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "--replay" => {
                    replay = Some(read_replay(&args[i + 1]));
                    i += 1;
                }
                "--part" => {
                    part_filter = Some(args[i + 1].clone());
                    i += 1;
                }
                a => panic!("unknown argument {a}"),
            }
            i += 1;
        }
        let shm = format!("{}/evidence/.{id}.shm", verif_dir());
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let supervised = std::env::var("MC_CHILD").is_ok();
        if !supervised && std::env::var("MC_NOFORK").is_err() {
            supervise(id, &shm, &args);
        }
        install_hook();
        if replay.is_some() {
            SHOW_PANICS.store(true, Relaxed);
        }
        let shared = if supervised { Some(map_shared(&shm)) } else { None };
        Check {
            id,
            level,
            rule,
            quick,
            triage: std::env::var("MC_TRIAGE").is_ok(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            t0: Instant::now(),
            parts: vec![],
            samples: vec![],
            viols: vec![],
            known: load_known(id),
            known_hit: BTreeMap::new(),
            replay,
            replayed: false,
            shared,
            budget: Duration::from_secs(if quick { 420 } else { 5400 }),
            assumptions: vec![],
            part_filter,
            hang_s: 120,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// Seconds one execution may take before it counts as non-terminating.
    pub fn hang_after(&mut self, s: u64) {
        self.hang_s = s;
    }

    fn run_one<F>(&self, f: &F, prefix: &[u32], states: &mut HashSet<u64>, outcomes: &mut HashSet<u64>, slot: *mut u32, want_sample: bool) -> (Vec<(u32, u32)>, Res, u64, Option<String>, u64)
    where
        F: Fn(&mut Ch) -> Res,
    {
        let mut ch = Ch {
            prefix,
            trace: Vec::with_capacity(16),
            slot,
            states,
            outcomes,
            steps: 0,
            want_sample,
            sample: None,
            nontrivial: false,
            validated: 0,
            quick: self.quick,
        };
        let r = match catch_unwind(AssertUnwindSafe(|| f(&mut ch))) {
            Ok(r) => r,
            Err(_) => {
                let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if m.contains("MC-DIVERGENCE") {
                    eprintln!("engine error: {m}");
                    std::process::exit(3);
                }
                let l = l.strip_prefix("/repo/").unwrap_or(&l).to_string();
                Err(Viol { key: format!("panic@{l}"), msg: format!("panic: {m} @ {l}") })
            }
        };
        (std::mem::take(&mut ch.trace), r, ch.steps, ch.sample, if ch.nontrivial { ch.validated.max(1) } else { 0 })
    }

    /// Explores every execution of `f`.  `bound` says in words what the bound is.
    pub fn explore<F>(&mut self, name: &str, bound: &str, f: F)
    where
        F: Fn(&mut Ch) -> Res + Sync,
    {
        if let Some(p) = &self.part_filter {
            if !name.contains(p.as_str()) {
                return;
            }
        }
        if let Some((p, choices)) = self.replay.clone() {
            if p == name {
                let slot = self.shared.as_ref().map(|s| s.0).unwrap_or(std::ptr::null_mut());
                let (_, r, _, s, _) = self.run_one(&f, &choices, &mut HashSet::new(), &mut HashSet::new(), slot, true);
                self.replayed = true;
                if let Some(s) = s {
                    println!("case: {s}");
                }
                match r {
                    Ok(()) => println!("replay of {name}: holds"),
                    Err(v) => {
                        println!("replay of {name}: key={} {}", v.key, v.msg);
                        self.viols.push((name.to_string(), choices, v));
                    }
                }
            }
            return;
        }
        if self.viols.len() >= 4 {
            return;
        }
        let t = Instant::now();
        let q = Mutex::new(Queue { items: vec![vec![]], active: 0, stop: false });
        let cv = Condvar::new();
        let part = Mutex::new(Part { name: name.into(), bound: bound.into(), exhausted: true, ..Part::default() });
        let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
        let found: Mutex<Vec<(Vec<u32>, Viol)>> = Mutex::new(vec![]);
        let all_states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let all_outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let knownhits: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let execs = AtomicU64::new(0);
        let nthreads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).min(SLOTS - 1);
        let deadline = self.t0 + self.budget;
        let this = &*self;
        let shared = self.shared.as_ref();
        if let Some(s) = shared {
            // Publish the part's name in slot 32, for the supervisor.
            let b = name.as_bytes();
            unsafe {
                let p = s.0.add((SLOTS - 1) * SLOT_WORDS);
                std::ptr::write_volatile(p, b.len() as u32);
                std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(1) as *mut u8, b.len());
            }
        }
        let started: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
        let done = AtomicBool::new(false);
        let epoch = Instant::now();
        std::thread::scope(|sc| {
            // Watchdog
            let (started, done) = (&started, &done);
            sc.spawn(move || {
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = epoch.elapsed().as_millis() as u64;
                    for (w, s) in started.iter().enumerate() {
                        let s = s.load(Relaxed);
                        if s != 0 && now > s + this.hang_s * 1000 {
                            if let Some(sh) = shared {
                                unsafe { std::ptr::write_volatile(sh.0.add(w * SLOT_WORDS), 2) };
                            }
                            eprintln!("execution of worker {w} did not terminate within {} s", this.hang_s);
                            std::process::exit(97);
                        }
                    }
                }
            });
            let mut hs = vec![];
            for w in 0..nthreads {
                let (q, cv, part, samples, found, all_states, all_outcomes, execs, f, knownhits) =
                    (&q, &cv, &part, &samples, &found, &all_states, &all_outcomes, &execs, &f, &knownhits);
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let slot = shared.map(|s| unsafe { s.0.add(w * SLOT_WORDS) }).unwrap_or(std::ptr::null_mut());
                    let mut states = HashSet::new();
                    let mut outcomes = HashSet::new();
                    let mut local = Part::default();
                    let mut stack: Vec<Vec<u32>> = vec![];
                    loop {
                        let prefix = match stack.pop() {
                            Some(p) => p,
                            None => {
                                let mut g = q.lock().unwrap();
                                loop {
                                    if g.stop {
                                        break;
                                    }
                                    if !g.items.is_empty() || g.active == 0 {
                                        break;
                                    }
                                    g = cv.wait(g).unwrap();
                                }
                                if g.stop || g.items.is_empty() {
                                    cv.notify_all();
                                    break;
                                }
                                g.active += 1;
                                let take = (g.items.len() / (2 * nthreads)).max(1);
                                // Take from the front: shallow alternatives are the big subtrees.
                                let rest = g.items.split_off(take);
                                stack = std::mem::replace(&mut g.items, rest);
                                stack.pop().unwrap()
                            }
                        };
                        if Instant::now() > deadline {
                            let mut g = q.lock().unwrap();
                            g.stop = true;
                            part.lock().unwrap().exhausted = false;
                            cv.notify_all();
                            break;
                        }
                        let n = execs.fetch_add(1, Relaxed);
                        let want = n < 2 || (n.is_power_of_two() && n.trailing_zeros() % 3 == 0);
                        if !slot.is_null() {
                            unsafe {
                                std::ptr::write_volatile(slot.add(1), 0);
                                for (i, c) in prefix.iter().enumerate().take(SLOT_WORDS - 3) {
                                    std::ptr::write_volatile(slot.add(3 + i), *c);
                                }
                                std::ptr::write_volatile(slot.add(2), prefix.len() as u32);
                                std::ptr::write_volatile(slot, 1);
                            }
                        }
                        started[w].store((epoch.elapsed().as_millis() as u64).max(1), Relaxed);
                        let (trace, r, steps, sample, validated) = this.run_one(f, &prefix, &mut states, &mut outcomes, slot, want);
                        started[w].store(0, Relaxed);
                        if !slot.is_null() {
                            unsafe { std::ptr::write_volatile(slot, 0) };
                        }
                        local.executions += 1;
                        local.points += trace.len() as u64;
                        local.transitions += steps;
                        local.validated += validated;
                        if validated > 0 {
                            local.nontrivial += 1;
                        }
                        if let Some(s) = sample {
                            let mut g = samples.lock().unwrap();
                            if g.len() < 6 {
                                g.push(s);
                            }
                        }
                        if trace.len() < prefix.len() {
                            eprintln!("engine error: execution used {} of {} replayed choices", trace.len(), prefix.len());
                            std::process::exit(3);
                        }
                        if let Err(v) = r {
                            let choices: Vec<u32> = trace.iter().map(|t| t.0).collect();
                            if let Some((k, w)) = this.known.iter().find(|(k, _)| *k == v.key && !k.is_empty()) {
                                knownhits.lock().unwrap().insert(k.clone(), w.clone());
                            } else if this.triage {
                                let mut g = knownhits.lock().unwrap();
                                if !g.contains_key(&v.key) {
                                    eprintln!("TRIAGE {}: key={} {} {choices:?}", name, v.key, v.msg);
                                    g.insert(v.key.clone(), v.msg.clone());
                                }
                            } else {
                                let mut g = found.lock().unwrap();
                                if g.len() < 64 {
                                    g.push((choices, v));
                                }
                                if g.len() >= 16 {
                                    q.lock().unwrap().stop = true;
                                    cv.notify_all();
                                    break;
                                }
                            }
                        }
                        // Alternatives, deepest first on the stack so that the local order is DFS.
                        for i in prefix.len()..trace.len() {
                            for alt in (1..trace[i].1).rev() {
                                let mut p: Vec<u32> = trace[..i].iter().map(|t| t.0).collect();
                                p.push(alt);
                                stack.push(p);
                            }
                        }
                        // Share work.
                        if stack.len() > 1 {
                            let mut g = q.lock().unwrap();
                            if g.stop {
                                break;
                            }
                            if g.items.len() < 4 * nthreads {
                                let k = stack.len() / 2;
                                let rest = stack.split_off(k);
                                g.items.extend(stack.drain(..));
                                stack = rest;
                                cv.notify_all();
                            }
                        }
                        if stack.is_empty() {
                            let mut g = q.lock().unwrap();
                            g.active -= 1;
                            cv.notify_all();
                        }
                    }
                    let mut p = part.lock().unwrap();
                    p.executions += local.executions;
                    p.points += local.points;
                    p.transitions += local.transitions;
                    p.validated += local.validated;
                    p.nontrivial += local.nontrivial;
                    drop(p);
                    all_states.lock().unwrap().extend(states);
                    all_outcomes.lock().unwrap().extend(outcomes);
                }).unwrap();
                hs.push(h);
            }
            for h in hs {
                if h.join().is_err() {
                    eprintln!("engine error: worker panicked");
                    std::process::exit(3);
                }
            }
            done.store(true, Relaxed);
        });
        let mut part = part.into_inner().unwrap();
        part.outcomes = all_outcomes.lock().unwrap().len() as u64;
        // A harness that reports no intermediate states has its distinct final outcomes as states, and its choices as transitions.
        part.states = (all_states.lock().unwrap().len() as u64).max(part.outcomes);
        if part.transitions == 0 {
            part.transitions = part.points;
        }
        part.wall = t.elapsed().as_secs_f64();
        for s in samples.into_inner().unwrap().into_iter().take(3) {
            self.samples.push(format!("{name}: {s}"));
        }
        for (k, w) in knownhits.into_inner().unwrap() {
            self.known_hit.insert(k, w);
        }
        // Distinct failures only, shortest first; each is confirmed by replaying it.
        let mut found = found.into_inner().unwrap();
        if !found.is_empty() {
            part.exhausted = false;
        }
        found.sort_by_key(|(c, _)| (c.len(), c.clone()));
        let mut seen = HashSet::new();
        for (c, v) in found {
            let k = if v.key.is_empty() { v.msg.chars().take(40).collect::<String>() } else { v.key.clone() };
            if !seen.insert(k) || seen.len() > 4 {
                continue;
            }
            let (_, r, _, s, _) = self.run_one(&f, &c, &mut HashSet::new(), &mut HashSet::new(), std::ptr::null_mut(), true);
            match r {
                Err(_) => {
                    let mut v = v;
                    if let Some(s) = s {
                        v.msg = format!("{} [case: {s}]", v.msg);
                    }
                    self.viols.push((name.to_string(), c, v));
                }
                Ok(()) => {
                    eprintln!("engine error: {name} {c:?}: {} did not reproduce on replay", v.msg);
                    std::process::exit(3);
                }
            }
        }
        eprintln!(
            "  {name}: {} executions, {} transitions, {} states, {} outcomes, {} validated, {:.1}s{}",
            part.executions, part.transitions, part.states, part.outcomes, part.validated, part.wall,
            if part.exhausted { "" } else { " (NOT exhausted)" }
        );
        self.parts.push(part);
    }

    /// Runs one fixed harness without choices.
    pub fn once<F>(&mut self, name: &str, bound: &str, f: F)
    where
        F: Fn(&mut Ch) -> Res + Sync,
    {
        self.explore(name, bound, f)
    }

    pub fn finish(self) -> ! {
        if self.triage {
            std::process::exit(2);
        }
        let wall = self.t0.elapsed().as_secs_f64();
        if self.replay.is_some() {
            if !self.replayed {
                eprintln!("no part of this check matches the replay file");
                std::process::exit(3);
            }
            if let Some((_, _, v)) = self.viols.first() {
                println!("VIOLATION property={} replay={}", self.id, std::env::args().last().unwrap());
                eprintln!("{}", v.msg);
                std::process::exit(1);
            }
            std::process::exit(0);
        }
        let sum = |g: fn(&Part) -> u64| self.parts.iter().map(g).sum::<u64>();
        let mut j = String::from("{\n");
        j += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", jstr(self.id), jstr(if self.quick { "quick" } else { "thorough" }), self.seed, jstr(self.level));
        j += " \"coverage\": {\n";
        j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", sum(|p| p.executions), sum(|p| p.nontrivial));
        j += &format!("  \"rule\": {},\n", jstr(self.rule));
        j += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", sum(|p| p.states), sum(|p| p.transitions), sum(|p| p.validated));
        j += &format!("  \"exhaustive\": {},\n", self.parts.iter().all(|p| p.exhausted) && self.viols.is_empty());
        let mut samples = self.samples.clone();
        if samples.len() > 40 {
            let step = samples.len() / 40 + 1;
            samples = samples.into_iter().step_by(step).collect();
        }
        j += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "));
        j += "  \"parts\": [\n";
        j += &self
            .parts
            .iter()
            .map(|p| {
                format!(
                    "   {{\"name\": {}, \"bound\": {}, \"executions\": {}, \"choice_points\": {}, \"transitions\": {}, \"distinct_states\": {}, \"distinct_outcomes\": {}, \"nontrivial\": {}, \"oracle_comparisons\": {}, \"exhausted\": {}, \"wall_s\": {:.2}}}",
                    jstr(&p.name), jstr(&p.bound), p.executions, p.points, p.transitions, p.states, p.outcomes, p.nontrivial, p.validated, p.exhausted, p.wall
                )
            })
            .collect::<Vec<_>>()
            .join(",\n");
        j += "\n  ]\n },\n";
        j += &format!(" \"assumptions\": [{}],\n", self.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
        j += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, self.viols.len());
        let path = format!("{}/evidence/{}.json", verif_dir(), self.id);
        std::fs::write(&path, j).expect("evidence");
        for (k, w) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, w, k);
        }
        for (part, choices, v) in &self.viols {
            let p = save_replay(self.id, part, choices, v);
            println!("{}: {}: key={} {}", self.id, part, v.key, short(&v.msg));
            println!("VIOLATION property={} replay={}", self.id, p);
        }
        if self.viols.is_empty() {
            println!(
                "{}: held on {} executions, {} transitions, {} states ({} parts, {:.1}s{})",
                self.id, sum(|p| p.executions), sum(|p| p.transitions), sum(|p| p.states), self.parts.len(), wall,
                if self.parts.iter().all(|p| p.exhausted) { ", exhausted" } else { ", CAPPED" }
            );
        }
        std::process::exit(if self.viols.is_empty() { 0 } else { 1 });
    }
}

/// Runs the exploration in a child; turns a crash or hang of the child into a violation.
fn supervise(id: &'static str, shm: &str, args: &[String]) -> ! {
    let _ = std::fs::remove_file(shm);
    let sh = map_shared(shm);
    let me = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&me)
        .args(&args[1..])
        .env("MC_CHILD", "1")
        .status()
        .expect("spawn");
    let code = st.code();
    if let Some(c) = code {
        if c != 97 {
            let _ = std::fs::remove_file(shm);
            std::process::exit(c);
        }
    }
    // Crash or hang: which execution?
    let what = match code {
        Some(_) => "did not terminate".to_string(),
        None => format!("killed the process ({st})"),
    };
    let name = unsafe {
        let p = sh.0.add((SLOTS - 1) * SLOT_WORDS);
        let n = std::ptr::read_volatile(p) as usize;
        let b = std::slice::from_raw_parts(p.add(1) as *const u8, n);
        String::from_utf8_lossy(b).to_string()
    };
    let mut cands = vec![];
    for w in 0..SLOTS - 1 {
        unsafe {
            let p = sh.0.add(w * SLOT_WORDS);
            let busy = std::ptr::read_volatile(p);
            if busy == 0 || (code.is_some() && busy != 2) {
                continue;
            }
            let n = (std::ptr::read_volatile(p.add(1)).max(std::ptr::read_volatile(p.add(2))) as usize).min(SLOT_WORDS - 3);
            let c: Vec<u32> = (0..n).map(|i| std::ptr::read_volatile(p.add(3 + i))).collect();
            cands.push(c);
        }
    }
    for c in cands {
        let v = Viol { key: "crash".into(), msg: format!("execution {what}") };
        let path = save_replay(id, &name, &c, &v);
        let mut confirm = std::process::Command::new(&me)
            .args(["--replay", &path])
            .env("MC_CHILD", "1")
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("spawn");
        let t = Instant::now();
        let bad = loop {
            match confirm.try_wait().expect("wait") {
                Some(s) => break s.code().is_none() || s.code() == Some(1),
                None if t.elapsed() > Duration::from_secs(60) => {
                    let _ = confirm.kill();
                    let _ = confirm.wait();
                    break true;
                }
                None => std::thread::sleep(Duration::from_millis(50)),
            }
        };
        if bad {
            println!("{id}: {name}: execution {what}");
            println!("VIOLATION property={id} replay={path}");
            // The child wrote no evidence: write what is known.
            let j = format!(
                "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"other\", \"coverage\": {{\"explanation\": {}}}, \"wall_s\": 0, \"violations\": 1}}\n",
                jstr(id),
                jstr(&std::env::var("VERIF_TIER").unwrap_or("quick".into())),
                std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                jstr(&format!("exploration ended early in {name}: an execution {what}"))
            );
            let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), id), j);
            let _ = std::fs::remove_file(shm);
            std::process::exit(1);
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("engine error: the exploration {what} in {name}, and no single execution reproduces it");
    let _ = std::fs::remove_file(shm);
    std::process::exit(3);
}
