//! Exhaustive explorer used by every check.
//!
//! A check is a list of *spaces*; a space is a finite set of *chunks* (work items); a chunk
//! enumerates *cases* in a fixed order.  A case is one execution of the real library compared with
//! a reference model.  Everything is deterministic, so a case is named by (space, chunk, k) and can be
//! replayed alone.  Panics inside the library are caught; a stack overflow, an abort or an endless loop
//! is attributed to its case through a small shared-memory slot per worker thread.

pub mod model;
pub mod modi;
pub mod step;
pub mod strs;

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub const SLOTS: usize = 16;
/// CPU seconds one case may burn before it is reported as not terminating (cases take micro- to milliseconds).
const HANG_CPU_S: f64 = 25.0;
/// One-second watchdog ticks a case may stay in progress without burning CPU.
const HANG_TICKS: u64 = 240;
/// The same for a case that uses no CPU at all: it waits for something that does not happen.
const STALL_TICKS: u64 = 60;

#[repr(C)]
struct Slot {
    in_case: AtomicU64,
    space: AtomicU64,
    chunk: AtomicU64,
    k: AtomicU64,
    clock: AtomicU64,
    pad: [AtomicU64; 3],
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

struct StopChunk;

#[derive(Clone)]
pub struct Violation {
    pub space: usize,
    pub chunk: usize,
    pub k: u64,
    pub desc: String,
    pub msg: String,
}

struct Shared {
    slots: &'static [Slot],
    viol: Mutex<Vec<Violation>>,
    known: Vec<String>,
    known_hit: Mutex<Vec<(String, String)>>,
    /// lowest (space, chunk) ordinal with a violation: later chunks are skipped
    limit: AtomicUsize,
    next: AtomicUsize,
    stop: AtomicBool,
}

#[derive(Default, Clone)]
struct Stats {
    states: u64,
    transitions: u64,
    cases: u64,
    nontrivial: u64,
    capped: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
}

pub struct Cx<'a> {
    sh: &'a Shared,
    slot: &'a Slot,
    /// Number of the worker thread, below SLOTS; no two cases run on one worker at a time.
    pub worker: usize,
    space: usize,
    chunk: usize,
    k: u64,
    stop_at: Option<u64>,
    sample: bool,
    st: Stats,
    /// The tier of this run.
    pub thorough: bool,
}

const OUTCOME_CAP: usize = 200_000;

impl<'a> Cx<'a> {
    /// Count distinct inputs / implementation states examined.
    pub fn states(&mut self, n: u64) {
        self.st.states += n;
    }
    /// Count library calls whose result was compared with the model.
    pub fn calls(&mut self, n: u64) {
        self.st.transitions += n;
    }
    pub fn nontrivial(&mut self, n: u64) {
        self.st.nontrivial += n;
    }
    pub fn capped(&mut self) {
        self.st.capped += 1;
    }
    /// Fingerprint of something observed, to report how many distinct outcomes there were.
    pub fn outcome(&mut self, h: u64) {
        if self.st.outcomes.len() < OUTCOME_CAP {
            self.st.outcomes.insert(h);
        }
    }
    /// One case: run `body` on the real code; Err or a panic is a violation.
    pub fn run<T>(&mut self, desc: impl Fn() -> String, body: impl FnOnce() -> Result<T, String>) -> Option<T> {
        let mut out = None;
        let mut body = Some(body);
        let o = &mut out;
        self.run_dyn(&desc, &mut || {
            *o = Some((body.take().unwrap())()?);
            Ok(())
        });
        out
    }
    fn run_dyn(&mut self, desc: &dyn Fn() -> String, body: &mut dyn FnMut() -> Result<(), String>) {
        self.k += 1;
        self.st.cases += 1;
        let here = self.stop_at == Some(self.k);
        if here {
            println!("CASE {}", desc());
            std::io::stdout().flush().unwrap();
        }
        if self.sample && (self.k == 1 || self.k == 5 || self.k == 100 || self.k == 4000) && self.st.samples.len() < 4 {
            let d = desc();
            self.st.samples.push(d);
        }
        self.slot.k.store(self.k, Relaxed);
        self.slot.in_case.store(1, Release);
        let r = guarded(body);
        self.slot.in_case.store(0, Release);
        let ok = match r {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                self.violation(desc(), e);
                false
            }
            Err(msg) => {
                self.violation(desc(), format!("unexpected panic: {msg}"));
                false
            }
        };
        if here {
            if ok {
                println!("CASE-OK");
            }
            resume_unwind(Box::new(StopChunk));
        }
    }
    fn violation(&mut self, desc: String, msg: String) {
        if self.sh.known.iter().any(|k| *k == desc) {
            self.sh.known_hit.lock().unwrap().push((desc, msg));
            return;
        }
        if self.stop_at.is_some() {
            if self.stop_at == Some(self.k) {
                println!("CASE-VIOLATION {}", msg);
                std::io::stdout().flush().unwrap();
            }
            return;
        }
        self.sh.viol.lock().unwrap().push(Violation { space: self.space, chunk: self.chunk, k: self.k, desc, msg });
        resume_unwind(Box::new(StopChunk));
    }
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if (*p).is::<StopChunk>() {
                resume_unwind(p);
            }
            Err(LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut())))
        }
    }
}

/// Ok when `f` panics (a refused request), Err when it returns.
pub fn refuses<T>(what: &str, f: impl FnOnce() -> T) -> Result<(), String> {
    match guarded(f) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{what} was answered instead of refused")),
    }
}

pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(msg())
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: impl FnOnce() -> String, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what(), got, want))
    }
}

/// 128-bit fingerprint of a text form (two independent multiplicative hashes), fed through fmt::Write.
#[derive(Clone, Copy)]
pub struct Fp(pub u64, pub u64);
impl Fp {
    pub fn new() -> Self {
        Fp(0xcbf29ce484222325, 0x9e3779b97f4a7c15)
    }
    #[inline]
    pub fn byte(&mut self, b: u8) {
        self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        self.1 = (self.1.rotate_left(5) ^ (b as u64 + 1)).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    pub fn u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x100000001b3).rotate_left(23) ^ (v >> 32);
        self.1 = (self.1.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
        self.0 = self.0.wrapping_mul(0xff51afd7ed558ccd);
    }
    pub fn get(&self) -> u128 {
        ((self.0 as u128) << 64) | self.1 as u128
    }
}
impl std::fmt::Write for Fp {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.byte(b);
        }
        Ok(())
    }
}
pub fn fp_debug<T: std::fmt::Debug + ?Sized>(t: &T) -> u128 {
    let mut f = Fp::new();
    let _ = write!(f, "{:?}", t);
    f.get()
}

/// A real object paired with its reference model, driven by operations.
pub trait Sys: Sized {
    type Op: Clone + std::fmt::Debug;
    /// A fresh copy of the initial state (used when states cannot be forked).
    fn fresh(&self) -> Self;
    /// A copy of the current state, if the hooks allow it.
    fn fork(&self) -> Option<Self>;
    /// Fingerprint of the complete implementation state and the model state, if available.
    fn key(&self) -> Option<u128>;
    fn ops(&self) -> Vec<Self::Op>;
    /// Apply to the implementation and to the model and compare what the call returned.
    fn apply(&mut self, op: &Self::Op) -> Result<(), String>;
    /// Compare every query with the model; returns the number of library calls made and an outcome fingerprint.
    fn observe(&mut self) -> Result<(u64, u64), String>;
}

pub struct Bfs {
    pub max_depth: usize,
    /// depth used when states cannot be fingerprinted (hooks unavailable)
    pub fallback_depth: usize,
    pub dedup: bool,
    pub max_states: usize,
}
impl Bfs {
    /// Search to closure.
    pub fn closure(fallback_depth: usize) -> Self {
        Bfs { max_depth: usize::MAX, fallback_depth, dedup: true, max_states: 4_000_000 }
    }
    /// Give up (and say so in the evidence) beyond this many states.
    pub fn cap(mut self, n: usize) -> Self {
        self.max_states = n;
        self
    }
    pub fn depth(d: usize, dedup: bool) -> Self {
        Bfs { max_depth: d, fallback_depth: d.min(4), dedup, max_states: 20_000_000 }
    }
}

/// Breadth-first exploration of all operation histories, merging states whose complete fingerprint agrees.
/// Returns the number of states and the depth at which the frontier emptied (None: depth bound reached).
pub fn bfs<S: Sys>(cx: &mut Cx, label: &str, init: impl Fn() -> S, cfg: Bfs) -> (u64, Option<usize>) {
    let mut parents: Vec<(u32, Option<S::Op>)> = vec![(u32::MAX, None)];
    let hist = |parents: &Vec<(u32, Option<S::Op>)>, mut i: u32| -> Vec<S::Op> {
        let mut h = vec![];
        while let (p, Some(op)) = &parents[i as usize] {
            h.push(op.clone());
            i = *p;
        }
        h.reverse();
        h
    };
    let root = cx.run(
        || format!("{label}: construct, then all queries"),
        || {
            let s = init();
            let mut q = init();
            let o = q.observe()?;
            Ok((s, o))
        },
    );
    let Some((root, o)) = root else { return (0, None) };
    cx.calls(o.0 + 1);
    cx.outcome(o.1);
    let can_fork = root.fork().is_some();
    let keyed = cfg.dedup && root.key().is_some();
    let max_depth = if keyed || !cfg.dedup { cfg.max_depth } else { cfg.fallback_depth.min(cfg.max_depth) };
    let mut seen: HashSet<u128> = HashSet::new();
    if keyed {
        seen.insert(root.key().unwrap());
    }
    let mut nstates = 1u64;
    let mut frontier: Vec<(u32, Option<S>)> = vec![(0, if can_fork { Some(root) } else { None })];
    let mut depth = 0;
    while !frontier.is_empty() {
        if depth >= max_depth {
            cx.states(nstates);
            return (nstates, None);
        }
        let mut next = vec![];
        for (id, st) in frontier {
            let base_hist = if can_fork { None } else { Some(hist(&parents, id)) };
            let make = |st: &Option<S>| -> Result<S, String> {
                match st {
                    Some(s) => Ok(s.fork().unwrap()),
                    None => {
                        let mut s = init();
                        for op in base_hist.as_ref().unwrap() {
                            s.apply(op)?;
                        }
                        Ok(s)
                    }
                }
            };
            let ops = match guarded(|| make(&st).map(|s| s.ops())) {
                Ok(Ok(o)) => o,
                _ => vec![],
            };
            for op in ops {
                let r = cx.run(
                    || {
                        let mut h = hist(&parents, id);
                        h.push(op.clone());
                        format!("{label}: {:?}, then all queries", h)
                    },
                    || {
                        let mut s = make(&st)?;
                        s.apply(&op)?;
                        let key = if keyed { s.key() } else { None };
                        let new = match key {
                            Some(k) => !seen.contains(&k),
                            None => true,
                        };
                        let mut calls = 1;
                        let mut out = None;
                        let mut keep = None;
                        if new {
                            if can_fork {
                                let mut q = s.fork().unwrap();
                                let o = q.observe()?;
                                calls += o.0;
                                out = Some(o.1);
                                keep = Some(s);
                            } else {
                                let o = s.observe()?;
                                calls += o.0;
                                out = Some(o.1);
                            }
                        }
                        Ok((key, new, keep, calls, out))
                    },
                );
                if let Some((key, new, keep, calls, out)) = r {
                    cx.calls(calls);
                    if let Some(o) = out {
                        cx.outcome(o);
                    }
                    if new {
                        if let Some(k) = key {
                            seen.insert(k);
                        }
                        nstates += 1;
                        if nstates as usize > cfg.max_states {
                            cx.capped();
                            cx.states(nstates);
                            return (nstates, None);
                        }
                        if depth + 1 < max_depth {
                            parents.push((id, Some(op.clone())));
                            next.push((parents.len() as u32 - 1, keep));
                        }
                    }
                }
            }
        }
        frontier = next;
        depth += 1;
    }
    cx.states(nstates);
    (nstates, Some(depth))
}

pub struct Space {
    pub name: String,
    pub bound: String,
    pub chunks: usize,
    pub f: Box<dyn Fn(usize, &mut Cx) + Sync + Send>,
}

pub fn space(name: &str, bound: &str, chunks: usize, f: impl Fn(usize, &mut Cx) + Sync + Send + 'static) -> Space {
    Space { name: name.into(), bound: bound.into(), chunks, f: Box::new(f) }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn thread_cpu(clk: i32) -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        if clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

pub struct Args {
    list: bool,
    pub thorough: bool,
    pub replay: Option<(usize, usize, u64)>,
    out: Option<String>,
    slots: Option<String>,
    known: Option<String>,
    threads: usize,
}

fn args() -> Args {
    let mut a = Args { thorough: false, replay: None, out: None, slots: None, known: None, threads: 0, list: false };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        match v[i].as_str() {
            "--tier" => {
                a.thorough = v[i + 1] == "thorough";
                i += 2;
            }
            "--out" => {
                a.out = Some(v[i + 1].clone());
                i += 2;
            }
            "--slots" => {
                a.slots = Some(v[i + 1].clone());
                i += 2;
            }
            "--known" => {
                a.known = Some(v[i + 1].clone());
                i += 2;
            }
            "--list" => {
                a.list = true;
                i += 1;
            }
            "--threads" => {
                a.threads = v[i + 1].parse().unwrap();
                i += 2;
            }
            "--replay" => {
                a.replay = Some((v[i + 1].parse().unwrap(), v[i + 2].parse().unwrap(), v[i + 3].parse().unwrap()));
                i += 4;
            }
            x => panic!("unknown argument {x}"),
        }
    }
    if a.threads == 0 {
        a.threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS);
    }
    a
}

fn map_slots(path: &Option<String>) -> &'static [Slot] {
    let len = SLOTS * std::mem::size_of::<Slot>();
    unsafe {
        let p = match path {
            Some(p) => {
                use std::os::fd::AsRawFd;
                let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap();
                f.set_len(len as u64).unwrap();
                let p = mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0);
                std::mem::forget(f);
                p
            }
            None => mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0),
        };
        assert!(p as isize != -1, "mmap failed");
        std::slice::from_raw_parts(p as *const Slot, SLOTS)
    }
}

/// Entry point of every check binary.  `build(thorough)` returns the spaces in simplest-first order.
pub fn main(property: &str, serial: bool, build: impl Fn(bool) -> Vec<Space>) {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        if QUIET.with(|q| q.get()) {
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg}{loc}"));
        } else {
            eprintln!("engine panic: {info}");
        }
    }));
    let a = args();
    let t0 = std::time::Instant::now();
    let spaces = build(a.thorough);
    if a.list {
        for s in &spaces {
            println!("{}\t{}\t{}", s.name, s.chunks, s.bound);
        }
        return;
    }
    let known: Vec<String> = match &a.known {
        Some(p) => std::fs::read_to_string(p)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix(&format!("finding: property={property} case=")).map(|s| s.to_string()))
            .collect(),
        None => vec![],
    };
    let mut items = vec![];
    for (i, s) in spaces.iter().enumerate() {
        for c in 0..s.chunks {
            items.push((i, c));
        }
    }
    let sh = Shared {
        slots: map_slots(&a.slots),
        viol: Mutex::new(vec![]),
        known,
        known_hit: Mutex::new(vec![]),
        limit: AtomicUsize::new(usize::MAX),
        next: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
    };
    let stats: Mutex<Vec<(Stats, f64)>> = Mutex::new(vec![(Stats::default(), 0.0); spaces.len()]);
    let threads = if a.replay.is_some() || serial { 1 } else { a.threads };
    let crashed = AtomicBool::new(false);
    let live = AtomicUsize::new(threads);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (sh, spaces, items, stats, a, crashed, live) = (&sh, &spaces, &items, &stats, &a, &crashed, &live);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || {
                    let slot = &sh.slots[t];
                    let mut clk = 0i32;
                    unsafe {
                        pthread_getcpuclockid(pthread_self(), &mut clk);
                    }
                    slot.clock.store(clk as u32 as u64, Relaxed);
                    loop {
                        let n = sh.next.fetch_add(1, Relaxed);
                        let (space, chunk, stop_at) = match a.replay {
                            Some((s, c, k)) => {
                                if n > 0 {
                                    break;
                                }
                                (s, c, Some(k))
                            }
                            None => {
                                if n >= items.len() || n > sh.limit.load(Relaxed) {
                                    break;
                                }
                                (items[n].0, items[n].1, None)
                            }
                        };
                        slot.space.store(space as u64, Relaxed);
                        slot.chunk.store(chunk as u64, Relaxed);
                        let nch = spaces[space].chunks;
                        let mut cx = Cx {
                            sh,
                            slot,
                            worker: t,
                            space,
                            chunk,
                            k: 0,
                            stop_at,
                            sample: chunk == 0 || chunk == nch / 2 || chunk + 1 == nch,
                            st: Stats::default(),
                            thorough: a.thorough,
                        };
                        let began = std::time::Instant::now();
                        let r = catch_unwind(AssertUnwindSafe(|| (spaces[space].f)(chunk, &mut cx)));
                        if let Err(p) = r {
                            let p: Box<dyn Any + Send> = p;
                            if !(*p).is::<StopChunk>() {
                                // a panic outside a case is a fault of the harness itself
                                eprintln!("engine fault in space {} chunk {}", spaces[space].name, chunk);
                                crashed.store(true, SeqCst);
                            } else if stop_at.is_none() {
                                sh.limit.fetch_min(n, Relaxed);
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        let s = &mut g[space];
                        s.1 += began.elapsed().as_secs_f64();
                        s.0.states += cx.st.states;
                        s.0.transitions += cx.st.transitions;
                        s.0.cases += cx.st.cases;
                        s.0.nontrivial += cx.st.nontrivial;
                        s.0.capped += cx.st.capped;
                        if s.0.outcomes.len() < OUTCOME_CAP {
                            s.0.outcomes.extend(cx.st.outcomes);
                        }
                        s.0.samples.extend(cx.st.samples);
                    }
                    live.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog
        let (sh, spaces, live, a) = (&sh, &spaces, &live, &a);
        sc.spawn(move || {
            let mut seen: BTreeMap<usize, ((u64, u64, u64), f64, u64)> = BTreeMap::new();
            let mut tick = 0u64;
            while live.load(SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                tick += 1;
                if tick % 20 != 0 {
                    continue;
                }
                for t in 0..threads {
                    let s = &sh.slots[t];
                    if s.in_case.load(Acquire) == 0 {
                        seen.remove(&t);
                        continue;
                    }
                    let id = (s.space.load(Relaxed), s.chunk.load(Relaxed), s.k.load(Relaxed));
                    let cpu = thread_cpu(s.clock.load(Relaxed) as u32 as i32);
                    match seen.get_mut(&t) {
                        Some((old, c0, ticks)) if *old == id => {
                            *ticks += 1;
                            if cpu - *c0 > 2.0 && std::env::var_os("MC_SLOW").is_some() {
                                eprintln!("slow case: {:.1} s in [{}] {} {}", cpu - *c0, spaces[id.0 as usize].name, id.1, id.2);
                            }
                            if cpu - *c0 > HANG_CPU_S || *ticks > HANG_TICKS || *ticks > STALL_TICKS && cpu - *c0 < 0.05 {
                                let what = format!("does not terminate (one case ran {:.0} s of CPU, {} s in all)", cpu - *c0, *ticks);
                                if a.replay.is_some() {
                                    println!("CASE-VIOLATION {}", what);
                                    std::io::stdout().flush().unwrap();
                                    std::process::exit(1);
                                }
                                if let Some(out) = &a.out {
                                    let j = format!(
                                        "{{\"hang\": {{\"space\": {}, \"chunk\": {}, \"k\": {}, \"name\": {}, \"msg\": {}}}}}",
                                        id.0, id.1, id.2, json_str(&spaces[id.0 as usize].name), json_str(&what)
                                    );
                                    std::fs::write(out, j).unwrap();
                                }
                                std::process::exit(3);
                            }
                        }
                        _ => {
                            seen.insert(t, (id, cpu, 0));
                        }
                    }
                }
            }
        });
    });
    sh.stop.store(true, SeqCst);
    if a.replay.is_some() {
        std::process::exit(if crashed.load(SeqCst) { 2 } else { 0 });
    }
    let mut v = sh.viol.lock().unwrap().clone();
    v.sort_by_key(|x| (x.space, x.chunk, x.k));
    let mut j = String::from("{\n");
    let g = stats.lock().unwrap();
    let _ = write!(j, "\"wall_s\": {:.3}, \"hooks\": {}, \"fault\": {},\n\"spaces\": [", t0.elapsed().as_secs_f64(), cfg!(vp_hooks), crashed.load(SeqCst));
    for (i, s) in spaces.iter().enumerate() {
        let (st, secs) = &g[i];
        let samples: Vec<String> = st.samples.iter().take(6).map(|s| json_str(&s.chars().take(400).collect::<String>())).collect();
        let _ = write!(
            j,
            "{}{{\"name\": {}, \"bound\": {}, \"chunks\": {}, \"states\": {}, \"transitions\": {}, \"executions\": {}, \"nontrivial\": {}, \"distinct_outcomes\": {}, \"capped\": {}, \"cpu_s\": {:.2}, \"samples\": [{}]}}",
            if i > 0 { ",\n" } else { "\n" },
            json_str(&s.name),
            json_str(&s.bound),
            s.chunks,
            st.states,
            st.transitions,
            st.cases,
            st.nontrivial,
            st.outcomes.len(),
            st.capped,
            secs,
            samples.join(", ")
        );
    }
    j.push_str("],\n\"violations\": [");
    for (i, x) in v.iter().take(5).enumerate() {
        let _ = write!(
            j,
            "{}{{\"space\": {}, \"name\": {}, \"chunk\": {}, \"k\": {}, \"case\": {}, \"msg\": {}}}",
            if i > 0 { ",\n" } else { "\n" },
            x.space,
            json_str(&spaces[x.space].name),
            x.chunk,
            x.k,
            json_str(&x.desc),
            json_str(&x.msg)
        );
    }
    j.push_str("],\n\"known\": [");
    for (i, (d, m)) in sh.known_hit.lock().unwrap().iter().enumerate() {
        let _ = write!(j, "{}{{\"case\": {}, \"msg\": {}}}", if i > 0 { ",\n" } else { "\n" }, json_str(d), json_str(m));
    }
    j.push_str("]\n}\n");
    if let Some(out) = &a.out {
        std::fs::write(out, &j).unwrap();
    } else {
        print!("{j}");
    }
    let code = if !v.is_empty() {
        1
    } else if crashed.load(SeqCst) {
        2
    } else {
        0
    };
    std::process::exit(code);
}

/// All words of the given length over 0..k, as an iterator over digit vectors (least significant last).
pub fn words(k: usize, len: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (k as u64).pow(len as u32);
    (0..total).map(move |mut x| {
        let mut w = vec![0; len];
        for i in (0..len).rev() {
            w[i] = (x % k as u64) as usize;
            x /= k as u64;
        }
        w
    })
}

pub fn word_into(k: usize, mut x: u64, w: &mut [usize]) {
    for d in w.iter_mut().rev() {
        *d = (x % k as u64) as usize;
        x /= k as u64;
    }
}

/// Lengths that straddle powers of two, up to max.
pub fn straddling(max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 1usize;
    while p <= max {
        for d in [-2i64, -1, 0, 1, 2] {
            let x = p as i64 + d;
            if x >= 0 && x as usize <= max {
                v.push(x as usize);
            }
        }
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

/// Calls `f` on every permutation.
pub fn permutations(p: &mut Vec<usize>, i: usize, f: &mut impl FnMut(&[usize])) {
    if i == p.len() {
        return f(p);
    }
    for j in i..p.len() {
        p.swap(i, j);
        permutations(p, i + 1, f);
        p.swap(i, j);
    }
}

/// Two instances used alternately: state shared between instances would show up here.
pub struct Pair<A, B>(pub A, pub B);
#[derive(Clone, Debug)]
pub enum Which<A, B> {
    First(A),
    Second(B),
}
impl<A: Sys, B: Sys> Sys for Pair<A, B> {
    type Op = Which<A::Op, B::Op>;
    fn fresh(&self) -> Self {
        Pair(self.0.fresh(), self.1.fresh())
    }
    fn fork(&self) -> Option<Self> {
        Some(Pair(self.0.fork()?, self.1.fork()?))
    }
    fn key(&self) -> Option<u128> {
        Some(self.0.key()?.rotate_left(17) ^ self.1.key()?.wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835))
    }
    fn ops(&self) -> Vec<Self::Op> {
        self.0.ops().into_iter().map(Which::First).chain(self.1.ops().into_iter().map(Which::Second)).collect()
    }
    fn apply(&mut self, op: &Self::Op) -> Result<(), String> {
        match op {
            Which::First(o) => self.0.apply(o),
            Which::Second(o) => self.1.apply(o),
        }
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        let a = self.0.observe()?;
        let b = self.1.observe()?;
        Ok((a.0 + b.0, a.1.wrapping_mul(31) ^ b.1))
    }
}
