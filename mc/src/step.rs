//! Switches between threads at the level of single machine instructions, on the compiled code as it is: the processor's
//! trap flag makes the thread stop before every instruction it executes inside the library, and the trap handler lets
//! another thread run a whole history before the next instruction is executed.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// Where the other thread is let in.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Switch {
    /// Before every instruction.
    Every,
    /// Before this instruction only, counted from 1.
    At(u64),
    /// Nowhere: only counts.
    Never,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Seen {
    /// Instructions executed one by one.
    pub steps: u64,
    /// Times the other thread ran.
    pub runs: u64,
    /// Times it could not finish before the next instruction (it waited for something this thread holds).
    pub waited: u64,
    /// The limit was reached; the rest ran at full speed.
    pub cut: bool,
}
struct Session {
    on: Switch,
    limit: u64,
    seen: Cell<Seen>,
    issued: Cell<u64>,
    go: AtomicU64,
    done: AtomicU64,
    stop: AtomicBool,
    /// Instead of letting the other thread in: at this instruction, set the first flag and wait for the second.
    meet: Option<(u64, *const AtomicBool, *const AtomicBool)>,
}
thread_local!(static SESSION: Cell<*const Session> = const { Cell::new(std::ptr::null()) });

#[cfg(all(target_arch = "x86_64", target_os = "linux", target_env = "gnu"))]
mod sys {
    use super::*;
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const Action, old: *mut Action) -> i32;
    }
    const SIGTRAP: i32 = 5;
    /// Offset of the saved flags register in ucontext_t.
    const EFLAGS: usize = 40 + 17 * 8;
    const TF: u64 = 0x100;

    /// Runs with this thread stopped between two instructions: no allocation, no locks.
    extern "C" fn trap(_: i32, _: *mut u8, context: *mut u8) {
        let p = SESSION.with(|s| s.get());
        if p.is_null() {
            return;
        }
        // SAFETY: the session outlives the time it is registered; context is the interrupted thread's.
        unsafe {
            let s = &*p;
            let mut seen = s.seen.get();
            let mut last = false;
            if seen.steps == s.limit {
                seen.cut = true;
                last = true;
            } else {
                seen.steps += 1;
                if let Some((k, set, wait)) = s.meet {
                    if seen.steps == k {
                        (*set).store(true, SeqCst);
                        if !raised(&*wait, patience()) {
                            seen.waited += 1;
                            WAITS.fetch_add(1, SeqCst);
                        }
                        last = true;
                    }
                }
                let due = match s.on {
                    Switch::Every => true,
                    Switch::At(k) => {
                        last = seen.steps == k;
                        last
                    }
                    Switch::Never => false,
                };
                if due && s.done.load(SeqCst) == s.issued.get() {
                    s.issued.set(s.issued.get() + 1);
                    s.go.store(s.issued.get(), SeqCst);
                    seen.runs += 1;
                    if !finished(s, patience()) {
                        seen.waited += 1;
                        WAITS.fetch_add(1, SeqCst);
                    }
                }
            }
            s.seen.set(seen);
            if last {
                *(context.add(EFLAGS) as *mut u64) &= !TF;
            }
        }
    }
    pub fn install() -> bool {
        let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 };
        // SAFETY: the layout is glibc's on this target.
        unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) == 0 }
    }
    #[inline(always)]
    pub fn on() {
        // SAFETY: only sets the trap flag.
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(always)]
    pub fn off() {
        // SAFETY: only clears the trap flag.
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux", target_env = "gnu")))]
mod sys {
    pub fn install() -> bool {
        false
    }
    pub fn on() {}
    pub fn off() {}
}

/// How long to wait for the other thread. One that waits for a lock this thread holds never comes; code that takes locks
/// makes that so common that the wait has to get short (the other thread then goes on beside this one).
fn patience() -> Duration {
    match WAITS.load(SeqCst) {
        0..64 => Duration::from_millis(100),
        64..1024 => Duration::from_millis(5),
        _ => Duration::from_micros(300),
    }
}
static WAITS: AtomicU64 = AtomicU64::new(0);

fn raised(f: &AtomicBool, most: Duration) -> bool {
    for _ in 0..200 {
        if f.load(SeqCst) {
            return true;
        }
        std::hint::spin_loop();
    }
    let t = Instant::now();
    while !f.load(SeqCst) {
        if t.elapsed() > most {
            return false;
        }
        std::thread::yield_now();
    }
    true
}
fn finished(s: &Session, most: Duration) -> bool {
    for _ in 0..200 {
        if s.done.load(SeqCst) == s.issued.get() {
            return true;
        }
        std::hint::spin_loop();
    }
    let t = Instant::now();
    while s.done.load(SeqCst) != s.issued.get() {
        if t.elapsed() > most {
            return false;
        }
        std::thread::yield_now();
    }
    true
}

/// Marks the part of `a` to be executed instruction by instruction; does nothing outside `switching`.
#[inline(always)]
pub fn arm() {
    if SESSION.with(|s| !s.get().is_null()) {
        sys::on();
    }
}
#[inline(always)]
pub fn disarm() {
    if SESSION.with(|s| !s.get().is_null()) {
        sys::off();
    }
}

/// Runs `a`; between the instructions of the parts it marks another thread runs all of `b`.
pub fn switching<T>(on: Switch, limit: u64, a: impl FnOnce() -> T, b: impl Fn() -> Result<(), String> + Sync) -> (T, Seen, Result<(), String>) {
    static INSTALLED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    INSTALLED.get_or_init(sys::install);
    let s = Session { on, limit, seen: Cell::new(Seen::default()), issued: Cell::new(0), go: AtomicU64::new(0), done: AtomicU64::new(0), stop: AtomicBool::new(false), meet: None };
    let (go, done, stop) = (&s.go, &s.done, &s.stop);
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(sc, || {
                let mut wrong = Ok(());
                let mut last = 0;
                loop {
                    let mut idle = 0u32;
                    loop {
                        if stop.load(SeqCst) {
                            return wrong;
                        }
                        let g = go.load(SeqCst);
                        if g != last {
                            last = g;
                            break;
                        }
                        idle += 1;
                        if idle < 500 {
                            std::hint::spin_loop();
                        } else {
                            std::thread::yield_now();
                        }
                    }
                    if wrong.is_ok() {
                        wrong = crate::guarded(&b).unwrap_or_else(|e| Err(format!("unexpected panic: {e}"))).map_err(|e| format!("let in for the {last}. time: {e}"));
                    }
                    done.store(last, SeqCst);
                }
            })
            .expect("helper thread");
        // the last thing before and the first after: no other code of this thread runs with the session set
        let session: *const Session = &s;
        SESSION.with(|c| c.set(session));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a));
        sys::off();
        SESSION.with(|c| c.set(std::ptr::null()));
        // whatever the other thread waited for is free by now
        let ended = finished(&s, Duration::from_secs(20));
        if !ended {
            // a case that never ends is reported by the watchdog, which knows which one it is
            while !finished(&s, Duration::from_secs(1)) {}
        }
        stop.store(true, SeqCst);
        let w: Result<(), String> = h.join().unwrap_or_else(|_| Err("helper thread died".into()));
        let r = r.unwrap_or_else(|p| std::panic::resume_unwind(p));
        (r, s.seen.get(), w)
    })
}

/// `a` up to its instruction i, `b` up to its instruction j, the rest of `a`, the rest of `b` (instructions of the parts
/// marked with `arm`; one that is never reached means no switch there).
pub fn crossing<T: Send>(i: u64, j: u64, a: impl FnOnce() -> T, b: impl FnOnce() -> Result<(), String> + Send) -> (T, [Seen; 2], Result<(), String>) {
    static INSTALLED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    INSTALLED.get_or_init(sys::install);
    fn session(meet: (u64, *const AtomicBool, *const AtomicBool)) -> Session {
        Session { on: Switch::Never, limit: u64::MAX, seen: Cell::new(Seen::default()), issued: Cell::new(0), go: AtomicU64::new(0), done: AtomicU64::new(0), stop: AtomicBool::new(false), meet: Some(meet) }
    }
    fn under<T>(meet: (u64, *const AtomicBool, *const AtomicBool), f: impl FnOnce() -> T) -> (std::thread::Result<T>, Seen) {
        let s = session(meet);
        let p: *const Session = &s;
        SESSION.with(|c| c.set(p));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        sys::off();
        SESSION.with(|c| c.set(std::ptr::null()));
        (r, s.seen.get())
    }
    // b may start; b is at its instruction or has ended; a has ended
    let flags = [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)];
    let [start, there, ended] = &flags;
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(sc, move || {
                while !raised(start, Duration::from_secs(1)) {}
                let r = under((j, there, ended), || crate::guarded(b).unwrap_or_else(|e| Err(format!("unexpected panic: {e}"))));
                there.store(true, SeqCst);
                r
            })
            .expect("helper thread");
        let (r, x) = under((i, start, there), a);
        ended.store(true, SeqCst);
        // never reached: one after the other
        start.store(true, SeqCst);
        let (w, y) = h.join().expect("helper thread");
        let r = r.unwrap_or_else(|p| std::panic::resume_unwind(p));
        (r, [x, y], w.unwrap_or_else(|_| Err("helper thread died".into())))
    })
}
