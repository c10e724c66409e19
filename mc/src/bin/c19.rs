//! C19 run-time moduli: every history of set / refuse / read / arithmetic over two families and several threads.
use mc::modi::*;
use mc::step::*;
use mc::*;
use rust_cp::misc::modint::*;
use std::sync::mpsc::{channel, Receiver, Sender};

/// What one thread sees of family Z: modulus, and arithmetic that depends on modulus and reciprocal.
fn probe<Z: Mi>(m: u32) -> Result<u64, String> {
    same(|| "modulus()".into(), Z::modulus(), m)?;
    let mut n = 1;
    let w = m as i128;
    for a in [0i64, 1, -1, 2, 5, 41, i64::MAX, i64::MIN, 1 << 40, -(1 << 33) + 7] {
        let x = <Z as ModIntBase>::new(a);
        let wa = (a as i128).rem_euclid(w);
        same(|| format!("new({a})"), x.val() as i128, wa)?;
        for b in [1i64, 3, -2, 6, 1 << 31, i64::MAX - 4] {
            let y = <Z as ModIntBase>::new(b);
            let wb = (b as i128).rem_euclid(w);
            same(|| format!("{a} * {b}"), (x * y).val() as i128, wa * wb % w)?;
            same(|| format!("{a} + {b}"), (x + y).val() as i128, (wa + wb) % w)?;
            same(|| format!("{a} - {b}"), (x - y).val() as i128, (wa - wb).rem_euclid(w))?;
            n += 3;
        }
        same(|| format!("{a} to the power 10"), x.pow(10).val(), pow_ref(wa as u64, 10, m as u64) as u32)?;
        if gcd_u(wa as u64, m as u64) == 1 {
            same(|| format!("{a} / {a}"), (x / x).val() as i128, 1 % w)?;
        }
        n += 3;
    }
    Ok(n)
}
fn probe_static() -> Result<u64, String> {
    same(|| "ModInt1000000007::modulus()".into(), ModInt1000000007::modulus(), 1_000_000_007)?;
    same(|| "ModInt998244353 product".into(), (ModInt998244353::new(-1) * ModInt998244353::new(-2)).val(), 2)?;
    same(|| "S<60>".into(), (S::<60, false>::new(59) * S::<60, false>::new(59)).val(), 1)?;
    Ok(3)
}

type Job = Box<dyn FnOnce() -> Result<u64, String> + Send>;
/// Threads that run one call at a time, in the order the explorer decides.
struct Threads {
    to: Vec<Sender<Job>>,
    back: Receiver<Result<u64, String>>,
}
impl Threads {
    fn new(n: usize) -> Self {
        let (tx, back) = channel();
        let to = (0..n)
            .map(|_| {
                let (t, r) = channel::<Job>();
                let tx = tx.clone();
                std::thread::spawn(move || {
                    for j in r {
                        let r = guarded(j).unwrap_or_else(|e| Err(format!("unexpected panic: {e}")));
                        if tx.send(r).is_err() {
                            break;
                        }
                    }
                });
                t
            })
            .collect();
        Threads { to, back }
    }
    fn on(&self, t: usize, j: impl FnOnce() -> Result<u64, String> + Send + 'static) -> Result<u64, String> {
        self.to[t].send(Box::new(j)).unwrap();
        self.back.recv().unwrap().map_err(|e| format!("thread {t}: {e}"))
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, u32),
    SetZero(usize),
}
fn apply<A: Mi, B: Mi>(op: Op) -> Result<u64, String> {
    match op {
        Op::Set(0, m) => A::set(m),
        Op::Set(_, m) => B::set(m),
        Op::SetZero(0) => refuses("setting the modulus to 0", || A::set(0))?,
        Op::SetZero(_) => refuses("setting the modulus to 0", || B::set(0))?,
    }
    Ok(1)
}
/// One history from the reset state: after every call every thread probes both families and compile-time types.
fn history<A: Mi + 'static, B: Mi + 'static>(th: &Threads, h: &[(usize, Op)]) -> Result<u64, String> {
    let mut model = [998_244_353u32, 998_244_353];
    let mut n = 0;
    th.on(0, move || {
        A::set(model[0]);
        B::set(model[1]);
        Ok(2)
    })?;
    for (i, &(t, op)) in h.iter().enumerate() {
        n += th.on(t, move || apply::<A, B>(op)).map_err(|e| format!("call {i}: {e}"))?;
        if let Op::Set(f, m) = op {
            model[f] = m;
        }
        for p in 0..th.to.len() {
            n += th.on(p, move || Ok(probe::<A>(model[0]).map_err(|e| format!("family 0: {e}"))? + probe::<B>(model[1]).map_err(|e| format!("family 1: {e}"))? + probe_static()?)).map_err(|e| format!("after call {i}: {e}"))?;
        }
    }
    Ok(n)
}
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for f in 0..2 {
        for m in [1, 12, 2_147_483_648, 998_244_353] {
            v.push(Op::Set(f, m));
        }
        v.push(Op::SetZero(f));
    }
    v
}
fn histories<A: Mi + 'static, B: Mi + 'static>(cx: &mut Cx, c: usize, threads: usize, len: usize) {
    let o = ops();
    let k = threads * o.len();
    if c >= k {
        return;
    }
    let th = Threads::new(threads);
    for l in 1..=len {
        let mut w = vec![0; l - 1];
        for code in 0..(k as u64).pow(l as u32 - 1) {
            word_into(k, code, &mut w);
            let h: Vec<(usize, Op)> = std::iter::once(&c).chain(&w).map(|&x| (x / o.len(), o[x % o.len()])).collect();
            let r = cx.run(|| format!("{threads} threads, two families at 998244353, calls (thread, call): {h:?}, every thread probing after each"), || history::<A, B>(&th, &h));
            if let Some(n) = r {
                cx.calls(n);
                cx.states(1);
                cx.outcome(fp_debug(&h) as u64);
            }
        }
    }
}
/// Moduli that resemble one another: small ones, one-bit neighbours, equal halves, multiples, powers of two and neighbours.
fn related() -> Vec<u32> {
    let mut v: Vec<u32> = (1..=16).collect();
    for base in [998_244_353u32, 12, 65_543] {
        v.extend((0..32).map(|i| base ^ 1 << i));
        v.extend([2, 3, 256, 65_536].iter().filter_map(|k| base.checked_mul(*k)));
        v.push(base);
    }
    v.extend((2..32).map(|i| 1u32 << i));
    v.extend((4..32).step_by(3).flat_map(|i| [(1u32 << i) - 1, (1 << i) + 1]));
    v.extend([1_000_000_007, 7 << 16, 7 << 24, 0x1234_0007, 0x1235_0007, 0x1234_0008]);
    v.retain(|&m| 0 < m && m <= 1 << 31);
    v.sort();
    v.dedup();
    v
}
/// The call and what it should answer.
fn one<A: Mi>(call: usize, m: u32) -> (String, String) {
    let w = m as i128;
    let v = [5i64, -7];
    let (x, y) = (<A as ModIntBase>::new(v[0]), <A as ModIntBase>::new(v[1]));
    let (a, b) = (5 % w, (-7i128).rem_euclid(w));
    let fives = [x; 5];
    arm();
    let got = match call {
        0 => (x * y).val() as i128,
        1 => (x + y).val() as i128,
        2 => (x - y).val() as i128,
        3 => x.pow(13).val() as i128,
        4 => <A as ModIntBase>::new(i64::MIN).val() as i128,
        5 => A::modulus() as i128,
        6 => <A as ModIntBase>::new(1).inv().val() as i128,
        7 => (-x).val() as i128,
        8 => (y / <A as ModIntBase>::new(1)).val() as i128,
        9 => fives.iter().fold(y, |p, q| p * *q).val() as i128,
        10 => {
            A::set(m);
            (x * y).val() as i128
        }
        11 => "1000000000000".parse::<A>().map_or(-1, |z| z.val() as i128),
        _ => {
            let mut z = x;
            z *= y;
            z += x;
            z.val() as i128
        }
    };
    disarm();
    let want = match call {
        0 | 10 => a * b % w,
        1 => (a + b) % w,
        2 => (a - b).rem_euclid(w),
        3 => pow_ref(a as u64, 13, m as u64) as i128,
        4 => (i64::MIN as i128).rem_euclid(w),
        5 => w,
        6 => 1 % w,
        7 => (w - a) % w,
        8 => b,
        9 => (0..5).fold(b, |p, _| p * a % w),
        11 => 1_000_000_000_000 % w,
        _ => (a * b + a) % w,
    };
    (got.to_string(), want.to_string())
}
/// Instruction-level switches: call number `call` on one thread, calls of kind `other` on another.
fn between<A: Mi + 'static, B: Mi + 'static>(cx: &mut Cx, call: usize, other: usize) {
    fn light<Z: Mi>(m: u32) -> Result<(), String> {
        let w = m as i128;
        same(|| "modulus()".into(), Z::modulus(), m)?;
        let (a, b) = (1i64 << 40, -(1i64 << 33) + 7);
        let want = (a as i128).rem_euclid(w) * (b as i128).rem_euclid(w) % w;
        same(|| format!("{a} * {b} modulo {m}"), (<Z as ModIntBase>::new(a) * <Z as ModIntBase>::new(b)).val() as i128, want)
    }
    for m in [12u32, 998_244_353, 2_147_483_648, 1, 1_000_000_007] {
        let k = std::sync::atomic::AtomicU32::new(0);
        let second = || -> Result<(), String> {
            match other {
                0 => {
                    let (g, w) = one::<A>(call, m);
                    same(|| "the same call".into(), g, w)
                }
                1 => {
                    let m2 = [7u32, 12, 1 << 31, 998_244_353][k.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as usize % 4];
                    B::set(m2);
                    light::<B>(m2)
                }
                2 => {
                    A::set(m);
                    light::<A>(m)
                }
                3 => {
                    same(|| "ModInt998244353 product".into(), (ModInt998244353::new(-1) * ModInt998244353::new(-2)).val(), 2)?;
                    same(|| "S<60>".into(), (S::<60, false>::new(59) * S::<60, false>::new(59)).val(), 1)
                }
                4 => {
                    refuses("setting the modulus to 0", || A::set(0))?;
                    light::<A>(m)
                }
                _ => {
                    light::<Dy<61>>(998_244_353)?;
                    light::<A>(m)
                }
            }
        };
        let at = |on: Switch, cx: &mut Cx| -> Option<Seen> {
            let r = cx.run(
                || format!("family 0 set to {m}; call {call} on one thread, calls of kind {other} on another let in at {on:?} (machine instruction)"),
                || {
                    A::set(m);
                    B::set(7);
                    let ((g, w), seen, second) = switching(on, 5000, || one::<A>(call, m), second);
                    second.map_err(|e| format!("other thread: {e}"))?;
                    same(|| format!("call {call}"), g, w)?;
                    light::<A>(m)?;
                    Ok(seen)
                },
            );
            if let Some(s) = r {
                cx.calls(s.runs + 1);
                cx.states(1);
                cx.outcome(s.steps);
            }
            r
        };
        let Some(all) = at(Switch::Every, cx) else { continue };
        for i in 1..=all.steps.min(if cx.thorough { 5000 } else { 700 }) {
            at(Switch::At(i), cx);
        }
    }
}
/// Two calls, both interrupted half-way, at every pair of machine instructions.
fn crossed<A: Mi + 'static, B: Mi + 'static>(cx: &mut Cx, x: usize, y: usize, family: usize) {
    for (m, m2) in [(12u32, 998_244_353u32), (2_147_483_648, 12), (998_244_353, 1)] {
        let at = |i: u64, j: u64, cx: &mut Cx| -> Option<[Seen; 2]> {
            let r = cx.run(
                || format!("family 0 set to {m}, family 1 to {m2}; call {x} on family 0 up to machine instruction {i}, on another thread call {y} on family {family} up to {j}, the rest of the first, the rest of the second"),
                || {
                    A::set(m);
                    B::set(m2);
                    let ((g, w), seen, second) = crossing(i, j, || one::<A>(x, m), || {
                        let (g, w) = if family == 0 { one::<A>(y, m) } else { one::<B>(y, m2) };
                        same(|| format!("call {y}"), g, w)
                    });
                    second.map_err(|e| format!("second thread: {e}"))?;
                    same(|| format!("call {x}"), g, w)?;
                    for f in 0..2 {
                        let (g, w) = if f == 0 { one::<A>(0, m) } else { one::<B>(0, m2) };
                        same(|| format!("product in family {f} afterwards"), g, w)?;
                    }
                    Ok(seen)
                },
            );
            if r.is_some() {
                cx.calls(4);
                cx.states(1);
            }
            r
        };
        let Some(s) = at(u64::MAX, u64::MAX, cx) else { continue };
        cx.outcome(s[0].steps << 20 | s[1].steps);
        let most = if cx.thorough { 400 } else { 40 };
        for i in 1..=s[0].steps.min(most) {
            for j in 1..=s[1].steps.min(most) {
                at(i, j, cx);
            }
        }
    }
}
fn main() {
    mc::main("C19", false, |thorough| {
        let mut v = vec![];
        // first: nothing in this process has set a modulus yet
        v.push(space("default family from the start", "the default family before any setting, read and used from 3 threads; refused settings; then settings, probed from all threads together with another family and compile-time types", 1, |_, cx| {
            let th = Threads::new(3);
            let r = cx.run(
                || "the default family, nothing set, on 3 threads; then refusals and settings".into(),
                || {
                    let mut n = 0;
                    for t in 0..3 {
                        n += th.on(t, || Ok(probe::<ModInt>(998_244_353)? + probe_static()?))?;
                    }
                    for t in 0..3 {
                        n += th.on(t, || {
                            refuses("setting the modulus to 0", || ModInt::set_modulus(0))?;
                            Ok(1)
                        })?;
                        for p in 0..3 {
                            n += th.on(p, || probe::<ModInt>(998_244_353))?;
                        }
                    }
                    // another family nobody has set
                    n += th.on(1, || probe::<Dy<63>>(998_244_353))?;
                    for (i, m) in large_moduli().into_iter().chain(1..=100).enumerate() {
                        n += th.on(i % 3, move || {
                            ModInt::set_modulus(m);
                            Ok(1)
                        })?;
                        for p in 0..3 {
                            n += th.on(p, move || Ok(probe::<ModInt>(m)? + probe_static()? + probe::<Dy<63>>(998_244_353)?)).map_err(|e| format!("default family set to {m}: {e}"))?;
                        }
                    }
                    Ok(n)
                },
            );
            if let Some(n) = r {
                cx.calls(n);
                cx.states(300);
            }
        }));
        v.push(space("two threads", &format!("every history of 1..={} calls on 2 threads: set family 0 or 1 to 1, 12, 2^31, 998244353, or (refused) 0; all threads probe after every call", if thorough { 4 } else { 3 }), 20, |c, cx| {
            let len = if cx.thorough { 4 } else { 3 };
            macro_rules! go { ($($i:literal $j:literal)*) => { [$(histories::<Dy<$i>, Dy<$j>>,)*] } }
            // families are private to the worker
            go!(0 1  2 3  4 5  6 7  8 9  10 11  12 13  14 15  16 17  18 19  20 21  22 23  24 25  26 27  28 29  30 31)[cx.worker](cx, c, 2, len)
        }));
        v.push(space("three threads", &format!("every history of 1..={} calls on 3 threads, the same calls", if thorough { 3 } else { 2 }), 30, |c, cx| {
            let len = if cx.thorough { 3 } else { 2 };
            macro_rules! go { ($($i:literal $j:literal)*) => { [$(histories::<Dy<$i>, Dy<$j>>,)*] } }
            go!(0 1  2 3  4 5  6 7  8 9  10 11  12 13  14 15  16 17  18 19  20 21  22 23  24 25  26 27  28 29  30 31)[cx.worker](cx, c, 3, len)
        }));
        let rel = related();
        let k = rel.len();
        v.push(space("successive settings", &format!("one family on one thread, nothing else in between: every ordered pair of {k} related moduli (one-bit neighbours, equal halves, multiples, powers of two), probed after each setting; the last one probed by a second thread, too"), k, move |c, cx| {
            fn go<A: Mi + 'static>(cx: &mut Cx, m: u32, rel: &[u32]) {
                let th = Threads::new(2);
                for &m2 in rel {
                    let r = cx.run(
                        || format!("one family set to {m}, probed, set to {m2}, probed; then another thread sets {m}"),
                        || {
                            let mut n = th.on(0, move || {
                                A::set(m);
                                let n = probe::<A>(m)?;
                                A::set(m2);
                                Ok(n + 2 + probe::<A>(m2)?)
                            })?;
                            n += th.on(1, move || {
                                let n = probe::<A>(m2)?;
                                A::set(m);
                                Ok(n + 1)
                            })?;
                            n += th.on(0, move || probe::<A>(m))?;
                            Ok(n)
                        },
                    );
                    if let Some(n) = r {
                        cx.calls(n);
                        cx.states(1);
                        cx.outcome((m as u64) << 32 | m2 as u64);
                    }
                }
            }
            macro_rules! go { ($($i:literal)*) => { [$(go::<Dy<$i>>,)*] } }
            go!(32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47)[cx.worker](cx, rel[c], &rel)
        }));
        v.push(space("between two instructions", "one thread makes a call on a family whose modulus stays (13 kinds of calls, 5 moduli), stopped before each of its machine instructions in turn (all at once, and each alone); there another thread makes calls of 6 kinds (the same calls; setting and using another family; setting the same modulus again and using it; compile-time types; a refused setting; a family nobody has set)", 13 * 6, |c, cx| {
            macro_rules! go { ($($i:literal $j:literal)*) => { [$(between::<Dy<$i>, Dy<$j>>,)*] } }
            go!(0 1  2 3  4 5  6 7  8 9  10 11  12 13  14 15  16 17  18 19  20 21  22 23  24 25  26 27  28 29  30 31)[cx.worker](cx, c / 6, c % 6)
        }));
        let crossings: Vec<(usize, usize, usize)> = [0usize, 10].iter().flat_map(|&x| [0usize, 10, 3, 9].iter().flat_map(move |&y| [(x, y, 0), (x, y, 1)])).collect();
        v.push(space("both between two instructions", &format!("two threads, products and settings of the present modulus against products, powers and settings, in the same family or another, 3 pairs of moduli: every pair of machine instructions (up to the {}th) at which the two are interrupted", if thorough { 400 } else { 40 }), crossings.len(), move |c, cx| {
            let (x, y, f) = crossings[c];
            macro_rules! go { ($($i:literal $j:literal)*) => { [$(crossed::<Dy<$i>, Dy<$j>>,)*] } }
            go!(0 1  2 3  4 5  6 7  8 9  10 11  12 13  14 15  16 17  18 19  20 21  22 23  24 25  26 27  28 29  30 31)[cx.worker](cx, x, y, f)
        }));
        v
    });
}
