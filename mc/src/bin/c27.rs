//! C27 recursive closures.
use mc::*;
use rust_cp::misc::recursive_function::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Debug;
use std::rc::Rc;

/// A call tree: kids[v] is the number of nested calls of the v-th call in preorder.
type Plan = Vec<usize>;

/// All ordered trees with n nodes.
fn trees(n: usize) -> Vec<Plan> {
    fn forests(n: usize) -> Vec<Vec<Plan>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut v = vec![];
        for first in 1..=n {
            for t in trees(first) {
                for rest in forests(n - first) {
                    let mut f = vec![t.clone()];
                    f.extend(rest);
                    v.push(f);
                }
            }
        }
        v
    }
    forests(n - 1)
        .into_iter()
        .map(|f| {
            let mut p = vec![f.len()];
            p.extend(f.into_iter().flatten());
            p
        })
        .collect()
}

/// The state the closure captures: which call of the plan comes next, and everything seen so far.
#[derive(Default, Clone, PartialEq, Debug)]
struct State {
    next: usize,
    log: Vec<u64>,
    sum: u64,
}
impl State {
    fn enter(&mut self, args: &[u64]) -> (usize, u64) {
        let v = self.next;
        self.next += 1;
        self.log.push(v as u64);
        self.log.extend(args);
        self.sum = self.sum.wrapping_mul(7).wrapping_add(v as u64 + 1);
        (v, args.iter().fold(self.sum, |h, &a| h.wrapping_mul(1_000_003).wrapping_add(a)))
    }
    fn back(&mut self, v: usize, j: usize, r: u64, x: u64) -> u64 {
        self.log.push(x);
        self.sum = self.sum.wrapping_mul(5).wrapping_add(j as u64);
        r.wrapping_mul(31).wrapping_add(x ^ (v as u64) << 3).wrapping_add(self.sum)
    }
}
fn nested(perm: &[usize], args: &[u64], j: usize) -> Vec<u64> {
    (0..args.len()).map(|i| args[perm[i]].wrapping_mul(3).wrapping_add(j as u64 * 17 + i as u64)).collect()
}
/// What the wrapped closure must compute.
fn native(plan: &Plan, perm: &[usize], st: &mut State, args: &[u64]) -> u64 {
    let (v, mut r) = st.enter(args);
    for j in 0..plan[v] {
        let x = native(plan, perm, st, &nested(perm, args, j));
        r = st.back(v, j, r, x);
    }
    r
}
/// The same with state the closure owns and touches only on entry.
fn native_owned(plan: &Plan, perm: &[usize], next: &mut usize, log: &mut Vec<u64>, args: &[u64]) -> u64 {
    let (v, mut r) = enter_owned(next, log, args);
    for j in 0..plan[v] {
        let x = native_owned(plan, perm, next, log, &nested(perm, args, j));
        r = r.wrapping_mul(31).wrapping_add(x ^ (j as u64) << 3);
    }
    r
}
fn enter_owned(next: &mut usize, log: &mut Vec<u64>, args: &[u64]) -> (usize, u64) {
    let v = *next;
    *next += 1;
    log.push(v as u64);
    log.extend(args);
    (v, log.iter().fold(log.len() as u64, |h, &a| h.wrapping_mul(1_000_003).wrapping_add(a)))
}
macro_rules! u {
    ($a:ident) => {
        u64
    };
}
macro_rules! arity {
    ($name:ident, $rc:ident, $own:ident, $trait:ident, $wrap:ident, $n:expr, $($a:ident)*) => {
        /// State captured by reference.
        fn $name(plan: &Plan, perm: &[usize], st: &mut State, roots: &[Vec<u64>]) -> Vec<u64> {
            let mut w = $wrap::new(|f: &mut dyn $trait<$(u!($a),)* u64>, $($a: u64),*| -> u64 {
                let args: [u64; $n] = [$($a),*];
                let (v, mut r) = st.enter(&args);
                for j in 0..plan[v] {
                    let next: [u64; $n] = nested(perm, &args, j).try_into().unwrap();
                    let [$($a),*] = next;
                    let x = f.call($($a),*);
                    r = st.back(v, j, r, x);
                }
                r
            });
            let mut out = vec![];
            for a in roots {
                let root: [u64; $n] = a.clone().try_into().unwrap();
                let [$($a),*] = root;
                out.push(w.call($($a),*));
            }
            out
        }
        /// State shared through a counted cell that the closure owns.
        fn $rc(plan: &Plan, perm: &[usize], st: &mut State, roots: &[Vec<u64>]) -> Vec<u64> {
            let cell = Rc::new(RefCell::new(std::mem::take(st)));
            let (mine, plan, perm) = (cell.clone(), plan.clone(), perm.to_vec());
            let mut w = $wrap::new(move |f: &mut dyn $trait<$(u!($a),)* u64>, $($a: u64),*| -> u64 {
                let args: [u64; $n] = [$($a),*];
                let (v, mut r) = mine.borrow_mut().enter(&args);
                for j in 0..plan[v] {
                    let next: [u64; $n] = nested(&perm, &args, j).try_into().unwrap();
                    let [$($a),*] = next;
                    let x = f.call($($a),*);
                    r = mine.borrow_mut().back(v, j, r, x);
                }
                r
            });
            let mut out = vec![];
            for a in roots {
                let root: [u64; $n] = a.clone().try_into().unwrap();
                let [$($a),*] = root;
                out.push(w.call($($a),*));
            }
            *st = cell.borrow().clone();
            out
        }
        /// State owned by the closure, touched only before nested calls.
        fn $own(plan: &Plan, perm: &[usize], roots: &[Vec<u64>]) -> Vec<u64> {
            let (plan, perm) = (plan.clone(), perm.to_vec());
            let (mut next, mut log) = (0, vec![]);
            let mut w = $wrap::new(move |f: &mut dyn $trait<$(u!($a),)* u64>, $($a: u64),*| -> u64 {
                let args: [u64; $n] = [$($a),*];
                let (v, mut r) = enter_owned(&mut next, &mut log, &args);
                for j in 0..plan[v] {
                    let next: [u64; $n] = nested(&perm, &args, j).try_into().unwrap();
                    let [$($a),*] = next;
                    let x = f.call($($a),*);
                    r = r.wrapping_mul(31).wrapping_add(x ^ (j as u64) << 3);
                }
                r
            });
            let mut out = vec![];
            for a in roots {
                let root: [u64; $n] = a.clone().try_into().unwrap();
                let [$($a),*] = root;
                out.push(w.call($($a),*));
            }
            out
        }
    };
}
arity!(by_ref0, by_rc0, owned0, Callable0, RecursiveFunction0, 0,);
arity!(by_ref1, by_rc1, owned1, Callable, RecursiveFunction, 1, a);
arity!(by_ref2, by_rc2, owned2, Callable2, RecursiveFunction2, 2, a b);
arity!(by_ref3, by_rc3, owned3, Callable3, RecursiveFunction3, 3, a b c);
arity!(by_ref4, by_rc4, owned4, Callable4, RecursiveFunction4, 4, a b c d);
arity!(by_ref5, by_rc5, owned5, Callable5, RecursiveFunction5, 5, a b c d e);
arity!(by_ref6, by_rc6, owned6, Callable6, RecursiveFunction6, 6, a b c d e g);
arity!(by_ref7, by_rc7, owned7, Callable7, RecursiveFunction7, 7, a b c d e g h);
arity!(by_ref8, by_rc8, owned8, Callable8, RecursiveFunction8, 8, a b c d e g h i);
arity!(by_ref9, by_rc9, owned9, Callable9, RecursiveFunction9, 9, a b c d e g h i k);
type Runner = fn(&Plan, &[usize], &mut State, &[Vec<u64>]) -> Vec<u64>;
const BY_REF: [Runner; 10] = [by_ref0, by_ref1, by_ref2, by_ref3, by_ref4, by_ref5, by_ref6, by_ref7, by_ref8, by_ref9];
const BY_RC: [Runner; 10] = [by_rc0, by_rc1, by_rc2, by_rc3, by_rc4, by_rc5, by_rc6, by_rc7, by_rc8, by_rc9];
const OWNED: [fn(&Plan, &[usize], &[Vec<u64>]) -> Vec<u64>; 10] = [owned0, owned1, owned2, owned3, owned4, owned5, owned6, owned7, owned8, owned9];

/// All permutations up to 4 positions; identity, rotations, reversal and transpositions above.
fn perms(k: usize, every: bool) -> Vec<Vec<usize>> {
    let mut v = vec![];
    if k <= if every { 5 } else { 4 } {
        permutations(&mut (0..k).collect(), 0, &mut |p| v.push(p.to_vec()));
    } else {
        for r in 0..k {
            v.push((0..k).map(|i| (i + r) % k).collect());
        }
        v.push((0..k).rev().collect());
        for i in 0..k {
            for j in i + 1..k {
                let mut p: Vec<usize> = (0..k).collect();
                p.swap(i, j);
                v.push(p);
            }
        }
    }
    v
}
fn tree_case(cx: &mut Cx, k: usize, plans: &[&Plan], perm: &[usize]) {
    // successive calls run the trees one after another on one wrapper
    let all: Plan = plans.iter().flat_map(|p| p.iter().copied()).collect();
    let roots: Vec<Vec<u64>> = (0..plans.len()).map(|t| (0..k).map(|i| 1000 * (i as u64 + 1) + 7 + 100_000 * t as u64).collect()).collect();
    for (how, run) in [("by reference", BY_REF[k]), ("through a shared cell", BY_RC[k])] {
        let r = cx.run(
            || format!("arity {k}, {} successive call trees {plans:?} (nested calls of each call in preorder), nested argument i taken from position {perm:?}[i], state captured {how}", plans.len()),
            || {
                let mut want_st = State::default();
                let want: Vec<u64> = roots.iter().map(|a| native(&all, perm, &mut want_st, a)).collect();
                let mut st = State::default();
                let got = run(&all, perm, &mut st, &roots);
                same(|| "results".into(), got, want)?;
                if st != want_st {
                    return Err(format!("captured state: got {st:?}, expected {want_st:?}"));
                }
                Ok(st.sum)
            },
        );
        if let Some(h) = r {
            cx.calls(all.len() as u64);
            cx.outcome(h);
        }
    }
    let r = cx.run(
        || format!("arity {k}, {} successive call trees {plans:?} (nested calls of each call in preorder), nested argument i taken from position {perm:?}[i], state owned by the closure and changed on entry", plans.len()),
        || {
            let (mut next, mut log) = (0, vec![]);
            let want: Vec<u64> = roots.iter().map(|a| native_owned(&all, perm, &mut next, &mut log, a)).collect();
            let got = OWNED[k](&all, perm, &roots);
            same(|| "results".into(), &got, &want)?;
            Ok(want[0])
        },
    );
    if r.is_some() {
        cx.calls(all.len() as u64);
    }
    cx.states(1);
}

/// Argument types of different sizes and ownership.
trait Tok: Debug {
    fn make(x: u64) -> Self;
}
macro_rules! tok {
    ($($t:ty = |$x:ident| $e:expr;)*) => {
        $(impl Tok for $t { fn make($x: u64) -> Self { $e } })*
    };
}
tok! {
    u8 = |x| x as u8;
    String = |x| format!("s{x}");
    i64 = |x| -(x as i64);
    char = |x| char::from(b'a' + (x % 26) as u8);
    Vec<u16> = |x| vec![x as u16, (x >> 3) as u16];
    bool = |x| x % 2 == 1;
    Option<Box<i32>> = |x| if x % 3 == 0 { None } else { Some(Box::new(x as i32)) };
    f64 = |x| (x % 1000) as f64 / 4.0;
    (u32, &'static str) = |x| (x as u32, ["", "p", "qq"][(x % 3) as usize]);
}
fn text_hash(s: &[String]) -> u64 {
    s.iter().flat_map(|s| s.bytes().chain([0])).fold(11, |h, b| (h * 131 + b as u64) % 1_000_000_007)
}
fn seed(h: u64, j: usize, i: usize) -> u64 {
    h + j as u64 * 7919 + i as u64 * 104_729
}
#[derive(Default, PartialEq, Debug)]
struct Seen {
    next: usize,
    log: Vec<Vec<String>>,
}
fn native_mixed(plan: &Plan, st: &mut Seen, make: &[fn(u64) -> String], args: Vec<String>) -> String {
    let v = st.next;
    st.next += 1;
    let h = text_hash(&args);
    let mut r = args.join("/");
    st.log.push(args);
    for j in 0..plan[v] {
        let next = make.iter().enumerate().map(|(i, m)| m(seed(h, j, i))).collect();
        r = format!("({r}|{})", native_mixed(plan, st, make, next));
    }
    r
}
macro_rules! mixed {
    ($name:ident, $trait:ident, $wrap:ident, $($i:tt $a:ident: $t:ty),*) => {
        fn $name(plan: &Plan) -> Result<usize, String> {
            let mut st = Seen::default();
            let got = {
                let mut w = $wrap::new(|f: &mut dyn $trait<$($t,)* String>, $($a: $t),*| -> String {
                    let v = st.next;
                    st.next += 1;
                    let args = vec![$(format!("{:?}", $a)),*];
                    let h = text_hash(&args);
                    let mut r = args.join("/");
                    st.log.push(args);
                    for j in 0..plan[v] {
                        let x = f.call($(<$t as Tok>::make(seed(h, j, $i))),*);
                        r = format!("({r}|{x})");
                    }
                    r
                });
                w.call($(<$t as Tok>::make(seed(5, 0, $i))),*)
            };
            let make: Vec<fn(u64) -> String> = vec![$(|x| format!("{:?}", <$t as Tok>::make(x))),*];
            let mut want_st = Seen::default();
            let args = make.iter().enumerate().map(|(i, m)| m(seed(5, 0, i))).collect();
            let want = native_mixed(plan, &mut want_st, &make, args);
            same(|| "result".into(), got, want)?;
            same(|| "captured state".into(), st, want_st)?;
            Ok(plan.len())
        }
    };
}
mixed!(mixed1, Callable, RecursiveFunction, 0 a: String);
mixed!(mixed2, Callable2, RecursiveFunction2, 0 a: String, 1 b: u8);
mixed!(mixed3, Callable3, RecursiveFunction3, 0 a: char, 1 b: Vec<u16>, 2 c: i64);
mixed!(mixed4, Callable4, RecursiveFunction4, 0 a: bool, 1 b: String, 2 c: f64, 3 d: Option<Box<i32>>);
mixed!(mixed5, Callable5, RecursiveFunction5, 0 a: Vec<u16>, 1 b: (u32, &'static str), 2 c: u8, 3 d: String, 4 e: i64);
mixed!(mixed6, Callable6, RecursiveFunction6, 0 a: f64, 1 b: char, 2 c: Option<Box<i32>>, 3 d: bool, 4 e: String, 5 g: Vec<u16>);
mixed!(mixed7, Callable7, RecursiveFunction7, 0 a: u8, 1 b: String, 2 c: i64, 3 d: char, 4 e: Vec<u16>, 5 g: bool, 6 h: Option<Box<i32>>);
mixed!(mixed8, Callable8, RecursiveFunction8, 0 a: (u32, &'static str), 1 b: f64, 2 c: Option<Box<i32>>, 3 d: bool, 4 e: Vec<u16>, 5 g: char, 6 h: i64, 7 i: String);
mixed!(mixed9, Callable9, RecursiveFunction9, 0 a: u8, 1 b: String, 2 c: i64, 3 d: char, 4 e: Vec<u16>, 5 g: bool, 6 h: Option<Box<i32>>, 7 i: f64, 8 k: (u32, &'static str));
const MIXED: [fn(&Plan) -> Result<usize, String>; 9] = [mixed1, mixed2, mixed3, mixed4, mixed5, mixed6, mixed7, mixed8, mixed9];

/// Recursions people write, for every small parameter.
fn classics(cx: &mut Cx, which: usize) {
    fn case<T>(cx: &mut Cx, d: String, f: impl FnOnce() -> Result<T, String>) {
        if cx.run(|| d.clone(), f).is_some() {
            cx.calls(1);
            cx.states(1);
        }
    }
    match which {
        0 => {
            for n in 0..22u64 {
                case(cx, format!("Fibonacci number {n} by double recursion, counting calls"), || {
                    fn fib(n: u64, c: &mut u64) -> u64 {
                        *c += 1;
                        if n < 2 { n } else { fib(n - 1, c) + fib(n - 2, c) }
                    }
                    let (mut c, mut c2) = (0, 0);
                    let got = RecursiveFunction::new(|f, n: u64| {
                        c += 1;
                        if n < 2 { n } else { f.call(n - 1) + f.call(n - 2) }
                    })
                    .call(n);
                    same(|| "value".into(), got, fib(n, &mut c2))?;
                    same(|| "calls".into(), c, c2)
                });
            }
        }
        1 => {
            for m in 0..3u64 {
                for n in 0..12u64 {
                    case(cx, format!("Ackermann({m}, {n})"), || {
                        fn ack(m: u64, n: u64) -> u64 {
                            if m == 0 { n + 1 } else if n == 0 { ack(m - 1, 1) } else { ack(m - 1, ack(m, n - 1)) }
                        }
                        let got = RecursiveFunction2::new(|f, m: u64, n: u64| {
                            if m == 0 {
                                n + 1
                            } else if n == 0 {
                                f.call(m - 1, 1)
                            } else {
                                let x = f.call(m, n - 1);
                                f.call(m - 1, x)
                            }
                        })
                        .call(m, n);
                        same(|| "value".into(), got, ack(m, n))
                    });
                }
            }
        }
        2 => {
            for n in 0..9u32 {
                case(cx, format!("towers of Hanoi with {n} discs, moves recorded in captured state"), || {
                    fn hanoi(n: u32, a: char, b: char, c: char, out: &mut Vec<(u32, char, char)>) {
                        if n > 0 {
                            hanoi(n - 1, a, c, b, out);
                            out.push((n, a, c));
                            hanoi(n - 1, b, a, c, out);
                        }
                    }
                    let (mut got, mut want) = (vec![], vec![]);
                    RecursiveFunction4::new(|f, n: u32, a: char, b: char, c: char| {
                        if n > 0 {
                            f.call(n - 1, a, c, b);
                            got.push((n, a, c));
                            f.call(n - 1, b, a, c);
                        }
                    })
                    .call(n, 'A', 'B', 'C');
                    hanoi(n, 'A', 'B', 'C', &mut want);
                    same(|| "moves".into(), got, want)
                });
            }
        }
        3 => {
            for n in 0..7usize {
                case(cx, format!("all permutations of {n} elements, path and output in captured state"), || {
                    let (mut used, mut path, mut out) = (vec![false; n], vec![], vec![]);
                    RecursiveFunction0::new(|f: &mut dyn Callable0<()>| {
                        if path.len() == n {
                            out.push(path.clone());
                        }
                        for i in 0..n {
                            if !used[i] {
                                used[i] = true;
                                path.push(i);
                                f.call();
                                path.pop();
                                used[i] = false;
                            }
                        }
                    })
                    .call();
                    let mut want: Vec<Vec<usize>> = vec![];
                    permutations(&mut (0..n).collect(), 0, &mut |p| want.push(p.to_vec()));
                    want.sort();
                    same(|| "permutations, in lexicographic order".into(), out, want)
                });
            }
        }
        4 => {
            for n in 1..=8usize {
                case(cx, format!("{n} queens"), || {
                    let got = RecursiveFunction5::new(|f, n: usize, row: usize, cols: u64, d: u64, e: u64| -> u64 {
                        if row == n {
                            return 1;
                        }
                        let mut r = 0;
                        for c in 0..n {
                            if cols >> c & 1 == 0 && d >> (row + c) & 1 == 0 && e >> (row + n - c) & 1 == 0 {
                                r += f.call(n, row + 1, cols | 1 << c, d | 1 << (row + c), e | 1 << (row + n - c));
                            }
                        }
                        r
                    })
                    .call(n, 0, 0, 0, 0);
                    same(|| "solutions".into(), got, [1, 1, 0, 0, 2, 10, 4, 40, 92][n])
                });
            }
        }
        5 => {
            // every directed graph on 4 vertices: depth-first finishing order
            for g in 0..1u32 << 12 {
                case(cx, format!("depth-first search over graph {g} on 4 vertices"), || {
                    let edge = |a: usize, b: usize| a != b && g >> (a * 3 + b - (b > a) as usize) & 1 == 1;
                    fn dfs(v: usize, edge: &dyn Fn(usize, usize) -> bool, seen: &mut [bool; 4], out: &mut Vec<usize>) -> usize {
                        seen[v] = true;
                        let mut size = 1;
                        for w in 0..4 {
                            if edge(v, w) && !seen[w] {
                                size += dfs(w, edge, seen, out);
                            }
                        }
                        out.push(v);
                        size
                    }
                    let (mut seen, mut out) = ([false; 4], vec![]);
                    let (mut seen2, mut out2) = ([false; 4], vec![]);
                    let mut got = vec![];
                    {
                        let mut w = RecursiveFunction2::new(|f, v: usize, dummy: &str| {
                            if seen[v] {
                                return 0;
                            }
                            seen[v] = true;
                            let mut size = 1;
                            for w in 0..4 {
                                if edge(v, w) {
                                    size += f.call(w, dummy);
                                }
                            }
                            out.push(v);
                            size
                        });
                        for v in 0..4 {
                            got.push(w.call(v, "x"));
                        }
                    }
                    let want: Vec<usize> = (0..4).map(|v| if seen2[v] { 0 } else { dfs(v, &edge, &mut seen2, &mut out2) }).collect();
                    same(|| "sizes".into(), got, want)?;
                    same(|| "finishing order".into(), out, out2)
                });
            }
        }
        6 => {
            for n in 0..12u64 {
                for k in 0..=n {
                    case(cx, format!("binomial({n}, {k}) with a captured table, called twice"), || {
                        let mut memo: HashMap<(u64, u64), u64> = HashMap::new();
                        let mut misses = 0;
                        let mut w = RecursiveFunction2::new(|f, n: u64, k: u64| -> u64 {
                            if let Some(&x) = memo.get(&(n, k)) {
                                return x;
                            }
                            misses += 1;
                            let x = if k == 0 || k == n { 1 } else { f.call(n - 1, k - 1) + f.call(n - 1, k) };
                            memo.insert((n, k), x);
                            x
                        });
                        let (a, b) = (w.call(n, k), w.call(n, k));
                        let mut want = 1;
                        for i in 0..k {
                            want = want * (n - i) / (i + 1);
                        }
                        same(|| "value".into(), (a, b), (want, want))?;
                        same(|| "table entries".into(), memo.len() as u64, misses)
                    });
                }
            }
        }
        7 => {
            for depth in [0u64, 1, 10, 1000, 20_000, 66_000, 133_000, 600_000] {
                case(cx, format!("{depth} nested calls in a row"), || {
                    let mut seen = vec![];
                    let got = RecursiveFunction::new(|f, n: u64| {
                        seen.push(n);
                        let r = if n == 0 { 0 } else { f.call(n - 1) + n };
                        seen.push(n);
                        r
                    })
                    .call(depth);
                    same(|| "sum".into(), got, depth * (depth + 1) / 2)?;
                    let want: Vec<u64> = (0..=depth).rev().chain(0..=depth).collect();
                    if seen != want {
                        return Err("captured log differs".into());
                    }
                    Ok(())
                });
            }
        }
        8 => {
            for n in 0..7u64 {
                case(cx, format!("a wrapper called from inside another wrapper and through a helper, parameter {n}"), || {
                    fn twice(f: &mut dyn Callable<u64, u64>, n: u64) -> u64 {
                        f.call(n) * 2 + f.call(n) % 3
                    }
                    fn inner(n: u64, k: u64) -> u64 {
                        if n == 0 { k } else { inner(n - 1, k + 1) * 2 }
                    }
                    fn outer(n: u64) -> u64 {
                        if n == 0 { 1 } else { inner(n, 1) + outer(n - 1) * 2 + outer(n - 1) % 3 }
                    }
                    let got = RecursiveFunction::new(|f, n: u64| {
                        if n == 0 {
                            return 1;
                        }
                        let x = RecursiveFunction2::new(|g, n: u64, k: u64| if n == 0 { k } else { g.call(n - 1, k + 1) * 2 }).call(n, 1);
                        x + twice(f, n - 1)
                    })
                    .call(n);
                    same(|| "value".into(), got, outer(n))
                });
            }
        }
        9 => {
            for n in 0..10u64 {
                case(cx, format!("owned state that only successive calls change, {n} calls"), || {
                    let mut cnt = 0u64;
                    let mut w = RecursiveFunction::new(move |_, x: u64| {
                        cnt = cnt * 3 + x;
                        cnt
                    });
                    let mut want = 0;
                    for i in 0..n {
                        want = want * 3 + i + 1;
                        same(|| format!("call {}", i + 1), w.call(i + 1), want)?;
                    }
                    let mut names = vec![];
                    let mut w = RecursiveFunction0::new(move |_: &mut dyn Callable0<usize>| {
                        names.push("x");
                        names.len()
                    });
                    for i in 0..n {
                        same(|| format!("call {}", i + 1), w.call(), i as usize + 1)?;
                    }
                    Ok(())
                });
            }
        }
        10 => {
            for n in 0..=5u64 {
                case(cx, format!("counter cell owned by the closure, parameter {n}"), || {
                    const P: u64 = 1_000_003;
                    let c = Rc::new(Cell::new(0u64));
                    let d = c.clone();
                    let got = RecursiveFunction::new(move |f, n: u64| -> u64 {
                        d.set(d.get() + 1);
                        if n > 0 {
                            f.call(n - 1);
                        }
                        d.set(d.get() * 2 % P);
                        if n > 0 {
                            f.call(n - 1);
                        }
                        d.get()
                    })
                    .call(n);
                    fn r(c: &mut u64, n: u64) -> u64 {
                        *c += 1;
                        if n > 0 {
                            r(c, n - 1);
                        }
                        *c = *c * 2 % P;
                        if n > 0 {
                            r(c, n - 1);
                        }
                        *c
                    }
                    let mut k = 0;
                    let want = r(&mut k, n);
                    same(|| "value".into(), got, want)?;
                    same(|| "counter".into(), c.get(), k)
                });
            }
        }
        11 => {
            for n in 0..=6usize {
                case(cx, format!("results that own memory, early return, parameter {n}"), || {
                    fn go(n: usize, s: String) -> Result<Vec<String>, usize> {
                        if s.contains("bba") {
                            return Err(s.len());
                        }
                        if n == 0 {
                            return Ok(vec![s]);
                        }
                        let mut v = go(n - 1, format!("{s}a"))?;
                        if let Ok(x) = go(n - 1, format!("{s}b")) {
                            v.extend(x);
                        }
                        Ok(v)
                    }
                    for start in ["", "b", "bb"] {
                        let got = RecursiveFunction2::new(|f: &mut dyn Callable2<usize, String, Result<Vec<String>, usize>>, n: usize, s: String| -> Result<Vec<String>, usize> {
                            if s.contains("bba") {
                                return Err(s.len());
                            }
                            if n == 0 {
                                return Ok(vec![s]);
                            }
                            let mut v = f.call(n - 1, format!("{s}a"))?;
                            if let Ok(x) = f.call(n - 1, format!("{s}b")) {
                                v.extend(x);
                            }
                            Ok(v)
                        })
                        .call(n, start.to_string());
                        same(|| format!("from {start:?}"), got, go(n, start.to_string()))?;
                    }
                    Ok(())
                });
            }
        }
        _ => {
            // state the closure owns and changes around nested calls (see known_findings.txt)
            case(cx, "owned counter incremented after each of two nested calls, called with 3".into(), || {
                let mut cnt = 0u64;
                let got = RecursiveFunction::new(move |f, n: u64| -> u64 {
                    if n > 0 {
                        f.call(n - 1);
                    }
                    cnt += 1;
                    if n > 0 {
                        f.call(n - 1);
                    }
                    cnt += 1;
                    cnt
                })
                .call(3);
                same(|| "counter".into(), got, 30)
            });
            case(cx, "owned counter read before and after one nested call, called with 3".into(), || {
                let mut cnt = 0u64;
                let got = RecursiveFunction::new(move |f, n: u64| -> u64 {
                    cnt += 1;
                    let before = cnt;
                    let r = if n > 0 { f.call(n - 1) } else { 0 };
                    r * 1000 + before * 100 + cnt
                })
                .call(3);
                same(|| "trace of the counter".into(), got, 404_304_204_104)
            });
        }
    }
}

fn main() {
    mc::main("C27", false, |thorough| {
        let mut v = vec![];
        let n = if thorough { 9 } else { 7 };
        let mut plans: Vec<Plan> = (1..=n).flat_map(trees).collect();
        plans.shrink_to_fit();
        let small: Vec<Plan> = (1..=if thorough { 5 } else { 4 }).flat_map(trees).collect();
        let np = plans.len();
        v.push(space("call trees", &format!("arity 0 to 9, every ordered call tree of up to {n} calls, every permutation of argument positions up to arity {} (identity, rotations, reversal, transpositions above), state captured by reference, through a shared cell, and owned (changed on entry)", if thorough { 5 } else { 4 }), 10 * 8, move |c, cx| {
            let k = c / 8;
            for p in perms(k, cx.thorough) {
                for t in (c % 8..np).step_by(8) {
                    tree_case(cx, k, &[&plans[t]], &p);
                }
            }
        }));
        {
            let small = small.clone();
            v.push(space("successive calls", &format!("arity 0 to 9, every ordered pair of call trees of up to {} calls run one after another on one wrapper, every ordered triple{}", if thorough { 5 } else { 4 }, if thorough { " of at most 9 calls in all" } else { "" }), 10, move |k, cx| {
                let p: Vec<usize> = (0..k).map(|i| (i + 1) % k).collect();
                for a in &small {
                    for b in &small {
                        tree_case(cx, k, &[a, b], &p);
                        for c in &small {
                            if !cx.thorough || a.len() + b.len() + c.len() <= 9 {
                                tree_case(cx, k, &[a, b, c], &p);
                            }
                        }
                    }
                }
            }));
        }
        let n = if thorough { 8 } else { 6 };
        v.push(space("argument types", &format!("arity 1 to 9 with arguments of nine types (numbers, text, vectors, boxes, tuples), every ordered call tree of up to {n} calls"), 9, move |c, cx| {
            for p in (1..=n).flat_map(trees) {
                let r = cx.run(|| format!("arity {}, mixed argument types, call tree {p:?}", c + 1), || MIXED[c](&p));
                if let Some(n) = r {
                    cx.calls(n as u64);
                    cx.states(1);
                    cx.outcome((c * 1000 + n) as u64);
                }
            }
        }));
        v.push(space("usual recursions", "Fibonacci, Ackermann, Hanoi, permutations, queens, depth-first search over every directed graph on 4 vertices, memoised binomials, deep chains, nested wrappers, owned results; every parameter up to a bound", 12, |c, cx| classics(cx, c)));
        v.push(space("owned state changed around nested calls", "two closures that own the state they change across nested calls", 1, |_, cx| classics(cx, 99)));
        v
    });
}
