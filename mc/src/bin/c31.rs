//! C31 independence: an answer depends on the arguments and the object's own history only, not on other objects, earlier
//! calls, refused calls, other threads, the process, or what user functions do besides.
use mc::modi::*;
use mc::*;
use rust_cp::data_structure::{fenwick_tree::*, lazy_segtree::*, min_heap::*, segtree::*, sparse_table::*, union_find::*};
use rust_cp::graph::{binary_lifting::*, bipartite_matching::*, heavy_light_decomp::*, max_flow::*, shortest_path::*, tarjan::*};
use rust_cp::math::{factorial::*, number_theory::*};
use rust_cp::misc::{input::*, modint::*, monoids::*, recursive_function::*, util::*};
use rust_cp::string::{aho_corasick::*, kmp::*, z_algorithm::*};
use rust_cp::traits::integral::Integral;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use rust_cp::traits::numeric::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::OnceLock;

thread_local! {
    /// The item that user functions run from inside a call of the library, and what was wrong with it.
    static INSIDE: Cell<Option<usize>> = const { Cell::new(None) };
    static WRONG: RefCell<Option<String>> = const { RefCell::new(None) };
    static RAN: Cell<u64> = const { Cell::new(0) };
    /// A thread that runs the item instead.
    static OTHER: RefCell<Option<Carrier>> = const { RefCell::new(None) };
}
/// Called by every user function.
fn cb() {
    RAN.with(|r| r.set(r.get() + 1));
    if let Some(b) = INSIDE.with(|i| i.take()) {
        let r = OTHER.with(|o| match &*o.borrow() {
            Some(c) => c.whole(b).map(|_| 0),
            None => whole(&items()[b], b),
        });
        if let Err(e) = r {
            WRONG.with(|w| *w.borrow_mut() = Some(e));
            return;
        }
        INSIDE.with(|i| i.set(Some(b)));
    }
}

/// Products of affine functions: not commutative.
struct Mat;
impl Monoid for Mat {
    type S = (u64, u64);
    fn identity() -> Self::S {
        (1, 0)
    }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S {
        cb();
        (a.0.wrapping_mul(b.0), a.1.wrapping_mul(b.0).wrapping_add(b.1))
    }
}
struct Sum;
impl Monoid for Sum {
    type S = (u64, u64);
    fn identity() -> Self::S {
        (0, 0)
    }
    fn binary_operation(a: &Self::S, b: &Self::S) -> Self::S {
        cb();
        (a.0.wrapping_add(b.0), a.1 + b.1)
    }
}
struct Aff;
impl MapMonoid for Aff {
    type M = Sum;
    type F = (u64, u64);
    fn identity_map() -> Self::F {
        (1, 0)
    }
    fn mapping(f: &Self::F, x: &(u64, u64)) -> (u64, u64) {
        cb();
        (x.0.wrapping_mul(f.0).wrapping_add(f.1.wrapping_mul(x.1)), x.1)
    }
    fn composition(f: &Self::F, g: &Self::F) -> Self::F {
        cb();
        (f.0.wrapping_mul(g.0), f.0.wrapping_mul(g.1).wrapping_add(f.1))
    }
}
/// Compared through a user function.
#[derive(Clone, Copy, Debug)]
struct Key(u32, u32);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        cb();
        self.0 == o.0
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        cb();
        self.0.cmp(&o.0)
    }
}

/// A user's integer type.
#[derive(Clone, Copy)]
struct W(i64);
macro_rules! w_ops {
    ($($tr:ident $f:ident $op:tt, $tra:ident $fa:ident;)*) => { $(
        impl std::ops::$tr for W {
            type Output = W;
            fn $f(self, o: W) -> W {
                cb();
                W(self.0 $op o.0)
            }
        }
        impl std::ops::$tra for W {
            fn $fa(&mut self, o: W) {
                cb();
                self.0 = self.0 $op o.0;
            }
        }
    )* };
}
w_ops! { Add add +, AddAssign add_assign; Sub sub -, SubAssign sub_assign; Mul mul *, MulAssign mul_assign; Div div /, DivAssign div_assign; Rem rem %, RemAssign rem_assign;
    BitOr bitor |, BitOrAssign bitor_assign; BitAnd bitand &, BitAndAssign bitand_assign; BitXor bitxor ^, BitXorAssign bitxor_assign; Shl shl <<, ShlAssign shl_assign; Shr shr >>, ShrAssign shr_assign; }
impl std::ops::Not for W {
    type Output = W;
    fn not(self) -> W {
        W(!self.0)
    }
}
impl std::iter::Sum for W {
    fn sum<I: Iterator<Item = W>>(i: I) -> W {
        i.fold(W(0), |a, b| a + b)
    }
}
impl std::iter::Product for W {
    fn product<I: Iterator<Item = W>>(i: I) -> W {
        i.fold(W(1), |a, b| a * b)
    }
}
macro_rules! w_fmt {
    ($($tr:ident)*) => { $(impl std::fmt::$tr for W {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            std::fmt::$tr::fmt(&self.0, f)
        }
    })* };
}
w_fmt! { Display Debug Binary Octal }
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        cb();
        self.0 == o.0
    }
}
impl Eq for W {}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> Ordering {
        cb();
        self.0.cmp(&o.0)
    }
}
impl Zero for W {
    fn zero() -> W {
        W(0)
    }
}
impl One for W {
    fn one() -> W {
        W(1)
    }
}
impl BoundedBelow for W {
    fn min_value() -> W {
        W(i64::MIN)
    }
}
impl BoundedAbove for W {
    fn max_value() -> W {
        W(i64::MAX)
    }
}
impl Integral for W {}
impl TryFrom<i128> for W {
    type Error = ();
    fn try_from(x: i128) -> Result<W, ()> {
        i64::try_from(x).map(W).map_err(|_| ())
    }
}

type Run = Box<dyn FnMut(usize) -> String>;
/// A short history of one object: a construction and up to three steps.
struct Item {
    group: &'static str,
    name: String,
    len: usize,
    /// Takes part in the pairings across groups.
    rep: bool,
    start: Box<dyn Fn() -> Run + Send + Sync>,
}
type Step<T> = Box<dyn Fn(&mut T) -> String + Send + Sync>;
fn shown<R: Debug>(f: impl FnOnce() -> R) -> String {
    step::arm();
    let r = guarded(f);
    step::disarm();
    match r {
        Ok(r) => format!("{r:?}"),
        Err(_) => "refused".into(),
    }
}
fn item<T: 'static>(v: &mut Vec<Item>, group: &'static str, name: String, init: impl Fn() -> T + Send + Sync + 'static, steps: Vec<Step<T>>) {
    let rep = v.iter().filter(|i| i.group == group && i.rep).count() < 8;
    let (init, steps) = (std::sync::Arc::new(init), std::sync::Arc::new(steps));
    v.push(Item {
        group,
        name,
        len: 1 + steps.len(),
        rep,
        start: Box::new(move || {
            let (init, steps) = (init.clone(), steps.clone());
            let mut t: Option<T> = None;
            Box::new(move |k| {
                if k == 0 {
                    step::arm();
                    let r = guarded(|| init());
                    step::disarm();
                    t = r.ok();
                    return if t.is_some() { "made".into() } else { "refused".into() };
                }
                match &mut t {
                    Some(t) => steps[k - 1](t),
                    None => "-".into(),
                }
            })
        }),
    });
}
/// One call of a function without an object.
fn pure<R: Debug>(v: &mut Vec<Item>, group: &'static str, name: String, f: impl Fn() -> R + Send + Sync + 'static) {
    item(v, group, name, || (), vec![Box::new(move |_| shown(&f))]);
}
struct Making<I, T> {
    init: I,
    steps: Vec<Step<T>>,
}
impl<T, I: Fn() -> T> Making<I, T> {
    fn step(&mut self, f: impl Fn(&mut T) -> String + Send + Sync + 'static) {
        self.steps.push(Box::new(f));
    }
}
macro_rules! item {
    ($v:expr, $g:expr, $n:expr, $init:expr, steps![$($p:pat => $e:expr),* $(,)?]) => {{
        let mut m = Making { init: $init, steps: vec![] };
        $(m.step(move |$p| shown(|| $e));)*
        item($v, $g, $n, m.init, m.steps);
    }};
}

fn graph(k: usize, n: usize) -> Vec<Vec<usize>> {
    (0..n).map(|u| (0..n).filter(|&v| (u * 7 + v * 3 + k * 5 + u * v) % 4 == 0).collect()).collect()
}
fn number_items<T: Integral + TryFrom<i128>>(v: &mut Vec<Item>, ty: &'static str, vals: &[i128]) {
    let vals: Vec<T> = vals.iter().filter_map(|&x| T::try_from(x).ok()).collect();
    for (i, &a) in vals.iter().enumerate() {
        for (j, &b) in vals.iter().enumerate() {
            if (i + j) % 3 != 2 {
                pure(v, "gcd", format!("gcd({a}{ty}, {b}{ty})"), move || gcd(a, b));
            }
            if (i + 2 * j) % 4 == 0 {
                pure(v, "lcm", format!("lcm({a}{ty}, {b}{ty})"), move || lcm(a, b));
                pure(v, "ex_gcd", format!("ex_gcd({a}{ty}, {b}{ty})"), move || ex_gcd(a, b));
            }
        }
    }
}
fn static_items<const M: u32, const P: bool>(v: &mut Vec<Item>) {
    for n in [0usize, 1, 5, 9] {
        item!(v, "binomials", format!("Factorial of size {n} mod {M} declared {P}"), move || Factorial::<K<M, P>>::new(n), steps![
            t => (0..=n).map(|k| t.choose(n, k).val()).collect::<Vec<_>>(),
            t => (0..=n / 2).map(|k| t.perm(n / 2, k).val()).collect::<Vec<_>>(),
            t => t.choose(n + 1, 1).val()]);
    }
    for a in [0i64, 1, 2, -1, 10, 123_456_789] {
        item!(v, "modular", format!("{a} mod {M} declared {P}"), move || S::<M, P>::new(a), steps![
            x => (*x * *x, *x + *x, *x - S::<M, P>::new(1), x.pow(13)).0.val(),
            x => x.inv().val(),
            x => (x.pow(13).val(), (-*x).val(), S::<M, P>::new(7) / *x)]);
    }
}
fn dynamic_items<const I: usize>(v: &mut Vec<Item>, m: u32) {
    for a in [0i64, 2, -1, 123_456_789] {
        item!(v, "modular", format!("{a} in run-time family {I} set to {m}"), move || { Dy::<I>::set_modulus(m); Dy::<I>::new(a) }, steps![
            x => ((*x * *x).val(), (*x + *x).val(), x.pow(13).val()),
            x => x.inv().val(),
            x => (Dy::<I>::modulus(), (*x * *x * *x).val())]);
    }
}

fn build() -> Vec<Item> {
    let mut all = vec![];
    let v = &mut all;
    for n in [0usize, 1, 2, 3, 5, 6, 8, 13] {
        for k in [2u64, 3] {
            item!(v, "segment tree", format!("Segtree of {n} values, seed {k}"), move || Segtree::<Mat>::from((0..n as u64).map(|i| (k + i, i)).collect::<Vec<_>>()), steps![
                t => (t.all_prod(), t.prod(n / 3, n), t.max_right(0, |x| { cb(); x.0 < 40 })),
                t => { t.set(n / 2, (k, 9)); t.all_prod() },
                t => (t.prod(0, n + 1), t.get(0), t.min_left(n, |x| { cb(); x.0 < 40 }))]);
            item!(v, "lazy segment tree", format!("LazySegtree of {n} values, seed {k}"), move || LazySegtree::<Aff>::from((0..n as u64).map(|i| (k + i, 1)).collect::<Vec<_>>()), steps![
                t => { t.apply_range(0, n - n / 3, (k, 1)); t.all_prod() },
                t => { t.apply_range(n / 2, n, (3, k)); t.prod(n / 3, n) },
                t => (t.max_right(0, |x| { cb(); x.0 < 60 }), t.get(n / 2), t.all_prod())]);
        }
    }
    item!(v, "segment tree", "monoid instances".into(), || (Segtree::<Max<i32>>::from(vec![3, -5, 8]), Segtree::<Min<i64>>::from(vec![3, -5, 8]), Segtree::<Additive<u8>>::from(vec![3, 5, 8])), steps![
        t => (t.0.all_prod(), t.1.all_prod(), t.2.all_prod()),
        t => { t.0.set(2, -9); t.1.set(1, 7); t.2.set(0, 0); (t.0.all_prod(), t.1.all_prod(), t.2.all_prod()) }]);
    for n in [0usize, 1, 4, 7, 8, 9] {
        for k in [1i64, 2] {
            item!(v, "Fenwick tree", format!("FenwickTree of {n} values, seed {k}"), move || FenwickTree::from(&(0..n as i64).map(|i| i * k % 5).collect::<Vec<_>>()), steps![
                t => (0..=n).map(|i| t.pref(i)).collect::<Vec<_>>(),
                t => { t.add(n / 2, k); (t.sum(n / 3, n), t.partition_point(|x| { cb(); *x < 4 })) },
                t => (t.search(&6), t.sum(n, n / 2))]);
        }
    }
    for n in [0usize, 1, 5, 8, 9] {
        for k in [3u32, 7] {
            item!(v, "sparse table", format!("SparseTable of {n} values, seed {k}"), move || SparseTable::from(&(0..n as u32).map(|i| i * k % 11).collect::<Vec<_>>(), 99, |a: u32, b: u32| { cb(); a.min(b) }), steps![
                t => (0..n).map(|l| t.get(l, n)).collect::<Vec<_>>(),
                t => t.get(n / 2, n / 2),
                t => (1..=n).map(|r| t.get(0, r)).collect::<Vec<_>>()]);
        }
    }
    for n in [0usize, 1, 4, 6] {
        for k in [1usize, 2] {
            item!(v, "union-find", format!("UnionFind of {n}, seed {k}"), move || UnionFind::new(n), steps![
                u => (0..n).map(|i| u.join(i, (i + k) % n)).filter(|x| *x).count(),
                u => (u.size(0), u.is_same(0, n - 1)),
                u => { let mut g = u.groups(); g.iter_mut().for_each(|x| x.sort()); g.sort(); g }]);
            item!(v, "union-find", format!("UnionFind of {n}, seed {k}, a refused call, one join"), move || UnionFind::new(n), steps![
                u => u.find(n),
                u => u.join(k % n, 0),
                u => (0..n).map(|i| u.size(i)).collect::<Vec<_>>()]);
        }
    }
    for n in [0u32, 1, 3, 7] {
        for k in [1u32, 3] {
            item!(v, "min-heap", format!("MinHeap of {n} keys, seed {k}"), move || (0..n).map(|i| Key(i * k % 5, i)).fold(MinHeap::new(), |mut h, x| { h.push(x); h }), steps![
                h => (h.len(), h.peek().map(|x| x.0), h.pop().map(|x| x.0)),
                h => { let mut o = MinHeap::with_capacity(2); o.push(Key(k, 0)); h.append(&mut o); (h.len(), o.len()) },
                h => std::iter::from_fn(|| h.pop()).map(|x| x.0).collect::<Vec<_>>()]);
        }
    }
    for n in [1usize, 2, 3, 5, 6] {
        for k in 0..3usize {
            let g = graph(k, n);
            pure(v, "components", format!("scc({g:?})"), { let g = g.clone(); move || scc(&g) });
            let w: Vec<Vec<(usize, usize)>> = g.iter().enumerate().map(|(u, a)| a.iter().map(|&x| (x, (u * 3 + x * k) % 6)).collect()).collect();
            pure(v, "shortest paths", format!("dijkstra({w:?}, {})", k % n), { let w = w.clone(); move || dijkstra(&w, k % n) });
            if k == 0 {
                let (mut bad, mut far) = (g.clone(), w.clone());
                bad[n / 2].push(n);
                far[n - 1].insert(0, (n, 1));
                pure(v, "components", format!("scc({bad:?})"), move || scc(&bad));
                pure(v, "shortest paths", format!("dijkstra({w:?}, {n})"), { let w = w.clone(); move || dijkstra(&w, n) });
                pure(v, "shortest paths", format!("dijkstra({far:?}, {})", n - 1), move || dijkstra(&far, n - 1));
                pure(v, "ancestors", format!("BinaryLifting of {n} single vertices, root {n}"), move || { BinaryLifting::from(&vec![vec![]; n], n); });
                pure(v, "heavy-light", format!("HLD of {n} single vertices, root {n}"), move || { HLD::<Aff>::with_init_value(&vec![vec![]; n], n, &vec![(0, 1); n]); });
            }
            let tr: Vec<Vec<usize>> = {
                let mut t = vec![vec![]; n];
                for i in 1..n {
                    let p = (i * 5 + k) % i;
                    t[p].push(i);
                    t[i].push(p);
                }
                t
            };
            item!(v, "ancestors", format!("BinaryLifting of {tr:?}, root {}", k % n), { let t = tr.clone(); move || BinaryLifting::from(&t, k % n) }, steps![
                b => (0..n).map(|i| b.lca(i, n - 1 - i)).collect::<Vec<_>>(),
                b => (0..n).map(|i| b.dis(i, n / 2)).collect::<Vec<_>>(),
                b => (b.is_ancestor(0, n - 1), b.lca(n, 0))]);
            item!(v, "heavy-light", format!("HLD of {tr:?}, root {}", k % n), { let t = tr.clone(); move || HLD::<Aff>::with_init_value(&t, k % n, &(0..n as u64).map(|i| (i + k as u64, 1)).collect()) }, steps![
                h => { h.apply_path(0, n - 1, (2, 1)); h.path_prod(n / 2, n - 1) },
                h => { h.apply_subtree(n / 2, (3, k as u64)); (h.subtree_prod(0), h.get(n - 1)) },
                h => { h.set(0, (5, 1)); (h.path_prod(0, n - 1), h.get(n)) }]);
            item!(v, "flows", format!("Dinic on {n} vertices with the edges of {g:?}"), { let g = g.clone(); move || { let mut f = Dinic::<i32>::new(n); for u in 0..n { for &x in &g[u] { f.add_edge(u, x, 1 + (u + x) as i32); } f.add_edge(u, (u + 1) % n, 2); } f } }, steps![
                f => if n > 1 { f.get_max_flow(0, n - 1) } else { 0 },
                f => { f.add_edge(0, n - 1, 4); if n > 1 { f.get_max_flow(0, n - 1) } else { 0 } },
                f => if n > 1 { f.get_max_flow(n, 0) } else { 0 }]);
            item!(v, "flows", format!("Dinic over a user's integers on {n} vertices with the edges of {g:?}"), { let g = g.clone(); move || { let mut f = Dinic::<W>::new(n); for u in 0..n { for &x in &g[u] { f.add_edge(u, x, W(1 + (u * x) as i64)); } } f } }, steps![
                f => f.get_max_flow(0, n - 1 + (n < 2) as usize),
                f => { f.add_edge(n - 1, 0, W(3)); f.add_edge(0, n - 1, W(2)); if n > 1 { f.get_max_flow(n - 1, 0) } else { W(0) } },
                f => if n > 1 { f.get_max_flow(0, n - 1) } else { W(0) }]);
            item!(v, "matching", format!("AugmentedPath {n} x {n} with the edges of {g:?}"), { let g = g.clone(); move || { let mut a = AugmentedPath::new(n, n); for u in 0..n { for &x in &g[u] { a.add_edge(u, x); } } a } }, steps![
                a => a.solve(),
                a => { a.add_edge(0, n - 1); a.add_edge(n - 1, 0); a.solve() },
                a => a.add_edge(n, 0)]);
        }
    }
    for (i, w) in ["", "a", "aa", "ab", "aba", "abab", "aabaab", "abcabcab", "aaaaaaa", "abacabadabacaba", "b", "bb", "bbbbbbb", "mississippi"].iter().enumerate() {
        let s: Vec<Key> = w.bytes().map(|b| Key(b as u32, i as u32)).collect();
        pure(v, "prefix function", format!("kmp({w:?})"), { let s = s.clone(); move || kmp(&s) });
        pure(v, "Z function", format!("z_function({w:?})"), move || z_function(&s));
    }
    for (i, p) in [&["a", "ab"][..], &["b"], &["aa", "aaa", "ba"], &["abab", "bab", "a"], &["ba", "ab", "b"]].into_iter().enumerate() {
        item!(v, "multi-pattern search", format!("AhoCorasick of {p:?}"), move || AhoCorasick::<b'a', 2>::from(&p.iter().map(|x| x.as_bytes()).collect::<Vec<_>>()), steps![
            a => (a.find(b"abaabab"), a.find_cnt(b"abaabab")),
            a => a.find_all(b"aaabba"),
            a => (a.find(b"bab"), a.find(&[b'z'][i.min(1)..]), a.find_cnt(b""))]);
        item!(v, "multi-pattern search", format!("AhoCorasick of {p:?} over 3 letters, one by one"), move || { let mut a = AhoCorasick::<b'a', 3>::new(p.len()); for (j, w) in p.iter().enumerate() { a.insert(w.as_bytes(), p.len() - 1 - j); } a.build(); a }, steps![
            a => (a.find(b"abcabab"), a.find_cnt(b"abaabab")),
            a => a.find_all(b"aaacbba"),
            a => a.find_cnt(b"d")]);
    }
    for x in (0..=9usize).chain([15, 16, 17, 255, 256, 257, 65_535, 65_536, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 2, 1 << 63, usize::MAX]) {
        pure(v, "logarithms", format!("lg({x})"), move || lg(x));
        pure(v, "logarithms", format!("ceil_lg({})", x as u32), move || ceil_lg(x as u32));
    }
    let vals: Vec<i128> = vec![0, 1, 2, 6, 12, -4, -9, 100, 256 + 6, 65_536 + 12, (1 << 32) + 12, (1 << 40) + 6, 3 << 40];
    number_items::<i64>(v, "i64", &vals);
    number_items::<i32>(v, "i32", &vals[..10]);
    number_items::<W>(v, " of a user's type", &vals[1..8]);
    number_items::<u64>(v, "u64", &vals[2..]);
    for (a, b, m) in [(1i64, 0, 3), (1, 2, 3), (2, 1, 3), (2, 1, 4), (3, 0, 7), (1, 2, 4), (-1, 2, 3), (1, 2, 5)] {
        for (c, d, n) in [(1i64, 0, 4), (1, 3, 4), (1, 3, 5), (2, 3, 5), (1, 3, 1 << 33)] {
            pure(v, "congruences", format!("ex_crt([{a}, {c}], [{b}, {d}], [{m}, {n}])"), move || ex_crt(&vec![a, c], &vec![b, d], &vec![m, n]));
        }
        pure(v, "congruences", format!("ex_crt([{a}], [{b}], [{m}])"), move || ex_crt(&vec![a], &vec![b], &vec![m]));
    }
    pure(v, "congruences", "ex_crt([1, 2], [1], [3, 4])".into(), || ex_crt(&vec![1i64, 2], &vec![1], &vec![3, 4]));
    pure(v, "congruences", "ex_crt([], [], [])".into(), || ex_crt(&Vec::<i64>::new(), &vec![], &vec![]));
    pure(v, "multi-pattern search", "a pattern outside the alphabet".into(), || { AhoCorasick::<b'a', 2>::from(&[b"ab", b"ac"]); });
    pure(v, "modular", "modulus 0".into(), || Dy::<43>::set_modulus(0));
    static_items::<998_244_353, true>(v);
    static_items::<11, true>(v);
    static_items::<13, true>(v);
    static_items::<13, false>(v);
    static_items::<60, false>(v);
    dynamic_items::<40>(v, 7);
    dynamic_items::<41>(v, 1_000_000_007);
    dynamic_items::<42>(v, 12);
    for a in [3i64, -1] {
        item!(v, "modular", format!("{a} in the default family"), move || ModInt::new(a), steps![
            x => (ModInt::modulus(), (*x * *x).val()),
            x => x.inv().val(),
            x => { let b: ModInt = "998244355".parse().unwrap(); (b * *x).val() }]);
        item!(v, "modular", format!("{a} modulo 1000000007"), move || ModInt1000000007::new(a), steps![
            x => (x.inv().val(), x.pow(1 << 40).val()),
            x => (ModInt1000000007::new(0).inv().val(), x.val())]);
    }
    for (i, s) in ["1 2 3", "4 x 5", "", " -7\n8 ", "ab cd", "9 9 9 9"].into_iter().enumerate() {
        item!(v, "reader", format!("In::new({s:?})"), move || In::new(Box::leak(Box::new(s.to_string()))), steps![
            r => r.i64(),
            r => r.checked_read::<String>(),
            r => if i % 2 == 0 { r.chars().len() } else { r.usize() }]);
        item!(v, "reader", format!("In::new({s:?}), lists"), move || In::new(Box::leak(Box::new(s.to_string()))), steps![
            r => r.vec::<u8>(2),
            r => r.bytes(),
            r => r.checked_read::<i32>()]);
    }
    for n in [0u32, 1, 4, 6] {
        item!(v, "recursive closures", format!("Fibonacci of {n}"), || (), steps![
            _ => RecursiveFunction::new(|f: &mut dyn Callable<u32, u32>, n: u32| { cb(); if n < 2 { n } else { f.call(n - 1) + f.call(n - 2) } }).call(n),
            _ => RecursiveFunction2::new(|f: &mut dyn Callable2<u32, u32, u32>, a: u32, b: u32| { cb(); if b == 0 { a } else { f.call(b, a % b) } }).call(n * 6, 9)]);
        item!(v, "recursive closures", format!("depth {n}, shared counter"), || Cell::new(0u32), steps![
            c => RecursiveFunction::new(|f: &mut dyn Callable<u32, u32>, k: u32| { cb(); c.set(c.get() + k); if k == 0 { c.get() } else { f.call(k - 1) + c.get() } }).call(n),
            c => RecursiveFunction::new(|f: &mut dyn Callable<u32, u32>, k: u32| { c.set(c.get() + 1); if k == 2 { panic!() } else if k == 0 { 0 } else { f.call(k - 1) } }).call(n),
            c => c.get()]);
    }
    all
}
/// An object that is asked the same question many times: (name, make, question, change).
struct Asked {
    name: String,
    /// The answer to the first time of asking may differ.
    run: Box<dyn Fn(usize) -> Result<u64, String> + Send + Sync>,
}
fn asked<T, R: Debug + PartialEq>(v: &mut Vec<Asked>, name: String, make: impl Fn() -> T + Send + Sync + 'static, ask: impl Fn(&mut T) -> R + Send + Sync + 'static, change: impl Fn(&mut T) + Send + Sync + 'static) {
    v.push(Asked {
        name,
        run: Box::new(move |c| {
            let want = {
                let mut t = make();
                let (a, b) = (ask(&mut t), ask(&mut t));
                change(&mut t);
                (a, b, ask(&mut t), ask(&mut t))
            };
            let mut t = make();
            let a = ask(&mut t);
            ensure(a == want.0, || format!("first answer {a:?}, of an equal object {:?}", want.0))?;
            for i in 0..c {
                let a = ask(&mut t);
                ensure(a == want.1, || format!("answer {a:?} after asking {} times, {:?} the second time", i + 1, want.1))?;
            }
            change(&mut t);
            let a = (ask(&mut t), ask(&mut t));
            ensure(a.0 == want.2 && a.1 == want.3, || format!("answers {a:?} after the change, {:?} on an object asked twice before it", (&want.2, &want.3)))?;
            Ok(c as u64 + 7)
        }),
    });
}
fn all_asked() -> Vec<Asked> {
    let mut all = vec![];
    let v = &mut all;
    for n in [3usize, 8] {
        asked(v, format!("Segtree of {n}"), move || Segtree::<Mat>::from((0..n as u64).map(|i| (2 + i, i)).collect::<Vec<_>>()), move |t| (t.all_prod(), t.prod(1, n), t.max_right(0, |x| x.0 < 40), t.min_left(n, |x| x.0 < 9), t.get(1)), |t| t.set(1, (7, 7)));
        asked(v, format!("LazySegtree of {n}"), move || { let mut t = LazySegtree::<Aff>::from((0..n as u64).map(|i| (2 + i, 1)).collect::<Vec<_>>()); t.apply_range(0, n - 1, (2, 1)); t }, move |t| (t.all_prod(), t.prod(1, n), t.max_right(0, |x| x.0 < 40), t.min_left(n, |x| x.0 < 9), t.get(1)), |t| t.apply_range(1, 3, (3, 1)));
        asked(v, format!("FenwickTree of {n}"), move || FenwickTree::from(&(1..=n as i64).collect::<Vec<_>>()), move |t| (t.pref(2), t.sum(1, n), t.partition_point(|x| *x < 4), t.search(&6)), |t| t.add(1, 3));
        asked(v, format!("SparseTable of {n}"), move || SparseTable::from(&(0..n as u32).map(|i| i * 7 % 5).collect::<Vec<_>>(), 9, |a: u32, b: u32| a.min(b)), move |t| (t.get(0, n), t.get(1, 3), t.get(2, 3)), |_| ());
        asked(v, format!("UnionFind of {n}, find and size"), move || { let mut u = UnionFind::new(n); u.join(0, 1); u.join(1, 2); u }, move |u| ((0..n).map(|i| u.size(i)).collect::<Vec<_>>(), u.is_same(0, n - 1)), move |u| { u.join(n - 1, 0); });
        asked(v, format!("UnionFind of {n}, refused joins"), move || { let mut u = UnionFind::new(n); u.join(0, 1); u }, move |u| (u.join(0, 1), u.join(2, 2), u.size(0), u.is_same(1, 2)), move |u| { u.join(2, 0); });
        asked(v, format!("MinHeap of {n}"), move || (0..n).fold(MinHeap::new(), |mut h, x| { h.push(x * 5 % 7); h }), |h| { h.push(0); (h.pop(), h.peek().copied(), h.len()) }, |h| { h.pop(); h.push(1) });
        let tree = move || (0..n).map(|i| (0..n).filter(|&j| i > 0 && j == (i - 1) / 2 || j > 0 && (j - 1) / 2 == i).collect()).collect::<Vec<Vec<usize>>>();
        asked(v, format!("BinaryLifting of {n}"), move || BinaryLifting::from(&tree(), 0), move |b| (b.lca(1, n - 1), b.dis(1, n - 1), b.is_ancestor(0, 2)), |_| ());
        asked(v, format!("HLD of {n}"), move || HLD::<Aff>::with_init_value(&tree(), 0, &(0..n as u64).map(|i| (i, 1)).collect()), move |h| (h.path_prod(1, n - 1), h.subtree_prod(1), h.get(2)), move |h| h.apply_path(0, n - 1, (2, 1)));
        asked(v, format!("Dinic on {n} vertices"), move || { let mut f = Dinic::<i32>::new(n); for i in 1..n { f.add_edge(i - 1, i, 3); f.add_edge(0, i, 1); } f }, move |f| f.get_max_flow(0, n - 1), move |f| { f.add_edge(n - 2, n - 1, 4); f.add_edge(0, n - 2, 5) });
        asked(v, format!("AugmentedPath {n} x {n}"), move || { let mut a = AugmentedPath::new(n, n); for i in 1..n { a.add_edge(i, 0); a.add_edge(i, i - 1); } a }, |a| a.solve(), move |a| { a.add_edge(0, 0); a.add_edge(n - 1, n - 1) });
        asked(v, format!("AhoCorasick of {n} patterns"), move || { let w: Vec<Vec<u8>> = (0..n).map(|i| (0..=i).map(|j| b'a' + (j % 2) as u8).collect()).collect(); AhoCorasick::<b'a', 2>::from(&w.iter().map(|x| &x[..]).collect::<Vec<_>>()) }, |a| (a.find(b"babab"), a.find_cnt(b"babab"), a.find_all(b"ab")), |_| ());
        asked(v, format!("Factorial of size {n}"), move || Factorial::<K<11, true>>::new(n), move |t| (t.choose(n, 2).val(), t.perm(n, 1).val()), |_| ());
    }
    let words = ["", "a", "abab", "aabaaab"];
    asked(v, "functions".into(), || (), move |_| (words.map(|w| kmp(w.as_bytes())), words.map(|w| z_function(w.as_bytes())), gcd(12, 18), lcm(4u8, 6), ex_gcd(12i64, 18), ex_crt(&vec![1i64, 2], &vec![1, 2], &vec![3, 5]), lg(9), ceil_lg(9)), |_| ());
    asked(v, "graph functions".into(), || graph(1, 5), |g| (scc(g), dijkstra(&g.iter().map(|a| a.iter().map(|&x| (x, x + 1)).collect()).collect(), 0)), |g| g[0].push(3));
    asked(v, "modular".into(), || (S::<11, true>::new(3), S::<60, false>::new(7), Dy::<43>::new(5)), |x| (x.0.inv().val(), x.1.inv().val(), x.2.inv().val(), (x.0 * x.0).val(), x.1.pow(5).val(), (x.2 * x.2 / x.2).val()), |x| { x.0 += 1; x.1 += 6; x.2 += 1 });
    asked(v, "reader".into(), || In::new(Box::leak(Box::new("7".to_string()))), |r| r.checked_read::<String>(), |_| ());
    asked(v, "recursive closure".into(), || 0u32, |n| RecursiveFunction::new(|f: &mut dyn Callable<u32, u32>, k: u32| if k < 2 { k } else { f.call(k - 1) + f.call(k - 2) }).call(5 + *n), |n| *n += 1);
    all
}
fn items() -> &'static Vec<Item> {
    static I: OnceLock<Vec<Item>> = OnceLock::new();
    I.get_or_init(build)
}
/// Answers of an item alone in a process of its own.
fn alone(k: usize) -> &'static Vec<String> {
    static A: OnceLock<Vec<OnceLock<Vec<String>>>> = OnceLock::new();
    let a = A.get_or_init(|| (0..items().len()).map(|_| OnceLock::new()).collect());
    a[k].get_or_init(|| fresh_process(k))
}
fn fresh_process(k: usize) -> Vec<String> {
    let exe = std::env::current_exe().expect("path of the check");
    let o = std::process::Command::new(exe).env("C31_ITEM", k.to_string()).output().expect("process for one item");
    let s = String::from_utf8_lossy(&o.stdout);
    let mut l: Vec<String> = s.lines().map(String::from).collect();
    if l.pop().as_deref() != Some("end") {
        l.push(format!("the process ended early: {}", o.status));
    }
    l
}
fn check(it: &Item, k: usize, step: usize, got: &str, context: impl FnOnce() -> String) -> Result<(), String> {
    let want = alone(k).get(step).map_or("nothing", |s| s.as_str());
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: step {step} gave {got}, alone in a fresh process it gives {want}{}", it.name, context()))
    }
}
/// The whole history of one item, compared with the item alone.
fn whole(it: &Item, k: usize) -> Result<u64, String> {
    let mut r = (it.start)();
    for s in 0..it.len {
        check(it, k, s, &r(s), String::new)?;
    }
    Ok(it.len as u64)
}
fn on_fresh_thread<T: Send>(f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || guarded(f).unwrap_or_else(|e| Err(format!("unexpected panic: {e}")))).unwrap().join().unwrap()
    })
}

/// All orders of x zeros and y ones.
fn merges(x: usize, y: usize, pre: &mut Vec<bool>, f: &mut impl FnMut(&[bool])) {
    if x + y == 0 {
        return f(pre);
    }
    for b in [false, true] {
        if [x, y][b as usize] > 0 {
            pre.push(b);
            merges(x - !b as usize, y - b as usize, pre, f);
            pre.pop();
        }
    }
}
fn orders(x: usize, y: usize) -> Vec<Vec<bool>> {
    let mut v = vec![];
    merges(x, y, &mut vec![], &mut |o| v.push(o.to_vec()));
    v
}

/// A thread that carries one item, a step at a time.
struct Carrier {
    to: Sender<Option<(usize, usize)>>,
    back: Receiver<String>,
}
/// Stands for the whole history instead of one step.
const WHOLE: usize = usize::MAX;
impl Carrier {
    fn new() -> Carrier {
        let (to, rx) = channel::<Option<(usize, usize)>>();
        let (tx, back) = channel();
        std::thread::spawn(move || {
            let mut run: Option<Run> = None;
            while let Ok(Some((k, s))) = rx.recv() {
                if s == WHOLE {
                    let r = whole(&items()[k], k);
                    if tx.send(r.err().unwrap_or_default()).is_err() {
                        break;
                    }
                    continue;
                }
                if s == 0 {
                    run = Some((items()[k].start)());
                }
                if tx.send(run.as_mut().unwrap()(s)).is_err() {
                    break;
                }
            }
        });
        Carrier { to, back }
    }
    fn step(&self, k: usize, s: usize) -> String {
        self.to.send(Some((k, s))).unwrap();
        self.back.recv().unwrap()
    }
    fn whole(&self, k: usize) -> Result<(), String> {
        self.to.send(Some((k, WHOLE))).unwrap();
        match self.back.recv_timeout(std::time::Duration::from_secs(20)) {
            Ok(e) if e.is_empty() => Ok(()),
            Ok(e) => Err(e),
            Err(_) => Err(format!("{}: no answer as long as the other thread is inside a call", items()[k].name)),
        }
    }
}

fn main() {
    if let Ok(k) = std::env::var("C31_ITEM") {
        let it = &items()[k.parse::<usize>().unwrap()];
        let mut r = (it.start)();
        for s in 0..it.len {
            println!("{}", r(s));
        }
        println!("end");
        return;
    }
    mc::main("C31", false, |thorough| {
        let mut v = vec![];
        let n = items().len();
        let reps: Vec<usize> = (0..n).filter(|&i| items()[i].rep).collect();
        let groups = items().iter().map(|i| i.group).collect::<std::collections::BTreeSet<_>>().len();
        v.push(space("alone", &format!("{n} short histories (a construction and up to three steps, refused calls included) in {groups} groups covering every module: each in two fresh processes, twice on a fresh thread"), 64, move |c, cx| {
            for k in (c..n).step_by(64) {
                let it = &items()[k];
                let r = cx.run(|| it.name.clone(), || {
                    let again = fresh_process(k);
                    ensure(&again == alone(k), || format!("in another process: {again:?}, expected {:?}", alone(k)))?;
                    ensure(alone(k).len() == it.len, || format!("{:?}", alone(k)))?;
                    on_fresh_thread(|| Ok(whole(it, k)? + whole(it, k)?))
                });
                if let Some(m) = r {
                    cx.calls(m);
                    cx.states(1);
                    cx.outcome(fp_debug(alone(k)) as u64);
                }
            }
        }));
        // pairs within a group, and of representatives across groups
        let related = {
            let reps = reps.clone();
            move |a: usize| -> Vec<usize> { (0..n).filter(|&b| items()[a].group == items()[b].group || items()[a].rep && reps.binary_search(&b).is_ok()).collect() }
        };
        let rel = related.clone();
        v.push(space("one after another", "every ordered pair (A, B) within a group or of the first 8 of each group: A, B, A again, on a fresh thread", n, move |a, cx| {
            for b in rel(a) {
                let (x, y) = (&items()[a], &items()[b]);
                if let Some(m) = cx.run(|| format!("A = {}; B = {}: A, B, A", x.name, y.name), || {
                    on_fresh_thread(|| Ok(whole(x, a)? + whole(y, b).map_err(|e| format!("after A: {e}"))? + whole(x, a).map_err(|e| format!("after A and B: {e}"))?))
                }) {
                    cx.calls(m);
                    cx.states(1);
                }
                cx.outcome((a * n + b) as u64);
            }
        }));
        let rel = related.clone();
        v.push(space("interleaved", "every such pair of histories (A before B in the list, or A twice): every interleaving of their steps on one thread", n, move |a, cx| {
            for b in rel(a).into_iter().filter(|&b| b >= a) {
                let (x, y) = (&items()[a], &items()[b]);
                for o in orders(x.len, y.len) {
                    let r = cx.run(|| format!("A = {}; B = {}: order {}", x.name, y.name, o.iter().map(|&o| if o { 'B' } else { 'A' }).collect::<String>()), || {
                        let (mut p, mut q) = ((x.start)(), (y.start)());
                        let (mut i, mut j) = (0, 0);
                        for &w in &o {
                            if w {
                                check(y, b, j, &q(j), String::new)?;
                                j += 1;
                            } else {
                                check(x, a, i, &p(i), String::new)?;
                                i += 1;
                            }
                        }
                        Ok(())
                    });
                    if r.is_some() {
                        cx.calls(o.len() as u64);
                        cx.states(1);
                    }
                }
                cx.outcome((a * n + b) as u64);
            }
        }));
        let rel = related.clone();
        v.push(space("two threads", if thorough { "every such pair, A on one thread and B on another: every interleaving of their steps" } else { "every such pair, A on one thread and B on another: within a group every interleaving of their steps if A is one of the first 4, else and across groups the alternating ones" }, n, move |a, cx| {
            let (t, u) = (Carrier::new(), Carrier::new());
            for b in rel(a).into_iter().filter(|&b| b >= a) {
                let (x, y) = (&items()[a], &items()[b]);
                let first = (0..a).filter(|&i| items()[i].group == x.group).count() < 4;
                let full = thorough || x.group == y.group && first;
                let os = if full {
                    orders(x.len, y.len)
                } else {
                    let m = x.len.min(y.len);
                    [false, true].iter().map(|&f| {
                        let mut o: Vec<bool> = (0..2 * m).map(|i| (i % 2 == 1) != f).collect();
                        o.extend(vec![false; x.len - m]);
                        o.extend(vec![true; y.len - m]);
                        o
                    }).collect()
                };
                for o in os {
                    let r = cx.run(|| format!("A = {} on one thread; B = {} on another: order {}", x.name, y.name, o.iter().map(|&o| if o { 'B' } else { 'A' }).collect::<String>()), || {
                        let (mut i, mut j) = (0, 0);
                        for &w in &o {
                            if w {
                                check(y, b, j, &u.step(b, j), String::new)?;
                                j += 1;
                            } else {
                                check(x, a, i, &t.step(a, i), String::new)?;
                                i += 1;
                            }
                        }
                        Ok(())
                    });
                    if r.is_some() {
                        cx.calls(o.len() as u64);
                        cx.states(1);
                    }
                }
                cx.outcome((a * n + b) as u64);
            }
        }));
        let rel = related.clone();
        v.push(space("from inside", "every such ordered pair where A calls user functions: every user function called during A runs all of B first", n, move |a, cx| {
            let x = &items()[a];
            RAN.with(|r| r.set(0));
            let _ = whole(x, a);
            if RAN.with(|r| r.get()) == 0 {
                return;
            }
            for b in rel(a) {
                let y = &items()[b];
                let r = cx.run(|| format!("A = {}, whose user functions run B = {}", x.name, y.name), || {
                    WRONG.with(|w| *w.borrow_mut() = None);
                    INSIDE.with(|i| i.set(Some(b)));
                    RAN.with(|r| r.set(0));
                    let r = guarded(|| whole(x, a));
                    INSIDE.with(|i| i.set(None));
                    if let Some(e) = WRONG.with(|w| w.borrow_mut().take()) {
                        return Err(format!("inside A: {e}"));
                    }
                    r.unwrap_or_else(|e| Err(format!("unexpected panic: {e}")))?;
                    Ok(RAN.with(|r| r.get()))
                });
                if let Some(m) = r {
                    cx.calls(m);
                    cx.states(1);
                }
                cx.outcome((a * n + b) as u64);
            }
        }));
        let many: Vec<(usize, usize)> = {
            let nth = |i: usize| (0..i).filter(|&j| items()[j].group == items()[i].group).count();
            (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|&(a, b)| items()[a].group == items()[b].group && items()[a].len > 2 && nth(a) % 8 == 3 && (nth(b) < 3 || a == b) && nth(a) < 16).collect()
        };
        let times = if thorough { 700 } else { 260 };
        let what = format!("{} pairs (A, B) within the groups: the steps of A with B run 0..={times} times between two of them", many.len());
        v.push(space("many between", &what, many.len(), move |c, cx| {
            let (a, b) = many[c];
            let (x, y) = (&items()[a], &items()[b]);
            for at in 1..x.len {
                for t in 0..=times {
                    let r = cx.run(|| format!("A = {}; B = {}: {at} steps of A, B {t} times, the rest of A", x.name, y.name), || {
                        let mut p = (x.start)();
                        for i in 0..at {
                            check(x, a, i, &p(i), String::new)?;
                        }
                        for _ in 0..t {
                            let mut q = (y.start)();
                            for j in 0..y.len {
                                q(j);
                            }
                        }
                        for i in at..x.len {
                            check(x, a, i, &p(i), String::new)?;
                        }
                        Ok((x.len + t * y.len) as u64)
                    });
                    if let Some(m) = r {
                        cx.calls(m);
                        cx.states(1);
                    }
                }
                cx.outcome((c * 4 + at) as u64);
            }
        }));
        let w = all_asked();
        let counts: Vec<usize> = (0..=if thorough { 1100 } else { 300 }).chain(65_530..=65_537).collect();
        v.push(space("asked again and again", &format!("{} objects: the same questions 0..={} and 65530..=65537 times, then a change, then the questions", w.len(), if thorough { 1100 } else { 300 }), w.len(), move |c, cx| {
            for &k in &counts {
                if let Some(m) = cx.run(|| format!("{}, asked {k} times", w[c].name), || (w[c].run)(k)) {
                    cx.calls(m);
                    cx.states(1);
                }
            }
            cx.outcome(c as u64);
        }));
        let rel = related;
        v.push(space("during a call", "every such ordered pair where A calls user functions: every user function called during A waits until another thread has run all of B", n, move |a, cx| {
            let x = &items()[a];
            RAN.with(|r| r.set(0));
            let _ = whole(x, a);
            if RAN.with(|r| r.get()) == 0 {
                return;
            }
            OTHER.with(|o| *o.borrow_mut() = Some(Carrier::new()));
            for b in rel(a) {
                let y = &items()[b];
                let r = cx.run(|| format!("A = {}, whose user functions wait for another thread to run B = {}", x.name, y.name), || {
                    WRONG.with(|w| *w.borrow_mut() = None);
                    INSIDE.with(|i| i.set(Some(b)));
                    RAN.with(|r| r.set(0));
                    let r = guarded(|| whole(x, a));
                    INSIDE.with(|i| i.set(None));
                    if let Some(e) = WRONG.with(|w| w.borrow_mut().take()) {
                        OTHER.with(|o| *o.borrow_mut() = Some(Carrier::new()));
                        return Err(format!("during A: {e}"));
                    }
                    r.unwrap_or_else(|e| Err(format!("unexpected panic: {e}")))?;
                    Ok(RAN.with(|r| r.get()))
                });
                if let Some(m) = r {
                    cx.calls(m);
                    cx.states(1);
                }
                cx.outcome((a * n + b) as u64);
            }
            OTHER.with(|o| *o.borrow_mut() = None);
        }));
        let nth = |i: usize| (0..i).filter(|&j| items()[j].group == items()[i].group).count();
        let partners: Vec<(usize, usize)> = (0..n)
            .flat_map(|a| (0..n).map(move |b| (a, b)))
            .filter(|&(a, b)| {
                let same = items()[a].group == items()[b].group;
                if thorough {
                    same && nth(b) < 12 || a == b || nth(a) < 3 && nth(b) < 3
                } else {
                    nth(a) < 7 && (same && nth(b) < 3 || a == b) || nth(a) == 1 && nth(b) == 2
                }
            })
            .collect();
        let (limit, single) = if thorough { (20_000, 500) } else { (3000, 150) };
        v.push(space("between two instructions", &format!("{} pairs (A, B) within the groups and across them, A on one thread, stopped before each of the (first {limit}) machine instructions of each of its steps, B as a whole on another thread there, every time; where a step has at most {single} and both are of one group, also before each one alone, with both asked again afterwards", partners.len()), partners.len(), move |c, cx| {
            let (a, b) = partners[c];
            let (x, y) = (&items()[a], &items()[b]);
            // the answers alone come from other processes
            alone(a);
            alone(b);
            for at in 0..x.len {
                let go = |on: step::Switch, cx: &mut Cx| -> Option<step::Seen> {
                    let r = cx.run(|| format!("A = {}, step {at} on one thread, B = {} on another before its machine instruction {on:?}", x.name, y.name), || {
                        let mut p = (x.start)();
                        for i in 0..at {
                            check(x, a, i, &p(i), String::new)?;
                        }
                        let (got, seen, other) = step::switching(on, limit, || p(at), || whole(y, b).map(|_| ()));
                        other.map_err(|e| format!("other thread: {e}"))?;
                        check(x, a, at, &got, || " (instructions interrupted)".into())?;
                        for i in at + 1..x.len {
                            check(x, a, i, &p(i), || format!(" (step {at} was interrupted)"))?;
                        }
                        if on != step::Switch::Every {
                            whole(x, a).map_err(|e| format!("afterwards: {e}"))?;
                            whole(y, b).map_err(|e| format!("afterwards: {e}"))?;
                        }
                        Ok(seen)
                    });
                    if let Some(s) = r {
                        cx.calls(s.runs + 1);
                        cx.states(1);
                        cx.outcome(s.steps);
                    }
                    r
                };
                let Some(s) = go(step::Switch::Every, cx) else { continue };
                if items()[a].group == items()[b].group && s.steps <= single {
                    for k in 1..=s.steps {
                        go(step::Switch::At(k), cx);
                    }
                }
            }
        }));
        v
    });
}
