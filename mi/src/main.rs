//! C30: bounded spaces of uses of the safe interface, meant to be run by Miri, which stops at undefined behaviour.
//!
//!   mi TIER list                  one line per space: name, number of cases, bound
//!   mi TIER run FROM STEP         cases FROM, FROM + STEP, ... of all spaces but the last, in order; prints space and number of a case before running it
//!   mi TIER one SPACE CASE        one case; prints every step before it is taken
//!
//! Answers are not judged here (the other properties do that): panics are allowed, undefined behaviour is not.
#![forbid(unsafe_code)]
use rust_cp::data_structure::{fenwick_tree::*, lazy_segtree::*, min_heap::*, segtree::*, sparse_table::*, union_find::*};
use rust_cp::graph::{binary_lifting::*, bipartite_matching::*, heavy_light_decomp::*, max_flow::*, shortest_path::*, tarjan::*};
use rust_cp::math::{factorial::*, number_theory::*};
use rust_cp::misc::{input::*, modint::*, recursive_function::*, util::*};
use rust_cp::string::{aho_corasick::*, kmp::*, z_algorithm::*};
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LOUD: Cell<bool> = const { Cell::new(false) };
    /// User functions panic when this reaches zero (never if negative).
    static FUSE: Cell<i64> = const { Cell::new(-1) };
}
fn note(f: impl FnOnce() -> String) {
    if LOUD.with(|d| d.get()) {
        println!("  {}", f());
    }
}
/// One call of the library; a panic is an answer like any other.
fn call<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
    note(what);
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn burn() {
    FUSE.with(|f| {
        let k = f.get();
        if k == 0 {
            f.set(-1);
            panic!("fuse");
        }
        if k > 0 {
            f.set(k - 1);
        }
    });
}
fn fuse(k: i64) {
    FUSE.with(|f| f.set(k));
}

/// Owned elements: a freed or twice dropped element is undefined behaviour.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct S(Box<u32>);
fn s(x: u32) -> S {
    S(Box::new(x))
}
struct Cat;
impl Monoid for Cat {
    type S = S;
    fn identity() -> S {
        s(0)
    }
    fn binary_operation(a: &S, b: &S) -> S {
        burn();
        s(a.0.wrapping_mul(31).wrapping_add(*b.0))
    }
}
struct Act;
impl MapMonoid for Act {
    type M = Cat;
    type F = S;
    fn identity_map() -> S {
        s(0)
    }
    fn mapping(f: &S, x: &S) -> S {
        burn();
        s(x.0.wrapping_add(*f.0))
    }
    fn composition(f: &S, g: &S) -> S {
        burn();
        s(f.0.wrapping_add(*g.0))
    }
}
/// Compared by a function that may panic.
#[derive(Clone, Debug)]
struct K(Box<u32>);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        burn();
        self.0.cmp(&o.0)
    }
}

/// Digits of a case number.
struct D(u64);
impl D {
    fn take(&mut self, k: usize) -> usize {
        let r = self.0 % k as u64;
        self.0 /= k as u64;
        r as usize
    }
}
/// Sum of k^i for i = 0..=max: sequences of up to max letters; decode.
fn seqs(k: u64, max: u32) -> u64 {
    (0..=max).map(|i| k.pow(i)).sum()
}
fn seq(k: usize, mut x: u64) -> Vec<usize> {
    let mut len = 0;
    while x >= (k as u64).pow(len) {
        x -= (k as u64).pow(len);
        len += 1;
    }
    let mut d = D(x);
    (0..len).map(|_| d.take(k)).collect()
}
/// An index from 0 to n + 1, or one far out.
fn far(i: usize, n: usize) -> usize {
    if i == n + 2 { usize::MAX } else { i }
}
/// Numbers the cases of all lengths 0..=max, f(n) of them for length n.
fn total(max: usize, f: impl Fn(u64) -> u64) -> u64 {
    (0..=max as u64).map(f).sum()
}
fn split(mut i: u64, f: impl Fn(u64) -> u64) -> (usize, D) {
    let mut n = 0;
    while i >= f(n) {
        i -= f(n);
        n += 1;
    }
    (n as usize, D(i))
}

struct Space {
    name: &'static str,
    bound: &'static str,
    cases: u64,
    run: Box<dyn Fn(u64)>,
}

fn spaces(deep: bool) -> Vec<Space> {
    let x = deep as u64;
    let mut v: Vec<Space> = vec![];
    let mut add = |name, bound, cases, run: Box<dyn Fn(u64)>| v.push(Space { name, bound, cases, run });

    let w3 = if deep { 3u64 } else { 2 };
    add("shortest paths", "all graphs on 3 vertices with loops, arcs absent or of weight 0 (thorough: or 3), from vertex 0; all lists of up to 2 arcs on 2 vertices with targets up to 3, from vertex 0, 1, 2 or 3", w3.pow(9) + seqs(24, 2) * 4, Box::new(move |i| {
        let all = w3.pow(9);
        let (mut g, src);
        if i < all {
            let mut d = D(i);
            src = 0;
            g = vec![vec![]; 3];
            for a in 0..9 {
                let c = d.take(w3 as usize);
                if c > 0 {
                    g[a / 3].push((a % 3, (c - 1) * 3));
                }
            }
        } else {
            let mut d = D(i - all);
            src = d.take(4);
            g = vec![vec![]; 2];
            for a in seq(24, d.0) {
                g[a % 2].push((a / 2 % 4, [0, 1, usize::MAX / 4][a / 8]));
            }
        }
        call(|| format!("dijkstra({g:?}, {src})"), || dijkstra(&g, src));
    }));
    let ops = 4 + 4 + 16 + 16 + 1;
    let md = if deep { 3 } else { 2 };
    add("union-find", "n = 3, all sequences of up to 2 (thorough 3) calls with indices 0..=3", seqs(ops, md), Box::new(move |i| {
        let mut u = UnionFind::new(3);
        note(|| "UnionFind::new(3)".into());
        for o in seq(ops as usize, i) {
            let (a, b) = (o % 4, o / 4 % 4);
            match o {
                0..=15 => { call(|| format!("join({a},{b})"), || u.join(a, b)); }
                16..=31 => { call(|| format!("is_same({a},{b})"), || u.is_same(a, b)); }
                32..=35 => { call(|| format!("find({a})"), || u.find(a)); }
                36..=39 => { call(|| format!("size({a})"), || u.size(a)); }
                _ => { call(|| "groups()".into(), || u.groups()); }
            }
        }
        call(|| "groups()".into(), || u.groups());
    }));
    add("union-find chains", "n = 8, 64 join orders, then every find", 64, Box::new(|i| {
        let mut u = UnionFind::new(8);
        note(|| format!("UnionFind::new(8), order {i}"));
        for k in 1..8u64 {
            let (a, b) = ((k * (1 + i % 8)) % 8, (k + i / 8) % 8);
            call(|| format!("join({a},{b})"), || u.join(a as usize, b as usize));
        }
        for a in 0..8 {
            call(|| format!("find({a})"), || u.find(a));
        }
    }));
    let calls = 1 + x as u32;
    let fen = move |n: u64| (6 * (n + 3)).pow(calls);
    add("Fenwick tree", "lengths 0..=4, every call (thorough: and pair of calls) with indices up to n + 1 and the greatest", total(4, fen), Box::new(move |i| {
        let (n, mut d) = split(i, fen);
        let mut t = FenwickTree::from(&(0..n as i64).collect::<Vec<_>>());
        note(|| format!("FenwickTree::from({n} values)"));
        for _ in 0..calls {
            let (o, a) = (d.take(6), far(d.take(n + 3), n));
            match o {
                0 => { call(|| format!("add({a}, 1)"), || t.add(a, 1)); }
                1 => { call(|| format!("pref({a})"), || t.pref(a)); }
                2 => { call(|| format!("sum({a}, {n})"), || t.sum(a, n)); }
                3 => { call(|| format!("sum(0, {a})"), || t.sum(0, a)); }
                4 => { call(|| format!("partition_point(sum < {a})"), || t.partition_point(|x| *x < a as i64)); }
                _ => { call(|| format!("search({a})"), || t.search(&(a as i64))); }
            }
            call(|| format!("pref({n})"), || t.pref(n));
        }
    }));
    let max = 4 + x as usize;
    let st = move |n: u64| 4 * (7 * (n + 3)).pow(calls);
    add("segment tree", "lengths 0..=4 (thorough 5) of owned elements, every call (thorough: and pair of calls) with indices up to n + 1 and the greatest; user functions panicking at their 1st, 2nd, 3rd call or never", total(max, st), Box::new(move |i| {
        let (n, mut d) = split(i, st);
        let k = d.take(4) as i64 - 1;
        let mut t: Segtree<Cat> = (0..n as u32).map(s).collect::<Vec<_>>().into();
        note(|| format!("Segtree::from({n} owned values), fuse {k}"));
        for _ in 0..calls {
            let (o, a) = (d.take(7), far(d.take(n + 3), n));
            fuse(k);
            match o {
                0 => { call(|| format!("set({a}, _)"), || t.set(a, s(9))); }
                1 => { call(|| format!("get({a})"), || t.get(a)); }
                2 => { call(|| format!("prod({a}, {n})"), || t.prod(a, n)); }
                3 => { call(|| format!("prod(0, {a})"), || t.prod(0, a)); }
                4 => { call(|| format!("max_right({a}, short)"), || t.max_right(a, |x| { burn(); *x.0 < 40 })); }
                5 => { call(|| format!("min_left({a}, short)"), || t.min_left(a, |x| { burn(); *x.0 < 40 })); }
                _ => { call(|| format!("max_right/min_left({a}, all)"), || (t.max_right(a, |_| true), t.min_left(a, |_| true))); }
            }
            fuse(-1);
        }
        call(|| "all_prod()".into(), || t.all_prod());
        if n > 0 {
            call(|| format!("set({}, _), prod(0, {n})", n - 1), || { t.set(n - 1, s(1)); t.prod(0, n) });
        }
    }));
    let lst = move |n: u64| 4 * (10 * (n + 3)).pow(calls);
    add("lazy segment tree", "lengths 0..=4 (thorough 5) of owned elements and maps: a range update, then every call (thorough: and pair of calls) with indices up to n + 1 and the greatest; user functions panicking at their 1st, 3rd, 5th call or never", total(max, lst), Box::new(move |i| {
        let (n, mut d) = split(i, lst);
        let k = d.take(4) as i64 - 1;
        let mut t: LazySegtree<Act> = (0..n as u32).map(s).collect::<Vec<_>>().into();
        note(|| format!("LazySegtree::from({n} owned values), fuse {k}"));
        call(|| format!("apply_range(0, {n}, _)"), || t.apply_range(0, n, s(2)));
        for _ in 0..calls {
            let (o, a) = (d.take(10), far(d.take(n + 3), n));
            fuse(k * 2);
            match o {
                0 => { call(|| format!("set({a}, _)"), || t.set(a, s(9))); }
                1 => { call(|| format!("get({a})"), || t.get(a)); }
                2 => { call(|| format!("prod({a}, {n})"), || t.prod(a, n)); }
                3 => { call(|| format!("prod(0, {a})"), || t.prod(0, a)); }
                4 => { call(|| format!("max_right({a}, short)"), || t.max_right(a, |x| { burn(); *x.0 < 40 })); }
                5 => { call(|| format!("min_left({a}, short)"), || t.min_left(a, |x| { burn(); *x.0 < 40 })); }
                6 => { call(|| format!("max_right/min_left({a}, all)"), || (t.max_right(a, |_| true), t.min_left(a, |_| true))); }
                7 => { call(|| format!("apply({a}, _)"), || t.apply(a, s(3))); }
                8 => { call(|| format!("apply_range({a}, {n}, _)"), || t.apply_range(a, n, s(4))); }
                _ => { call(|| format!("apply_range(0, {a}, _)"), || t.apply_range(0, a, s(5))); }
            }
            fuse(-1);
        }
        call(|| "all_prod(), formatted".into(), || (t.all_prod(), format!("{t:?}")));
        if n > 0 {
            call(|| format!("set({}, _), prod(0, {n})", n - 1), || { t.set(n - 1, s(1)); t.prod(0, n) });
        }
    }));
    let hd = 3 + x as u32;
    add("min-heap", "all sequences of up to 3 (thorough 4) calls on two heaps of owned elements, the comparison panicking at its 1st, 2nd, 3rd call or never; then drained", seqs(7, hd) * 4, Box::new(|i| {
        let k = (i % 4) as i64 - 1;
        let (mut h, mut o) = (MinHeap::new(), MinHeap::with_capacity(1));
        note(|| format!("two heaps, fuse {k}"));
        o.push(K(Box::new(1)));
        fuse(k);
        for (j, op) in seq(7, i / 4).into_iter().enumerate() {
            match op {
                0 => { call(|| "push(2)".into(), || h.push(K(Box::new(2)))); }
                1 => { call(|| "push(j % 2)".into(), || h.push(K(Box::new(j as u32 % 2)))); }
                2 => { call(|| "pop()".into(), || h.pop()); }
                3 => { call(|| "peek()".into(), || h.peek().map(|x| *x.0)); }
                4 => { call(|| "append".into(), || h.append(&mut o)); }
                5 => { call(|| "clear()".into(), || h.clear()); }
                _ => { call(|| "other.push(1)".into(), || o.push(K(Box::new(1)))); }
            }
        }
        call(|| "len, is_empty, formatted".into(), || (h.len(), h.is_empty(), format!("{h:?}")));
        call(|| "into_sorted_vec()".into(), move || h.into_sorted_vec());
        fuse(-1);
        while call(|| "other.pop()".into(), || o.pop()).flatten().is_some() {}
    }));
    let sq = |n: u64| (n + 3) * (n + 3);
    add("sparse table", "lengths 0..=5 (thorough 9), every pair of end points up to n + 1 and the greatest", total(5 + 4 * x as usize, sq), Box::new(move |i| {
        let (n, mut d) = split(i, sq);
        let (l, r) = (far(d.take(n + 3), n), far(d.take(n + 3), n));
        let a: Vec<u32> = (0..n as u32).map(|i| i * 7 % 5).collect();
        note(|| format!("SparseTable::from({a:?})"));
        if let Some(t) = call(|| "from".into(), || SparseTable::from(&a, 9, |x: u32, y: u32| x.min(y))) {
            call(|| format!("get({l},{r})"), || t.get(l, r));
        }
    }));
    add("components", "all graphs with loops on 3 vertices; all lists of up to 2 arcs on 2 vertices with targets up to 3", 512 + seqs(8, 2), Box::new(|i| {
        let g: Vec<Vec<usize>> = if i < 512 {
            (0..3).map(|u| (0..3).filter(|v| i >> (u * 3 + v) & 1 == 1).collect()).collect()
        } else {
            let mut g = vec![vec![]; 2];
            seq(8, i - 512).into_iter().for_each(|a| g[a % 2].push(a / 2));
            g
        };
        call(|| format!("scc({g:?})"), || scc(&g));
    }));
    let tn = 4 + x as usize;
    let trees = |n: u64| if n == 0 { 0 } else { (1..n).product::<u64>() * (n + 1) };
    fn tree(n: usize, code: u64) -> Vec<Vec<usize>> {
        let mut d = D(code);
        let mut g = vec![vec![]; n];
        for i in 1..n {
            let p = d.take(i);
            g[p].push(i);
            g[i].push(p);
        }
        g
    }
    add("ancestors", "every parent assignment on 1..=4 (thorough 5) vertices, every root up to n, every pair of vertices up to n", total(tn, trees), Box::new(move |i| {
        let (n, mut d) = split(i, trees);
        let root = d.take(n + 1);
        let code = d.0;
        let g = tree(n, code);
        if let Some(b) = call(|| format!("BinaryLifting::from({g:?}, {root})"), || BinaryLifting::from(&g, root)) {
            for u in 0..=n {
                for v in 0..=n {
                    call(|| format!("lca/dis/is_ancestor({u},{v})"), || (b.lca(u, v), b.dis(u, v), b.is_ancestor(u, v)));
                }
            }
        }
    }));
    add("heavy-light", "every parent assignment on 1..=4 (thorough 5) vertices, every root up to n: every path and subtree operation on vertices up to n, owned elements and maps", total(tn, trees), Box::new(move |i| {
        let (n, mut d) = split(i, trees);
        let root = d.take(n + 1);
        let code = d.0;
        let g = tree(n, code);
        let init = (0..n as u32).map(s).collect();
        if let Some(mut h) = call(|| format!("HLD::with_init_value({g:?}, {root})"), || HLD::<Act>::with_init_value(&g, root, &init)) {
            for u in 0..=n {
                call(|| format!("subtree, get, set, {u}"), || (h.apply_subtree(u, s(1)), h.subtree_prod(u), h.get(u), h.set(u, s(3))));
                for v in 0..=n {
                    call(|| format!("apply_path, path_prod({u},{v})"), || (h.apply_path(u, v, s(2)), h.path_prod(u, v)));
                }
            }
        }
        call(|| "too few values".into(), || HLD::<Act>::with_init_value(&g, root, &vec![]));
    }));
    let pairs = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let ek = 16 << x;
    add("flows", "all lists of up to 2 of 16 (thorough 3 of 32) edges on 3 vertices (one end point out of range, capacities 1 and 10000 in turn, thorough: either), every pair of terminals up to 3, both directions", seqs(ek, md) * 6, Box::new(move |i| {
        let mut d = D(i);
        // equal terminals are outside the contract and do not terminate
        let (src, t) = pairs[d.take(6)];
        let mut f = Dinic::<i16>::new(3);
        note(|| "Dinic::<i16>::new(3)".into());
        for (j, a) in seq(ek as usize, d.0).into_iter().enumerate() {
            let (u, w, c) = (a % 4, a / 4 % 4, [1, 10000][if deep { a / 16 } else { j % 2 }]);
            if call(|| format!("add_edge({u},{w},{c})"), || f.add_edge(u, w, c)).is_none() {
                // a network with half an edge need not be solvable in finite time
                return;
            }
        }
        call(|| format!("get_max_flow({src},{t})"), || f.get_max_flow(src, t));
        call(|| format!("get_max_flow({t},{src})"), || f.get_max_flow(t, src));
    }));
    add("matching", "all lists of up to 2 (thorough 3) of 12 edges on 3 x 2 (one end point out of range), solved after each", seqs(12, 2 + x as u32), Box::new(|i| {
        let mut a = AugmentedPath::new(3, 2);
        note(|| "AugmentedPath::new(3, 2)".into());
        for e in seq(12, i) {
            call(|| format!("add_edge({},{})", e % 4, e / 4), || a.add_edge(e % 4, e / 4));
            call(|| "solve()".into(), || a.solve());
        }
    }));
    let wl = 6 + x as u32;
    add("prefix and Z functions", "all words of up to 6 (thorough 7) owned letters out of 2, comparison panicking at its 1st, 2nd, 3rd call or never", seqs(2, wl) * 4, Box::new(|i| {
        let w: Vec<K> = seq(2, i / 4).into_iter().map(|c| K(Box::new(c as u32))).collect();
        fuse((i % 4) as i64 - 1);
        call(|| format!("kmp({w:?})"), || kmp(&w));
        fuse((i % 4) as i64 - 1);
        call(|| "z_function".into(), || z_function(&w));
        fuse(-1);
    }));
    let tl = 2 + x as u32;
    add("multi-pattern search", "all lists of up to 2 of the words over {a b} up to length 2, one with a letter outside, and the empty one, searched in every text of up to 2 (thorough 3) letters and one with a letter outside", seqs(8, 2) * (seqs(2, tl) + 1), Box::new(move |i| {
        const P: [&[u8]; 8] = [b"a", b"b", b"aa", b"ab", b"ba", b"bb", b"", b"c"];
        let mut d = D(i);
        let t = d.take(seqs(2, tl) as usize + 1);
        let text: Vec<u8> = if t == seqs(2, tl) as usize { b"ab`".to_vec() } else { seq(2, t as u64).into_iter().map(|c| b'a' + c as u8).collect() };
        let p: Vec<&[u8]> = seq(8, d.0).into_iter().map(|j| P[j]).collect();
        if let Some(a) = call(|| format!("AhoCorasick::<b'a', 2>::from({p:?})"), || AhoCorasick::<b'a', 2>::from(&p)) {
            call(|| format!("find/find_all/find_cnt({text:?})"), || (a.find(&text), a.find_all(&text), a.find_cnt(&text)));
        }
        let mut a = AhoCorasick::<b'a', 2>::new(1);
        call(|| "new(1), one by one".into(), || {
            for (j, w) in p.iter().enumerate() {
                a.insert(w, j * 2);
            }
            a.build();
        });
        call(|| "find_cnt".into(), || a.find_cnt(&text));
    }));
    add("modular integers", "moduli 1, 2, 4, 7, 998244353, 2^31: every operation on 6 x 6 residues, run-time and compile-time", 6 * 36, Box::new(|i| {
        let mut d = D(i);
        let m = [1u32, 2, 4, 7, 998_244_353, 1 << 31][d.take(6)];
        let r = [0i64, 1, 2, -1, i64::MAX, i64::MIN];
        let (a, b) = (r[d.take(6)], r[d.take(6)]);
        call(|| format!("ModInt::set_modulus({m})"), || ModInt::set_modulus(m));
        call(|| format!("{a} op {b}"), || {
            let (p, q) = (ModInt::new(a), ModInt::new(b));
            (p + q, p - q, p * q, -p, p.pow(b as u64), [p, q].iter().sum::<ModInt>(), format!("{p} {q:?}"))
        });
        call(|| "division".into(), || ModInt::new(a) / ModInt::new(b));
        call(|| "compile-time".into(), || {
            let (p, q) = (ModInt998244353::new(a), ModInt998244353::new(b));
            (p + q, p - q, p * q, p.pow(9), p / q)
        });
        call(|| "parsing".into(), || (format!("{a}").parse::<ModInt>().unwrap(), "x".parse::<ModInt>().unwrap()));
        call(|| "zero".into(), || ModInt::set_modulus(0));
    }));
    add("run-time modulus in several threads", "two threads set and compute at the same time, four moduli each (data races are undefined behaviour; the schedule is Miri's)", 16, Box::new(|i| {
        let m = [2u32, 7, 998_244_353, 1 << 31];
        let (a, b) = (m[i as usize % 4], m[i as usize / 4]);
        note(|| format!("threads with set_modulus({a}) and set_modulus({b}), each multiplying"));
        std::thread::scope(|sc| {
            for k in [a, b] {
                sc.spawn(move || {
                    let _ = catch_unwind(|| {
                        ModInt::set_modulus(k);
                        let x = ModInt::new(5);
                        (x * x, ModInt::modulus())
                    });
                });
            }
        });
    }));
    let bin = |n: u64| 2 * (n + 3) * (n + 3);
    add("binomials", "tables of size 0..=4 (thorough 6), two moduli: every n and k up to size + 1 and the greatest", total(4 + 2 * x as usize, bin), Box::new(move |i| {
        let (n, mut d) = split(i, bin);
        let (a, b, m) = (far(d.take(n + 3), n), far(d.take(n + 3), n), d.0);
        fn go<M: Modulus>(n: usize, a: usize, b: usize) {
            if let Some(f) = call(|| format!("Factorial::new({n})"), || Factorial::<M>::new(n)) {
                call(|| format!("choose({a},{b})"), || f.choose(a, b));
                call(|| format!("perm({a},{b})"), || f.perm(a, b));
            }
        }
        if m == 0 { go::<Mod998244353>(n, a, b) } else { go::<Mod1000000007>(n, a, b) }
    }));
    add("number theory", "gcd, lcm, ex_gcd on 11 x 11 corner values of i8, u8 and i64; systems of two congruences over 5 values with short vectors", 3 * 121 + 625, Box::new(|i| {
        if i < 363 {
            let mut d = D(i);
            let (t, a, b) = (d.take(3), d.take(11), d.take(11));
            macro_rules! go {
                ($t:ty) => {{
                    let v = [0, 1, 2, 3, 12, 90, 100, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1];
                    let (a, b) = (v[a], v[b]);
                    call(|| format!("gcd({a},{b})"), || gcd(a, b));
                    call(|| format!("lcm({a},{b})"), || lcm(a, b));
                    call(|| format!("ex_gcd({a},{b})"), || ex_gcd(a, b));
                }};
            }
            match t {
                0 => go!(i8),
                1 => go!(u8),
                _ => go!(i64),
            }
        } else {
            let mut d = D(i - 363);
            let v = [0i64, 1, -3, 6, i64::MIN];
            let (a, b, m, k) = (v[d.take(5)], v[d.take(5)], v[d.take(5)], d.take(5));
            let (av, bv, mv) = (vec![a, 2], vec![b, 1], if k == 4 { vec![m] } else { vec![m, [3, 4, 5, 1][k % 4]] });
            call(|| format!("ex_crt({av:?},{bv:?},{mv:?})"), || ex_crt(&av, &bv, &mv));
        }
    }));
    add("logarithms", "0..=70 and neighbours of powers of two", 71 + 64 * 3, Box::new(|i| {
        let x = if i < 71 { i } else { (1u64 << ((i - 71) / 3)).wrapping_add((i - 71) % 3).wrapping_sub(1) };
        call(|| format!("lg({x}), ceil_lg({})", x as u32), || (catch_unwind(|| lg(x as usize)), ceil_lg(x as u32)));
    }));
    let (rl, alphabet) = if deep { (3, &['7', ' ', 'é', '-', '\n'][..]) } else { (2, &['7', ' ', 'é'][..]) };
    let al = alphabet.len();
    add("token reader", "every text of up to 2 of {7 space é} (thorough 3 of {7 - space é newline}), all sequences of up to 2 calls of 9 kinds", seqs(al as u64, rl) * seqs(9, 2), Box::new(move |i| {
        let mut d = D(i);
        let ops = seq(9, d.take(seqs(9, 2) as usize) as u64);
        let text: String = seq(al, d.0).into_iter().map(|c| alphabet[c]).collect();
        let mut r = In::new(&text);
        note(|| format!("In::new({text:?})"));
        for o in ops {
            match o {
                0 => { call(|| "read::<String>".into(), || r.read::<String>()); }
                1 => { call(|| "checked_read::<String>".into(), || r.checked_read::<String>()); }
                2 => { call(|| "i32".into(), || r.i32()); }
                3 => { call(|| "i64".into(), || r.i64()); }
                4 => { call(|| "usize".into(), || r.usize()); }
                5 => { call(|| "bytes".into(), || String::from_utf8(r.bytes())); }
                6 => { call(|| "chars".into(), || r.chars()); }
                7 => { call(|| "vec::<u8>(2)".into(), || r.vec::<u8>(2)); }
                _ => { call(|| "vec::<String>(0)".into(), || r.vec::<String>(0)); }
            }
        }
    }));
    add("recursive closures", "arities 0 to 3 and 9: nothing captured, shared and mutable references captured (used before, after, around nested calls), owned values read, one and two nested calls, depth 0..=3, a panic at any depth", 4 * 8 * 4, Box::new(|i| {
        let mut d = D(i);
        let (n, what, arity) = (d.take(4) as u32, d.take(8), d.take(4));
        note(|| format!("arity kind {arity}, capture kind {what}, called with {n}"));
        let cell = Cell::new(0);
        let mut count = Box::new(0u32);
        let log = RefCell::new(vec![]);
        let owned = String::from("owned");
        type One<'a> = &'a mut dyn Callable<u32, u32>;
        type Two<'a> = &'a mut dyn Callable2<u32, Box<u32>, u32>;
        type Nine<'a> = &'a mut dyn Callable9<u8, u16, u32, u64, Box<u32>, (), bool, char, i8, u32>;
        match arity {
            0 => {
                let r = match what {
                    0 => call(|| "".into(), || RecursiveFunction::new(|f: One, n: u32| if n == 0 { 1 } else { n * f.call(n - 1) }).call(n)),
                    1 => call(|| "".into(), || RecursiveFunction::new(|f: One, n: u32| { cell.set(cell.get() + 1); if n == 0 { 1 } else { f.call(n - 1) + cell.get() } }).call(n)),
                    2 => call(|| "".into(), || RecursiveFunction::new(|f: One, n: u32| { *count += 1; if n == 0 { 1 } else { f.call(n - 1) } }).call(n)),
                    3 => call(|| "".into(), || RecursiveFunction::new(|f: One, n: u32| { let r = if n == 0 { 1 } else { f.call(n - 1) + f.call(n / 2) }; *count += r; r }).call(n)),
                    4 => call(|| "".into(), || RecursiveFunction::new(|f: One, n: u32| { *count += 1; let r = if n == 0 { 1 } else { f.call(n - 1) }; *count += r; r }).call(n)),
                    5 => call(|| "".into(), || RecursiveFunction::new(move |f: One, n: u32| if n == 0 { owned.len() as u32 } else { f.call(n - 1) + owned.len() as u32 }).call(n)),
                    6 => call(|| "".into(), || RecursiveFunction::new(|f: One, n: u32| { log.borrow_mut().push(n); if n == 0 { panic!() } else { f.call(n - 1) } }).call(n)),
                    _ => call(|| "".into(), || {
                        let mut g = RecursiveFunction::new(|f: One, n: u32| { log.borrow_mut().push(n); if n == 0 { 0 } else { f.call(n - 1) + log.borrow().len() as u32 } });
                        g.call(n) + g.call(n)
                    }),
                };
                note(|| format!("{r:?}"));
            }
            1 => {
                call(|| "".into(), || RecursiveFunction0::new(|f: &mut dyn Callable0<u32>| { cell.set(cell.get() + 1); if cell.get() > n { 7 } else { f.call() } }).call());
            }
            2 => {
                call(|| "".into(), || RecursiveFunction2::new(|f: Two, n: u32, b: Box<u32>| { *count += *b; if n == 0 { *b } else { f.call(n - 1, Box::new(*b + 1)) } }).call(n, Box::new(3)));
            }
            _ => {
                call(|| "".into(), || RecursiveFunction9::new(|f: Nine, a: u8, b: u16, c: u32, d: u64, e: Box<u32>, u: (), g: bool, h: char, i: i8| {
                    if a == 0 { b as u32 + c + d as u32 + *e + g as u32 + h as u32 + i as u32 } else { f.call(a - 1, b + 1, c, d, e, u, !g, h, i) }
                }).call(n as u8, 1, 2, 3, Box::new(4), (), true, 'x', 5));
            }
        }
        note(|| format!("{} {} {}", cell.get(), count, log.borrow().len()));
    }));
    add("recursive closures that own what they change", "an owned counter incremented before / after a nested call (recorded findings), and by one call without nesting", 3, Box::new(|i| {
        type One<'a> = &'a mut dyn Callable<u32, u32>;
        let mut c = 0;
        match i {
            0 => { call(|| "owned counter incremented before one nested call, called with 1".into(), || RecursiveFunction::new(move |f: One, n: u32| { c += 1; let r = if n == 0 { 0 } else { f.call(n - 1) }; r + 1 }).call(1)); }
            1 => { call(|| "owned counter incremented after one nested call, called with 1".into(), || RecursiveFunction::new(move |f: One, n: u32| { let r = if n == 0 { 0 } else { f.call(n - 1) }; c += 1; r + c }).call(1)); }
            _ => { call(|| "owned counter, no nested call, called twice".into(), || { let mut g = RecursiveFunction::new(move |_: One, n: u32| { c += n; c }); g.call(1) + g.call(2) }); }
        }
    }));
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let deep = a[1] == "thorough";
    if std::env::var_os("MI_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let sp = spaces(deep);
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[2].as_str() {
        "list" => {
            for s in &sp {
                println!("{}\t{}\t{}", s.name, s.cases, s.bound);
            }
        }
        "run" => {
            // numbered over all cases of all spaces but the last
            let mut n = 0;
            let (from, step) = (num(3), num(4));
            for (k, s) in sp[..sp.len() - 1].iter().enumerate() {
                let mut i = (step - 1 - (n + step - 1 - from % step) % step) % step;
                while i < s.cases {
                    if n + i >= from {
                        println!("{k} {i}");
                        (s.run)(i);
                    }
                    i += step;
                }
                n += s.cases;
            }
            println!("end");
        }
        _ => {
            LOUD.with(|d| d.set(true));
            let s = &sp[num(3) as usize];
            println!("{}", s.name);
            (s.run)(num(4));
            // not reached if the case is undefined
            println!("defined");
        }
    }
}
