//! C29 cost: the number of calls of user-supplied functions, for every operation.
use mc::model::*;
use mc::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::data_structure::min_heap::MinHeap;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::data_structure::sparse_table::SparseTable;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::graph::shortest_path::dijkstra;
use rust_cp::string::kmp::kmp;
use rust_cp::string::z_algorithm::z_function;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
use std::cell::Cell;
use std::cmp::Ordering;

thread_local!(static WORK: Cell<u64> = const { Cell::new(0) });
fn tick() {
    WORK.with(|w| w.set(w.get() + 1));
}
/// Counts the user calls made by f and compares them with a bound.
fn within<T>(what: impl FnOnce() -> String, most: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    WORK.with(|w| w.set(0));
    let r = f();
    let n = WORK.with(|w| w.get());
    ensure(n <= most, || format!("{} makes {n} calls of user functions, allowed {most}", what()))?;
    Ok(r)
}
/// ceil(log2 n) + 1
fn lgn(n: usize) -> u64 {
    let mut k = 0;
    while 1usize << k < n {
        k += 1;
    }
    k as u64 + 1
}

/// Number of elements and their sum.
struct Sum;
impl Monoid for Sum {
    type S = u64;
    fn identity() -> u64 {
        0
    }
    fn binary_operation(a: &u64, b: &u64) -> u64 {
        tick();
        a + b
    }
}
/// Assign-all (Some) or nothing, on (sum, length).
struct Len;
impl Monoid for Len {
    type S = (u64, u64);
    fn identity() -> (u64, u64) {
        (0, 0)
    }
    fn binary_operation(a: &(u64, u64), b: &(u64, u64)) -> (u64, u64) {
        tick();
        (a.0 + b.0, a.1 + b.1)
    }
}
struct Set;
impl MapMonoid for Set {
    type M = Len;
    type F = Option<u64>;
    fn identity_map() -> Option<u64> {
        None
    }
    fn mapping(f: &Option<u64>, x: &(u64, u64)) -> (u64, u64) {
        tick();
        match f {
            Some(v) => (v * x.1, x.1),
            None => *x,
        }
    }
    fn composition(f: &Option<u64>, g: &Option<u64>) -> Option<u64> {
        tick();
        f.or(*g)
    }
}
/// Additive group with counted additions.
#[derive(Clone, Copy, Default, PartialEq, PartialOrd, Debug)]
struct N(i64);
impl std::ops::AddAssign for N {
    fn add_assign(&mut self, o: N) {
        tick();
        self.0 += o.0;
    }
}
impl std::ops::Add for N {
    type Output = N;
    fn add(self, o: N) -> N {
        tick();
        N(self.0 + o.0)
    }
}
impl std::ops::Sub for N {
    type Output = N;
    fn sub(self, o: N) -> N {
        tick();
        N(self.0 - o.0)
    }
}
/// Counted comparisons.
#[derive(Clone, Copy, Debug)]
struct K(u64);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}

/// Indices to use for length n: all of them when few, otherwise around powers of two from either end.
fn indices(n: usize, all: usize) -> Vec<usize> {
    if n <= all {
        return (0..=n).collect();
    }
    let mut v: Vec<usize> = straddling(n);
    v.extend(straddling(n).iter().map(|x| n - x));
    v.extend([n / 3, n / 2, n / 2 + 1]);
    v.sort();
    v.dedup();
    v
}
fn segtree(n: usize) -> Result<u64, String> {
    let l = lgn(n);
    let mut k = 0;
    let mut t = within(|| "From<Vec>".into(), 4 * n as u64 + 4, || Segtree::<Sum>::from(vec![1u64; n]))?;
    within(|| "new".into(), 4 * n as u64 + 4, || Segtree::<Sum>::new(n))?;
    within(|| "all_prod()".into(), 8, || t.all_prod())?;
    let idx = indices(n, 70);
    for &a in &idx {
        if a < n {
            within(|| format!("set({a}, _)"), 8 * l, || t.set(a, 1))?;
            within(|| format!("get({a})"), 8 * l, || t.get(a))?;
        }
        for &b in &idx {
            if a <= b {
                let got = within(|| format!("prod({a},{b})"), 8 * l, || t.prod(a, b))?;
                same(|| format!("prod({a},{b})"), got, (b - a) as u64)?;
                let w = (b - a) as u64;
                let got = within(|| format!("max_right({a}, reaching {b})"), 8 * l, || {
                    t.max_right(a, |x| {
                        tick();
                        *x <= w
                    })
                })?;
                same(|| format!("max_right({a}, sum <= {w})"), got, b)?;
                let got = within(|| format!("min_left({b}, reaching {a})"), 8 * l, || {
                    t.min_left(b, |x| {
                        tick();
                        *x <= w
                    })
                })?;
                same(|| format!("min_left({b}, sum <= {w})"), got, a)?;
                k += 3;
            }
        }
    }
    Ok(k)
}
fn lazy(n: usize) -> Result<u64, String> {
    let l = lgn(n);
    let c = 40 * l;
    let mut k = 0;
    let mut t = within(|| "From<Vec>".into(), 8 * n as u64 + 8, || LazySegtree::<Set>::from(vec![(1u64, 1u64); n]))?;
    within(|| "new".into(), 8 * n as u64 + 8, || LazySegtree::<Set>::new(n))?;
    let idx = indices(n, 40);
    for &a in &idx {
        if a < n {
            within(|| format!("set({a}, _)"), c, || t.set(a, (1, 1)))?;
            within(|| format!("get({a})"), c, || t.get(a))?;
            within(|| format!("apply({a}, _)"), c, || t.apply(a, Some(1)))?;
        }
        for &b in &idx {
            if a <= b {
                within(|| format!("apply_range(0,{n},_)"), c, || t.apply_range(0, n, Some(1)))?;
                within(|| format!("apply_range({a},{b},_)"), c, || t.apply_range(a, b, Some(1)))?;
                let got = within(|| format!("prod({a},{b})"), c, || t.prod(a, b))?;
                let w = (b - a) as u64;
                same(|| format!("prod({a},{b})"), got, (w, w))?;
                within(|| format!("apply_range({b},{n},_)"), c, || t.apply_range(b, n, None))?;
                let got = within(|| format!("max_right({a}, reaching {b})"), c, || {
                    t.max_right(a, |x| {
                        tick();
                        x.0 <= w
                    })
                })?;
                same(|| format!("max_right({a}, sum <= {w})"), got, b)?;
                let got = within(|| format!("min_left({b}, reaching {a})"), c, || {
                    t.min_left(b, |x| {
                        tick();
                        x.0 <= w
                    })
                })?;
                same(|| format!("min_left({b}, sum <= {w})"), got, a)?;
                within(|| "all_prod()".into(), 8, || t.all_prod())?;
                k += 7;
            }
        }
    }
    Ok(k)
}
fn fenwick(n: usize) -> Result<u64, String> {
    let l = lgn(n);
    let mut k = 0;
    let mut t = within(|| "from".into(), 6 * n as u64 + 6, || FenwickTree::from(&vec![N(1); n]))?;
    within(|| "new".into(), 6 * n as u64 + 6, || FenwickTree::<N>::new(n))?;
    let idx = indices(n, 300);
    for &a in &idx {
        if a < n {
            within(|| format!("add({a}, _)"), 6 * l, || t.add(a, N(0)))?;
        }
        let got = within(|| format!("pref({a})"), 6 * l, || t.pref(a))?;
        same(|| format!("pref({a})"), got.0, a as i64)?;
        let got = within(|| format!("partition_point(sum <= {a})"), 8 * l, || {
            t.partition_point(|x| {
                tick();
                x.0 <= a as i64
            })
        })?;
        same(|| format!("partition_point(sum <= {a})"), got, a)?;
        let got = within(|| format!("search({a})"), 8 * l, || t.search(&N(a as i64)))?;
        same(|| format!("search({a})"), got, a.saturating_sub(1))?;
        for &b in &idx {
            if a <= b {
                let got = within(|| format!("sum({a},{b})"), 12 * l, || t.sum(a, b))?;
                same(|| format!("sum({a},{b})"), got.0, (b - a) as i64)?;
                k += 1;
            }
        }
        k += 4;
    }
    Ok(k)
}
fn sparse(n: usize) -> Result<u64, String> {
    let l = lgn(n);
    let a: Vec<u64> = (0..n).map(|i| mix(i as u64) % 1000).collect();
    let t = within(|| "from".into(), 3 * n as u64 * l + 8, || {
        SparseTable::from(&a, 0, |x: u64, y: u64| {
            tick();
            x.min(y)
        })
    })?;
    let idx = indices(n, 130);
    let mut k = 0;
    for &x in &idx {
        for &y in &idx {
            if x < y {
                within(|| format!("get({x},{y})"), 3, || t.get(x, y))?;
                k += 1;
            }
        }
    }
    Ok(k)
}
fn heap(n: usize, order: usize) -> Result<u64, String> {
    let key = |i: usize| match order {
        0 => i as u64,
        1 => (n - i) as u64,
        2 => 7,
        3 => mix(i as u64),
        _ => (i % 2) as u64 * 1000 + i as u64,
    };
    let mut h = MinHeap::with_capacity(n / 2);
    let mut k = 0;
    for i in 0..n {
        let c = 8 * lgn(i + 2);
        within(|| format!("push number {i}"), c, || h.push(K(key(i))))?;
        within(|| format!("peek, len, is_empty with {} elements", i + 1), 2, || (h.peek().is_some(), h.len(), h.is_empty()))?;
        if i % 3 == 2 {
            let len = h.len();
            let x = within(|| format!("pop with {len} elements"), c, || h.pop())?;
            within(|| "push back".into(), c, || h.push(x.unwrap()))?;
        }
        k += 5;
    }
    let mut o = MinHeap::new();
    for i in 0..n / 2 {
        o.push(K(key(i)));
    }
    let m = (n + n / 2) as u64;
    within(|| format!("append of {} to {n} elements", n / 2), 8 * m * lgn(m as usize) + 8, || h.append(&mut o))?;
    for i in 0..n / 2 {
        let c = 8 * lgn(h.len() + 1);
        within(|| format!("pop number {i}"), c, || h.pop())?;
    }
    let len = h.len() as u64;
    let v = within(|| format!("into_sorted_vec of {len}"), 8 * len * lgn(len as usize) + 8, || h.into_sorted_vec())?;
    ensure(v.windows(2).all(|w| w[0].0 <= w[1].0), || "not sorted".into())?;
    Ok(k + n as u64)
}
fn hld(kind: usize, n: usize) -> Result<u64, String> {
    let g = family_tree(kind, n);
    let l = lgn(n);
    let mut k = 0;
    for root in [0, n - 1, n / 2] {
        let v = vec![(1u64, 1u64); n];
        let mut t = within(|| "with_init_value".into(), 40 * n as u64 + 40, || HLD::<Set>::with_init_value(&g, root, &v))?;
        let (par, dep) = hang(&g, root);
        let idx = indices(n, 24);
        for &u in idx.iter().filter(|&&u| u < n) {
            let c = 40 * l;
            within(|| format!("set({u}, _)"), c, || t.set(u, (1, 1)))?;
            within(|| format!("get({u})"), c, || t.get(u))?;
            within(|| format!("apply_subtree({u}, _)"), c, || t.apply_subtree(u, Some(1)))?;
            within(|| format!("subtree_prod({u})"), c, || t.subtree_prod(u))?;
            for &w in idx.iter().filter(|&&w| w < n) {
                let c = 42 * l * l;
                within(|| format!("apply_path({u},{w},_), root {root}"), c, || t.apply_path(u, w, Some(1)))?;
                let got = within(|| format!("path_prod({u},{w}), root {root}"), c, || t.path_prod(u, w))?;
                if n <= 100 {
                    same(|| format!("path_prod({u},{w}), root {root}"), got.1, path(&par, &dep, u, w).len() as u64)?;
                }
                k += 2;
            }
        }
    }
    Ok(k)
}
/// A spine whose vertices each have a side tree of c vertices (a chain or a complete binary tree), listed before, after or
/// alternately before and after the rest of the spine; the root is vertex 0, at the top of the spine.
fn spine(n: usize, c: usize, form: usize) -> (Vec<Vec<usize>>, Vec<usize>) {
    let mut g = vec![vec![]; n];
    let mut tops = vec![0];
    let (mut cur, mut next) = (0, 1);
    let join = |g: &mut Vec<Vec<usize>>, a: usize, b: usize| {
        g[a].push(b);
        g[b].push(a);
    };
    while next + c < n {
        let first = match form % 3 {
            0 => true,
            1 => false,
            _ => tops.len() % 2 == 0,
        };
        let down = next + if first { c } else { 0 };
        let side = next + if first { 0 } else { 1 };
        if !first {
            join(&mut g, cur, down);
        }
        for i in 0..c {
            let p = match i {
                0 => cur,
                _ if form >= 3 => side + (i - 1) / 2,
                _ => side + i - 1,
            };
            join(&mut g, p, side + i);
        }
        if first {
            join(&mut g, cur, down);
        }
        next += c + 1;
        cur = down;
        tops.push(cur);
    }
    while next < n {
        join(&mut g, cur, next);
        next += 1;
    }
    (g, tops)
}
fn hld_spine(n: usize, c: usize, form: usize) -> Result<u64, String> {
    let (g, tops) = spine(n, c, form);
    let l = lgn(n);
    let mut t = within(|| "with_init_value".into(), 40 * n as u64 + 40, || HLD::<Set>::with_init_value(&g, 0, &vec![(1u64, 1u64); n]))?;
    let mut us = vec![0, tops[tops.len() / 2], tops[tops.len() - 1], n - 1];
    us.extend([n / 3, n / 2, n - c.min(n)]);
    let most = 42 * l * l;
    let mut k = 0;
    for &u in &us {
        for &w in &us {
            within(|| format!("apply_path({u},{w},_)"), most, || t.apply_path(u, w, Some(1)))?;
            within(|| format!("path_prod({u},{w})"), most, || t.path_prod(u, w))?;
            k += 2;
        }
    }
    Ok(k)
}
fn word(kind: usize, n: usize) -> Vec<K> {
    (0..n)
        .map(|i| {
            K(match kind {
                0 => 0,
                1 => (i + 1 == n) as u64,
                2 => i as u64 % 2,
                3 => (i % 7 == 3) as u64,
                4 => (i as u64).count_ones() as u64 % 2,
                5 => (i + 1).trailing_zeros() as u64,
                6 => (i > n / 2 && i % 2 == 0) as u64,
                7 => (i == n / 2) as u64,
                8 => {
                    let b = (1..).find(|b| b * b >= n).unwrap();
                    (i % b == b - 1) as u64
                }
                9 => (i >= n / 2 && i % 10 == 9 || i % 100 == 99) as u64,
                10 => {
                    // fibonacci word by the golden ratio
                    let f = |x: u128| x * 6180339887498948482 / 10u128.pow(19);
                    (f(i as u128 + 2) - f(i as u128 + 1)) as u64
                }
                _ => mix(i as u64) % 2,
            })
        })
        .collect()
}
fn strings(s: &[K], name: impl Fn() -> String) -> Result<u64, String> {
    let most = 4 * s.len() as u64 + 8;
    within(|| format!("kmp({})", name()), most, || kmp(s))?;
    within(|| format!("z_function({})", name()), most, || z_function(s))?;
    Ok(2)
}
fn record(cx: &mut Cx, r: Option<u64>) {
    if let Some(k) = r {
        cx.calls(k);
        cx.states(1);
        cx.outcome(k);
    }
}

fn main() {
    mc::main("C29", false, |thorough| {
        let x = thorough as usize;
        let mut v = vec![];
        let top = if thorough { 1 << 19 } else { 1 << 17 };
        let lens = move |small: usize| {
            let mut s: Vec<usize> = (0..=small).collect();
            s.extend(straddling(top).into_iter().filter(|&n| n > small));
            s.extend([top / 2 + top / 4, top / 2 + top / 3, top - top / 5].into_iter().filter(|&n| n > small));
            s.sort();
            s.dedup();
            s.reverse();
            s
        };
        let big = format!("lengths within 2 of powers of two up to {top}: all pairs of boundary indices");
        let s = lens(150 + 200 * x);
        v.push(space("segment tree", &format!("every length to {}: every range and every cut of both searches up to length 70, boundary indices above; {big}", 150 + 200 * x), s.len(), move |c, cx| {
            let n = s[c];
            let r = cx.run(|| format!("segment tree of {n} elements"), || segtree(n));
            record(cx, r);
        }));
        let s = lens(100 + 150 * x);
        v.push(space("lazy segment tree", &format!("every length to {}: every range and cut up to length 40, boundary indices above, with pending maps everywhere; {big}", 100 + 150 * x), s.len(), move |c, cx| {
            let n = s[c];
            let r = cx.run(|| format!("lazy segment tree of {n} elements"), || lazy(n));
            record(cx, r);
        }));
        let s = lens(400);
        v.push(space("Fenwick tree", &format!("every length to 400: every index, range (up to length 300) and cut; {big}"), s.len(), move |c, cx| {
            let n = s[c];
            let r = cx.run(|| format!("Fenwick tree of {n} elements"), || fenwick(n));
            record(cx, r);
        }));
        let s = lens(200);
        v.push(space("sparse table", &format!("every length to 200: every range up to length 130; {big}"), s.len(), move |c, cx| {
            let n = s[c];
            let r = cx.run(|| format!("sparse table of {n} elements"), || sparse(n));
            record(cx, r);
        }));
        let s = lens(200);
        v.push(space("heap", "every size to 200 and sizes around powers of two, keys ascending, descending, equal, mixed, interleaved: every push and pop, append, drain", s.len() * 5, move |c, cx| {
            let (n, o) = (s[c / 5], c % 5);
            let r = cx.run(|| format!("heap of {n} elements, order {o}"), || heap(n, o));
            record(cx, r);
        }));
        let kinds = FAMILIES;
        let s: Vec<usize> = lens(60).into_iter().filter(|&n| n > 0 && (n < 60 || n < (5 + 12 * x) * 1000 && (n.is_power_of_two() || (n + 1).is_power_of_two() || n < 3000 && thorough))).collect();
        v.push(space("heavy-light decomposition", "tree families (paths, stars, combs, complete trees, ...), every size to 60, powers of two and one less (thorough: all sizes around them) to 4096 (thorough 16384), three roots: every vertex/pair up to 24 vertices, boundary vertices above", s.len() * kinds, move |c, cx| {
            let (n, kind) = (s[c / kinds], c % kinds);
            // paths and combs recurse deeply
            let r = cx.run(|| format!("tree family {kind}, {n} vertices"), || {
                let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || guarded(|| hld(kind, n)).unwrap_or_else(|e| Err(format!("unexpected panic: {e}"))));
                h.unwrap().join().unwrap_or_else(|_| Err("thread died".into()))
            });
            record(cx, r);
        }));
        let sides = [1usize, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 30, 40, 64, 65, 100, 130, 140, 201, 260];
        let ns: &[usize] = if thorough { &[600, 1500, 4096, 20_000, 70_000, 200_000] } else { &[600, 1500, 4096, 20_000, 70_000] };
        v.push(space("heavy-light decomposition: spines with side trees", &format!("{ns:?} vertices in all, side trees (chains, complete binary trees) of 1 to 260 vertices at every vertex of the spine, listed before, after or alternately"), sides.len() * 6 * ns.len(), move |i, cx| {
            let (n, c, form) = (ns[i / 6 / sides.len()], sides[i / 6 % sides.len()], i % 6);
            let r = cx.run(|| format!("spine with side trees of {c} vertices, form {form}, {n} vertices"), || {
                let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || guarded(|| hld_spine(n, c, form)).unwrap_or_else(|e| Err(format!("unexpected panic: {e}"))));
                h.unwrap().join().unwrap_or_else(|_| Err("thread died".into()))
            });
            record(cx, r);
        }));
        v.push(space("strings: all words", "every word over 2 letters of length 0..=16 and over 3 letters of length 0..=10", 32, |c, cx| {
            for (k, len) in [(2usize, 16), (3, 10)] {
                for n in 0..=len {
                    for code in (c as u64..(k as u64).pow(n as u32)).step_by(32) {
                        let mut w = vec![0; n];
                        word_into(k, code, &mut w);
                        let s: Vec<K> = w.iter().map(|&x| K(x as u64)).collect();
                        let r = cx.run(|| format!("word {w:?}"), || strings(&s, || "the word".into()));
                        record(cx, r);
                    }
                }
            }
        }));
        let slen = if thorough { 1000 } else { 300 };
        v.push(space("strings: families", &format!("twelve word families, every length to {slen}, and lengths around powers of two to {}", top), 12, move |kind, cx| {
            let mut s: Vec<usize> = (0..=slen).collect();
            s.extend(straddling(top));
            for n in s {
                let r = cx.run(|| format!("word family {kind}, length {n}"), || strings(&word(kind, n), || "the word".into()));
                record(cx, r);
            }
        }));
        v.push(space("shortest paths: hubs", "a hub reached k times, each time shorter, with m arcs leaving it; k and m in 1000, 30000 and 300000: a search that expanded the hub at every arrival would not finish within the time limit", 9, |c, cx| {
            let (k, m) = ([1000usize, 30_000, 300_000][c / 3], [1000usize, 30_000, 300_000][c % 3]);
            let r = cx.run(|| format!("hub with {k} arrivals and {m} departures"), || {
                let hub = k + 1;
                let mut g: Vec<Vec<(usize, usize)>> = vec![vec![]; hub + 1 + m];
                g[0] = (1..=k).map(|i| (i, i)).collect();
                for i in 1..=k {
                    g[i].push((hub, 2 * (k - i)));
                }
                g[hub] = (1..=m).map(|j| (hub + j, j % 7)).collect();
                let d = dijkstra(&g, 0);
                for (v, &x) in d.iter().enumerate() {
                    let want = if v <= k { v } else { k + (v - hub) % 7 };
                    ensure(x == Some(want), || format!("distance of {v}: got {x:?}, expected {want}"))?;
                }
                Ok(d.len() as u64)
            });
            record(cx, r);
        }));
        v
    });
}
