//! C02 lazy segment tree: the real tree over words x the full transformation monoid on two letters,
//! searched to closure; exhaustive two-update sweeps with affine maps on polynomial fingerprints.
use mc::model::*;
use mc::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

#[derive(Clone, Copy, Debug)]
struct Words;
impl Monoid for Words {
    type S = W;
    fn identity() -> W {
        W::EMPTY
    }
    fn binary_operation(a: &W, b: &W) -> W {
        a.cat(*b)
    }
}
#[derive(Clone, Copy, Debug)]
struct Maps;
impl MapMonoid for Maps {
    type M = Words;
    type F = u8;
    fn identity_map() -> u8 {
        MAP_ID
    }
    fn mapping(f: &u8, x: &W) -> W {
        x.map(*f)
    }
    fn composition(f: &u8, g: &u8) -> u8 {
        map_compose(*f, *g)
    }
}
#[derive(Clone, Copy, Debug)]
struct Polys;
impl Monoid for Polys {
    type S = Poly;
    fn identity() -> Poly {
        Poly::UNIT
    }
    fn binary_operation(a: &Poly, b: &Poly) -> Poly {
        Poly::cat(*a, *b)
    }
}
#[derive(Clone, Copy, Debug)]
struct Affine;
impl MapMonoid for Affine {
    type M = Polys;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) {
        (1, 0)
    }
    fn mapping(f: &(u64, u64), x: &Poly) -> Poly {
        x.map(*f)
    }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) {
        affine(*f, *g)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Set(usize, W),
    Apply(usize, u8),
    ApplyRange(usize, usize, u8),
    Get(usize),
    Prod(usize, usize),
    MaxRight(usize, u8, bool),
    MinLeft(usize, u8, bool),
}
#[derive(Clone, Copy)]
struct Alpha {
    values: usize,
    maps: &'static [u8],
}
const FULL: Alpha = Alpha { values: 3, maps: &[0, 1, 2, 3] };
const GEN: Alpha = Alpha { values: 2, maps: &[0, 1] };
struct Tree {
    t: LazySegtree<Maps>,
    m: Vec<W>,
    a: Alpha,
}
/// Starts from the letters 0 1 1 0 ... so that products can be told apart at once.
fn start(n: usize, a: Alpha) -> Tree {
    let m: Vec<W> = (0..n).map(|i| W::letter((i % 3 != 0) as u64)).collect();
    Tree { t: m.clone().into(), m, a }
}
fn new(n: usize, a: Alpha) -> Tree {
    Tree { t: LazySegtree::new(n), m: vec![W::EMPTY; n], a }
}
fn right_model(m: &[W], l: usize, cut: u8) -> usize {
    (l..=m.len()).filter(|&r| concat(&m[l..r]).len <= cut).max().unwrap()
}
fn left_model(m: &[W], r: usize, cut: u8) -> usize {
    (0..=r).filter(|&l| concat(&m[l..r]).len <= cut).min().unwrap()
}
impl Sys for Tree {
    type Op = Op;
    fn fresh(&self) -> Self {
        start(self.m.len(), self.a)
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(Tree { t: self.t.clone(), m: self.m.clone(), a: self.a });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        // the tree's own Debug prints every node product and every pending map
        Some(fp_debug(&(&self.t, &self.m)))
    }
    fn ops(&self) -> Vec<Op> {
        let n = self.m.len();
        let mut v = vec![];
        for p in 0..n {
            for c in 0..self.a.values {
                v.push(Op::Set(p, W::code(c)));
            }
            for &f in self.a.maps {
                v.push(Op::Apply(p, f));
            }
        }
        for l in 0..=n {
            for r in l..=n {
                for &f in self.a.maps {
                    v.push(Op::ApplyRange(l, r, f));
                }
            }
        }
        for p in 0..n {
            v.push(Op::Get(p));
        }
        for l in 0..=n {
            for r in l..=n {
                v.push(Op::Prod(l, r));
            }
        }
        for i in 0..=n {
            for other in [false, true] {
                for k in 0..=(n - i) {
                    v.push(Op::MaxRight(i, k as u8, other));
                }
                for k in 0..=i {
                    v.push(Op::MinLeft(i, k as u8, other));
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match *op {
            Op::Set(p, x) => {
                self.t.set(p, x);
                self.m[p] = x;
                Ok(())
            }
            Op::Apply(p, f) => {
                self.t.apply(p, f);
                self.m[p] = self.m[p].map(f);
                Ok(())
            }
            Op::ApplyRange(l, r, f) => {
                self.t.apply_range(l, r, f);
                for x in &mut self.m[l..r] {
                    *x = x.map(f);
                }
                Ok(())
            }
            Op::Get(p) => same(|| format!("get({p})"), self.t.get(p), self.m[p]),
            Op::Prod(l, r) => same(|| format!("prod({l},{r})"), self.t.prod(l, r), concat(&self.m[l..r])),
            Op::MaxRight(l, cut, other) => {
                let full = concat(&self.m[l..]);
                let f = |w: W| {
                    let prefix = w.len <= full.len && full.bits >> (full.len - w.len) == w.bits;
                    if prefix { w.len <= cut } else { other }
                };
                let g = self.t.max_right(l, f);
                same(|| format!("max_right({l}, prefix length <= {cut}, elsewhere {other})"), g, right_model(&self.m, l, cut))
            }
            Op::MinLeft(r, cut, other) => {
                let full = concat(&self.m[..r]);
                let f = |w: W| {
                    let suffix = w.len <= full.len && full.bits & ((1u64 << w.len) - 1) == w.bits;
                    if suffix { w.len <= cut } else { other }
                };
                let g = self.t.min_left(r, f);
                same(|| format!("min_left({r}, suffix length <= {cut}, elsewhere {other})"), g, left_model(&self.m, r, cut))
            }
        }
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        let n = self.m.len();
        let all = concat(&self.m);
        same(|| "all_prod()".into(), self.t.all_prod(), all)?;
        // a full sweep on one object: queries must not disturb one another
        for l in 0..=n {
            for r in l..=n {
                same(|| format!("prod({l},{r}) in a sweep of queries"), self.t.prod(l, r), concat(&self.m[l..r]))?;
            }
        }
        for p in (0..n).rev() {
            same(|| format!("get({p}) in a sweep of queries"), self.t.get(p), self.m[p])?;
        }
        for i in 0..=n {
            let cut = (n - i) as u8 / 2;
            self.apply(&Op::MaxRight(i, cut, i % 2 == 0))?;
            self.apply(&Op::MinLeft(i, i as u8 / 2, i % 2 == 0))?;
        }
        same(|| "all_prod() after queries".into(), self.t.all_prod(), all)?;
        Ok((((n + 1) * (n + 2) / 2 + 3 * n + 4) as u64, all.hash()))
    }
}

/// Tree over polynomial fingerprints with its array.
struct Pt {
    t: LazySegtree<Affine>,
    m: Vec<u64>,
}
fn leafv(p: usize) -> u64 {
    mix(p as u64 + 1) % P61
}
fn poly_start(n: usize) -> Pt {
    let m: Vec<u64> = (0..n).map(leafv).collect();
    Pt { t: m.iter().map(|&v| Poly::leaf(v)).collect::<Vec<_>>().into(), m }
}
#[derive(Clone, Copy, Debug)]
enum Up {
    Range(usize, usize),
    One(usize),
    Set(usize),
}
fn ups(n: usize) -> Vec<Up> {
    let mut v = vec![];
    for l in 0..n {
        for r in l + 1..=n {
            v.push(Up::Range(l, r));
        }
    }
    for p in 0..n {
        v.push(Up::One(p));
        v.push(Up::Set(p));
    }
    v
}
fn map_no(i: usize) -> (u64, u64) {
    (mix(1000 + i as u64) % P61, mix(2000 + i as u64) % P61)
}
impl Pt {
    fn up(&mut self, u: Up, i: usize) {
        let f = map_no(i);
        let act = |x: u64| addp(mulp(f.0, x), f.1);
        match u {
            Up::Range(l, r) => {
                self.t.apply_range(l, r, f);
                for x in &mut self.m[l..r] {
                    *x = act(*x);
                }
            }
            Up::One(p) => {
                self.t.apply(p, f);
                self.m[p] = act(self.m[p]);
            }
            Up::Set(p) => {
                self.m[p] = mix(3000 + i as u64) % P61;
                self.t.set(p, Poly::leaf(self.m[p]));
            }
        }
    }
    fn dup(&self, _hist: &[Up]) -> Pt {
        #[cfg(vp_hooks)]
        return Pt { t: self.t.clone(), m: self.m.clone() };
        #[cfg(not(vp_hooks))]
        {
            let mut p = poly_start(self.m.len());
            for (i, &u) in _hist.iter().enumerate() {
                p.up(u, i);
            }
            p
        }
    }
}
fn sums(m: &[u64]) -> Vec<Vec<Poly>> {
    let n = m.len();
    (0..=n)
        .map(|l| {
            let mut v = vec![Poly::UNIT];
            for r in l..n {
                let x = Poly::cat(v[r - l], Poly::leaf(m[r]));
                v.push(x);
            }
            v
        })
        .collect()
}
fn search_right(t: &mut LazySegtree<Affine>, e: &[Vec<Poly>], l: usize, cut: usize, other: bool) -> Result<(), String> {
    let row = &e[l];
    let g = t.max_right(l, |x| match row.iter().position(|y| *y == x) {
        Some(j) => l + j <= cut,
        None => other,
    });
    ensure(g == cut, || format!("max_right({l}) of the predicate 'end <= {cut}' is {g}"))
}
fn search_left(t: &mut LazySegtree<Affine>, e: &[Vec<Poly>], r: usize, cut: usize, other: bool) -> Result<(), String> {
    let g = t.min_left(r, |x| match (0..=r).rev().find(|&l| e[l][r - l] == x) {
        Some(l) => l >= cut,
        None => other,
    });
    ensure(g == cut, || format!("min_left({r}) of the predicate 'start >= {cut}' is {g}"))
}
/// Each query on its own copy of the state reached by the updates.
fn each_query(p: &Pt, hist: &[Up], searches: bool) -> Result<u64, String> {
    let n = p.m.len();
    let e = sums(&p.m);
    same(|| "all_prod()".into(), p.t.all_prod(), e[0][n])?;
    let mut calls = 1;
    for l in 0..=n {
        for r in l..=n {
            let mut q = p.dup(hist);
            same(|| format!("prod({l},{r})"), q.t.prod(l, r), e[l][r - l])?;
            calls += 1;
            if searches {
                let other = (l + r) % 2 == 0;
                search_right(&mut q.t, &e, l, r, other)?;
                let mut q = p.dup(hist);
                search_right(&mut q.t, &e, l, r, !other)?;
                search_left(&mut q.t, &e, r, l, other)?;
                let mut q = p.dup(hist);
                search_left(&mut q.t, &e, r, l, !other)?;
                calls += 4;
            }
        }
    }
    for i in 0..n {
        let mut q = p.dup(hist);
        same(|| format!("get({i})"), q.t.get(i), Poly::leaf(p.m[i]))?;
        calls += 1;
    }
    Ok(calls)
}

fn main() {
    mc::main("C02", false, |thorough| {
        let mut v = vec![];
        v.push(space(
            "closure",
            "n = 0..=4, values {0, 1, empty word}, all four maps on two letters: every reachable internal state, every update and every query (all cut predicates) from each",
            10,
            |c, cx| {
                let n = 4 - c / 2;
                if c % 2 == 0 {
                    bfs(cx, &format!("LazySegtree::from(letters 011011.. of length {n})"), || start(n, FULL), Bfs::closure(2).cap(400_000));
                } else {
                    bfs(cx, &format!("LazySegtree::new({n})"), || new(n, FULL), Bfs::closure(2).cap(400_000));
                }
            },
        ));
        let d = if thorough { 4 } else { 3 };
        v.push(space("deep", &format!("n = 5..=8, letters {{0, 1}}, maps {{constant 0, swap}} (they generate all four): every history of {d} updates/queries"), 4, move |c, cx| {
            let n = 8 - c;
            let d = if n >= 7 && d > 3 { 3 } else { d };
            bfs(cx, &format!("LazySegtree::from(letters 011011.. of length {n})"), || start(n, GEN), Bfs { fallback_depth: 2, ..Bfs::depth(d, true) });
        }));
        if thorough {
            v.push(space("closure 5", "n = 5, letters {0, 1}, maps {constant 0, swap}: every reachable internal state (up to 3 million)", 1, |_, cx| {
                bfs(cx, "LazySegtree::from(letters 011011.. of length 5)", || start(5, GEN), Bfs::closure(2).cap(3_000_000));
            }));
        }
        v.push(space("unmerged", "n = 3: every history of 3 operations without state merging", 1, |_, cx| {
            bfs(cx, "LazySegtree::from(letters 011)", || start(3, GEN), Bfs { fallback_depth: 2, ..Bfs::depth(3, false) });
        }));
        v.push(space("pairs", "two trees (n = 2 and 1) used alternately: closure", 1, |_, cx| {
            bfs(cx, "two trees", || Pair(start(2, GEN), start(1, GEN)), Bfs::closure(2));
        }));
        let m1 = if thorough { 20 } else { 12 };
        v.push(space("two updates", &format!("n = 1..={m1}: every ordered pair of updates (range map, point map, write; non-commuting affine maps) and then each single query/search on its own copy"), m1 * 16, move |c, cx| {
            let (n, part) = (m1 - c / 16, c % 16);
            let us = ups(n);
            for (i, &a) in us.iter().enumerate() {
                if i % 16 != part {
                    continue;
                }
                for &b in &us {
                    let r = cx.run(|| format!("n={n} from {n} distinct values; {a:?} with map 0; {b:?} with map 1; each query alone"), || {
                        let mut p = poly_start(n);
                        p.up(a, 0);
                        p.up(b, 1);
                        each_query(&p, &[a, b], n <= 9)
                    });
                    if let Some(k) = r {
                        cx.calls(k + 2);
                        cx.states(1);
                        cx.outcome((n * 1000) as u64 + i as u64);
                    }
                }
            }
        }));
        let m3 = if thorough { 7 } else { 5 };
        v.push(space("three updates", &format!("n = 1..={m3}: every ordered triple of updates, then each query and search alone"), m3 * 16, move |c, cx| {
            let (n, part) = (m3 - c / 16, c % 16);
            let us = ups(n);
            for (i, &a) in us.iter().enumerate() {
                if i % 16 != part {
                    continue;
                }
                for &b in &us {
                    for &d in &us {
                        let r = cx.run(|| format!("n={n} from {n} distinct values; {a:?} map 0; {b:?} map 1; {d:?} map 2; each query alone"), || {
                            let mut p = poly_start(n);
                            p.up(a, 0);
                            p.up(b, 1);
                            p.up(d, 2);
                            each_query(&p, &[a, b, d], n <= 4)
                        });
                        if let Some(k) = r {
                            cx.calls(k + 3);
                            cx.states(1);
                        }
                    }
                }
            }
        }));
        let m2 = if thorough { 70 } else { 40 };
        v.push(space("one update", &format!("n = 1..={m2}: every single update, then each query and search alone"), m2, move |c, cx| {
            let n = m2 - c;
            for a in ups(n) {
                let r = cx.run(|| format!("n={n} from {n} distinct values; {a:?} with map 0; each query alone"), || {
                    let mut p = poly_start(n);
                    p.up(a, 0);
                    each_query(&p, &[a], n <= 34)
                });
                if let Some(k) = r {
                    cx.calls(k + 1);
                    cx.states(1);
                    cx.outcome(n as u64);
                }
            }
        }));
        let lens: Vec<usize> = (0..if thorough { 300 } else { 140 }).collect();
        let nl = lens.len();
        v.push(space("lengths", &format!("n = 0..{nl}: construction from distinct values, then overlapping range updates with end points at every index, all prefix/suffix products and reads"), nl, move |c, cx| {
            let n = lens[nl - 1 - c];
            let r = cx.run(|| format!("n={n}: overlapping updates (i, n) and (0, i) for every i, with prefix, suffix and point queries in between"), || {
                let mut p = poly_start(n);
                let mut calls = 0;
                for i in 0..=n {
                    if i < n {
                        p.up(Up::Range(i, n), i);
                        p.up(Up::Range(0, i + 1), n + i);
                        p.up(Up::Range(i / 2, (i + n + 1) / 2), 2 * n + i);
                    } else {
                        p.t.apply_range(i, i, map_no(5));
                    }
                    let row = p.m.iter().fold(vec![Poly::UNIT], |mut v, &x| {
                        let y = Poly::cat(*v.last().unwrap(), Poly::leaf(x));
                        v.push(y);
                        v
                    });
                    same(|| format!("all_prod() in round {i}"), p.t.all_prod(), row[n])?;
                    same(|| format!("prod(0,{i})"), p.t.prod(0, i), row[i])?;
                    let suf = p.m[i..].iter().fold(Poly::UNIT, |a, &x| Poly::cat(a, Poly::leaf(x)));
                    same(|| format!("prod({i},{n})"), p.t.prod(i, n), suf)?;
                    if i < n {
                        same(|| format!("get({i})"), p.t.get(i), Poly::leaf(p.m[i]))?;
                    }
                    calls += 7;
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(n as u64 + 1);
                cx.outcome(n as u64);
            }
        }));
        let mut sizes: Vec<usize> = straddling(if thorough { 1 << 14 } else { 1 << 12 }).into_iter().filter(|&n| n > 100).collect();
        sizes.extend([1 << 15, (1 << 16) - 1, 1 << 16, (1 << 16) + 1, (1 << 16) + 2, (1 << 17) + 1, (1 << 18) + 3, (1 << 20) + 1]);
        sizes.sort_by_key(|&n| std::cmp::Reverse(n));
        v.push(space("large", "n within 2 of powers of two (also around 2^16 and just above 2^17, 2^18 and 2^20): one range update for every pair of boundary indices on one growing history, products and searches at the same indices", sizes.len(), move |c, cx| {
            let n = sizes[c];
            let r = cx.run(|| format!("n={n}, updates and queries at boundary indices"), || {
                let mut p = poly_start(n);
                let mut idx: Vec<usize> = vec![];
                let mut q = 1;
                while q <= n {
                    for x in [q - 1, q, q + 1, n - q, n - q + 1] {
                        if x <= n {
                            idx.push(x);
                        }
                    }
                    q *= if n > 20_000 { 32 } else { 4 };
                }
                idx.extend([n / 2, n / 2 + 1, n - 1]);
                if n > 65536 {
                    idx.extend([65535, 65536]);
                }
                idx.sort();
                idx.dedup();
                let mut calls = 0;
                for (i, &l) in idx.iter().enumerate() {
                    let hi = idx[(i * 5 + 7) % idx.len()];
                    let (a, b) = (l.min(hi), l.max(hi));
                    if a < b {
                        p.up(Up::Range(a, b), i);
                    }
                    if l < n {
                        p.up(if i % 2 == 0 { Up::One(l) } else { Up::Set(l) }, 100 + i);
                    }
                    let mut pre = vec![Poly::UNIT];
                    for &x in &p.m[a..] {
                        pre.push(Poly::cat(*pre.last().unwrap(), Poly::leaf(x)));
                    }
                    for &r in &idx {
                        if r >= a {
                            same(|| format!("round {i}: prod({a},{r})"), p.t.prod(a, r), pre[r - a])?;
                            let pw: std::collections::HashMap<(u64, u64), usize> = if i % 8 == 0 { pre.iter().enumerate().map(|(j, x)| ((x.h, x.pw), j)).collect() } else { Default::default() };
                            if i % 8 == 0 {
                                let g = p.t.max_right(a, |x| pw.get(&(x.h, x.pw)).map_or(r % 2 == 0, |&j| a + j <= r));
                                ensure(g == r, || format!("round {i}: max_right({a}) with end <= {r} is {g}"))?;
                            }
                            calls += 2;
                        }
                        if r < n {
                            same(|| format!("round {i}: get({r})"), p.t.get(r), Poly::leaf(p.m[r]))?;
                        }
                    }
                    let mut suf = vec![Poly::UNIT];
                    for &x in p.m[..b].iter().rev() {
                        suf.push(Poly::cat(Poly::leaf(x), *suf.last().unwrap()));
                    }
                    if i % 8 == 1 {
                        let pw: std::collections::HashMap<(u64, u64), usize> = suf.iter().enumerate().map(|(j, x)| ((x.h, x.pw), j)).collect();
                        for &l2 in &idx {
                            if l2 <= b {
                                let g = p.t.min_left(b, |x| pw.get(&(x.h, x.pw)).map_or(l2 % 2 == 0, |&j| b - j >= l2));
                                ensure(g == l2, || format!("round {i}: min_left({b}) with start >= {l2} is {g}"))?;
                                calls += 1;
                            }
                        }
                    }
                    same(|| format!("round {i}: all_prod"), p.t.all_prod(), p.m.iter().fold(Poly::UNIT, |s, &x| Poly::cat(s, Poly::leaf(x))))?;
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        let spots = if thorough { vec![1000usize, 4096, 4099, 5000, 33_000, 70_001, 131_072, 200_000] } else { vec![1000, 4096, 5000, 70_001] };
        v.push(space("every index", &format!("n in {spots:?}, indices in ascending, descending and stride order on one growing history: at every index a range update of one of nine lengths, every fourth time one of 300 and every 512th of everything, then one of: product, read, rightward search, leftward search, point update, write next to it"), spots.len() * 12, move |c, cx| {
            let (n, order, what) = (spots[c / 12], c % 3, c % 12 / 3);
            let r = cx.run(|| format!("n={n}, order {order}, rotation {what}, updates and queries at every index"), || {
                let mut p = poly_start(n);
                let mut calls = 0;
                let mut pw = std::collections::HashMap::new();
                let mut x = 1;
                for k in 0..=n {
                    pw.insert(x, k);
                    x = mulp(x, POLY_BASE);
                }
                for s in 0..n {
                    let i = match order {
                        0 => s,
                        1 => n - 1 - s,
                        _ => (s * 617 + 5) % n,
                    };
                    if s % 512 == 100 {
                        p.up(Up::Range(0, n), s);
                    }
                    if s % 4 == 0 {
                        p.up(Up::Range(i.saturating_sub(150), (i + 150).min(n)), 7 * s + 1);
                    }
                    let k = [1, 2, 3, 4, 5, 8, 17, 33, 70][s % 9];
                    if order == 1 {
                        p.up(Up::Range(i + 1 - k.min(i + 1), i + 1), 7 * s + 2);
                    } else {
                        p.up(Up::Range(i, (i + k).min(n)), 7 * s + 2);
                    }
                    // products of the first or last few elements from i on, by the array
                    let window = [0, 1, 3, 6, 20, 70][(s / 9) % 6];
                    match (s + what) % 4 {
                        0 => {
                            let (l, r) = (i.saturating_sub(window / 2), (i + window).min(n));
                            let want = p.m[l..r].iter().fold(Poly::UNIT, |a, &x| Poly::cat(a, Poly::leaf(x)));
                            same(|| format!("step {s}: prod({l},{r})"), p.t.prod(l, r), want)?;
                            same(|| format!("step {s}: get({i})"), p.t.get(i), Poly::leaf(p.m[i]))?;
                        }
                        1 => {
                            // true exactly for products of at most `window` elements from i on, with the right values
                            let mut pre = vec![Poly::UNIT];
                            for &x in &p.m[i..(i + window).min(n)] {
                                pre.push(Poly::cat(*pre.last().unwrap(), Poly::leaf(x)));
                            }
                            let want = i + pre.len() - 1;
                            let g = p.t.max_right(i, |x| pw.get(&x.pw).map_or(false, |&j| pre.get(j) == Some(&x)));
                            ensure(g == want, || format!("step {s}: max_right({i}), {window} elements pass, is {g}, expected {want}"))?;
                        }
                        2 => {
                            let r = i + 1;
                            let mut suf = vec![Poly::UNIT];
                            for &x in p.m[r - window.min(r)..r].iter().rev() {
                                suf.push(Poly::cat(Poly::leaf(x), *suf.last().unwrap()));
                            }
                            let want = r + 1 - suf.len();
                            let g = p.t.min_left(r, |x| pw.get(&x.pw).map_or(false, |&j| suf.get(j) == Some(&x)));
                            ensure(g == want, || format!("step {s}: min_left({r}), {window} elements pass, is {g}, expected {want}"))?;
                        }
                        _ => {
                            p.up(if s % 8 < 4 { Up::One(i) } else { Up::Set(i) }, 7 * s + 3);
                            let q = (i + window).min(n - 1);
                            same(|| format!("step {s}: get({q})"), p.t.get(q), Poly::leaf(p.m[q]))?;
                        }
                    }
                    calls += 3;
                }
                same(|| "all_prod()".into(), p.t.all_prod(), p.m.iter().fold(Poly::UNIT, |s, &x| Poly::cat(s, Poly::leaf(x))))?;
                for i in 0..n {
                    same(|| format!("finally get({i})"), p.t.get(i), Poly::leaf(p.m[i]))?;
                }
                Ok(calls + n as u64)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(n as u64);
                cx.outcome(c as u64);
            }
        }));
        let most = if thorough { 140 } else { 72 };
        v.push(space("refused beyond the end", &format!("n = 0..={most}: every single index from the end to twice the padded size + 2, for every kind of request; every inverted range; then the total product and every element"), most + 1, |n, cx| {
            let size = n.max(1).next_power_of_two();
            let r = cx.run(|| format!("n={n} with a pending update, every index beyond the end"), || {
                let mut p = poly_start(n);
                p.up(Up::Range(0, n), 1);
                let f = map_no(9);
                for b in n..=2 * size + 2 {
                    refuses(&format!("set({b})"), || p.t.set(b, Poly::leaf(5)))?;
                    refuses(&format!("get({b})"), || p.t.get(b))?;
                    refuses(&format!("apply({b})"), || p.t.apply(b, f))?;
                    if b > n {
                        for l in [0, n / 2, n, b - 1, b] {
                            refuses(&format!("prod({l}, {b})"), || p.t.prod(l, b))?;
                            refuses(&format!("apply_range({l}, {b})"), || p.t.apply_range(l, b, f))?;
                        }
                        refuses(&format!("max_right({b})"), || p.t.max_right(b, |_| true))?;
                        refuses(&format!("min_left({b})"), || p.t.min_left(b, |_| true))?;
                    }
                }
                for l in 0..=n {
                    for r in 0..l {
                        refuses(&format!("the inverted range prod({l}, {r})"), || p.t.prod(l, r))?;
                        refuses(&format!("the inverted update apply_range({l}, {r})"), || p.t.apply_range(l, r, f))?;
                    }
                    if l < n {
                        refuses("a predicate that rejects the empty product", || p.t.max_right(l, |_| false))?;
                        refuses("a predicate that rejects the empty product", || p.t.min_left(l + 1, |_| false))?;
                    }
                }
                same(|| "all_prod()".into(), p.t.all_prod(), p.m.iter().fold(Poly::UNIT, |s, &x| Poly::cat(s, Poly::leaf(x))))?;
                for i in 0..n {
                    same(|| format!("get({i})"), p.t.get(i), Poly::leaf(p.m[i]))?;
                }
                Ok((2 * size + 2 - n) as u64 * 15)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        v.push(space("refused", "n = 0..=6: every kind of out-of-range request (fresh and with pending updates) with n, n+1, the padded size and usize::MAX, inverted ranges; then every query", 7, |n, cx| {
            let size = n.max(1).next_power_of_two();
            for pending in [false, true] {
                for b in [n, n + 1, size, size + 1, 2 * size - 1, 2 * size, usize::MAX - 1, usize::MAX] {
                    for what in 0..9 {
                        let r = cx.run(|| format!("n={n}, pending update: {pending}, out-of-range request kind {what} with index {b}, then all queries"), || {
                            let mut t = start(n, FULL);
                            if pending {
                                t.apply(&Op::ApplyRange(0, n, 1))?;
                            }
                            let s = &mut t.t;
                            match what {
                                0 if b >= n => refuses("set", || s.set(b, W::letter(1)))?,
                                1 if b >= n => refuses("get", || s.get(b))?,
                                2 if b >= n => refuses("apply", || s.apply(b, 0))?,
                                3 if b > n => refuses("prod", || s.prod(0, b)).and_then(|_| refuses("prod", || s.prod(b, b)))?,
                                4 if b > n => refuses("apply_range", || s.apply_range(0, b, 0))?,
                                5 if b > n => refuses("apply_range", || s.apply_range(b, b, 0))?,
                                6 if b > n => refuses("max_right", || s.max_right(b, |_| true))?,
                                7 if b > n => refuses("min_left", || s.min_left(b, |_| true))?,
                                8 => {
                                    for l in 0..n {
                                        refuses("a predicate that rejects the empty product", || s.max_right(l, |_| false))?;
                                        refuses("a predicate that rejects the empty product", || s.min_left(l + 1, |_| false))?;
                                    }
                                    for l in 1..=n {
                                        for r in 0..l {
                                            refuses("an inverted range", || s.prod(l, r))?;
                                            refuses("an inverted range update", || s.apply_range(l, r, 0))?;
                                        }
                                    }
                                }
                                _ => {}
                            }
                            t.observe()
                        });
                        if let Some(o) = r {
                            cx.calls(o.0 + 1);
                            cx.states(1);
                            cx.outcome(o.1);
                        }
                    }
                }
            }
            if n == 0 {
                cx.run(|| "LazySegtree::default(), then all queries".into(), || {
                    Tree { t: LazySegtree::default(), m: vec![], a: FULL }.observe()
                });
            }
        }));
        let (a1, a2, a3) = if thorough { (10, 6, 3) } else { (7, 4, 2) };
        v.push(space("asked again", &format!("every history on its own tree: n = 1..={a1}: query, update, query; n = 1..={a2}: update, query, update, query; n = 1..={a3}: query, update, query, update, query (queries: product, value, total, search in both directions with every cut)"), (a1 + a2 + a3) * 16, move |c, cx| {
            let (mut n, mut kind, part) = (c / 16 + 1, 0, c % 16);
            if n > a1 {
                (n, kind) = (n - a1, 1);
                if n > a2 {
                    (n, kind) = (n - a2, 2);
                }
            }
            let mut qs: Vec<(usize, usize, u8)> = vec![(0, n, 3)];
            for l in 0..=n {
                for r in l..=n {
                    qs.extend([(l, r, 0), (l, r, 1), (l, r, 2)]);
                }
            }
            for p in 0..n {
                qs.push((p, p, 4));
            }
            let ask = |p: &mut Pt, e: &[Vec<Poly>], q: (usize, usize, u8)| -> Result<(), String> {
                let (l, r, what) = q;
                match what {
                    0 => same(|| format!("prod({l},{r})"), p.t.prod(l, r), e[l][r - l]),
                    1 => search_right(&mut p.t, e, l, r, (l + r) % 2 == 0),
                    2 => search_left(&mut p.t, e, r, l, (l + r) % 2 == 0),
                    3 => same(|| "all_prod()".into(), p.t.all_prod(), e[0][n]),
                    _ => same(|| format!("get({l})"), p.t.get(l), Poly::leaf(p.m[l])),
                }
            };
            let us = ups(n);
            let at = |h: &[Up]| {
                let mut p = poly_start(n);
                for (i, &u) in h.iter().enumerate() {
                    p.up(u, i);
                }
                sums(&p.m)
            };
            // histories of `first` updates, then queries and updates in turn
            let firsts: Vec<Vec<Up>> = if kind == 1 { us.iter().map(|&u| vec![u]).collect() } else { vec![vec![]] };
            for first in &firsts {
                let base = {
                    let mut p = poly_start(n);
                    for (i, &u) in first.iter().enumerate() {
                        p.up(u, i);
                    }
                    p
                };
                let e0 = sums(&base.m);
                let k0 = first.len();
                for (i, &q) in qs.iter().enumerate().filter(|(i, _)| i % 16 == part) {
                    for &u in &us {
                        let e1 = at(&[first.as_slice(), &[u]].concat());
                        let r = cx.run(|| format!("n={n} from {n} distinct values: {first:?}, query {q:?} (start, end, kind), {u:?}, another query{}", if kind == 2 { ", another update and query" } else { "" }), || {
                            let mut k = 0;
                            for &q2 in &qs {
                                if kind < 2 {
                                    let mut p = base.dup(first);
                                    ask(&mut p, &e0, q)?;
                                    p.up(u, k0);
                                    ask(&mut p, &e1, q2).map_err(|e| format!("{e} (second query {q2:?})"))?;
                                    k += 3;
                                    continue;
                                }
                                for &u2 in &us {
                                    let e2 = at(&[u, u2]);
                                    for &q3 in &qs {
                                        let mut p = base.dup(first);
                                        ask(&mut p, &e0, q)?;
                                        p.up(u, 0);
                                        ask(&mut p, &e1, q2).map_err(|e| format!("{e} (second query {q2:?})"))?;
                                        p.up(u2, 1);
                                        ask(&mut p, &e2, q3).map_err(|e| format!("{e} (second query {q2:?}, {u2:?}, third {q3:?})"))?;
                                        k += 5;
                                    }
                                }
                            }
                            Ok(k)
                        });
                        if let Some(k) = r {
                            cx.calls(k);
                            cx.states(1);
                            cx.outcome((n * 1000 + i) as u64);
                        }
                    }
                }
            }
        }));
        v
    });
}
