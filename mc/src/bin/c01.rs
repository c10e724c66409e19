//! C01 segment tree: the real tree over the free monoid, searched to closure, plus interval sweeps.
use mc::model::*;
use mc::*;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::traits::monoid::Monoid;

#[derive(Clone, Copy, Debug)]
struct Words;
impl Monoid for Words {
    type S = W;
    fn identity() -> W {
        W::EMPTY
    }
    fn binary_operation(a: &W, b: &W) -> W {
        a.cat(*b)
    }
}
#[derive(Clone, Copy, Debug)]
struct Ivs;
impl Monoid for Ivs {
    type S = Iv;
    fn identity() -> Iv {
        Iv::Unit
    }
    fn binary_operation(a: &Iv, b: &Iv) -> Iv {
        Iv::cat(*a, *b)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Set(usize, W),
}
struct Tree {
    t: Segtree<Words>,
    m: Vec<W>,
}
fn new(n: usize) -> Tree {
    Tree { t: Segtree::new(n), m: vec![W::EMPTY; n] }
}
/// Every query against the array.
fn observe(t: &Segtree<Words>, m: &[W]) -> Result<(u64, u64), String> {
    let n = m.len();
    let mut calls = 0;
    let all = concat(m);
    same(|| "all_prod()".into(), t.all_prod(), all)?;
    for p in 0..n {
        same(|| format!("get({p})"), t.get(p), m[p])?;
    }
    for l in 0..=n {
        for r in l..=n {
            same(|| format!("prod({l},{r})"), t.prod(l, r), concat(&m[l..r]))?;
            calls += 1;
        }
    }
    for l in 0..=n {
        // predicates: true on exactly the first `t` lengths of prefixes of the product of a[l..n];
        // words that are no such prefix get an arbitrary (both) answer
        let full = concat(&m[l..]);
        for cut in 0..=full.len {
            for other in [false, true] {
                let f = |w: &W| {
                    let prefix = w.len <= full.len && full.bits >> (full.len - w.len) == w.bits;
                    if prefix { w.len <= cut } else { other }
                };
                let want = (l..=n).filter(|&r| concat(&m[l..r]).len <= cut).max().unwrap();
                same(|| format!("max_right({l}, prefix length <= {cut}, elsewhere {other})"), t.max_right(l, f), want)?;
                calls += 1;
            }
        }
    }
    for r in 0..=n {
        let full = concat(&m[..r]);
        for cut in 0..=full.len {
            for other in [false, true] {
                let f = |w: &W| {
                    let suffix = w.len <= full.len && full.bits & ((1u64 << w.len) - 1) == w.bits;
                    if suffix { w.len <= cut } else { other }
                };
                let want = (0..=r).filter(|&l| concat(&m[l..r]).len <= cut).min().unwrap();
                same(|| format!("min_left({r}, suffix length <= {cut}, elsewhere {other})"), t.min_left(r, f), want)?;
                calls += 1;
            }
        }
    }
    Ok((calls + n as u64 + 1, all.hash()))
}
impl Sys for Tree {
    type Op = Op;
    fn fresh(&self) -> Self {
        new(self.m.len())
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(Tree { t: self.t.clone(), m: self.m.clone() });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        #[cfg(vp_hooks)]
        return Some(fp_debug(&(&self.t, &self.m)));
        #[cfg(not(vp_hooks))]
        None
    }
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for c in 0..3 {
            for p in 0..self.m.len() {
                v.push(Op::Set(p, W::code(c)));
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match *op {
            Op::Set(p, x) => {
                self.t.set(p, x);
                self.m[p] = x;
            }
        }
        Ok(())
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        observe(&self.t, &self.m)
    }
}

/// Exact expected product of a range of leaves with the given versions.
struct Leaves {
    pre: Vec<u64>,
}
impl Leaves {
    fn new(ver: &[u64]) -> Self {
        let mut pre = vec![0u64];
        for (p, &v) in ver.iter().enumerate() {
            pre.push(pre[p].wrapping_add(mix((p as u64) << 20 | v)));
        }
        Leaves { pre }
    }
    fn prod(&self, l: usize, r: usize) -> Iv {
        if l == r {
            Iv::Unit
        } else {
            Iv::Span { lo: l as u32, hi: r as u32, ver: self.pre[r].wrapping_sub(self.pre[l]) }
        }
    }
}
fn all_ranges(t: &Segtree<Ivs>, ver: &[u64]) -> Result<u64, String> {
    let n = ver.len();
    let e = Leaves::new(ver);
    same(|| "all_prod()".into(), t.all_prod(), e.prod(0, n))?;
    for l in 0..=n {
        for r in l..=n {
            let g = t.prod(l, r);
            if g != e.prod(l, r) {
                return Err(format!("prod({l},{r}) is {g:?}, expected {:?}", e.prod(l, r)));
            }
        }
    }
    Ok(((n + 1) * (n + 2) / 2) as u64 + 1)
}
fn right(t: &Segtree<Ivs>, l: usize, cut: usize, other: bool) -> Result<(), String> {
    let f = |x: &Iv| match *x {
        Iv::Unit => true,
        Iv::Span { lo, hi, .. } if lo as usize == l => hi as usize <= cut,
        _ => other,
    };
    let g = t.max_right(l, f);
    ensure(g == cut, || format!("max_right({l}) of the predicate 'end <= {cut}' is {g}"))
}
fn left(t: &Segtree<Ivs>, r: usize, cut: usize, other: bool) -> Result<(), String> {
    let f = |x: &Iv| match *x {
        Iv::Unit => true,
        Iv::Span { lo, hi, .. } if hi as usize == r => lo as usize >= cut,
        _ => other,
    };
    let g = t.min_left(r, f);
    ensure(g == cut, || format!("min_left({r}) of the predicate 'start >= {cut}' is {g}"))
}
fn all_cuts(t: &Segtree<Ivs>, n: usize) -> Result<u64, String> {
    for a in 0..=n {
        for b in a..=n {
            for other in [false, true] {
                right(t, a, b, other)?;
                left(t, b, a, other)?;
            }
        }
    }
    Ok(4 * ((n + 1) * (n + 2) / 2) as u64)
}

fn main() {
    mc::main("C01", false, |thorough| {
        let mut v = vec![];
        let nmax = if thorough { 11 } else { 9 };
        v.push(space(
            "closure",
            &format!("n = 0..={nmax}: every reachable state of new(n), set(p, x) for every p and x in {{0, 1, empty word}}; in each state every get/prod/all_prod and both searches under every cut predicate"),
            nmax + 1,
            move |c, cx| {
                let n = nmax - c;
                bfs(cx, &format!("Segtree::new({n})"), || new(n), Bfs::closure(4).cap(2_000_000));
            },
        ));
        let fmax = if thorough { 11 } else { 9 };
        v.push(space("from", &format!("n = 0..={fmax}: from(v) for every v over {{0, 1, empty word}}; default()"), (fmax + 1) * 3, move |c, cx| {
            let (n, first) = (c / 3, c % 3);
            if n == 0 && first > 0 {
                return;
            }
            for w in words(3, n) {
                if n > 0 && w[0] != first {
                    continue;
                }
                let m: Vec<W> = w.iter().map(|&c| W::code(c)).collect();
                let r = cx.run(|| format!("Segtree::from({m:?}), then all queries"), || {
                    let t: Segtree<Words> = m.clone().into();
                    observe(&t, &m)
                });
                if let Some(o) = r {
                    cx.calls(o.0);
                    cx.outcome(o.1);
                    cx.states(1);
                }
            }
            if n == 0 {
                cx.run(|| "Segtree::default(), then all queries".into(), || observe(&Segtree::<Words>::default(), &[]));
            }
        }));
        v.push(space("unmerged", "n = 3: every history of 4 writes without state merging; n = 5: 3 writes", 2, |c, cx| {
            let (n, d) = if c == 0 { (3, 4) } else { (5, 3) };
            bfs(cx, &format!("Segtree::new({n})"), || new(n), Bfs::depth(d, false));
        }));
        v.push(space("pairs", "two trees (n = 2 and 3) written alternately: closure", 1, |_, cx| {
            bfs(cx, "two trees (new(2), new(3))", || Pair(new(2), new(3)), Bfs::closure(3));
        }));
        let imax = if thorough { 1030 } else { 520 };
        v.push(space(
            "ranges",
            &format!("n = 0..={imax}: from(n distinct leaves): every range product (exact interval monoid)"),
            imax + 1,
            move |c, cx| {
                let n = imax - c;
                let r = cx.run(|| format!("from({n} distinct leaves), every range"), || {
                    let t: Segtree<Ivs> = (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into();
                    all_ranges(&t, &vec![0; n])
                });
                if let Some(k) = r {
                    cx.calls(k);
                    cx.states(1);
                    cx.outcome(n as u64);
                }
            },
        ));
        let cmax = if thorough { 520 } else { 260 };
        v.push(space("cuts", &format!("n = 0..={cmax}: both boundary searches, every start and every cut, both answers outside the searched chain"), cmax + 1, move |c, cx| {
            let n = cmax - c;
            let r = cx.run(|| format!("from({n} distinct leaves), every search"), || {
                let t: Segtree<Ivs> = (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into();
                all_cuts(&t, n)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        let wmax = if thorough { 260 } else { 132 };
        v.push(space("writes", &format!("n = 1..={wmax}: write every leaf of new(n) in ascending, descending or stride order; every range after every write"), 3 * wmax, move |c, cx| {
            let (n, order) = (wmax - c / 3, c % 3);
            let r = cx.run(|| format!("new({n}), writes in order {order}, every range after each"), || {
                let mut t: Segtree<Ivs> = (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into();
                let mut ver = vec![0; n];
                let mut calls = 0;
                for i in 0..n {
                    let p = match order {
                        0 => i,
                        1 => n - 1 - i,
                        _ => (i * 7 + 3) % n,
                    };
                    ver[p] += 1;
                    t.set(p, Iv::leaf(p, ver[p]));
                    same(|| format!("get({p})"), t.get(p), Iv::leaf(p, ver[p]))?;
                    calls += all_ranges(&t, &ver)? + 2;
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(n as u64);
                cx.outcome(n as u64);
            }
        }));
        let mut sizes: Vec<usize> = straddling(if thorough { 1 << 20 } else { 1 << 17 }).into_iter().filter(|&n| n > 260).collect();
        sizes.extend([(1 << 20) + 1, (1 << 18) + 3]);
        sizes.reverse();
        v.push(space(
            "large",
            &format!("n within 2 of powers of two in 2^8..2^{}, and just above 2^18 and 2^20: ranges and cuts at all pairs of boundary indices, before and after writes at boundary indices", if thorough { 20 } else { 17 }),
            sizes.len(),
            move |c, cx| {
                let n = sizes[c];
                let r = cx.run(|| format!("from({n} distinct leaves), boundary indices"), || {
                    let mut t: Segtree<Ivs> = (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into();
                    let mut ver = vec![0; n];
                    let mut idx: Vec<usize> = straddling(n);
                    idx.extend(straddling(n).iter().map(|x| n - x));
                    idx.sort();
                    idx.dedup();
                    let mut calls = 0;
                    for round in 0..2 {
                        let e = Leaves::new(&ver);
                        for &l in &idx {
                            for &r in &idx {
                                if l <= r {
                                    let g = t.prod(l, r);
                                    ensure(g == e.prod(l, r), || format!("round {round}: prod({l},{r}) is {g:?}"))?;
                                    right(&t, l, r, r % 2 == 0)?;
                                    left(&t, r, l, r % 2 == 0)?;
                                    calls += 3;
                                }
                            }
                        }
                        same(|| "all_prod()".into(), t.all_prod(), e.prod(0, n))?;
                        for &p in &idx {
                            if p < n {
                                ver[p] += 1;
                                t.set(p, Iv::leaf(p, ver[p]));
                                calls += 1;
                            }
                        }
                    }
                    Ok(calls)
                });
                if let Some(k) = r {
                    cx.calls(k);
                    cx.states(1);
                    cx.outcome(n as u64);
                }
            },
        ));
        let spots = if thorough { vec![1000usize, 4099, 5000, 33_000, 70_001, 131_072, 300_000] } else { vec![1000, 4099, 5000, 70_001] };
        v.push(space("every index", &format!("n in {spots:?}: at every index a read, a write in ascending or descending order, products of 22 lengths starting and ending there, both searches with 12 cuts each; from slice and after half of the writes"), spots.len() * 4, move |c, cx| {
            let (n, how) = (spots[c / 4], c % 4);
            let lens: Vec<usize> = [0usize, 1, 2, 3, 4, 5, 7, 8, 15, 17, 31, 33, 64, 100, 129, 511, 1000, 4096, 5001, 65_536, 66_000, n].to_vec();
            let r = cx.run(|| format!("from({n} distinct leaves), part {how}, every index"), || {
                let mut t: Segtree<Ivs> = (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into();
                let mut ver = vec![0u64; n];
                let mut calls = 0;
                let up = how < 2;
                for i in 0..n {
                    let p = if up { i } else { n - 1 - i };
                    if how % 2 == 1 {
                        t.set(p, Iv::leaf(p, 1));
                        ver[p] = 1;
                    }
                    same(|| format!("get({p})"), t.get(p), Iv::leaf(p, ver[p]))?;
                    calls += 2;
                }
                if how % 2 == 0 {
                    // the other half of the leaves is written below, while ranges are asked
                    for p in (0..n).filter(|p| p % 3 == how % 3) {
                        t.set(p, Iv::leaf(p, 2));
                        ver[p] = 2;
                        let g = t.prod(p, p + 1);
                        ensure(g == Iv::leaf(p, 2), || format!("prod({p},{}) is {g:?} after set({p})", p + 1))?;
                    }
                }
                let e = Leaves::new(&ver);
                same(|| "all_prod()".into(), t.all_prod(), e.prod(0, n))?;
                for p in 0..=n {
                    for &k in &lens {
                        if p + k <= n {
                            let g = t.prod(p, p + k);
                            ensure(g == e.prod(p, p + k), || format!("prod({p},{}) is {g:?}", p + k))?;
                            if how == 0 && k != 4 {
                                right(&t, p, p + k, k % 2 == 0)?;
                            }
                        }
                        if p >= k {
                            let g = t.prod(p - k, p);
                            ensure(g == e.prod(p - k, p), || format!("prod({},{p}) is {g:?}", p - k))?;
                            if how == 1 && k != 4 {
                                left(&t, p, p - k, k % 2 == 0)?;
                            }
                        }
                        calls += 3;
                    }
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(n as u64);
                cx.outcome(c as u64);
            }
        }));
        let most = if thorough { 140 } else { 72 };
        v.push(space("refused beyond the end", &format!("n = 0..={most}: every single index from the end to twice the padded size + 2, for every kind of request; every inverted range; then the total product and every element"), most + 1, |n, cx| {
            let size = n.max(1).next_power_of_two();
            let r = cx.run(|| format!("from({n} distinct leaves), every index beyond the end"), || {
                let mut t: Segtree<Ivs> = (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into();
                let e = Leaves::new(&vec![0; n]);
                for b in n..=2 * size + 2 {
                    refuses(&format!("set({b})"), || t.set(b, Iv::leaf(b, 0)))?;
                    refuses(&format!("get({b})"), || t.get(b))?;
                    if b > n {
                        for l in [0, n / 2, n, b - 1, b] {
                            refuses(&format!("prod({l}, {b})"), || t.prod(l, b))?;
                        }
                        refuses(&format!("max_right({b})"), || t.max_right(b, |_| true))?;
                        refuses(&format!("min_left({b})"), || t.min_left(b, |_| true))?;
                    }
                }
                for l in 0..=n {
                    for r in 0..l {
                        refuses(&format!("the inverted range prod({l}, {r})"), || t.prod(l, r))?;
                    }
                    if l < n {
                        refuses("a predicate that rejects the empty product", || t.max_right(l, |_| false))?;
                        refuses("a predicate that rejects the empty product", || t.min_left(l + 1, |_| false))?;
                    }
                }
                same(|| "all_prod()".into(), t.all_prod(), e.prod(0, n))?;
                for p in 0..n {
                    same(|| format!("get({p})"), t.get(p), Iv::leaf(p, 0))?;
                }
                Ok((2 * size + 2 - n) as u64 * 9)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        v.push(space("refused", "n = 0..=9: every kind of out-of-range request with n, n+1, the padded size and usize::MAX, then every query", 10, |n, cx| {
            let m: Vec<W> = (0..n).map(|p| W::code((p * p + 1) % 3)).collect();
            let size = n.max(1).next_power_of_two();
            for b in [n, n + 1, n + 2, size, size + 1, 2 * size - 1, 2 * size, usize::MAX - 1, usize::MAX] {
                for what in 0..7 {
                    let r = cx.run(|| format!("from({m:?}), out-of-range request kind {what} with index {b}, then all queries"), || {
                        let mut t: Segtree<Words> = m.clone().into();
                        match what {
                            0 if b >= n => refuses("set", || t.set(b, W::letter(1)))?,
                            1 if b >= n => refuses("get", || t.get(b))?,
                            2 if b > n => refuses("prod", || t.prod(0, b))?,
                            3 if b > n => refuses("prod", || t.prod(b, b))?,
                            4 if b > n => refuses("max_right", || t.max_right(b, |_| true))?,
                            5 if b > n => refuses("min_left", || t.min_left(b, |_| true))?,
                            6 => {
                                        for l in 0..n {
                                            refuses("a predicate that rejects the empty product", || t.max_right(l, |_| false))?;
                                            refuses("a predicate that rejects the empty product", || t.min_left(l + 1, |_| false))?;
                                        }
                                for l in 1..=n {
                                    for r in 0..l {
                                        refuses("an inverted range", || t.prod(l, r))?;
                                    }
                                }
                            }
                            _ => {}
                        }
                        observe(&t, &m)
                    });
                    if let Some(o) = r {
                        cx.calls(o.0 + 1);
                        cx.states(1);
                        cx.outcome(o.1);
                    }
                }
            }
        }));
        let (a1, a2) = if thorough { (16, 5) } else { (12, 4) };
        v.push(space("asked again", &format!("n = 1..={a1}: a query (product, value, total, search in both directions with every cut), a write, a query, each triple on its own tree; n = 1..={a2}: query, write, query, write, query, every such five"), (a1 + a2) * 16, move |c, cx| {
            let (n, five, part) = if c < 16 * a1 { (a1 - c / 16, false, c % 16) } else { (a2 - (c - 16 * a1) / 16, true, c % 16) };
            let mut qs: Vec<(usize, usize, u8)> = vec![(0, n, 3)];
            for l in 0..=n {
                for r in l..=n {
                    qs.extend([(l, r, 0), (l, r, 1), (l, r, 2)]);
                }
            }
            for p in 0..n {
                qs.push((p, p, 4));
            }
            let ask = |t: &Segtree<Ivs>, e: &Leaves, ver: &[u64], q: (usize, usize, u8)| -> Result<(), String> {
                let (l, r, what) = q;
                match what {
                    0 => same(|| format!("prod({l},{r})"), t.prod(l, r), e.prod(l, r)),
                    1 => right(t, l, r, (l + r) % 2 == 0),
                    2 => left(t, r, l, (l + r) % 2 == 0),
                    3 => same(|| "all_prod()".into(), t.all_prod(), e.prod(0, n)),
                    _ => same(|| format!("get({l})"), t.get(l), Iv::leaf(l, ver[l])),
                }
            };
            let blank: Segtree<Ivs> = (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into();
            let _ = &blank;
            let make = || -> Segtree<Ivs> {
                #[cfg(vp_hooks)]
                return blank.clone();
                #[cfg(not(vp_hooks))]
                (0..n).map(|p| Iv::leaf(p, 0)).collect::<Vec<_>>().into()
            };
            let at = |ws: &[usize]| {
                let mut ver = vec![0u64; n];
                for &w in ws {
                    ver[w] += 1;
                }
                (Leaves::new(&ver), ver)
            };
            let before = at(&[]);
            for (i, &q) in qs.iter().enumerate().filter(|(i, _)| i % 16 == part) {
                for w in 0..n {
                    let mid = at(&[w]);
                    let step = |t: &mut Segtree<Ivs>, w: usize, ver: &[u64]| t.set(w, Iv::leaf(w, ver[w]));
                    let r = cx.run(|| format!("n={n}: query {q:?} (start, end, kind), set({w}), another query{}", if five { ", another write and query" } else { "" }), || {
                        let mut k = 0;
                        for &q2 in &qs {
                            if !five {
                                let mut t = make();
                                ask(&t, &before.0, &before.1, q)?;
                                step(&mut t, w, &mid.1);
                                ask(&t, &mid.0, &mid.1, q2).map_err(|e| format!("{e} (second query {q2:?})"))?;
                                k += 3;
                                continue;
                            }
                            for w2 in 0..n {
                                let end = at(&[w, w2]);
                                for &q3 in &qs {
                                    let mut t = make();
                                    ask(&t, &before.0, &before.1, q)?;
                                    step(&mut t, w, &mid.1);
                                    ask(&t, &mid.0, &mid.1, q2).map_err(|e| format!("{e} (second query {q2:?})"))?;
                                    step(&mut t, w2, &end.1);
                                    ask(&t, &end.0, &end.1, q3).map_err(|e| format!("{e} (second query {q2:?}, set({w2}), third {q3:?})"))?;
                                    k += 5;
                                }
                            }
                        }
                        Ok(k)
                    });
                    if let Some(k) = r {
                        cx.calls(k);
                        cx.states(1);
                        cx.outcome((n * 1000 + i) as u64);
                    }
                }
            }
        }));
        v
    });
}
