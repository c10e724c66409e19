//! C03 Fenwick tree.
use mc::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;

/// Z/3, a group in which every partial sum wraps.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Debug, Default)]
struct Z3(u8);
impl std::ops::AddAssign for Z3 {
    fn add_assign(&mut self, o: Z3) {
        self.0 = (self.0 + o.0) % 3;
    }
}
impl std::ops::Add for Z3 {
    type Output = Z3;
    fn add(self, o: Z3) -> Z3 {
        Z3((self.0 + o.0) % 3)
    }
}
impl std::ops::Sub for Z3 {
    type Output = Z3;
    fn sub(self, o: Z3) -> Z3 {
        Z3((self.0 + 3 - o.0) % 3)
    }
}
struct Fw {
    t: FenwickTree<Z3>,
    m: Vec<u8>,
}
fn new(n: usize) -> Fw {
    Fw { t: FenwickTree::new(n), m: vec![0; n] }
}
impl Sys for Fw {
    type Op = (usize, u8);
    fn fresh(&self) -> Self {
        new(self.m.len())
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(Fw { t: self.t.clone(), m: self.m.clone() });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        #[cfg(vp_hooks)]
        return Some(fp_debug(&(&self.t, &self.m)));
        #[cfg(not(vp_hooks))]
        None
    }
    fn ops(&self) -> Vec<(usize, u8)> {
        (0..self.m.len()).flat_map(|i| [(i, 1), (i, 2), (i, 0)]).collect()
    }
    fn apply(&mut self, &(i, x): &(usize, u8)) -> Result<(), String> {
        self.t.add(i, Z3(x));
        self.m[i] = (self.m[i] + x) % 3;
        Ok(())
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        let n = self.m.len();
        let mut calls = 0;
        for l in 0..=n {
            let s = |a: usize, b: usize| Z3((self.m[a..b].iter().map(|&x| x as u32).sum::<u32>() % 3) as u8);
            same(|| format!("pref({l})"), self.t.pref(l), s(0, l))?;
            for r in l..=n {
                same(|| format!("sum({l},{r})"), self.t.sum(l, r), s(l, r))?;
                calls += 1;
            }
        }
        Ok((calls + n as u64 + 1, fp_debug(&self.m) as u64))
    }
}

fn prefix(a: &[i64]) -> Vec<i64> {
    let mut v = vec![0];
    for &x in a {
        v.push(v.last().unwrap() + x);
    }
    v
}
/// All sums, and both searches under every admissible predicate, of a tree holding `a`.
fn all(t: &FenwickTree<i64>, a: &[i64]) -> Result<u64, String> {
    let n = a.len();
    let p = prefix(a);
    let mut calls = 0;
    for l in 0..=n {
        same(|| format!("pref({l})"), t.pref(l), p[l])?;
        for r in l..=n {
            same(|| format!("sum({l},{r})"), t.sum(l, r), p[r] - p[l])?;
        }
        calls += 2 + (n - l) as u64;
    }
    // predicates that partition the prefix-sum array p[1..]: true exactly on the values of its first k entries
    for k in 0..=n {
        if p[1..=k].iter().any(|x| p[k + 1..].contains(x)) {
            continue;
        }
        for other in [false, true] {
            let f = |x: &i64| {
                if p[1..=k].contains(x) {
                    true
                } else if p[k + 1..].contains(x) {
                    false
                } else {
                    other
                }
            };
            same(|| format!("partition_point(first {k} prefix sums; {other} on other values)"), t.partition_point(f), k)?;
            calls += 1;
        }
    }
    if p[1..].windows(2).all(|w| w[0] <= w[1]) {
        let (low, top) = (p.iter().min().unwrap(), p[n].max(0));
        for target in low - 1..=top + 1 {
            same(|| format!("search({target})"), t.search(&target), p[1..].iter().take_while(|&&x| x < target).count())?;
            same(|| format!("partition_point(<= {target})"), t.partition_point(|x| *x <= target), p[1..].iter().take_while(|&&x| x <= target).count())?;
            calls += 2;
        }
    }
    Ok(calls)
}
fn built(a: &[i64], how: usize) -> FenwickTree<i64> {
    match how {
        0 => FenwickTree::from(a),
        1 => {
            let mut t = FenwickTree::new(a.len());
            for (i, x) in a.iter().enumerate() {
                t.add(i, *x);
            }
            t
        }
        2 => {
            // reference addend (another addend type), in descending order, on top of a built tree
            let half: Vec<i64> = a.iter().map(|x| x / 2).collect();
            let mut t = FenwickTree::from(&half);
            for (i, x) in a.iter().enumerate().rev() {
                let d = x - x / 2;
                t.add(i, &d);
            }
            t
        }
        _ => {
            let mut t: FenwickTree<i64> = FenwickTree::new(a.len());
            for (i, x) in a.iter().enumerate() {
                t.add(i, x + 5);
                t.add(a.len() - 1 - i, -3);
                t.add(i, -2);
            }
            t
        }
    }
}

fn main() {
    mc::main("C03", false, |thorough| {
        let mut v = vec![];
        let nmax = if thorough { 9 } else { 8 };
        v.push(space("closure", &format!("n = 0..={nmax}, values in Z/3: every reachable state of new(n) under additions; every prefix and range in each"), nmax + 1, move |c, cx| {
            bfs(cx, &format!("FenwickTree::new({})", nmax - c), || new(nmax - c), Bfs::closure(4).cap(400_000));
        }));
        v.push(space("unmerged", "n = 4: every history of 4 additions without merging", 1, |_, cx| {
            bfs(cx, "FenwickTree::new(4)", || new(4), Bfs::depth(4, false));
        }));
        v.push(space("pairs", "two trees (n = 3, 2) used alternately: closure", 1, |_, cx| {
            bfs(cx, "two trees", || Pair(new(3), new(2)), Bfs::closure(3));
        }));
        let amax = if thorough { 11 } else { 9 };
        v.push(space(
            "arrays",
            &format!("all arrays over {{0,1,2}} of length 0..={amax}, built from a slice and by three patterns of additions: every prefix/range, every target, every partitioning predicate (both answers on values that are no prefix sum)"),
            (amax + 1) * 4,
            move |c, cx| {
                let (n, how) = (amax - c / 4, c % 4);
                for w in words(3, n) {
                    let a: Vec<i64> = w.iter().map(|&x| x as i64).collect();
                    let r = cx.run(|| format!("array {a:?} (build {how})"), || all(&built(&a, how), &a));
                    if let Some(k) = r {
                        cx.calls(k + 1);
                        cx.states(1);
                        cx.outcome(fp_debug(&prefix(&a)) as u64);
                    }
                }
            },
        ));
        let smax = if thorough { 8 } else { 6 };
        v.push(space("signed arrays", &format!("all arrays over {{-2,-1,0,3}} of length 0..={smax}: every predicate that partitions the (not monotone) prefix-sum array, and every target where the prefix sums ascend"), (smax + 1) * 4, move |c, cx| {
            let (n, how) = (smax - c / 4, c % 4);
            for w in words(4, n) {
                let a: Vec<i64> = w.iter().map(|&x| [-2, -1, 0, 3][x]).collect();
                let r = cx.run(|| format!("array {a:?} (build {how})"), || all(&built(&a, how), &a));
                if let Some(k) = r {
                    cx.calls(k + 1);
                    cx.states(1);
                    cx.outcome(fp_debug(&prefix(&a)) as u64);
                }
            }
        }));
        let lmax = if thorough { 600 } else { 300 };
        v.push(space("lengths", &format!("n = 0..={lmax}: distinct positive values, values with zeros, both also after a first value of -9; four ways to build: every range, target and cut"), (lmax + 1) * 4, move |c, cx| {
            let (n, zeros, below) = (lmax - c / 4, c % 2 == 1, c % 4 >= 2);
            let mut a: Vec<i64> = (0..n).map(|i| if zeros { (i % 3 == 1) as i64 } else { 1 + (i * i % 7) as i64 }).collect();
            if below && n > 0 {
                a[0] = -9;
            }
            let p = prefix(&a);
            for how in 0..4 {
                let r = cx.run(|| format!("n={n}, zeros {zeros}, first -9: {below}, build {how}"), || {
                    let t = built(&a, how);
                    let mut calls = 0;
                    for l in 0..=n {
                        same(|| format!("pref({l})"), t.pref(l), p[l])?;
                        for r in l..=n {
                            same(|| format!("sum({l},{r})"), t.sum(l, r), p[r] - p[l])?;
                        }
                        calls += (n - l + 2) as u64;
                    }
                    for target in -10..=p[n] + 1 {
                        same(|| format!("search({target})"), t.search(&target), p[1..].partition_point(|&x| x < target))?;
                        same(|| format!("partition_point(<= {target})"), t.partition_point(|x| *x <= target), p[1..].partition_point(|&x| x <= target))?;
                        calls += 2;
                    }
                    Ok(calls)
                });
                if let Some(k) = r {
                    cx.calls(k);
                    cx.states(1);
                    cx.outcome(n as u64);
                }
            }
        }));
        let sizes: Vec<usize> = straddling(if thorough { 1 << 23 } else { 1 << 21 }).into_iter().filter(|&n| n > 300).rev().collect();
        v.push(space("large", "n within 2 of powers of two: sums and searches at boundary indices, from a slice and after additions at boundary indices", sizes.len(), move |c, cx| {
            let n = sizes[c];
            let r = cx.run(|| format!("n={n}"), || {
                let mut a: Vec<i64> = (0..n).map(|i| (i % 5) as i64).collect();
                let mut t = FenwickTree::from(&a);
                let mut idx = straddling(n);
                idx.extend(straddling(n).iter().map(|x| n - x));
                idx.sort();
                idx.dedup();
                let mut calls = 0;
                for round in 0..2 {
                    let p = prefix(&a);
                    for &l in &idx {
                        for &r in &idx {
                            if l <= r {
                                same(|| format!("round {round}: sum({l},{r})"), t.sum(l, r), p[r] - p[l])?;
                            }
                        }
                        for d in -1..=1 {
                            let target = p[l] + d;
                            same(|| format!("round {round}: search({target})"), t.search(&target), p[1..].partition_point(|&x| x < target))?;
                        }
                        calls += 3 + idx.len() as u64;
                    }
                    for &i in &idx {
                        if i < n {
                            t.add(i, 7);
                            a[i] += 7;
                        }
                    }
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        v.push(space("element types", "u8, u64 near the top of the range, i128, f64, i8 from -40 up: same array, every range and search", 5, |c, cx| {
            macro_rules! ty {
                ($t:ty, $scale:expr, $first:expr) => {{
                    for n in 0..=20usize {
                        let mut a: Vec<$t> = (0..n).map(|i| ((i * 5 % 7) as $t) * $scale).collect();
                        if n > 0 {
                            a[0] = $first;
                        }
                        let r = cx.run(|| format!("{} array {a:?}", stringify!($t)), || {
                            let t = FenwickTree::from(&a);
                            let mut u = FenwickTree::<$t>::new(n);
                            for i in 0..n {
                                u.add(i, a[i]);
                            }
                            let mut p: Vec<$t> = vec![0 as $t];
                            for &x in &a {
                                p.push(*p.last().unwrap() + x);
                            }
                            for l in 0..=n {
                                for r in l..=n {
                                    same(|| format!("sum({l},{r})"), (t.sum(l, r), u.sum(l, r)), (p[r] - p[l], p[r] - p[l]))?;
                                }
                                same(|| format!("search({:?})", p[l]), (t.search(&p[l]), u.search(&p[l])), {
                                    let x = p[1..].partition_point(|x| *x < p[l]);
                                    (x, x)
                                })?;
                            }
                            Ok((n * n) as u64)
                        });
                        if let Some(k) = r {
                            cx.calls(k);
                            cx.states(1);
                        }
                    }
                }};
            }
            match c {
                0 => ty!(u8, 4, 0),
                1 => ty!(u64, 200_000_000_000_000_000, 0),
                2 => ty!(i128, 1_000_000_000_000_000_000_000_000_000_000, 0),
                3 => ty!(f64, 0.5, -1.75),
                _ => ty!(i8, 1, -40),
            }
        }));
        v.push(space("every index", "n = 1000, 8191, 10000, 65537, 100003, 131072: from a slice and by additions at every index in both directions; every prefix, the ranges of 40 lengths from every start, the searches at every prefix sum and one off; then an addition at every index with the prefixes around it", 12, |c, cx| {
            let (n, how) = ([1000, 8191, 10_000, 65_537, 100_003, 131_072][5 - c / 2], c % 2);
            let r = cx.run(|| format!("n={n}, {}", ["from a slice", "by additions"][how]), || {
                let mut a: Vec<i64> = (0..n).map(|i| 2 + (i * i % 5) as i64).collect();
                let mut t = if how == 0 {
                    FenwickTree::from(&a)
                } else {
                    let mut t = FenwickTree::new(n);
                    for i in 0..n {
                        t.add(i, 1i64);
                    }
                    for i in (0..n).rev() {
                        t.add(i, a[i] - 1);
                    }
                    t
                };
                let mut lens = straddling(n);
                lens.extend([3, 5, 7, 100, 300, 1000]);
                let mut calls = 0;
                for round in 0..2 {
                    let p = prefix(&a);
                    for l in 0..=n {
                        same(|| format!("round {round}: pref({l})"), t.pref(l), p[l])?;
                        for &d in lens.iter().filter(|&&d| l + d <= n) {
                            same(|| format!("round {round}: sum({l},{})", l + d), t.sum(l, l + d), p[l + d] - p[l])?;
                            calls += 1;
                        }
                        for d in -1..=1 {
                            let target = p[l] + d;
                            // the values are at least 2: the cut is known from l
                            let (below, upto) = (if d > 0 { l } else { l.saturating_sub(1) }, if d < 0 { l.saturating_sub(1) } else { l });
                            same(|| format!("round {round}: search({target})"), t.search(&target), below.min(n))?;
                            same(|| format!("round {round}: partition_point(<= {target})"), t.partition_point(|x| *x <= target), upto)?;
                        }
                        calls += 7;
                    }
                    if round == 0 {
                        for i in 0..n {
                            t.add(i, 3);
                            a[i] += 3;
                            let q = [i, i + 1, (i + 1).next_power_of_two().min(n), n];
                            for &e in &q {
                                let want = p[e] + 3 * e.min(i + 1) as i64;
                                same(|| format!("pref({e}) after adding 3 at 0..={i}"), t.pref(e), want)?;
                            }
                            calls += 5;
                        }
                    }
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        let (a1, a2) = if thorough { (24, 5) } else { (16, 4) };
        v.push(space("asked again", &format!("n = 1..={a1}: a query (prefix, range, search for every prefix sum and one above), an addition, a query, each triple on its own tree; n = 1..={a2}: query, addition, query, addition, query"), (a1 + a2) * 8, move |c, cx| {
            let (n, five, part) = if c < 8 * a1 { (a1 - c / 8, false, c % 8) } else { (a2 - (c - 8 * a1) / 8, true, c % 8) };
            let mut qs: Vec<(usize, usize, u8)> = vec![];
            for l in 0..=n {
                qs.extend([(l, 0, 0), (l, 0, 2), (l, 1, 2)]);
                for r in l..=n {
                    qs.push((l, r, 1));
                }
            }
            let a: Vec<i64> = (0..n).map(|i| 2 + (i * i % 5) as i64).collect();
            let made = FenwickTree::from(&a);
            let _ = &made;
            let make = || -> FenwickTree<i64> {
                #[cfg(vp_hooks)]
                return made.clone();
                #[cfg(not(vp_hooks))]
                FenwickTree::from(&a)
            };
            let ask = |t: &FenwickTree<i64>, p: &[i64], q: (usize, usize, u8)| -> Result<(), String> {
                let (l, r, what) = q;
                match what {
                    0 => same(|| format!("pref({l})"), t.pref(l), p[l]),
                    1 => same(|| format!("sum({l},{r})"), t.sum(l, r), p[r] - p[l]),
                    _ => {
                        let x = p[l] + r as i64;
                        same(|| format!("search({x})"), t.search(&x), p[1..].iter().take_while(|&&y| y < x).count())
                    }
                }
            };
            let at = |ws: &[usize]| {
                let mut a = a.clone();
                for &w in ws {
                    a[w] += 3;
                }
                prefix(&a)
            };
            let before = at(&[]);
            for (i, &q) in qs.iter().enumerate().filter(|(i, _)| i % 8 == part) {
                for w in 0..n {
                    let mid = at(&[w]);
                    let r = cx.run(|| format!("{a:?}: query {q:?}, add({w}, 3), another query{}", if five { ", another addition and query" } else { "" }), || {
                        let mut k = 0;
                        for &q2 in &qs {
                            for w2 in 0..if five { n } else { 1 } {
                                let end = if five { at(&[w, w2]) } else { vec![] };
                                for &q3 in if five { qs.as_slice() } else { &qs[..1] } {
                                    let mut t = make();
                                    ask(&t, &before, q)?;
                                    t.add(w, 3);
                                    ask(&t, &mid, q2).map_err(|e| format!("{e} (second query {q2:?})"))?;
                                    if five {
                                        t.add(w2, 3);
                                        ask(&t, &end, q3).map_err(|e| format!("{e} (second query {q2:?}, add({w2}, 3), third {q3:?})"))?;
                                    }
                                    k += 5;
                                }
                            }
                        }
                        Ok(k)
                    });
                    if let Some(k) = r {
                        cx.calls(k);
                        cx.states(1);
                        cx.outcome((n * 1000 + i) as u64);
                    }
                }
            }
        }));
        v
    });
}
