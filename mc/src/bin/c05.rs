//! C05 union-find: closure of all real states against a partition model.
use mc::model::*;
use mc::*;
use rust_cp::data_structure::union_find::UnionFind;

#[derive(Clone, Debug)]
enum Op {
    Find(usize),
    Same(usize, usize),
    Join(usize, usize),
    Size(usize),
    Groups,
}

struct Uf {
    n: usize,
    t: UnionFind,
    /// class label of each element
    m: Vec<usize>,
}
fn model_groups(m: &[usize]) -> Vec<Vec<usize>> {
    let mut g: Vec<Vec<usize>> = vec![];
    for l in 0..m.len() {
        let c: Vec<usize> = (0..m.len()).filter(|&i| m[i] == l).collect();
        if !c.is_empty() {
            g.push(c);
        }
    }
    g.sort();
    g
}
fn norm(mut g: Vec<Vec<usize>>) -> Vec<Vec<usize>> {
    for x in g.iter_mut() {
        x.sort();
    }
    g.sort();
    g
}
fn new(n: usize) -> Uf {
    Uf { n, t: UnionFind::new(n), m: (0..n).collect() }
}
impl Sys for Uf {
    type Op = Op;
    fn fresh(&self) -> Self {
        new(self.n)
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(Uf { n: self.n, t: self.t.clone(), m: self.m.clone() });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        #[cfg(vp_hooks)]
        return Some(fp_debug(&(&self.t, &self.m)));
        #[cfg(not(vp_hooks))]
        None
    }
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for x in 0..self.n {
            for y in 0..self.n {
                v.push(Op::Join(x, y));
            }
        }
        for x in 0..self.n {
            v.push(Op::Find(x));
            v.push(Op::Size(x));
            for y in 0..self.n {
                v.push(Op::Same(x, y));
            }
        }
        v.push(Op::Groups);
        v
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match *op {
            Op::Find(x) => {
                let r = self.t.find(x);
                ensure(r < self.n && self.m[r] == self.m[x], || format!("find({x}) = {r} is not a member of {x}'s set"))
            }
            Op::Same(x, y) => same(|| format!("is_same({x},{y})"), self.t.is_same(x, y), self.m[x] == self.m[y]),
            Op::Join(x, y) => {
                let r = self.t.join(x, y);
                let (a, b) = (self.m[x], self.m[y]);
                for l in self.m.iter_mut() {
                    if *l == b {
                        *l = a;
                    }
                }
                same(|| format!("join({x},{y})"), r, a != b)
            }
            Op::Size(x) => same(|| format!("size({x})"), self.t.size(x), self.m.iter().filter(|&&l| l == self.m[x]).count()),
            Op::Groups => same(|| "groups()".into(), norm(self.t.groups()), model_groups(&self.m)),
        }
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        let n = self.n;
        let mut calls = 0;
        // representatives: member of the set, shared, stable
        let rep: Vec<usize> = (0..n).map(|x| self.t.find(x)).collect();
        for x in 0..n {
            ensure(rep[x] < n && self.m[rep[x]] == self.m[x], || format!("find({x}) = {} is not in its set", rep[x]))?;
            for y in 0..n {
                ensure((rep[x] == rep[y]) == (self.m[x] == self.m[y]), || format!("find({x}) = {}, find({y}) = {}", rep[x], rep[y]))?;
            }
        }
        same(|| "groups()".into(), norm(self.t.groups()), model_groups(&self.m))?;
        for x in 0..n {
            let s = self.m.iter().filter(|&&l| l == self.m[x]).count();
            same(|| format!("size({x})"), self.t.size(x), s)?;
            for y in 0..n {
                same(|| format!("is_same({x},{y})"), self.t.is_same(x, y), self.m[x] == self.m[y])?;
                calls += 1;
            }
        }
        for x in (0..n).rev() {
            same(|| format!("find({x}) again, after other queries"), self.t.find(x), rep[x])?;
        }
        Ok((calls + 3 * n as u64 + 1, fp_debug(&model_groups(&self.m)) as u64))
    }
}

/// Join sequences for n elements.
fn pattern(k: usize, n: usize) -> Vec<(usize, usize)> {
    let mut j = vec![];
    match k {
        // doubling blocks (deepest possible trees), joined at their first/last elements
        0..=3 => {
            let mut w = 1;
            while w < n {
                for b in (0..n - w).step_by(2 * w) {
                    let end = (b + 2 * w).min(n);
                    let x = if k & 1 == 0 { b } else { b + w - 1 };
                    let y = if k & 2 == 0 { b + w } else { end - 1 };
                    j.push((x, y));
                }
                w *= 2;
            }
        }
        4 => j.extend((0..2 * n).map(|i| (i * 7 % n, (i * i * 3 + 5) % n))),
        5 => j.extend((0..2 * n).map(|i| (mix(i as u64) as usize % n, mix(i as u64 + 77777) as usize % n))),
        6 => {
            let b = (1..).find(|b| b * b >= n).unwrap();
            j.extend((0..n).filter(|i| i % b != 0).map(|i| (i, i - i % b)));
            j.extend((b..n).step_by(b).map(|i| (i - 1, (i + b - 1).min(n - 1))));
        }
        7 => {
            j.extend((2..n).map(|i| (i, i - 2)));
            j.extend((1..n).map(|i| (i - 1, i)));
        }
        8 => j.extend((1..n).map(|i| (n - i, (n - i) / 2))),
        _ => j.extend((0..n).rev().map(|i| (i, (i * 2 + 1) % n))),
    }
    j
}
fn family(k: usize, n: usize) -> Result<(u64, u64), String> {
    let mut u = UnionFind::new(n);
    let mut label: Vec<usize> = (0..n).collect();
    let mut class: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    let joins = pattern(k, n);
    let mut calls = 0;
    for (i, &(x, y)) in joins.iter().enumerate() {
        let (mut a, mut b) = (label[x], label[y]);
        same(|| format!("join({x},{y})"), u.join(x, y), a != b)?;
        if a != b {
            if class[a].len() < class[b].len() {
                std::mem::swap(&mut a, &mut b);
            }
            for z in std::mem::take(&mut class[b]) {
                label[z] = a;
                class[a].push(z);
            }
        }
        // queries at single elements now and then, everything at a few points
        if i % 3 == 0 {
            let z = (i * 5 + 1) % n;
            same(|| format!("size({z}) after {} joins", i + 1), u.size(z), class[label[z]].len())?;
            same(|| format!("is_same({z},{x}) after {} joins", i + 1), u.is_same(z, x), label[z] == label[x])?;
        }
        if (i + 1) % (joins.len() / 3 + 1) == 0 || i + 1 == joins.len() {
            let mut want: Vec<Vec<usize>> = class.iter().filter(|c| !c.is_empty()).cloned().collect();
            for c in want.iter_mut() {
                c.sort();
            }
            want.sort();
            if i + 1 != joins.len() || n % 2 == 0 {
                ensure(norm(u.groups()) == want, || format!("groups() after {} joins", i + 1))?;
            }
            for c in &want {
                let r = u.find(c[c.len() / 2]);
                ensure(r < n && label[r] == label[c[0]], || format!("find({}) = {r}, not in its set", c[c.len() / 2]))?;
                for &z in c {
                    same(|| format!("find({z}) after {} joins", i + 1), u.find(z), r)?;
                    same(|| format!("size({z}) after {} joins", i + 1), u.size(z), c.len())?;
                }
            }
            ensure(norm(u.groups()) == want, || format!("groups() again after {} joins", i + 1))?;
            calls += 2 * n as u64 + 2;
        }
    }
    Ok((calls + 2 * joins.len() as u64, class.iter().filter(|c| !c.is_empty()).count() as u64))
}

fn main() {
    mc::main("C05", false, |thorough| {
        let nmax = if thorough { 7 } else { 6 };
        let mut v = vec![];
        v.push(space(
            "closure",
            &format!("n = 0..={nmax}: every reachable internal state, every operation from each (histories of any length)"),
            nmax + 1,
            move |c, cx| {
                bfs(cx, &format!("UnionFind::new({c})"), || new(c), Bfs::closure(4));
            },
        ));
        v.push(space("unmerged", "n = 4: every history of 3 operations, no state merging; n = 3: 4 operations", 2, |c, cx| {
            let (n, d) = if c == 0 { (3, 4) } else { (4, 3) };
            bfs(cx, &format!("UnionFind::new({n})"), || new(n), Bfs::depth(d, false));
        }));
        v.push(space("pairs", "two instances (n = 3 and 2) used alternately: every history of 3 operations on either", 1, |_, cx| {
            bfs(cx, "two instances (new(3), new(2))", || Pair(new(3), new(2)), Bfs::depth(3, false));
        }));
        v.push(space("join orders", "n = 7: every order of joining the six consecutive pairs, both argument orders of each (6! x 2^6 histories)", 1, |_, cx| {
            // every order of joining consecutive pairs (i, i+1), both argument orders: 6! x 2^6 for n = 7
            let n = 7;
            let mut perm: Vec<usize> = (0..n - 1).collect();
            permutations(&mut perm, 0, &mut |p| {
                for flip in 0..(1u32 << (n - 1)) {
                    let joins: Vec<(usize, usize)> =
                        p.iter().map(|&i| if flip >> i & 1 == 1 { (i + 1, i) } else { (i, i + 1) }).collect();
                    let r = cx.run(
                        || format!("UnionFind::new({n}); joins {:?}; then all queries", joins),
                        || {
                            let mut u = new(n);
                            for &(a, b) in &joins {
                                u.apply(&Op::Join(a, b))?;
                            }
                            u.observe()
                        },
                    );
                    if let Some(o) = r {
                        cx.calls(o.0 + joins.len() as u64);
                        cx.states(1);
                        cx.outcome(o.1);
                    }
                }
            });
        }));
        v.push(space("range", "n = 0..=5: every query with an argument outside the range is refused and changes nothing", 6, |n, cx| {
            let bad = [n, n + 1, usize::MAX];
            for &b in &bad {
                for what in 0..5 {
                    let r = cx.run(
                        || format!("n={n}, joined (0,1) if possible, request kind {what} with index {b}"),
                        || {
                            let mut u = new(n);
                            if n >= 2 {
                                u.apply(&Op::Join(0, 1))?;
                            }
                            let t = &mut u.t;
                            match what {
                                0 => refuses("find", || t.find(b)),
                                1 => refuses("size", || t.size(b)),
                                2 => refuses("is_same", || t.is_same(b, b)),
                                3 => refuses("join", || t.join(b, 0)).and_then(|_| refuses("is_same", || t.is_same(0, b))),
                                _ => refuses("join", || t.join(0, b)),
                            }?;
                            u.observe()
                        },
                    );
                    if let Some(o) = r {
                        cx.calls(o.0 + 1);
                        cx.states(1);
                    }
                }
            }
        }));
        let top = if thorough { 300 } else { 130 };
        let mut sizes: Vec<usize> = (2..=top).collect();
        sizes.extend([511, 512, 513, 1023, 1024, 1025, 2048, 4097, 8192, 16384, 32768, 65536, 65537]);
        if thorough {
            sizes.extend([131_072, 262_144, 1 << 20]);
        }
        sizes.reverse();
        let what = format!("n = 2..={top} and {:?}: ten join patterns (deepest trees by doubling, blocks, combs, affine and mixed pairs), single queries along the way, all elements and groups at three points and at the end", sizes.iter().rev().skip(top - 1).collect::<Vec<_>>());
        v.push(space("families", &what, sizes.len() * 10, move |c, cx| {
            let (n, k) = (sizes[c / 10], c % 10);
            let r = cx.run(|| format!("UnionFind::new({n}), join pattern {k}"), || family(k, n));
            if let Some(o) = r {
                cx.calls(o.0);
                cx.states(1);
                cx.outcome(o.1);
            }
        }));
        let big = if thorough { 4_000_000 } else { 1_000_000 };
        v.push(space("long chains", &format!("n = {big}: nine adversarial join orders, on a thread with an 8 MiB stack, then queries from both ends"), 9, move |c, cx| {
            let r = cx.run(
                || format!("n = {big}, join order {c}, then find/size/is_same at the ends and groups()"),
                || {
                    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                        guarded(|| {
                            let n = big;
                            let mut u = UnionFind::new(n);
                            let mut root = 0;
                            for i in 1..n {
                                let ok = match c {
                                    0 => u.join(i - 1, i),
                                    1 => u.join(i, i - 1),
                                    2 => u.join(n - i, n - i - 1),
                                    3 => u.join(n - i - 1, n - i),
                                    4 => u.join(0, i),
                                    5 => u.join(i, 0),
                                    6 => {
                                        let r = u.join(root, i);
                                        root = u.find(i);
                                        r
                                    }
                                    7 => {
                                        let r = u.join(i, root);
                                        root = u.find(i);
                                        r
                                    }
                                    _ => u.join(i, i & (i - 1)),
                                };
                                if !ok {
                                    return Err(format!("join number {i} of two different sets returned false"));
                                }
                            }
                            for x in [0, 1, n / 2, n - 2, n - 1] {
                                same(|| format!("size({x})"), u.size(x), n)?;
                                ensure(u.is_same(x, 0) && u.is_same(n - 1, x), || format!("{x} not joined"))?;
                            }
                            let g = u.groups();
                            ensure(g.len() == 1 && g[0].len() == n, || "groups() is not one full group".into())
                        })
                        .unwrap_or_else(|e| Err(format!("unexpected panic: {e}")))
                    });
                    h.unwrap().join().unwrap_or_else(|_| Err("thread died".into()))
                },
            );
            if r.is_some() {
                cx.calls(big as u64 + 20);
                cx.states(1);
            }
        }));
        let deep: u32 = if thorough { 24 } else { 22 };
        v.push(space("deepest trees", &format!("n = 2^k, k = 3..={deep}: equal sets joined at their representatives (trees of depth k), either argument order; then everything at every element, from either end"), 4 * (deep as usize - 2), move |c, cx| {
            let (k, flip, back) = (deep - (c / 4) as u32, c % 2, c / 2 % 2);
            let n = 1usize << k;
            let r = cx.run(
                || format!("n = 2^{k}, representatives of neighbouring blocks joined, order {flip}, elements visited {}", ["upwards", "downwards"][back]),
                || {
                    let mut u = UnionFind::new(n);
                    let mut root: Vec<usize> = (0..n).collect();
                    while root.len() > 1 {
                        for i in 0..root.len() / 2 {
                            let (x, y) = (root[2 * i + flip], root[2 * i + 1 - flip]);
                            ensure(u.join(x, y), || format!("join({x},{y}) of two different sets returned false"))?;
                            root[i] = if u.find(x) == x { x } else { u.find(y) };
                        }
                        let half = root.len() / 2;
                        root.truncate(half);
                    }
                    if c % 4 == 1 {
                        ensure(u.groups().len() == 1, || "groups() is not one group".into())?;
                    }
                    let first = if back == 1 { n - 1 } else { 0 };
                    let rep = u.find(first);
                    for j in 0..n {
                        let x = if back == 1 { n - 1 - j } else { j };
                        ensure(u.is_same(x, first), || format!("is_same({x},{first}) is false"))?;
                        ensure(u.find(x) == rep, || format!("find({x}) differs from find({first}) = {rep}"))?;
                        ensure(u.size(x) == n, || format!("size({x}) is wrong"))?;
                    }
                    let g = u.groups();
                    ensure(g.len() == 1 && g[0].len() == n, || "groups() is not one full group".into())
                },
            );
            if r.is_some() {
                cx.calls(6 * n as u64);
                cx.states(1);
                cx.outcome(k as u64);
            }
        }));
        v.push(space("many small sets", "n = 100000 and 70003: consecutive blocks of 5 elements, every block another one of the 25^3 (then 20^2) short join histories on 5 elements, blocks filled one after another or in step; every query at every element, then the blocks chained and everything asked again", 4, |c, cx| {
            let (n, step) = ([100_000, 70_003][c / 2], c % 2 == 1);
            let r = cx.run(|| format!("n={n}, blocks of 5 joined {}", ["one after another", "in step"][c % 2]), || {
                let mut u = UnionFind::new(n);
                let blocks = n / 5;
                let mut lab: Vec<usize> = (0..n).collect();
                let mut calls = 0u64;
                let op = |b: usize, k: usize| {
                    let code = b / 25usize.pow(k as u32) % 25;
                    // the later blocks repeat with other pairs
                    let (x, y) = ((code / 5 + k * (b / 15_625)) % 5, code % 5);
                    (5 * b + x, 5 * b + y)
                };
                let mut join = |u: &mut UnionFind, lab: &mut Vec<usize>, b: usize, k: usize| {
                    let (x, y) = op(b, k);
                    same(|| format!("join({x},{y}), number {k} of block {b}"), u.join(x, y), lab[x] != lab[y])?;
                    let (p, q) = (lab[x], lab[y]);
                    for z in 5 * b..5 * b + 5 {
                        if lab[z] == q {
                            lab[z] = p;
                        }
                    }
                    let z = 5 * b + k;
                    same(|| format!("size({z})"), u.size(z), (5 * b..5 * b + 5).filter(|&w| lab[w] == lab[z]).count())
                };
                for i in 0..3 * blocks {
                    let (b, k) = if step { (i % blocks, i / blocks) } else { (i / 3, i % 3) };
                    join(&mut u, &mut lab, b, k)?;
                    calls += 2;
                }
                let groups_of = |lab: &Vec<usize>| {
                    let mut g: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
                    for x in 0..n {
                        g.entry(lab[x]).or_default().push(x);
                    }
                    norm(g.into_values().collect())
                };
                ensure(norm(u.groups()) == groups_of(&lab), || "groups() differ".into())?;
                let mut rep = vec![0; n];
                for x in 0..n {
                    rep[x] = u.find(x);
                    ensure(rep[x] < n && lab[rep[x]] == lab[x], || format!("find({x}) = {} is not in its set", rep[x]))?;
                    let b = (x / 5 * 5).min(5 * blocks);
                    let end = (b + 5).min(n);
                    same(|| format!("size({x})"), u.size(x), (b..end).filter(|&w| lab[w] == lab[x]).count())?;
                    for y in b..end {
                        same(|| format!("is_same({x},{y})"), u.is_same(x, y), lab[x] == lab[y])?;
                    }
                    let far = mix(x as u64) as usize % n;
                    same(|| format!("is_same({x},{far})"), u.is_same(x, far), lab[x] == lab[far])?;
                    calls += 8;
                }
                for x in 0..n {
                    ensure((rep[x] == x) == (0..5).map(|d| (x / 5 * 5 + d).min(n - 1)).any(|y| rep[y] == x), || format!("{x}"))?;
                    same(|| format!("find({x}) again"), u.find(x), rep[x])?;
                    for y in x / 5 * 5..x {
                        ensure((rep[x] == rep[y]) == (lab[x] == lab[y]), || format!("find({x}) = {}, find({y}) = {}", rep[x], rep[y]))?;
                    }
                }
                // chain the blocks at their first elements, alternately from the left in pieces of 2, 4, 8, ... blocks
                for x in (5..5 * blocks).step_by(5) {
                    let y = (x / 5 & (x / 5 - 1)) * 5;
                    ensure(u.join(x, y), || format!("join({x},{y}) of two different sets returned false"))?;
                }
                let first: Vec<bool> = (0..n).map(|x| x < 5 * blocks && lab[x] == lab[x / 5 * 5]).collect();
                let total = first.iter().filter(|&&f| f).count();
                for x in (0..n).rev() {
                    same(|| format!("is_same({x},0) at the end"), u.is_same(x, 0), first[x])?;
                    if first[x] {
                        same(|| format!("size({x}) at the end"), u.size(x), total)?;
                    }
                }
                Ok(calls + 4 * n as u64)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        v
    });
}
