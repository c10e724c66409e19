//! C12 bipartite matching against Hall's deficiency formula.
use mc::model::*;
use mc::*;
use rust_cp::graph::bipartite_matching::AugmentedPath;

/// max matching = min over S of left vertices of n - |S| + |N(S)|
fn deficiency(n: usize, adj: &[u64]) -> usize {
    let mut best = n;
    for s in 0..1u32 << n {
        let mut nb = 0u64;
        for u in 0..n {
            if s >> u & 1 == 1 {
                nb |= adj[u];
            }
        }
        best = best.min(n - s.count_ones() as usize + nb.count_ones() as usize);
    }
    best
}
fn kuhn(n: usize, m: usize, e: &[(usize, usize)]) -> usize {
    let mut g = vec![vec![]; n];
    for &(u, v) in e {
        g[u].push(v);
    }
    fn go(u: usize, g: &[Vec<usize>], seen: &mut [bool], r: &mut [usize]) -> bool {
        for &v in &g[u] {
            if !seen[v] {
                seen[v] = true;
                if r[v] == usize::MAX || go(r[v], g, seen, r) {
                    r[v] = u;
                    return true;
                }
            }
        }
        false
    }
    let mut r = vec![usize::MAX; m];
    (0..n).filter(|&u| go(u, &g, &mut vec![false; m], &mut r)).count()
}
fn case(cx: &mut Cx, n: usize, m: usize, e: &[(usize, usize)], want: usize) {
    let r = cx.run(
        || format!("sides {n} and {m}, edges in order {e:?}"),
        || {
            let mut a = AugmentedPath::new(n, m);
            for &(u, v) in e {
                a.add_edge(u, v);
            }
            same(|| "solve()".into(), a.solve(), want)?;
            same(|| "solve() again".into(), a.solve(), want)
        },
    );
    if r.is_some() {
        cx.calls(2);
        cx.states(1);
        cx.outcome((n * 10000 + m * 100 + want) as u64);
    }
}
fn edges(n: usize, m: usize, code: u64, how: usize) -> (Vec<(usize, usize)>, Vec<u64>) {
    let mut e = vec![];
    let mut adj = vec![0; n];
    for i in 0..n * m {
        if code >> i & 1 == 1 {
            e.push((i / m, i % m));
            adj[i / m] |= 1 << (i % m);
        }
    }
    match how {
        0 => {}
        1 => e.reverse(),
        _ => e.sort_by_key(|&(u, v)| (v + u * 2) % m),
    }
    (e, adj)
}
struct Inc {
    n: usize,
    m: usize,
    a: AugmentedPath,
    adj: Vec<u64>,
}
fn inc(n: usize, m: usize) -> Inc {
    Inc { n, m, a: AugmentedPath::new(n, m), adj: vec![0; n] }
}
#[derive(Clone, Debug)]
enum Op {
    Solve,
    Add(usize, usize),
}
impl Sys for Inc {
    type Op = Op;
    fn fresh(&self) -> Self {
        inc(self.n, self.m)
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(Inc { n: self.n, m: self.m, a: self.a.clone(), adj: self.adj.clone() });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        #[cfg(vp_hooks)]
        return Some(fp_debug(&(&self.a, &self.adj)));
        #[cfg(not(vp_hooks))]
        None
    }
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![Op::Solve];
        for u in 0..self.n {
            for w in 0..self.m {
                v.push(Op::Add(u, w));
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match *op {
            Op::Add(u, v) => {
                self.a.add_edge(u, v);
                self.adj[u] |= 1 << v;
                Ok(())
            }
            Op::Solve => {
                let g = self.a.solve();
                same(|| "solve()".into(), g, deficiency(self.n, &self.adj))
            }
        }
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        self.apply(&Op::Solve)?;
        self.apply(&Op::Solve)?;
        Ok((2, fp_debug(&self.adj) as u64))
    }
}

fn main() {
    mc::main("C12", false, |thorough| {
        let mut v = vec![];
        v.push(space("small", "all bipartite graphs with sides up to 3 x 5 and 5 x 3 (zero sides included), three edge orders", 36, |c, cx| {
            let (n, m) = (c / 6, c % 6);
            if n * m > 15 {
                return;
            }
            for code in 0..1u64 << (n * m) {
                for how in 0..if m == 0 { 1 } else { 3 } {
                    let (e, adj) = edges(n, m, code, how);
                    case(cx, n, m, &e, deficiency(n, &adj));
                }
            }
        }));
        v.push(space("4 x 4", "all bipartite graphs, three edge orders", 64, |c, cx| {
            for code in (c as u64..1 << 16).step_by(64) {
                for how in 0..3 {
                    let (e, adj) = edges(4, 4, code, how);
                    case(cx, 4, 4, &e, deficiency(4, &adj));
                }
            }
        }));
        v.push(space("4 x 5 and 5 x 4", "all bipartite graphs, one edge order each (three in rotation)", 512, |c, cx| {
            let (n, m) = if c % 2 == 0 { (4, 5) } else { (5, 4) };
            for code in ((c / 2) as u64..1 << 20).step_by(256) {
                let (e, adj) = edges(n, m, code, (code / 256 % 3) as usize);
                case(cx, n, m, &e, deficiency(n, &adj));
            }
        }));
        let orders = if thorough { 3 } else { 1 };
        v.push(space("5 x 5", &format!("all bipartite graphs, {orders} of three edge orders (in rotation)"), 1024, move |c, cx| {
            for code in (c as u64..1 << 25).step_by(1024) {
                for how in 0..orders {
                    let (e, adj) = edges(5, 5, code, ((code / 1024 % 3) as usize + how) % 3);
                    case(cx, 5, 5, &e, deficiency(5, &adj));
                }
            }
        }));
        let len = if thorough { 6 } else { 5 };
        v.push(space("edge lists", &format!("all ordered edge lists with repetition of length 0..={len} on 3 x 3"), 9, move |c, cx| {
            for l in 0..=len {
                for w in words(9, l) {
                    if l > 0 && w[0] != c || l == 0 && c > 0 {
                        continue;
                    }
                    let e: Vec<(usize, usize)> = w.iter().map(|&x| (x / 3, x % 3)).collect();
                    let mut adj = vec![0; 3];
                    for &(u, v) in &e {
                        adj[u] |= 1 << v;
                    }
                    case(cx, 3, 3, &e, deficiency(3, &adj));
                }
            }
        }));
        v.push(space("incremental", "every history of add_edge/solve: up to 5 (thorough 6) calls on 3 x 3, 7 (8) on 2 x 3, 4 (5) on 4 x 4, two solvers alternately; states merged", 4, |c, cx| {
            let x = cx.thorough as usize;
            match c {
                0 => {
                    bfs(cx, "AugmentedPath::new(3, 3)", || inc(3, 3), Bfs::depth(5 + x, true));
                }
                1 => {
                    bfs(cx, "AugmentedPath::new(2, 3)", || inc(2, 3), Bfs::depth(7 + x, true));
                }
                2 => {
                    bfs(cx, "AugmentedPath::new(4, 4)", || inc(4, 4), Bfs::depth(4 + x, true));
                }
                _ => {
                    bfs(cx, "two solvers", || Pair(inc(2, 2), inc(2, 1)), Bfs::depth(5, true));
                }
            }
        }));
        v.push(space("all at once and piecewise", "all 4 x 4 graphs: edges added one by one (two orders) with solve after every edge or every third edge", 64, |c, cx| {
            for code in (c as u64..1 << 16).step_by(64) {
                let (e, _) = edges(4, 4, code, 1 + (code / 64 % 2) as usize);
                let r = cx.run(|| format!("4 x 4, edges in order {e:?}, solve after each / each third"), || {
                    for step in [1, 3] {
                        let mut a = AugmentedPath::new(4, 4);
                        let mut adj = vec![0; 4];
                        for (i, &(u, v)) in e.iter().enumerate() {
                            a.add_edge(u, v);
                            adj[u] |= 1 << v;
                            if i % step == step - 1 || i + 1 == e.len() {
                                same(|| format!("solve() after {} edges", i + 1), a.solve(), deficiency(4, &adj))?;
                            }
                        }
                    }
                    Ok(())
                });
                if r.is_some() {
                    cx.calls(e.len() as u64 * 3);
                    cx.states(1);
                }
            }
        }));
        let fmax = if thorough { 120 } else { 60 };
        v.push(space("families", &format!("8 families of sparse and dense graphs with sides up to {fmax} (square and lopsided), three edge orders, in one and in four instalments (oracle: Kuhn)"), 8 * fmax, move |c, cx| {
            let n = fmax - c / 8;
            let k = c % 8;
            for m in [n, (n + 1) / 2, n + 3] {
                let mut e = vec![];
                for u in 0..n {
                    for v in 0..m {
                        let yes = match k {
                            0 => v <= u,
                            1 => v == u || v == u + 1,
                            2 => v + 1 == u || v == u,
                            3 => mix((u * 1000 + v) as u64) % (m as u64) < 2,
                            4 => (u * v) % 5 == 1,
                            5 => v < 3 || u == v,
                            6 => mix((u * 1000 + v) as u64) % 3 == 0,
                            _ => (u + v) % m <= 1,
                        };
                        if yes {
                            e.push((u, v));
                        }
                    }
                }
                for how in 0..3 {
                    match how {
                        0 => {}
                        1 => e.reverse(),
                        _ => e.sort_by_key(|&(u, v)| mix((u * 77 + v) as u64)),
                    }
                    let want = kuhn(n, m, &e);
                    case(cx, n, m, &e, want);
                    let r = cx.run(|| format!("family {k}, sides {n} and {m}, edge order {how}, four instalments"), || {
                        let mut a = AugmentedPath::new(n, m);
                        for q in 0..4 {
                            for &(u, v) in &e[e.len() * q / 4..e.len() * (q + 1) / 4] {
                                a.add_edge(u, v);
                            }
                            same(|| format!("solve() after instalment {q}"), a.solve(), kuhn(n, m, &e[..e.len() * (q + 1) / 4]))?;
                        }
                        Ok(())
                    });
                    if r.is_some() {
                        cx.calls(4);
                        cx.states(1);
                    }
                }
            }
        }));
        let lens: Vec<usize> = if thorough { vec![400_000, 140_000, 70_001, 40_000, 1000, 300, 257, 256, 255, 130] } else { vec![140_000, 70_001, 40_000, 1000, 300, 257, 256, 255, 130] };
        v.push(space("long", &format!("sides {lens:?}: perfect matchings in four numberings, paths from either end, crowns of stars, all-but-one chains, known answers; all at once, then two more edges"), lens.len() * 8, move |c, cx| {
            let (n, k) = (lens[c / 8], c % 8);
            // edges, number of vertices on the right, answer, answer with two more right vertices hung on left vertex 0 and n - 1
            let (e, m, want): (Vec<(usize, usize)>, usize, usize) = match k {
                0 => ((0..n).map(|i| (i, i)).collect(), n, n),
                1 => ((0..n).map(|i| (i, n - 1 - i)).collect(), n, n),
                2 => ((0..n).rev().flat_map(|i| [(i, i), (i, (i + 1) % n)]).collect(), n, n),
                // the path u0 - v0 - u1 - v1 - ...: the greedy choice is the right neighbour first, or the left
                3 => ((0..n).flat_map(|i| if i > 0 { vec![(i, i - 1), (i, i)] } else { vec![(0, 0)] }).collect(), n, n),
                // one right vertex short: a chain of displacements along the whole path ends in failure
                4 => ((0..n).flat_map(|i| [(i, i.saturating_sub(1)), (i, i.min(n - 2))]).collect(), n - 1, n - 1),
                // many left vertices over few right ones and the reverse
                5 => ((0..n).map(|i| (i, i % 100)).collect(), 100, 100.min(n)),
                6 => ((0..n).map(|i| (i % 100, i)).collect(), n, 100.min(n)),
                // left vertex i sees i / 2: every second one stays free
                _ => ((0..n).map(|i| (i, i / 2)).collect(), n, (n + 1) / 2),
            };
            let r = cx.run(|| format!("family {k}, {n} left vertices"), || {
                let mut a = AugmentedPath::new(n, m + 2);
                for &(u, v) in &e {
                    a.add_edge(u, v);
                }
                same(|| "solve()".into(), a.solve(), want)?;
                a.add_edge(0, m);
                a.add_edge(n - 1, m + 1);
                let more = match k {
                    4 => n,
                    5 => want + 2,
                    6 => want + 1,
                    7 => want + 1 + (n % 2 == 0) as usize,
                    _ => want,
                };
                same(|| "solve() with two more edges".into(), a.solve(), more)
            });
            if r.is_some() {
                cx.calls(2);
                cx.states(1);
                cx.outcome((n * 8 + k) as u64);
            }
        }));
        v.push(space("unions of all small graphs", "one instance made of all 512 graphs on 3 x 3 in 50 edge orders (76800 left vertices), of all 65536 on 4 x 4 (262144), of the 6-edge lists on 3 x 2 (139968); gadgets consecutive or spread, edges gadget by gadget or in step, one or three instalments: the sizes after each", 24, |c, cx| {
            let (kind, spread, step, inst) = (c / 8, c / 4 % 2 == 1, c / 2 % 2 == 1, [1, 3][c % 2]);
            let (a, b) = [(3, 3), (4, 4), (3, 2)][kind];
            let lists: Vec<Vec<(usize, usize)>> = match kind {
                0 => (0..512 * 50u64).map(|x| {
                    let (mut e, _) = edges(3, 3, x % 512, 0);
                    e.sort_by_key(|&(u, v)| mix(x / 512 * 100 + (u * 10 + v) as u64));
                    e
                }).collect(),
                1 => (0..1 << 16).map(|x| edges(4, 4, x, (x % 3) as usize).0).collect(),
                _ => words(6, 6).map(|w| w.iter().map(|&x| (x / 2, x % 2)).collect()).collect(),
            };
            let k = lists.len();
            let r = cx.run(|| format!("{k} gadgets {a} x {b}, spread {spread}, in step {step}, {inst} instalments"), || {
                let mut h = AugmentedPath::new(a * k, b * k);
                let name = |i: usize, u: usize, w: usize| if spread { u * k + i } else { i * w + u };
                for q in 0..inst {
                    let part = |i: usize| &lists[i][lists[i].len() * q / inst..lists[i].len() * (q + 1) / inst];
                    if step {
                        for j in 0..16 {
                            for i in 0..k {
                                if let Some(&(u, v)) = part(i).get(j) {
                                    h.add_edge(name(i, u, a), name(i, v, b));
                                }
                            }
                        }
                    } else {
                        for i in 0..k {
                            for &(u, v) in part(i) {
                                h.add_edge(name(i, u, a), name(i, v, b));
                            }
                        }
                    }
                    let want: usize = lists.iter().map(|e| {
                        let mut adj = vec![0u64; a];
                        for &(u, v) in &e[..e.len() * (q + 1) / inst] {
                            adj[u] |= 1 << v;
                        }
                        deficiency(a, &adj)
                    }).sum();
                    same(|| format!("solve() after instalment {q}"), h.solve(), want)?;
                    same(|| format!("solve() again after instalment {q}"), h.solve(), want)?;
                }
                Ok(())
            });
            if r.is_some() {
                cx.calls(2 * inst as u64);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        let copies = if thorough { 47_000 } else { 23_500 };
        v.push(space("one small graph everywhere", &format!("each of the 512 graphs on 3 x 3, three edge orders, {copies} copies in one instance; vertices consecutive or spread"), 512, move |c, cx| {
            let (mut e, adj) = edges(3, 3, c as u64, 0);
            for how in 0..3 {
                match how {
                    0 => {}
                    1 => e.reverse(),
                    _ => e.sort_by_key(|&(u, v)| ((v + 1) % 3, u)),
                }
                let spread = (c + how) % 2 == 1;
                let want = deficiency(3, &adj) * copies;
                let r = cx.run(|| format!("{copies} copies of 3 x 3, edges {e:?}, spread {spread}"), || {
                    let mut h = AugmentedPath::new(3 * copies, 3 * copies);
                    let name = |i: usize, u: usize| if spread { u * copies + i } else { 3 * i + u };
                    for i in 0..copies {
                        for &(u, v) in &e {
                            h.add_edge(name(i, u), name(i, v));
                        }
                    }
                    same(|| "solve()".into(), h.solve(), want)
                });
                if r.is_some() {
                    cx.calls(1);
                    cx.states(1);
                    cx.outcome((c * 3 + how) as u64);
                }
            }
        }));
        let degs: Vec<usize> = (1..=200).chain(straddling(1 << 17).into_iter().filter(|&d| d > 200)).collect();
        v.push(space("many neighbours", "hubs of every degree to 200 and around powers of two to 2^17: only one neighbour of the hub (first, last, middle) is free or can be freed, the others belong to vertices without a choice; the hub asked first or last, the free neighbour reached directly or over a displacement", degs.len() * 2, move |c, cx| {
            let (d, first) = (degs[degs.len() - 1 - c / 2], c % 2 == 1);
            for free in [0, d / 2, d - 1] {
                for via in [false, true] {
                    // right vertices 0..d see the hub; all but `free` are the only neighbour of a left vertex;
                    // via: the free one is also seen by a left vertex that can move to right vertex d
                    let hub = if first { 0 } else { d };
                    let r = cx.run(|| format!("a hub of degree {d} at place {hub}, neighbour {free} left over, displacement: {via}"), || {
                        let mut a = AugmentedPath::new(d + 2, d + 1);
                        let left = |i: usize| if first { i + 1 } else { i };
                        for i in 0..d {
                            if i != free {
                                a.add_edge(left(i), i);
                            }
                        }
                        if via {
                            a.add_edge(left(free), free);
                            a.add_edge(left(free), d);
                        }
                        let early = if first { None } else { Some(a.solve()) };
                        if let Some(x) = early {
                            same(|| "without the hub".into(), x, d - 1 + via as usize)?;
                        }
                        for i in 0..d {
                            a.add_edge(hub, i);
                        }
                        same(|| "with the hub".into(), a.solve(), d + via as usize)?;
                        // a hub that has no hope, beside it
                        for i in 0..d {
                            if i != free {
                                a.add_edge(d + 1, i);
                            }
                        }
                        same(|| "with a second hub".into(), a.solve(), d + via as usize)?;
                        if !via {
                            a.add_edge(d + 1, d);
                            same(|| "with a second hub that has a neighbour of its own".into(), a.solve(), d + 1)?;
                        }
                        Ok(())
                    });
                    if r.is_some() {
                        cx.calls(4);
                        cx.states(1);
                        cx.outcome((d * 4 + via as usize * 2 + first as usize) as u64);
                    }
                }
            }
        }));
        v
    });
}
