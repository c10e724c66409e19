//! C08 strongly connected components against transitive closure.
use mc::model::*;
use mc::*;
use rust_cp::graph::tarjan::scc;

/// reach[u] = bitset of vertices reachable from u (itself included), up to 256 vertices.
type Bits = [u64; 4];
fn reach(g: &[Vec<usize>]) -> Vec<Bits> {
    let n = g.len();
    let mut r = vec![[0u64; 4]; n];
    for u in 0..n {
        r[u][u / 64] |= 1 << (u % 64);
        for &v in &g[u] {
            r[u][v / 64] |= 1 << (v % 64);
        }
    }
    for k in 0..n {
        let rk = r[k];
        for u in 0..n {
            if r[u][k / 64] >> (k % 64) & 1 == 1 {
                for w in 0..4 {
                    r[u][w] |= rk[w];
                }
            }
        }
    }
    r
}
fn has(b: &Bits, v: usize) -> bool {
    b[v / 64] >> (v % 64) & 1 == 1
}
fn judge(g: &Vec<Vec<usize>>, r: &[Bits], (cnt, c): (usize, Vec<usize>)) -> Result<usize, String> {
    let n = g.len();
    same(|| "length of the component array".into(), c.len(), n)?;
    let mut used = vec![false; cnt];
    for u in 0..n {
        ensure(c[u] < cnt, || format!("component {} of vertex {u} is not below the count {cnt}", c[u]))?;
        used[c[u]] = true;
        for v in 0..u {
            let together = has(&r[u], v) && has(&r[v], u);
            ensure((c[u] == c[v]) == together, || format!("{u} and {v}: components {:?}, mutually reachable: {together}", (c[u], c[v])))?;
        }
        for &v in &g[u] {
            ensure(c[v] <= c[u], || format!("edge {u}->{v} goes from component {} to {}", c[u], c[v]))?;
        }
    }
    ensure(used.iter().all(|&x| x), || format!("count {cnt} but not all numbers used: {c:?}"))?;
    Ok(cnt)
}
fn case(cx: &mut Cx, g: &Vec<Vec<usize>>, r: &[Bits]) {
    let o = cx.run(|| format!("graph {g:?}"), || judge(g, r, scc(g)));
    if let Some(k) = o {
        cx.calls(1);
        cx.states(1);
        cx.outcome((g.len() * 1000 + k) as u64);
    }
}
fn family(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut g = vec![vec![]; n];
    for u in 0..n {
        match k {
            0 => g[u].push((u + 1) % n),
            1 => g[u].push((u + n - 1) % n),
            2 => {
                // chained cycles of length 3, listed forwards
                if u % 3 == 2 { g[u].push(u - 2) }
                if u + 1 < n { g[u].push(u + 1) }
            }
            3 => {
                if u > 0 { g[u].push(u - 1) }
                if u % 4 == 0 && u + 3 < n { g[u].push(u + 3) }
            }
            4 => g[u].extend([u * 2 % n, (u * 2 + 1) % n]),
            5 => g[u].extend([(u * u + 1) % n, (u + n / 2) % n]),
            6 => {
                // two long cycles joined by one edge
                let h = n / 2;
                if u < h { g[u].push((u + 1) % h) } else { g[u].push(h + (u - h + 1) % (n - h)) }
                if u == 0 && h < n { g[u].insert(0, h) }
            }
            7 => {
                if u + 1 < n { g[u].push(u + 1) }
                g[u].push(u / 2);
            }
            8 => {
                if u + 2 < n { g[u].extend([u + 2, u + 1]) }
                if u % 5 == 4 { g[u].push(u - 2) }
            }
            9 => {
                let a = mix(u as u64) as usize % n;
                g[u].push(a);
                if u % 3 == 0 { g[u].push(mix(u as u64 + 999) as usize % n) }
            }
            10 => {
                g[u].push(u);
                if u > 0 { g[u].push((u - 1) / 2) }
                if u == n / 3 { g[u].push(n - 1) }
            }
            _ => {
                if u > 0 { g[u].push(mix(u as u64) as usize % u) }
                if u % 7 == 1 { g[u].push((u + 5) % n) }
                g[u].push(u);
            }
        }
    }
    g
}

fn main() {
    mc::main("C08", false, |thorough| {
        let mut v = vec![];
        v.push(space("0-3 vertices", "all digraphs with self-loops on 0..=3 vertices, three adjacency orders", 4, |n, cx| {
            for code in 0..1u64 << (n * n) {
                let g: Vec<Vec<usize>> = (0..n).map(|u| (0..n).filter(|v| code >> (u * n + v) & 1 == 1).collect()).collect();
                let r = reach(&g);
                for how in 0..3 {
                    case(cx, &reorder(&g, how), &r);
                }
            }
        }));
        v.push(space("4 vertices", "all digraphs with self-loops, four adjacency orders", 64, |c, cx| {
            for code in (c as u64..1 << 16).step_by(64) {
                let g: Vec<Vec<usize>> = (0..4).map(|u| (0..4).filter(|v| code >> (u * 4 + v) & 1 == 1).collect()).collect();
                let r = reach(&g);
                for how in 0..4 {
                    case(cx, &reorder(&g, how), &r);
                }
            }
        }));
        v.push(space("5 vertices", "all loop-free digraphs, adjacency ascending and descending", 256, |c, cx| {
            let arcs: Vec<(usize, usize)> = (0..5).flat_map(|u| (0..5).map(move |v| (u, v))).filter(|&(u, v)| u != v).collect();
            for code in (c as u64..1 << 20).step_by(256) {
                let mut g = vec![vec![]; 5];
                for (i, &(u, v)) in arcs.iter().enumerate() {
                    if code >> i & 1 == 1 {
                        g[u].push(v);
                    }
                }
                let r = reach(&g);
                for how in 0..2 {
                    case(cx, &reorder(&g, how), &r);
                }
            }
        }));
        // n = 6: out-degree at most 1 (quick) or 2 (thorough), every order of the pair
        let n6 = if thorough { 7u64 } else { 6 };
        v.push(space("functional", &format!("all digraphs on 6..={n6} vertices with out-degree at most 1"), 128, move |c, cx| {
            for n in 6..=n6 as usize {
                for code in (c as u64..(n as u64 + 1).pow(n as u32)).step_by(128) {
                    let mut w = vec![0; n];
                    word_into(n + 1, code, &mut w);
                    let g: Vec<Vec<usize>> = w.iter().map(|&x| if x == n { vec![] } else { vec![x] }).collect();
                    case(cx, &g, &reach(&g));
                }
            }
        }));
        v.push(space("out-degree two", "6 vertices, every vertex with none or an ordered pair out of a menu of successors (quick: 7 choices each, thorough: 13)", 128, |c, cx| {
            let menu: Vec<Vec<usize>> = if cx.thorough {
                vec![vec![], vec![1], vec![2], vec![3], vec![4], vec![5], vec![1, 2], vec![2, 1], vec![1, 3], vec![3, 5], vec![5, 1], vec![4, 2], vec![2, 3]]
            } else {
                vec![vec![], vec![1], vec![5], vec![1, 5], vec![2, 1], vec![3, 1], vec![4, 2]]
            };
            let k = menu.len();
            for code in (c as u64..(k as u64).pow(6)).step_by(128) {
                let mut w = vec![0; 6];
                word_into(k, code, &mut w);
                let g: Vec<Vec<usize>> = w.iter().enumerate().map(|(u, &x)| menu[x].iter().map(|d| (u + d) % 6).collect()).collect();
                case(cx, &g, &reach(&g));
            }
        }));
        let len = if thorough { 6 } else { 5 };
        v.push(space("edge lists", &format!("all ordered edge lists (parallel edges, loops) of length 0..={len} on 3 vertices and up to {} on 4", len - 1), 25, move |c, cx| {
            let (n, first) = if c < 9 { (3, c) } else { (4, c - 9) };
            let top = if n == 3 { len } else { len - 1 };
            for l in 0..=top {
                for w in words(n * n, l) {
                    if l > 0 && w[0] != first || l == 0 && first > 0 {
                        continue;
                    }
                    let mut g = vec![vec![]; n];
                    for &e in &w {
                        g[e / n].push(e % n);
                    }
                    case(cx, &g, &reach(&g));
                }
            }
        }));
        let fmax = if thorough { 250 } else { 120 };
        v.push(space("families", &format!("12 parametric families for every size 1..={fmax}, three adjacency orders, vertices relabelled forwards and backwards"), 12 * fmax, move |c, cx| {
            let n = fmax - c / 12;
            let g0 = family(c % 12, n);
            let back: Vec<Vec<usize>> = (0..n).map(|u| g0[n - 1 - u].iter().map(|v| n - 1 - v).collect()).collect();
            for g in [g0, back] {
                let r = reach(&g);
                for how in 0..3 {
                    case(cx, &reorder(&g, how), &r);
                }
            }
        }));
        let big = if thorough { 300_000 } else { 100_000 };
        v.push(space("long", &format!("cycle, chain, chained triangles, star cycles on {big} vertices, star cycles also on 1200000"), 5, move |c, cx| {
            let (n, c) = if c == 4 { (1_200_000, 3) } else { (big / 3 * 3, c) };
            let r = cx.run(|| format!("shape {c} on {n} vertices"), || {
                let mut g = vec![vec![]; n];
                for u in 0..n {
                    match c {
                        0 => g[u].push((u + 1) % n),
                        1 => if u + 1 < n { g[u].push(u + 1) },
                        2 => {
                            if u + 1 < n { g[u].push(u + 1) }
                            if u % 3 == 2 { g[u].push(u - 2) }
                        }
                        _ => {
                            if u > 0 {
                                g[0].push(u);
                                g[u].push(0);
                            }
                        }
                    }
                }
                let (cnt, col) = scc(&g);
                let want = match c {
                    0 | 3 => 1,
                    1 => n,
                    _ => n / 3,
                };
                same(|| "number of components".into(), cnt, want)?;
                for u in 0..n {
                    let e = match c {
                        0 | 3 => 0,
                        1 => n - 1 - u,
                        _ => n / 3 - 1 - u / 3,
                    };
                    same(|| format!("component of {u}"), col[u], e)?;
                }
                Ok(())
            });
            if r.is_some() {
                cx.calls(1);
                cx.states(1);
            }
        }));
        v.push(space("unions of all small graphs", "one graph made of all 65536 digraphs on 4 vertices (262144 vertices), of the 512 on 3 vertices 60 times over, and of those on 4 vertices with at most 3 arcs hung from a chain, each gadget's vertices consecutive or spread by a stride; adjacency ascending and descending: components, numbering and order judged on every pair within a gadget and every arc", 12, |c, cx| {
            let (kind, spread, down) = (c / 4, c / 2 % 2 == 1, c % 2 == 1);
            let r = cx.run(|| format!("union {kind}, {}, adjacency {}", ["consecutive", "spread"][spread as usize], ["ascending", "descending"][down as usize]), || {
                let k = if kind == 1 { 3 } else { 4 };
                let codes: Vec<u64> = match kind {
                    0 => (0..1 << 16).collect(),
                    1 => (0..512 * 60).map(|x| x % 512).collect(),
                    _ => (0..60_000u64).map(|x| x % (1 << 16)).filter(|x| x.count_ones() <= 3).cycle().take(20_000).collect(),
                };
                let m = codes.len();
                let n = m * k;
                let at = |i: usize, u: usize| if spread { u * m + i } else { i * k + u };
                let mut g = vec![vec![]; n];
                let mut inside = vec![];
                for (i, &code) in codes.iter().enumerate() {
                    let h: Vec<Vec<usize>> = (0..k).map(|u| (0..k).filter(|v| code >> (u * k + v) & 1 == 1).collect()).collect();
                    for u in 0..k {
                        g[at(i, u)].extend(h[u].iter().map(|&v| at(i, v)));
                        if down {
                            g[at(i, u)].reverse();
                        }
                    }
                    inside.push(h);
                    if kind == 2 && i + 1 < m && i % 50 != 49 {
                        // towards the next gadget, listed first or last
                        let (a, b) = (at(i, code as usize % k), at(i + 1, i % k));
                        if i % 2 == 0 { g[a].push(b) } else { g[a].insert(0, b) }
                    }
                }
                let (cnt, col) = scc(&g);
                same(|| "length of the component array".into(), col.len(), n)?;
                let mut owner = vec![usize::MAX; cnt];
                for (i, h) in inside.iter().enumerate() {
                    let r = reach(h);
                    for u in 0..k {
                        let x = col[at(i, u)];
                        ensure(x < cnt, || format!("component {x} of vertex {} is not below the count {cnt}", at(i, u)))?;
                        ensure(owner[x] == usize::MAX || owner[x] == i, || format!("component {x} is used by vertices that do not reach each other"))?;
                        owner[x] = i;
                        for v in 0..u {
                            let together = has(&r[u], v) && has(&r[v], u);
                            ensure((x == col[at(i, v)]) == together, || format!("{} and {}: mutually reachable {together}", at(i, u), at(i, v)))?;
                        }
                    }
                }
                ensure(owner.iter().all(|&x| x != usize::MAX), || format!("count {cnt}, but not every number below it is used"))?;
                for u in 0..n {
                    for &v in &g[u] {
                        ensure(col[v] <= col[u], || format!("edge {u}->{v} goes from component {} to {}", col[u], col[v]))?;
                    }
                }
                Ok(cnt)
            });
            if let Some(k) = r {
                cx.calls(1);
                cx.states(1);
                cx.outcome(k as u64);
            }
        }));
        let copies = if thorough { 47_000 } else { 23_500 };
        v.push(space("one small graph everywhere", &format!("each of the 512 digraphs on 3 vertices, {copies} copies in one graph, apart or each with an arc to the next (from and to vertices in rotation); vertices consecutive or spread"), 512, move |c, cx| {
            let h: Vec<Vec<usize>> = (0..3).map(|u| (0..3).filter(|v| c >> (u * 3 + v) & 1 == 1).collect()).collect();
            let reach3 = reach(&h);
            for chained in [false, true] {
                let spread = (c.count_ones() as usize + chained as usize) % 2 == 1;
                let r = cx.run(|| format!("{copies} copies of {h:?}, chained {chained}, spread {spread}"), || {
                    let at = |i: usize, u: usize| if spread { u * copies + i } else { i * 3 + u };
                    let mut g = vec![vec![]; 3 * copies];
                    for i in 0..copies {
                        for u in 0..3 {
                            g[at(i, u)].extend(h[u].iter().map(|&v| at(i, v)));
                        }
                        if chained && i + 1 < copies && i % 100 != 99 {
                            g[at(i, i % 3)].insert(0, at(i + 1, i / 3 % 3));
                        }
                    }
                    let (cnt, col) = scc(&g);
                    same(|| "length of the component array".into(), col.len(), 3 * copies)?;
                    let mut owner = vec![usize::MAX; cnt];
                    for i in 0..copies {
                        for u in 0..3 {
                            let x = col[at(i, u)];
                            ensure(x < cnt, || format!("component {x} of vertex {} is not below the count {cnt}", at(i, u)))?;
                            ensure(owner[x] == usize::MAX || owner[x] == i, || format!("component {x} is used by vertices that do not reach each other"))?;
                            owner[x] = i;
                            for v in 0..u {
                                let together = has(&reach3[u], v) && has(&reach3[v], u);
                                ensure((x == col[at(i, v)]) == together, || format!("{} and {}: mutually reachable {together}", at(i, u), at(i, v)))?;
                            }
                        }
                    }
                    ensure(owner.iter().all(|&x| x != usize::MAX), || format!("count {cnt}, but not every number below it is used"))?;
                    for u in 0..3 * copies {
                        for &v in &g[u] {
                            ensure(col[v] <= col[u], || format!("edge {u}->{v} goes from component {} to {}", col[u], col[v]))?;
                        }
                    }
                    Ok(cnt)
                });
                if let Some(k) = r {
                    cx.calls(1);
                    cx.states(1);
                    cx.outcome(k as u64);
                }
            }
        }));
        let top = if thorough { 300 } else { 130 };
        v.push(space("cycles entered everywhere", &format!("cycles of every length 2..={top} through the vertices by every stride, an arc from outside to every vertex in turn and one to a vertex outside, those two labelled first or last"), top - 1, move |c, cx| {
            let n = c + 2;
            for s in (1..n).filter(|&s| mc::modi::gcd_u(s as u64, n as u64) == 1) {
                let r = cx.run(|| format!("cycle of {n} vertices by stride {s}, entered at every vertex"), || {
                    for p in 0..n {
                        let low = (p + s) % 2;
                        // vertices low.. low + n are the cycle; the other two are 0 and n + 1, or n and n + 1
                        let (from, to) = if low == 1 { (0, n + 1) } else { (n + p / 2 % 2, n + 1 - p / 2 % 2) };
                        let mut g = vec![vec![]; n + 2];
                        for i in 0..n {
                            g[low + i].push(low + (i + s) % n);
                        }
                        g[from].push(low + p);
                        let q = low + (p * 7 + s) % n;
                        if p % 3 == 0 { g[q].insert(0, to) } else { g[q].push(to) }
                        let (cnt, col) = scc(&g);
                        ensure(cnt == 3 && col.len() == n + 2, || format!("entered at {p}: {cnt} components of {} vertices, expected 3 of {}", col.len(), n + 2))?;
                        ensure(col[to] == 0 && col[from] == 2 && (low..low + n).all(|u| col[u] == 1), || format!("entered at {p}, arc {from}->{}, cycle {low}..{}, arc {q}->{to}: numbers {col:?}", low + p, low + n))?;
                    }
                    Ok(())
                });
                if r.is_some() {
                    cx.calls(n as u64);
                    cx.states(n as u64);
                    cx.outcome(s as u64);
                }
            }
        }));
        v
    });
}
