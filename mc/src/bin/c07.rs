//! C07 Dijkstra against Bellman-Ford.
use mc::model::*;
use mc::*;
use rust_cp::graph::shortest_path::dijkstra;

type G = Vec<Vec<(usize, usize)>>;
fn bellman_ford(g: &G, s: usize) -> Vec<Option<usize>> {
    let n = g.len();
    let mut d: Vec<Option<u128>> = vec![None; n];
    d[s] = Some(0);
    loop {
        let mut again = false;
        for u in 0..n {
            if let Some(x) = d[u] {
                for &(v, c) in &g[u] {
                    let y = x + c as u128;
                    if d[v].map_or(true, |z| y < z) {
                        d[v] = Some(y);
                        again = true;
                    }
                }
            }
        }
        if !again {
            break;
        }
    }
    d.into_iter().map(|x| x.map(|y| y as usize)).collect()
}
fn case(cx: &mut Cx, g: &G, s: usize) {
    let r = cx.run(
        || format!("graph {g:?}, source {s}"),
        || {
            let d = dijkstra(g, s);
            let e = bellman_ford(g, s);
            same(|| "distances".into(), &d, &e)?;
            Ok(e)
        },
    );
    if let Some(e) = r {
        cx.calls(1);
        cx.states(1);
        let mut h = Fp::new();
        for x in e {
            h.u64(x.map_or(u64::MAX, |y| y as u64));
        }
        cx.outcome(h.0);
    }
}
/// Certificate: the source has 0, no arc improves on a distance, every vertex with a distance is
/// reached from the source through tight arcs, and no vertex without one is entered from one with.
fn local(g: &G, s: usize, d: &[Option<usize>]) -> Result<(), String> {
    let n = g.len();
    same(|| "length".into(), d.len(), n)?;
    same(|| format!("distance of the source {s}"), d[s], Some(0))?;
    let mut seen = vec![false; n];
    let mut todo = vec![s];
    seen[s] = true;
    while let Some(u) = todo.pop() {
        let x = d[u].unwrap();
        for &(v, w) in &g[u] {
            let Some(y) = d[v] else { return Err(format!("{v} has no distance, but {u} has {x} and an arc to it")) };
            ensure(y <= x + w, || format!("distance {y} of {v}, but {u} has {x} and an arc of weight {w}"))?;
            if y == x + w && !seen[v] {
                seen[v] = true;
                todo.push(v);
            }
        }
    }
    match (0..n).find(|&v| d[v].is_some() && !seen[v]) {
        Some(v) => Err(format!("distance {:?} of {v} is not the length of a path", d[v])),
        None => Ok(()),
    }
}
/// Graph number `code` over the given arcs; each arc is absent (0) or has weights[k - 1].
fn graph(n: usize, arcs: &[(usize, usize)], weights: &[usize], mut code: u64) -> G {
    let mut g = vec![vec![]; n];
    let k = weights.len() as u64 + 1;
    for &(u, v) in arcs {
        let d = (code % k) as usize;
        code /= k;
        if d > 0 {
            g[u].push((v, weights[d - 1]));
        }
    }
    g
}
fn arcs(n: usize, loops: bool) -> Vec<(usize, usize)> {
    (0..n).flat_map(|u| (0..n).map(move |v| (u, v))).filter(|&(u, v)| loops || u != v).collect()
}
fn family(k: usize, n: usize) -> G {
    let mut g = vec![vec![]; n];
    for u in 0..n {
        for v in 0..n {
            let (lo, hi) = (u.min(v), u.max(v));
            let w = match k {
                // every shortcut is worse than the chain: each vertex is improved many times
                0 if u < v => Some((v - u) * (v - u)),
                1 if u > v => Some((u - v) * (u - v) + 1),
                2 if hi - lo <= 2 => Some((u * 7 + v * 3) % 5),
                3 => Some(mix((u * n + v) as u64) as usize % 1000),
                4 if (u * 13 + v * 7) % 5 == 0 => Some(mix((u * n + v) as u64) as usize % 10),
                5 if v == (u + 1) % n || v == u / 2 => Some((u * 5) % 7),
                6 if hi == lo + 1 || hi == lo + 8 => Some(1 + (mix((u * n + v) as u64) % 3) as usize),
                7 if u < v => Some(2 * (n - u) + (v - u - 1) * 3 % 11),
                8 if u != v => Some(if u + 1 == v { 1 } else { 1 << 40 }),
                9 if u < v => Some(1 << (n.min(60) - u.min(50))),
                10 if u <= v => Some(0),
                11 if mix((u * n + v) as u64) % (n as u64) < 3 => Some(mix((v * n + u) as u64) as usize % 4),
                _ => None,
            };
            if let Some(w) = w {
                g[u].push((v, w));
            }
        }
    }
    g
}

fn main() {
    mc::main("C07", false, |thorough| {
        let mut v = vec![];
        v.push(space("1-2 vertices", "all graphs with self-loops, weights absent/0/1/2/7", 2, |c, cx| {
            let n = c + 1;
            let a = arcs(n, true);
            for code in 0..5u64.pow(a.len() as u32) {
                let g = graph(n, &a, &[0, 1, 2, 7], code);
                for s in 0..n {
                    case(cx, &g, s);
                }
            }
        }));
        v.push(space("3 vertices", "all graphs with self-loops, weights absent/0/1/3, three adjacency orders, every source", 64, |c, cx| {
            let a = arcs(3, true);
            for code in (c as u64..4u64.pow(9)).step_by(64) {
                let g = graph(3, &a, &[0, 1, 3], code);
                for how in 0..3 {
                    let h = reorder(&g, how);
                    for s in 0..3 {
                        case(cx, &h, s);
                    }
                }
            }
        }));
        let w4: Vec<Vec<usize>> = if thorough { vec![vec![0, 1, 3], vec![1, 2, 5]] } else { vec![vec![1, 3], vec![0, 2], vec![2, 5]] };
        let k4 = w4.len();
        v.push(space("4 vertices", &format!("all loop-free graphs, weights absent or in {w4:?}, every source"), 128 * k4, move |c, cx| {
            let a = arcs(4, false);
            let w = &w4[c / 128];
            for code in ((c % 128) as u64..(w.len() as u64 + 1).pow(12)).step_by(128) {
                let g = graph(4, &a, w, code);
                for s in 0..4 {
                    case(cx, &g, s);
                }
            }
        }));
        v.push(space("5 vertices", "all acyclic-ordered graphs (arcs u<v) with weights absent/1/2/6, relabelled three ways, from the first vertex", 128, |c, cx| {
            let a: Vec<(usize, usize)> = arcs(5, false).into_iter().filter(|(u, v)| u < v).collect();
            let perms = [[0, 1, 2, 3, 4], [0, 4, 3, 2, 1], [2, 0, 4, 1, 3]];
            for code in (c as u64..4u64.pow(10)).step_by(128) {
                let p = perms[(code / 128 % 3) as usize];
                let b: Vec<(usize, usize)> = a.iter().map(|&(u, v)| (p[u], p[v])).collect();
                let g = graph(5, &b, &[1, 2, 6], code);
                case(cx, &g, p[0]);
            }
        }));
        if thorough {
            v.push(space("5 vertices, all arcs", "all loop-free graphs on 5 vertices with weights absent/2 or /1 by arc parity, first source", 256, |c, cx| {
                let a = arcs(5, false);
                for code in (c as u64..1u64 << 20).step_by(256) {
                    let mut g = vec![vec![]; 5];
                    for (i, &(u, v)) in a.iter().enumerate() {
                        if code >> i & 1 == 1 {
                            g[u].push((v, [1, 3, 2, 7, 0][(i * 3 + u) % 5]));
                        }
                    }
                    case(cx, &g, 0);
                    case(cx, &g, 3);
                }
            }));
        }
        let len = if thorough { 5 } else { 4 };
        v.push(space("edge lists", &format!("all ordered edge lists (parallel edges, loops) of length 0..={len} on 3 vertices, weights 0/1/3, first source"), 27, move |c, cx| {
            for l in 0..=len {
                for w in words(27, l) {
                    if l > 0 && w[0] != c || l == 0 && c > 0 {
                        continue;
                    }
                    let mut g = vec![vec![]; 3];
                    for &e in &w {
                        g[e / 9].push((e / 3 % 3, [0, 1, 3][e % 3]));
                    }
                    case(cx, &g, 0);
                }
            }
        }));
        let fmax = if thorough { 120 } else { 60 };
        v.push(space("families", &format!("12 parametric families (quadratic shortcuts, grids, dense, sparse, zero weights, powers of two) for every size 1..={fmax}, every source, two adjacency orders"), 12 * fmax, move |c, cx| {
            let g = family(c % 12, fmax - c / 12);
            for how in 0..2 {
                let h = reorder(&g, how);
                for s in 0..g.len() {
                    case(cx, &h, s);
                }
            }
        }));
        v.push(space("large weights", "all graphs on 3 vertices with weights absent / 2^62 / 2^62-1 / 2^31 / 2^32 (path sums of up to three edges below 2^64), every source", 16, |c, cx| {
            let a = arcs(3, false);
            for code in (c as u64..5u64.pow(6)).step_by(16) {
                let g = graph(3, &a, &[1 << 62, (1 << 62) - 1, 1 << 31, 1 << 32], code);
                for s in 0..3 {
                    case(cx, &g, s);
                }
            }
            if c == 0 {
                // the largest representable distance
                for g in [vec![vec![(1, usize::MAX)], vec![]], vec![vec![(1, usize::MAX - 5), (2, usize::MAX)], vec![(2, 5), (2, 4)], vec![]]] {
                    case(cx, &g, 0);
                    case(cx, &g, 1);
                }
            }
        }));
        let bigs: [usize; 2] = if thorough { [4_300_000, 400_000] } else { [1_100_000, 150_000] };
        v.push(space("long", &format!("chain, star, ladder and binary-tree graphs on {bigs:?} vertices"), 8, move |c, cx| {
            let (n, c) = (bigs[c / 4], c % 4);
            let r = cx.run(|| format!("shape {c} on {n} vertices"), || {
                let mut g = vec![vec![]; n];
                let mut e = vec![Some(0); n];
                for i in 1..n {
                    let (p, w) = match c {
                        0 => (i - 1, i % 7),
                        1 => (0, i % 1000),
                        2 => (i.saturating_sub(2), 3),
                        _ => ((i - 1) / 2, i),
                    };
                    e[i] = Some(e[p].unwrap() + w);
                    g[p].push((i, w));
                    g[i].push((p, 0));
                    // a useless longer parallel edge
                    g[p].push((i, w + 1));
                }
                let d = dijkstra(&g, 0);
                ensure(d == e, || format!("first difference at {:?}", (0..n).find(|&i| d[i] != e[i])))
            });
            if r.is_some() {
                cx.calls(1);
                cx.states(1);
            }
        }));
        v.push(space("every vertex, every distance", "star on 100001 vertices with distances 0, 1, 2, ... (worse parallel arcs before and after, arcs through a hub, back, and between neighbours); chain of 6000 and 70000 vertices where every vertex carries a zero-weight cycle and a shortcut pair; all graphs on 3 vertices (weights absent/0/1/3) hung from one source on an ascending chain: judged by local conditions (no arc improves, every distance is attained through tight arcs)", 6, |c, cx| {
            let r = cx.run(|| format!("construction {c}"), || {
                let mut g: G = vec![];
                let s;
                match c {
                    0 | 1 => {
                        // star with centre 0 or n - 1
                        let n = 100_001;
                        s = if c == 0 { 0 } else { n - 1 };
                        g = vec![vec![]; n];
                        let hub = if c == 0 { 3 } else { 2 };
                        for i in 0..n - 1 {
                            let x = if c == 0 { i + 1 } else { i };
                            // three parallel arcs, the middle one least; some leaves are nearer through a hub
                            g[s].extend([(x, i + 1), (x, i), (x, i + 2)]);
                            if i != 2 {
                                g[hub].push((x, if i % 2 == 1 && i > 4 { i - 3 } else { i }));
                            }
                            g[x].push((s, i % 3));
                            g[x].push(((x + 1).min(n - 1), (i * 7) % 4));
                            g[x].push((x, 0));
                        }
                    }
                    2 | 3 => {
                        // spine vertices 3 i, each with a zero-weight triangle
                        let k = if c == 2 { 6000 } else { 70_000 };
                        s = 0;
                        g = vec![vec![]; 3 * k];
                        for i in 0..k {
                            g[3 * i].extend([(3 * i + 1, 0), (3 * i + 2, 1)]);
                            g[3 * i + 1].extend([(3 * i + 2, 0), (3 * i, 0)]);
                            g[3 * i + 2].push((3 * i, 0));
                            if i + 1 < k {
                                g[3 * i].push((3 * i + 3, 1));
                                g[3 * i + 2].push((3 * i + 5, 1));
                            }
                            if i + 2 < k {
                                g[3 * i + 1].push((3 * i + 6, 2 + i % 2));
                                g[3 * i + 6 + 2].push((3 * i + 1, 0));
                            }
                        }
                    }
                    _ => {
                        // all graphs on 3 vertices, one after another along a chain of their last vertices
                        let a = arcs(3, false);
                        s = if c == 4 { 0 } else { 4usize.pow(6) * 3 };
                        let off = (c == 4) as usize;
                        g = vec![vec![]; 4usize.pow(6) * 3 + 1];
                        for code in 0..4u64.pow(6) {
                            let at = off + 3 * code as usize;
                            for (u, l) in graph(3, &a, &[0, 1, 3], code).into_iter().enumerate() {
                                g[at + u].extend(l.into_iter().map(|(v, w)| (at + v, w)));
                            }
                            g[s].push((at, code as usize));
                            g[s].push((at + 1, code as usize + 2));
                        }
                    }
                }
                let d = dijkstra(&g, s);
                local(&g, s, &d)
            });
            if r.is_some() {
                cx.calls(1);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        v
    });
}
