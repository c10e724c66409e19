//! C09 binary lifting against parent walks.
use mc::model::*;
use mc::*;
use rust_cp::graph::binary_lifting::BinaryLifting;

struct Rooted {
    par: Vec<usize>,
    dep: Vec<usize>,
    size: Vec<usize>,
    lca: Vec<Vec<usize>>,
}
fn rooted(g: &[Vec<usize>], root: usize) -> Rooted {
    let n = g.len();
    let (par, dep) = hang(g, root);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&u| dep[u]);
    let mut size = vec![1; n];
    for &u in order.iter().rev() {
        if par[u] != u {
            size[par[u]] += size[u];
        }
    }
    let mut lca = vec![vec![0; n]; n];
    for (i, &u) in order.iter().enumerate() {
        lca[u][u] = u;
        for &v in &order[..i] {
            let a = lca[par[u]][v];
            lca[u][v] = a;
            lca[v][u] = a;
        }
    }
    Rooted { par, dep, size, lca }
}
fn judge(g: &Vec<Vec<usize>>, root: usize, m: &Rooted) -> Result<u64, String> {
    let n = g.len();
    let b = BinaryLifting::from(g, root);
    for u in 0..n {
        same(|| format!("dep[{u}]"), b.dep[u], m.dep[u])?;
        same(|| format!("number of levels of pa[{u}]"), b.pa[u].len(), b.level)?;
        let mut a = u;
        let mut step = 0;
        for i in 0..b.level {
            while step < 1usize << i {
                if m.par[a] == a {
                    break;
                }
                a = m.par[a];
                step += 1;
            }
            same(|| format!("pa[{u}][{i}]"), b.pa[u][i], a)?;
        }
        ensure(b.tin[u] < n && b.tout[u] >= b.tin[u] && b.tout[u] - b.tin[u] == m.size[u], || format!("times of {u}: {}..{}, subtree size {}", b.tin[u], b.tout[u], m.size[u]))?;
        ensure(m.par[u] == u || (b.tin[m.par[u]] < b.tin[u] && b.tout[u] <= b.tout[m.par[u]]), || format!("times of {u} do not nest in its parent's"))?;
    }
    let mut t = b.tin.clone();
    t.sort();
    ensure(t.iter().enumerate().all(|(i, &x)| i == x), || "entry times are not distinct".into())?;
    for u in 0..n {
        for v in 0..n {
            let l = m.lca[u][v];
            let g = b.is_ancestor(u, v);
            ensure(g == (l == u), || format!("is_ancestor({u},{v}) = {g}"))?;
            let g = b.lca(u, v);
            ensure(g == l, || format!("lca({u},{v}) = {g}, expected {l}"))?;
            let d = m.dep[u] + m.dep[v] - 2 * m.dep[l];
            let g = b.dis(u, v);
            ensure(g == d, || format!("dis({u},{v}) = {g}, expected {d}"))?;
        }
    }
    Ok((3 * n * n + n * (3 + b.level)) as u64)
}
fn case(cx: &mut Cx, g: &Vec<Vec<usize>>, root: usize, m: &Rooted) {
    let r = cx.run(|| format!("tree {g:?}, root {root}"), || judge(g, root, m));
    if let Some(k) = r {
        cx.calls(k);
        cx.states(1);
        let mut h = Fp::new();
        for &d in &m.dep {
            h.u64(d as u64);
        }
        cx.outcome(h.0);
    }
}

fn main() {
    mc::main("C09", false, |thorough| {
        let mut v = vec![];
        let nmax = 8;
        for n in 1..=nmax {
            v.push(space(&format!("trees on {n}"), "all labelled trees, every root, every ordered pair of vertices; adjacency ascending and descending", 64.min(tree_count(n) as usize), move |c, cx| {
                for i in (c as u64..tree_count(n)).step_by(64.min(tree_count(n) as usize)) {
                    let g = nth_tree(n, i);
                    for root in 0..n {
                        let m = rooted(&g, root);
                        for how in 0..2 {
                            case(cx, &reorder(&g, how), root, &m);
                        }
                    }
                }
            }));
        }
        let fmax = if thorough { 400 } else { 200 };
        v.push(space("families", &format!("12 tree families for every size 1..={fmax}, roots at both ends, the middle and a quarter; every ordered pair"), FAMILIES * fmax, move |c, cx| {
            let n = fmax - c / FAMILIES;
            let g = family_tree(c % FAMILIES, n);
            let mut roots = vec![0, n - 1, n / 2, n / 4];
            roots.sort();
            roots.dedup();
            for root in roots {
                let m = rooted(&g, root);
                case(cx, &reorder(&g, root % 3), root, &m);
            }
        }));
        let mut sizes: Vec<usize> = straddling(if thorough { 1 << 15 } else { 1 << 13 }).into_iter().filter(|&n| n > 200).collect();
        sizes.extend([1 << 16, (1 << 16) + 1, (1 << 16) + 2, (1 << 17) + 1]);
        let deep: &[usize] = if thorough { &[(1 << 20) + 3, (1 << 19) + 2, (1 << 18) + 1, (1 << 17) + 5] } else { &[(1 << 18) + 1, (1 << 17) + 5] };
        sizes.sort_by_key(|&n| std::cmp::Reverse(n));
        v.push(space("large", "chain, broom, caterpillar and binary trees with sizes within 2 of powers of two (also around 2^16 and 2^17), rooted at either end: pairs of boundary vertices", sizes.len() * 4, move |c, cx| {
            let n = sizes[c / 4];
            let shape = [0, 5, 4, 2][c % 4];
            let g = family_tree(shape, n);
            for root in [0, n - 1] {
                let (par, dep) = hang(&g, root);
                let r = cx.run(|| format!("family {shape} on {n} vertices, root {root}"), || {
                    let b = BinaryLifting::from(&g, root);
                    let mut idx = straddling(n - 1);
                    idx.extend(straddling(n - 1).iter().map(|x| n - 1 - x));
                    idx.sort();
                    idx.dedup();
                    if n > 40_000 {
                        idx = idx.into_iter().enumerate().filter(|(i, u)| i % 4 == 0 || (65533..65538).contains(u) || u + 2 >= n).map(|x| x.1).collect();
                    }
                    let mut k = 0;
                    // ancestors of each boundary vertex, by walking
                    for &u in &idx {
                        let mut a = u;
                        let mut step = 0usize;
                        for i in 0..b.level {
                            while step < 1 << i && par[a] != a {
                                a = par[a];
                                step += 1;
                            }
                            same(|| format!("pa[{u}][{i}]"), b.pa[u][i], a)?;
                        }
                        let mut mark = vec![false; n];
                        let mut x = u;
                        loop {
                            mark[x] = true;
                            if par[x] == x {
                                break;
                            }
                            x = par[x];
                        }
                        for &w in idx.iter().step_by(3) {
                            let mut y = w;
                            while !mark[y] {
                                y = par[y];
                            }
                            same(|| format!("lca({u},{w})"), b.lca(u, w), y)?;
                            same(|| format!("lca({w},{u})"), b.lca(w, u), y)?;
                            same(|| format!("dis({w},{u})"), b.dis(w, u), dep[u] + dep[w] - 2 * dep[y])?;
                            same(|| format!("is_ancestor({w},{u})"), b.is_ancestor(w, u), y == w)?;
                            k += 4;
                        }
                    }
                    Ok(k)
                });
                if let Some(k) = r {
                    cx.calls(k);
                    cx.states(1);
                    cx.outcome((n * 2 + (root > 0) as usize) as u64);
                }
            }
        }));
        let sizes: Vec<usize> = if thorough { vec![150_000, 80_000, 6000] } else { vec![80_000, 6000] };
        v.push(space("every vertex", &format!("10 composite trees (all small rooted trees under a hub or along a spine, caterpillars, chains of every length) with {sizes:?} vertices, adjacency ascending and descending: depth, ancestors and times of every vertex; lca, distance and ancestry of every vertex with some 15 others, both ways"), COMPOSITES * 2 * sizes.len(), move |c, cx| {
            let (n, how, k) = (sizes[c / COMPOSITES / 2], c / COMPOSITES % 2, c % COMPOSITES);
            if k <= 2 && n != 6000 {
                return;
            }
            let (g, root, name) = composite(k, n);
            let g = reorder(&g, how);
            let m = Tour::new(&g, root);
            let r = cx.run(|| format!("{name} (composite {k} on {} vertices, adjacency order {how}), root {root}", g.len()), || {
                let b = BinaryLifting::from(&g, root);
                let n = g.len();
                let mut calls = 0;
                let mut seen = vec![false; n];
                for u in 0..n {
                    same(|| format!("dep[{u}]"), b.dep[u], m.dep[u])?;
                    same(|| format!("number of levels of pa[{u}]"), b.pa[u].len(), b.level)?;
                    same(|| format!("pa[{u}][0]"), b.pa[u][0], m.par[u])?;
                    for i in 1..b.level {
                        same(|| format!("pa[{u}][{i}]"), b.pa[u][i], b.pa[b.pa[u][i - 1]][i - 1])?;
                    }
                    ensure(b.tin[u] < n && b.tout[u] >= b.tin[u] && b.tout[u] - b.tin[u] == m.size[u] && !seen[b.tin[u]], || format!("times of {u}: {}..{}, subtree size {}", b.tin[u], b.tout[u], m.size[u]))?;
                    seen[b.tin[u]] = true;
                    let p = m.par[u];
                    ensure(p == u || (b.tin[p] < b.tin[u] && b.tout[u] <= b.tout[p]), || format!("times of {u} do not nest in its parent's"))?;
                    for v in m.partners(u) {
                        let l = m.lca(u, v);
                        let d = m.dep[u] + m.dep[v] - 2 * m.dep[l];
                        same(|| format!("lca({u},{v}), lca({v},{u})"), (b.lca(u, v), b.lca(v, u)), (l, l))?;
                        same(|| format!("dis({u},{v}), dis({v},{u})"), (b.dis(u, v), b.dis(v, u)), (d, d))?;
                        same(|| format!("is_ancestor({u},{v}), is_ancestor({v},{u})"), (b.is_ancestor(u, v), b.is_ancestor(v, u)), (l == u, l == v))?;
                        calls += 6;
                    }
                }
                Ok(calls + (n * (3 + b.level)) as u64)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome((g.len() * 100 + c % COMPOSITES) as u64);
            }
        }));
        v.push(space("deepest", &format!("paths of {deep:?} vertices rooted at an end, with and without a leaf on every fifth vertex: every level of the longest jumps from every thousandth vertex; lca, distance and ancestry of the leaves and the path around powers of two"), deep.len() * 2, move |c, cx| {
            let (n, legs) = (deep[c / 2], c % 2 == 1);
            // vertices 0..n are the path, the leaves follow
            let mut g: Vec<Vec<usize>> = (0..n).map(|i| [i.wrapping_sub(1), i + 1].into_iter().filter(|&x| x < n).collect()).collect();
            let mut leaf = vec![usize::MAX; n];
            if legs {
                for i in (0..n).step_by(5) {
                    leaf[i] = g.len();
                    let l = g.len();
                    g[i].push(l);
                    g.push(vec![i]);
                }
            }
            let r = cx.run(|| format!("path of {n}, leaves: {legs}"), || {
                let b = BinaryLifting::from(&g, 0);
                let mut k = 0;
                for u in (0..n).step_by(1009).chain(n - 3..n) {
                    same(|| format!("dep[{u}]"), b.dep[u], u)?;
                    for i in 0..b.level {
                        same(|| format!("pa[{u}][{i}]"), b.pa[u][i], u.saturating_sub(1 << i))?;
                        k += 1;
                    }
                }
                ensure(1 << b.level >= n, || format!("{} levels for depth {}", b.level, n - 1))?;
                let mut at = straddling(n - 1);
                at.extend(straddling(n - 1).iter().map(|x| n - 1 - x));
                at.sort();
                at.dedup();
                for &x in &at {
                    let x5 = x / 5 * 5;
                    for &y in &at {
                        same(|| format!("lca({x},{y})"), b.lca(x, y), x.min(y))?;
                        same(|| format!("dis({x},{y})"), b.dis(x, y), x.abs_diff(y))?;
                        same(|| format!("is_ancestor({x},{y})"), b.is_ancestor(x, y), x <= y)?;
                        if legs {
                            let l = leaf[x5];
                            same(|| format!("lca({l},{y})"), b.lca(l, y), x5.min(y))?;
                            same(|| format!("lca({y},{l})"), b.lca(y, l), x5.min(y))?;
                            same(|| format!("dis({l},{y})"), b.dis(l, y), x5.abs_diff(y) + 1)?;
                            same(|| format!("is_ancestor({y},{l})"), b.is_ancestor(y, l), y <= x5)?;
                            k += 4;
                        }
                        k += 3;
                    }
                }
                Ok(k)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome((n * 2 + legs as usize) as u64);
            }
        }));
        v.push(space("widest", "stars of 70000, 140000 and 1100000 vertices (hub first or last as root, or a leaf as root), and hubs of 70000 chains of two: depth, ancestors, lca, distance and ancestry of boundary vertices and all pairs of neighbours in number", 12, |c, cx| {
            let (n, k) = ([1_100_000usize, 140_000, 70_000][c / 4], c % 4);
            let hub = if k == 1 { n - 1 } else { 0 };
            let root = if k == 2 { n / 2 } else { hub };
            let mut g: Vec<Vec<usize>> = vec![vec![]; n];
            for u in 0..n {
                if u != hub {
                    // kind 3: even vertices hang from the odd one before them
                    let p = if k == 3 && u % 2 == 0 { u - 1 } else { hub };
                    g[p].push(u);
                    g[u].push(p);
                }
            }
            let r = cx.run(|| format!("kind {k}, {n} vertices"), || {
                let (par, dep) = hang(&g, root);
                let b = BinaryLifting::from(&g, root);
                let mut pairs = vec![];
                for u in 0..n {
                    same(|| format!("dep[{u}]"), b.dep[u], dep[u])?;
                    same(|| format!("pa[{u}][0]"), b.pa[u][0], par[u])?;
                    same(|| format!("pa[{u}][1]"), b.pa[u][1], par[par[u]])?;
                    pairs.extend([(u, (u + 1) % n), (u, n - 1 - u), (u, hub), (root, u)]);
                }
                let at = straddling(n - 1);
                at.iter().for_each(|&x| at.iter().for_each(|&y| pairs.push((x, y))));
                let up = |u: usize| [u, par[u], par[par[u]], par[par[par[u]]]];
                for &(x, y) in &pairs {
                    let l = up(x).into_iter().find(|a| up(y).contains(a)).unwrap();
                    same(|| format!("lca({x},{y})"), b.lca(x, y), l)?;
                    same(|| format!("lca({y},{x})"), b.lca(y, x), l)?;
                    same(|| format!("dis({x},{y})"), b.dis(x, y), dep[x] + dep[y] - 2 * dep[l])?;
                    same(|| format!("is_ancestor({x},{y})"), b.is_ancestor(x, y), l == x)?;
                }
                Ok(3 * n as u64 + 4 * pairs.len() as u64)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        let pmax = if thorough { 6 } else { 5 };
        v.push(space("asked in every order", &format!("all labelled trees on up to {pmax} vertices, every root: every two queries (lca, distance, ancestry of every ordered pair) after one another on one structure"), 64, move |c, cx| {
            for n in 1..=pmax {
                for i in (c as u64..tree_count(n)).step_by(64) {
                    let g = nth_tree(n, i);
                    for root in 0..n {
                        let m = rooted(&g, root);
                        let r = cx.run(|| format!("tree {g:?}, root {root}, every two queries in turn"), || {
                            let b = BinaryLifting::from(&g, root);
                            let qs: Vec<(usize, usize, usize)> = (0..3 * n * n).map(|q| (q % 3, q / 3 % n, q / 3 / n)).collect();
                            let ask = |(what, u, v): (usize, usize, usize)| {
                                let l = m.lca[u][v];
                                match what {
                                    0 => (b.lca(u, v), l),
                                    1 => (b.dis(u, v), m.dep[u] + m.dep[v] - 2 * m.dep[l]),
                                    _ => (b.is_ancestor(u, v) as usize, (l == u) as usize),
                                }
                            };
                            for &q in &qs {
                                for &q2 in &qs {
                                    let (x, y) = (ask(q), ask(q2));
                                    ensure(x.0 == x.1 && y.0 == y.1, || format!("query {q:?} (lca, distance, ancestry; vertices): {x:?}, then {q2:?}: {y:?} (given, expected)"))?;
                                }
                            }
                            Ok((2 * qs.len() * qs.len()) as u64)
                        });
                        if let Some(k) = r {
                            cx.calls(k);
                            cx.states(1);
                            cx.outcome(n as u64);
                        }
                    }
                }
            }
        }));
        v
    });
}
