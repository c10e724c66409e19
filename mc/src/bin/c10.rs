//! C10 heavy-light decomposition against per-vertex values.
use mc::model::*;
use mc::*;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

/// (sum, count) modulo 2^61-1 under affine maps: a commutative aggregate with non-commuting maps.
#[derive(Clone, Copy, Debug)]
struct Sum;
type S = (u64, u64);
impl Monoid for Sum {
    type S = S;
    fn identity() -> S {
        (0, 0)
    }
    fn binary_operation(a: &S, b: &S) -> S {
        (addp(a.0, b.0), a.1 + b.1)
    }
}
#[derive(Clone, Copy, Debug)]
struct Aff;
impl MapMonoid for Aff {
    type M = Sum;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) {
        (1, 0)
    }
    fn mapping(f: &(u64, u64), x: &S) -> S {
        (addp(mulp(f.0, x.0), mulp(f.1, x.1)), x.1)
    }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) {
        affine(*f, *g)
    }
}
fn map_no(i: usize) -> (u64, u64) {
    (mix(1000 + i as u64) % P61, mix(2000 + i as u64) % P61)
}
fn val(u: usize) -> S {
    (mix(u as u64 + 5) % P61, 1)
}
#[derive(Clone, Copy, Debug)]
enum Up {
    Path(usize, usize),
    Sub(usize),
    Set(usize),
    /// through the public array, at the vertex's position: a map, a write, a map for all
    At(usize),
    Put(usize),
    All,
}
struct Tree {
    root: usize,
    par: Vec<usize>,
    paths: Vec<Vec<Vec<usize>>>,
    sub: Vec<Vec<usize>>,
}
fn tree(g: &[Vec<usize>], root: usize) -> Tree {
    let n = g.len();
    let (par, dep) = hang(g, root);
    let paths = (0..n).map(|u| (0..n).map(|v| path(&par, &dep, u, v)).collect()).collect();
    let sub = (0..n).map(|u| (0..n).filter(|&v| is_anc(&par, u, v)).collect()).collect();
    Tree { root, par, paths, sub }
}
fn all_ups(n: usize) -> Vec<Up> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            v.push(Up::Path(a, b));
        }
    }
    for u in 0..n {
        v.push(Up::Sub(u));
        v.push(Up::Set(u));
        v.push(Up::At(u));
        v.push(Up::Put(u));
    }
    v.push(Up::All);
    v
}
fn total(m: &[S], vs: &[usize]) -> S {
    vs.iter().fold((0, 0), |a, &v| Sum::binary_operation(&a, &m[v]))
}
struct Pair_ {
    h: HLD<Aff>,
    m: Vec<S>,
}
fn build(g: &Vec<Vec<usize>>, t: &Tree, init: bool) -> Pair_ {
    let n = g.len();
    if init {
        let m: Vec<S> = (0..n).map(val).collect();
        Pair_ { h: HLD::with_init_value(g, t.root, &m), m }
    } else {
        Pair_ { h: HLD::new(g, t.root), m: vec![(0, 0); n] }
    }
}
impl Pair_ {
    fn up(&mut self, t: &Tree, u: Up, i: usize) {
        let f = map_no(i);
        match u {
            Up::Path(a, b) => {
                self.h.apply_path(a, b, f);
                for &v in &t.paths[a][b] {
                    self.m[v] = Aff::mapping(&f, &self.m[v]);
                }
            }
            Up::Sub(a) => {
                self.h.apply_subtree(a, f);
                for &v in &t.sub[a] {
                    self.m[v] = Aff::mapping(&f, &self.m[v]);
                }
            }
            Up::Set(a) => {
                let x = (mix(7000 + i as u64) % P61, 1);
                self.h.set(a, x);
                self.m[a] = x;
            }
            Up::At(a) => {
                self.h.data.apply(self.h.pos[a], f);
                self.m[a] = Aff::mapping(&f, &self.m[a]);
            }
            Up::Put(a) => {
                let x = (mix(8000 + i as u64) % P61, 1);
                self.h.data.set(self.h.pos[a], x);
                self.m[a] = x;
            }
            Up::All => {
                self.h.data.apply_range(0, self.m.len(), f);
                self.m.iter_mut().for_each(|x| *x = Aff::mapping(&f, x));
            }
        }
    }
    fn judge(&mut self, t: &Tree) -> Result<u64, String> {
        let n = self.m.len();
        let mut k = 0;
        for u in 0..n {
            for v in 0..n {
                let g = self.h.path_prod(u, v);
                let e = total(&self.m, &t.paths[u][v]);
                ensure(g == e, || format!("path_prod({u},{v}) = {g:?}, expected {e:?} (path {:?})", t.paths[u][v]))?;
                k += 1;
            }
        }
        for u in 0..n {
            let g = self.h.subtree_prod(u);
            let e = total(&self.m, &t.sub[u]);
            ensure(g == e, || format!("subtree_prod({u}) = {g:?}, expected {e:?}"))?;
            let g = self.h.get(u);
            let e = self.m[u];
            ensure(g == e, || format!("get({u}) = {g:?}, expected {e:?}"))?;
            let p = self.h.pos[u];
            ensure(p < n, || format!("pos[{u}] = {p}"))?;
            let g = self.h.data.get(p);
            ensure(g == e, || format!("data.get(pos[{u}]) = {g:?}, expected {e:?}"))?;
            k += 3;
        }
        Ok(k)
    }
}
fn hist(cx: &mut Cx, g: &Vec<Vec<usize>>, t: &Tree, init: bool, ups: &[Up]) {
    let r = cx.run(
        || format!("tree {g:?}, root {}, {}; {ups:?} with maps 0,1,..; all queries", t.root, if init { "initial values" } else { "identity values" }),
        || {
            let mut p = build(g, t, init);
            for (i, &u) in ups.iter().enumerate() {
                p.up(t, u, i);
            }
            let k = p.judge(t)?;
            if ups.is_empty() {
                return Ok(k);
            }
            // the same with every query after every update as well
            let mut p = build(g, t, init);
            let mut k = k + p.judge(t)?;
            for (i, &u) in ups.iter().enumerate() {
                p.up(t, u, i);
                k += p.judge(t).map_err(|e| format!("all queries after every update: {e} after {}", i + 1))?;
            }
            Ok(k)
        },
    );
    if let Some(k) = r {
        cx.calls(k + ups.len() as u64 + 1);
        cx.states(1);
        let mut h = Fp::new();
        for &d in &t.par {
            h.u64(d as u64);
        }
        cx.outcome(h.0);
    }
}

fn main() {
    mc::main("C10", false, |thorough| {
        let mut v = vec![];
        let d2 = if thorough { 6 } else { 5 };
        for n in 1..=d2 {
            let chunks = (tree_count(n) as usize).min(128);
            v.push(space(&format!("two updates, n = {n}"), "all labelled trees, every root, every ordered pair of updates (path in both directions, subtree, write; map, write and map of all through the public array), every query after the last, and on another copy after each; plus no update and one update from both constructors", chunks, move |c, cx| {
                for i in (c as u64..tree_count(n)).step_by(chunks) {
                    let g = reorder(&nth_tree(n, i), (i % 2) as usize);
                    for root in 0..n {
                        let t = tree(&g, root);
                        let us = all_ups(n);
                        hist(cx, &g, &t, false, &[]);
                        hist(cx, &g, &t, true, &[]);
                        for &a in &us {
                            hist(cx, &g, &t, false, &[a]);
                            for &b in &us {
                                hist(cx, &g, &t, true, &[a, b]);
                            }
                        }
                    }
                }
            }));
        }
        let d3 = if thorough { 4 } else { 3 };
        v.push(space("three updates", &format!("all labelled trees on up to {d3} vertices, every root, every ordered triple of updates, every query after"), 64, move |c, cx| {
            for n in 1..=d3 {
                for i in 0..tree_count(n) {
                    let g = nth_tree(n, i);
                    for root in 0..n {
                        let t = tree(&g, root);
                        let us = all_ups(n);
                        for (j, &a) in us.iter().enumerate() {
                            if j % 64 != c {
                                continue;
                            }
                            for &b in &us {
                                for &d in &us {
                                    hist(cx, &g, &t, true, &[a, b, d]);
                                }
                            }
                        }
                    }
                }
            }
        }));
        let d1 = if thorough { 8 } else { 7 };
        v.push(space("one update", &format!("all labelled trees on 6..={d1} vertices, every root, adjacency ascending and descending (largest size: one root and one order per tree, in rotation): every single update, every query after"), 256, move |c, cx| {
            for n in 6..=d1 {
                for i in (c as u64..tree_count(n)).step_by(256) {
                    for how in 0..2 {
                        if n == d1 && how != (i / 256 / n as u64 % 2) as usize {
                            continue;
                        }
                        let g = reorder(&nth_tree(n, i), how);
                        for root in 0..n {
                            // the largest size takes turns with its roots
                            if n == d1 && root != (i as usize / 256) % n {
                                continue;
                            }
                            let t = tree(&g, root);
                            for a in all_ups(n) {
                                if let Up::Path(x, y) = a {
                                    if x > y {
                                        continue;
                                    }
                                }
                                hist(cx, &g, &t, true, &[a]);
                            }
                        }
                    }
                }
            }
        }));
        let fmax = if thorough { 40 } else { 20 };
        v.push(space("families", &format!("12 tree families, sizes 8..={fmax}, four roots, two adjacency orders: every single update, then every query"), FAMILIES * (fmax - 7), move |c, cx| {
            let n = fmax - c / FAMILIES;
            for how in 0..2 {
                let g = reorder(&family_tree(c % FAMILIES, n), how);
                let mut roots = vec![0, n - 1, n / 2, n / 3];
                roots.sort();
                roots.dedup();
                for root in roots {
                    let t = tree(&g, root);
                    for (i, a) in all_ups(n).into_iter().enumerate() {
                        if n <= 12 || i % 5 == c % 5 {
                            hist(cx, &g, &t, true, &[a]);
                        }
                    }
                }
            }
        }));
        let gmax = if thorough { 130 } else { 72 };
        v.push(space("long histories", &format!("12 tree families at sizes straddling powers of two up to {gmax}, three roots: one long history touching every vertex by path, subtree and write, every query at the end"), FAMILIES * straddling(gmax).len(), move |c, cx| {
            let sizes = straddling(gmax);
            let n = sizes[sizes.len() - 1 - c / FAMILIES];
            if n == 0 {
                return;
            }
            let g = family_tree(c % FAMILIES, n);
            let mut roots = vec![0, n - 1, n / 2];
            roots.sort();
            roots.dedup();
            for root in roots {
                let t = tree(&g, root);
                let mut ups = vec![];
                for i in 0..n {
                    ups.push(Up::Path(i, (i * 7 + 3) % n));
                    ups.push(Up::Sub((i * 5 + 1) % n));
                    if i % 3 == 0 {
                        ups.push(Up::Set((i * 11 + 2) % n));
                    }
                    ups.push(Up::Path((i * 3) % n, i));
                }
                let r = cx.run(
                    || format!("family {} on {n} vertices, root {root}, {} updates", c % FAMILIES, ups.len()),
                    || {
                        let mut p = build(&g, &t, true);
                        for (i, &u) in ups.iter().enumerate() {
                            p.up(&t, u, i);
                            // reads between updates
                            let (a, b) = (i % n, (i * 13 + 5) % n);
                            let got = p.h.path_prod(a, b);
                            ensure(got == total(&p.m, &t.paths[a][b]), || format!("path_prod({a},{b}) after {} updates", i + 1))?;
                            let got = p.h.subtree_prod(b);
                            ensure(got == total(&p.m, &t.sub[b]), || format!("subtree_prod({b}) after {} updates", i + 1))?;
                        }
                        p.judge(&t)
                    },
                );
                if let Some(k) = r {
                    cx.calls(k + 3 * ups.len() as u64);
                    cx.states(1);
                    cx.outcome((n * 16 + c % FAMILIES) as u64 + 1_000_000 * root as u64);
                }
            }
        }));
        let big = if thorough { 140_000 } else { 70_000 };
        v.push(space("large", &format!("12 tree families on {big} vertices (thorough 140000), and a spine of 70000 with a leaf at each vertex: path/subtree sums and updates at boundary vertices against walks"), FAMILIES + 1, move |c, cx| {
            // side chains both above and below depth 2^16
            let (c, n) = if c == 0 { (4, 140_000) } else { (c - 1, big) };
            let g = family_tree(c, n);
            let (par, dep) = hang(&g, 0);
            let r = cx.run(|| format!("family {c} on {n} vertices, root 0"), || {
                let mut m: Vec<S> = (0..n).map(val).collect();
                let mut h: HLD<Aff> = HLD::with_init_value(&g, 0, &m);
                let idx = [0, 1, 2, 3, n / 4, n / 3, n / 2 - 1, n / 2, n - 3, n - 2, n - 1];
                let mut k = 0;
                for (i, &a) in idx.iter().enumerate() {
                    for &b in &idx {
                        let p = path(&par, &dep, a, b);
                        let g = h.path_prod(a, b);
                        ensure(g == total(&m, &p), || format!("path_prod({a},{b}) in round {i}"))?;
                        k += 1;
                    }
                    let b = idx[(i * 4 + 3) % idx.len()];
                    h.apply_path(a, b, map_no(i));
                    for v in path(&par, &dep, a, b) {
                        m[v] = Aff::mapping(&map_no(i), &m[v]);
                    }
                    // subtree sums, children before parents
                    let mut order: Vec<usize> = (0..n).collect();
                    order.sort_by_key(|&u| std::cmp::Reverse(dep[u]));
                    let mut s = m.clone();
                    for &u in &order {
                        if par[u] != u {
                            s[par[u]] = Sum::binary_operation(&s[par[u]], &s[u]);
                        }
                    }
                    for &b in &idx {
                        let g = h.subtree_prod(b);
                        ensure(g == s[b], || format!("subtree_prod({b}) in round {i}"))?;
                        same(|| format!("get({b}) in round {i}"), h.get(b), m[b])?;
                        k += 2;
                    }
                }
                Ok(k)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        let csize = if thorough { 12_000 } else { 5000 };
        v.push(space("every vertex", &format!("10 composite trees (all small rooted trees under a hub or along a spine, caterpillars with the leaf before or after, chains of every length) with up to {csize} vertices, adjacency ascending and descending: at every vertex an update (path, subtree, write in turn), a path sum each way, the subtree sum and the value; everything read at the end"), COMPOSITES * 2, move |c, cx| {
            let (how, k) = (c / COMPOSITES, c % COMPOSITES);
            let (g, root, name) = composite(k, csize);
            let g = reorder(&g, how);
            let t = Tour::new(&g, root);
            let n = g.len();
            let r = cx.run(|| format!("{name} (composite {k} on {n} vertices, adjacency order {how}), root {root}"), || {
                let mut m: Vec<S> = (0..n).map(val).collect();
                let mut h: HLD<Aff> = HLD::with_init_value(&g, root, &m);
                let mut calls = 0;
                let mut subs = vec![(0, 0); n];
                for round in 0..2 {
                    for &u in t.pre.iter().rev() {
                        subs[u] = m[u];
                        // children have been visited before: add them from the model tree
                        for &v in &g[u] {
                            if v != t.par[u] {
                                subs[u] = Sum::binary_operation(&subs[u], &subs[v]);
                            }
                        }
                    }
                    for u in 0..n {
                        let got = h.subtree_prod(u);
                        ensure(got == subs[u], || format!("subtree_prod({u}) in round {round}: {got:?}, expected {:?}", subs[u]))?;
                        ensure(h.get(u) == m[u], || format!("get({u}) in round {round}"))?;
                        let got = h.path_prod(u, t.par[u]);
                        ensure(got == if u == root { m[u] } else { Sum::binary_operation(&m[u], &m[t.par[u]]) }, || format!("path_prod({u},{}) in round {round}", t.par[u]))?;
                        calls += 3;
                    }
                    if round == 1 {
                        break;
                    }
                    for u in 0..n {
                        let ps = t.partners(u);
                        let f = map_no(u);
                        let w = ps[u % ps.len()];
                        match u % 3 {
                            0 => {
                                let (a, b) = if u % 2 == 0 { (u, w) } else { (w, u) };
                                h.apply_path(a, b, f);
                                for v in path(&t.par, &t.dep, a, b) {
                                    m[v] = Aff::mapping(&f, &m[v]);
                                }
                            }
                            1 => {
                                h.apply_subtree(u, f);
                                for &v in &t.pre[t.at[u]..t.at[u] + t.size[u]] {
                                    m[v] = Aff::mapping(&f, &m[v]);
                                }
                            }
                            _ => {
                                let x = (mix(7000 + u as u64) % P61, 1);
                                h.set(u, x);
                                m[u] = x;
                            }
                        }
                        let x = ps[(u * 5 + 2) % ps.len()];
                        let want = total(&m, &path(&t.par, &t.dep, u, x));
                        let got = (h.path_prod(u, x), h.path_prod(x, u));
                        ensure(got == (want, want), || format!("path_prod({u},{x}) and back after the update at {u}: {got:?}, expected {want:?}"))?;
                        let want = total(&m, &t.pre[t.at[u]..t.at[u] + t.size[u]]);
                        let got = h.subtree_prod(u);
                        ensure(got == want, || format!("subtree_prod({u}) after the update at {u}: {got:?}, expected {want:?}"))?;
                        ensure(h.get(w) == m[w], || format!("get({w}) after the update at {u}"))?;
                        calls += 5;
                    }
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        let wide = if thorough { 160_000 } else { 80_000 };
        v.push(space("every vertex, large", &format!("7 composite trees (caterpillars, chains of every length, triangle, binary) with about {wide} vertices: the path sums of every vertex with four others, its subtree sum and its value, before and after 30 updates at vertices spread over the tree (oracle: sums from the root)"), 7, move |c, cx| {
            let (g, root, name) = composite(c + 3, wide);
            let t = Tour::new(&g, root);
            let n = g.len();
            let r = cx.run(|| format!("{name} (composite {} on {n} vertices), root {root}", c + 3), || {
                let mut m: Vec<S> = (0..n).map(val).collect();
                let mut h: HLD<Aff> = HLD::with_init_value(&g, root, &m);
                let mut calls = 0;
                for round in 0..2 {
                    let mut down = vec![(0, 0); n];
                    let mut sub = m.clone();
                    for &u in &t.pre {
                        down[u] = if u == root { m[u] } else { Sum::binary_operation(&down[t.par[u]], &m[u]) };
                    }
                    for &u in t.pre.iter().rev() {
                        if u != root {
                            sub[t.par[u]] = Sum::binary_operation(&sub[t.par[u]], &sub[u]);
                        }
                    }
                    for u in 0..n {
                        let ps = t.partners(u);
                        for i in 0..4 {
                            let w = ps[(u * 3 + i * 5) % ps.len()];
                            let l = t.lca(u, w);
                            let both = Sum::binary_operation(&down[u], &down[w]);
                            let once = addp(down[l].0, addp(down[l].0, P61 - m[l].0));
                            let want = (addp(both.0, P61 - once), (t.dep[u] + t.dep[w] + 1 - 2 * t.dep[l]) as u64);
                            let got = h.path_prod(u, w);
                            ensure(got == want, || format!("path_prod({u},{w}) in round {round}: {got:?}, expected {want:?}"))?;
                        }
                        ensure(h.subtree_prod(u) == sub[u], || format!("subtree_prod({u}) in round {round}"))?;
                        ensure(h.get(u) == m[u], || format!("get({u}) in round {round}"))?;
                        calls += 6;
                    }
                    if round == 1 {
                        break;
                    }
                    for i in 0..30usize {
                        let u = (i * n / 30 + i * i) % n;
                        let f = map_no(i);
                        let ps = t.partners(u);
                        let w = ps[i % ps.len()];
                        if i % 3 == 0 {
                            h.apply_subtree(u, f);
                            for &v in &t.pre[t.at[u]..t.at[u] + t.size[u]] {
                                m[v] = Aff::mapping(&f, &m[v]);
                            }
                        } else {
                            h.apply_path(u, w, f);
                            for v in path(&t.par, &t.dep, u, w) {
                                m[v] = Aff::mapping(&f, &m[v]);
                            }
                        }
                        let x = (mix(7000 + i as u64) % P61, 1);
                        h.set(w, x);
                        m[w] = x;
                        calls += 2;
                    }
                }
                Ok(calls)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        v.push(space("refused", "all labelled trees on 1..=5 vertices: a root that is no vertex, and lists of initial values of every other length up to n + 2, are refused", 5, |c, cx| {
            let n = c + 1;
            for i in 0..tree_count(n) {
                let g = nth_tree(n, i);
                for root in [n, n + 1, usize::MAX] {
                    if cx.run(|| format!("{g:?}, root {root}"), || {
                        refuses("new", || HLD::<Aff>::new(&g, root))?;
                        refuses("with_init_value", || HLD::<Aff>::with_init_value(&g, root, &(0..n).map(val).collect()))
                    }).is_some() {
                        cx.calls(2);
                        cx.states(1);
                    }
                }
                for len in 0..=n + 2 {
                    if len != n && cx.run(|| format!("{g:?}, root 0, {len} initial values"), || refuses("with_init_value", || HLD::<Aff>::with_init_value(&g, 0, &(0..len).map(val).collect()))).is_some() {
                        cx.calls(1);
                        cx.states(1);
                    }
                }
                cx.outcome(i);
            }
        }));
        v.push(space("nested chains beyond 2^16", "a stem of 40 vertices, two spines of about 66000 below it, leaves on both at depths 41..=140 and 65500..=65660 (listed between parent and spine, or first of all): path sums and one update between each two of some 60 vertices against walks", 4, |c, cx| {
            let (first, flip) = (c % 2 == 1, c / 2 == 1);
            let mut g: Vec<Vec<usize>> = vec![vec![]];
            let hangs = |g: &mut Vec<Vec<usize>>, p: usize| {
                let v = g.len();
                g.push(vec![p]);
                g[p].push(v);
                v
            };
            let mut end = 0;
            for _ in 0..40 {
                end = hangs(&mut g, end);
            }
            let mut some = vec![0, 20, 40];
            for len in [66_100usize, 66_000] {
                let len = if flip { 132_100 - len } else { len };
                let mut at = end;
                for i in 1..=len {
                    let leaf = (i <= 100 || (65_460..=65_620).contains(&i)).then_some(i);
                    let up = at;
                    at = hangs(&mut g, at);
                    if let Some(i) = leaf {
                        let l = hangs(&mut g, at);
                        if first {
                            // listed before the parent and the rest of the spine
                            g[at].rotate_right(1);
                        }
                        if i % 25 == 3 || (65_480..65_620).contains(&i) && i % 12 == 4 {
                            some.extend([l, at]);
                        }
                    }
                    if i == len || i == len / 2 {
                        some.extend([at, up]);
                    }
                }
            }
            let n = g.len();
            let (par, dep) = hang(&g, 0);
            let r = cx.run(|| format!("two spines, {n} vertices, leaves first: {first}, second longer: {flip}"), || {
                let mut m: Vec<S> = (0..n).map(val).collect();
                let mut h: HLD<Aff> = HLD::with_init_value(&g, 0, &m);
                let mut k = 0;
                for (i, &a) in some.iter().enumerate() {
                    for &b in &some {
                        let p = path(&par, &dep, a, b);
                        let x = h.path_prod(a, b);
                        ensure(x == total(&m, &p), || format!("path_prod({a},{b}) in round {i}"))?;
                        k += 1;
                    }
                    let b = some[(i * 7 + 3) % some.len()];
                    h.apply_path(a, b, map_no(i));
                    for v in path(&par, &dep, a, b) {
                        m[v] = Aff::mapping(&map_no(i), &m[v]);
                    }
                }
                for u in 0..n {
                    same(|| format!("get({u}) at the end"), h.get(u), m[u])?;
                }
                Ok(k)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        let n3 = if thorough { 5 } else { 4 };
        v.push(space("asked again", &format!("all labelled trees on up to {n3} vertices, every root: a query (path in both directions, subtree, value), an update, a query, each triple on its own decomposition; trees on up to 3 vertices: query, update, query, update, query"), 2 * n3 * 16, move |c, cx| {
            let (n, part, five) = (n3 - c / 32, c % 16, c / 16 % 2 == 1);
            if five && n > 3 {
                return;
            }
            let mut qs: Vec<(usize, usize, u8)> = vec![];
            for u in 0..n {
                qs.extend([(u, u, 1), (u, u, 2)]);
                for v in 0..n {
                    qs.push((u, v, 0));
                }
            }
            for i in 0..tree_count(n) {
                let g = nth_tree(n, i);
                for root in 0..n {
                    let t = tree(&g, root);
                    let us = all_ups(n);
                    let ask = |p: &mut Pair_, q: (usize, usize, u8)| -> Result<(), String> {
                        let (a, b, what) = q;
                        let (got, want) = match what {
                            0 => (p.h.path_prod(a, b), total(&p.m, &t.paths[a][b])),
                            1 => (p.h.subtree_prod(a), total(&p.m, &t.sub[a])),
                            _ => (p.h.get(a), p.m[a]),
                        };
                        ensure(got == want, || format!("query {q:?} gives {got:?}, expected {want:?}"))
                    };
                    for (j, &q) in qs.iter().enumerate().filter(|(j, _)| j % 16 == part) {
                        for &u in &us {
                            let r = cx.run(|| format!("tree {g:?}, root {root}: query {q:?} (vertices; 0 path, 1 subtree, 2 value), {u:?}, another query{}", if five { ", another update and query" } else { "" }), || {
                                let mut k = 0;
                                for &q2 in &qs {
                                    for &u2 in if five { us.as_slice() } else { &us[..1] } {
                                        for &q3 in if five { qs.as_slice() } else { &qs[..1] } {
                                            let mut p = build(&g, &t, true);
                                            ask(&mut p, q)?;
                                            p.up(&t, u, 0);
                                            ask(&mut p, q2)?;
                                            if five {
                                                p.up(&t, u2, 1);
                                                ask(&mut p, q3).map_err(|e| format!("{e} (second query {q2:?}, then {u2:?})"))?;
                                            }
                                            k += 4;
                                        }
                                    }
                                }
                                Ok(k)
                            });
                            if let Some(k) = r {
                                cx.calls(k);
                                cx.states(1);
                                cx.outcome((n * 1000 + j) as u64);
                            }
                        }
                    }
                }
            }
        }));
        v
    });
}
