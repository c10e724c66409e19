//! Value domains and enumerators shared by the checks.

/// Words over {0,1} (the free monoid on two letters); `len == 255` marks an overlong word.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct W {
    pub len: u8,
    pub bits: u64,
}
impl std::fmt::Debug for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        if self.len == 255 {
            return f.write_char('!');
        }
        f.write_char('"')?;
        for i in 0..self.len {
            f.write_char(if self.bits >> (self.len - 1 - i) & 1 == 1 { '1' } else { '0' })?;
        }
        f.write_char('"')
    }
}
impl W {
    pub const EMPTY: W = W { len: 0, bits: 0 };
    pub fn letter(b: u64) -> W {
        W { len: 1, bits: b }
    }
    /// code 0 -> letter 0, 1 -> letter 1, 2 -> the empty word
    pub fn code(c: usize) -> W {
        match c {
            0 => W::letter(0),
            1 => W::letter(1),
            _ => W::EMPTY,
        }
    }
    #[inline]
    pub fn cat(self, o: W) -> W {
        if self.len == 255 || o.len == 255 || self.len + o.len > 60 {
            return W { len: 255, bits: 0 };
        }
        W { len: self.len + o.len, bits: self.bits << o.len | o.bits }
    }
    /// Letterwise image under the map coded by two bits (bit 0: image of 0, bit 1: image of 1).
    #[inline]
    pub fn map(self, f: u8) -> W {
        if self.len == 255 {
            return self;
        }
        let mask = (1u64 << self.len) - 1;
        let ones = if f & 2 != 0 { self.bits } else { 0 };
        let zeros = if f & 1 != 0 { !self.bits & mask } else { 0 };
        W { len: self.len, bits: (ones | zeros) & mask }
    }
    pub fn hash(self) -> u64 {
        (self.bits ^ (self.len as u64) << 56).wrapping_mul(0x9e3779b97f4a7c15)
    }
}
pub const MAP_ID: u8 = 2;
/// Composition: first g, then f.
pub fn map_compose(f: u8, g: u8) -> u8 {
    let at = |h: u8, x: u8| h >> x & 1;
    at(f, at(g, 0)) | at(f, at(g, 1)) << 1
}

pub fn concat(ws: &[W]) -> W {
    ws.iter().fold(W::EMPTY, |a, &b| a.cat(b))
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Contiguous index intervals with concatenation of adjacent ones; anything else is Bad.
/// A product over consecutive leaves is exact: it names precisely the leaves, in order, without gaps,
/// and `ver` sums a hash of each leaf's content.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Iv {
    Unit,
    Span { lo: u32, hi: u32, ver: u64 },
    Bad,
}
impl Iv {
    pub fn leaf(p: usize, version: u64) -> Iv {
        Iv::Span { lo: p as u32, hi: p as u32 + 1, ver: mix((p as u64) << 20 | version) }
    }
    #[inline]
    pub fn cat(a: Iv, b: Iv) -> Iv {
        match (a, b) {
            (Iv::Unit, x) | (x, Iv::Unit) => x,
            (Iv::Span { lo, hi, ver: v }, Iv::Span { lo: l2, hi: h2, ver: w }) if hi == l2 => {
                Iv::Span { lo, hi: h2, ver: v.wrapping_add(w) }
            }
            _ => Iv::Bad,
        }
    }
}

/// Polynomial fingerprints modulo 2^61-1 of sequences, on which affine maps act elementwise.
pub const P61: u64 = (1 << 61) - 1;
pub fn mulp(a: u64, b: u64) -> u64 {
    let z = a as u128 * b as u128;
    let r = (z as u64 & P61) + (z >> 61) as u64;
    if r >= P61 {
        r - P61
    } else {
        r
    }
}
pub fn addp(a: u64, b: u64) -> u64 {
    let r = a + b;
    if r >= P61 {
        r - P61
    } else {
        r
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Poly {
    pub h: u64,
    pub pw: u64,
    pub ones: u64,
}
pub const POLY_BASE: u64 = 0x1234_5678_9abc_def1 & P61;
impl Poly {
    pub const UNIT: Poly = Poly { h: 0, pw: 1, ones: 0 };
    pub fn leaf(v: u64) -> Poly {
        Poly { h: v % P61, pw: POLY_BASE, ones: 1 }
    }
    #[inline]
    pub fn cat(a: Poly, b: Poly) -> Poly {
        Poly { h: addp(mulp(a.h, b.pw), b.h), pw: mulp(a.pw, b.pw), ones: addp(mulp(a.ones, b.pw), b.ones) }
    }
    #[inline]
    pub fn map(self, f: (u64, u64)) -> Poly {
        Poly { h: addp(mulp(f.0, self.h), mulp(f.1, self.ones)), pw: self.pw, ones: self.ones }
    }
}
/// Affine composition: first g, then f.
pub fn affine(f: (u64, u64), g: (u64, u64)) -> (u64, u64) {
    (mulp(f.0, g.0), addp(mulp(f.0, g.1), f.1))
}

/// Adjacency lists of the labelled tree with the given Pruefer sequence (n = len + 2).
pub fn prufer_tree(seq: &[usize]) -> Vec<Vec<usize>> {
    let n = seq.len() + 2;
    let mut deg = vec![1; n];
    for &x in seq {
        deg[x] += 1;
    }
    let mut g = vec![vec![]; n];
    for &x in seq {
        let leaf = (0..n).find(|&v| deg[v] == 1).unwrap();
        g[leaf].push(x);
        g[x].push(leaf);
        deg[leaf] -= 1;
        deg[x] -= 1;
    }
    let r: Vec<usize> = (0..n).filter(|&v| deg[v] == 1).collect();
    g[r[0]].push(r[1]);
    g[r[1]].push(r[0]);
    g
}
/// Number of labelled trees on n vertices.
pub fn tree_count(n: usize) -> u64 {
    if n <= 2 {
        1
    } else {
        (n as u64).pow(n as u32 - 2)
    }
}
pub fn nth_tree(n: usize, i: u64) -> Vec<Vec<usize>> {
    match n {
        1 => vec![vec![]],
        2 => vec![vec![1], vec![0]],
        _ => {
            let mut w = vec![0; n - 2];
            crate::word_into(n, i, &mut w);
            prufer_tree(&w)
        }
    }
}
/// The adjacency orders tried for every graph: as listed, reversed, rotated.
pub fn reorder<T: Clone>(g: &[Vec<T>], how: usize) -> Vec<Vec<T>> {
    g.iter()
        .map(|v| {
            let mut v = v.clone();
            match how {
                0 => {}
                1 => v.reverse(),
                _ => {
                    if !v.is_empty() {
                        let k = (how - 1) % v.len();
                        v.rotate_left(k);
                    }
                }
            }
            v
        })
        .collect()
}
/// Parent array (root = its own parent) and depth of a tree hung at `root`.
pub fn hang(g: &[Vec<usize>], root: usize) -> (Vec<usize>, Vec<usize>) {
    let n = g.len();
    let mut par = vec![usize::MAX; n];
    let mut dep = vec![0; n];
    par[root] = root;
    let mut q = vec![root];
    let mut i = 0;
    while i < q.len() {
        let u = q[i];
        i += 1;
        for &v in &g[u] {
            if par[v] == usize::MAX {
                par[v] = u;
                dep[v] = dep[u] + 1;
                q.push(v);
            }
        }
    }
    (par, dep)
}
/// Vertices on the path between u and v.
pub fn path(par: &[usize], dep: &[usize], mut u: usize, mut v: usize) -> Vec<usize> {
    let (mut a, mut b) = (vec![], vec![]);
    while u != v {
        if dep[u] >= dep[v] {
            a.push(u);
            u = par[u];
        } else {
            b.push(v);
            v = par[v];
        }
    }
    a.push(u);
    b.reverse();
    a.extend(b);
    a
}
pub fn is_anc(par: &[usize], u: usize, mut v: usize) -> bool {
    loop {
        if u == v {
            return true;
        }
        if par[v] == v {
            return false;
        }
        v = par[v];
    }
}
pub const FAMILIES: usize = 12;
/// Parent of vertex i >= 1 in the k-th deterministic tree family on n vertices.
pub fn family_parent(k: usize, n: usize, i: usize) -> usize {
    match k {
        0 => i - 1,
        1 => 0,
        2 => (i - 1) / 2,
        3 => i & (i - 1),
        4 => {
            if i % 2 == 1 {
                i.saturating_sub(2)
            } else {
                i - 1
            }
        }
        5 => {
            if i < n / 2 {
                i - 1
            } else {
                (n / 2).saturating_sub(1)
            }
        }
        6 => i.saturating_sub(3),
        7 => {
            if i < (n + 1) / 2 {
                i - 1
            } else {
                i - (n + 1) / 2
            }
        }
        8 => (mix(i as u64) % i as u64) as usize,
        9 => (mix(i as u64 ^ 77) % 3).min(i as u64 - 1) as usize + (i - 1).saturating_sub(3).min(i - 1 - (mix(i as u64 ^ 77) % 3).min(i as u64 - 1) as usize),
        10 => (i - 1) / 3,
        _ => {
            if i == 1 {
                0
            } else if i % 2 == 0 {
                i - 2
            } else {
                i - 2
            }
        }
    }
}
pub fn family_tree(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut g = vec![vec![]; n];
    for i in 1..n {
        let p = family_parent(k, n, i);
        g[p].push(i);
        g[i].push(p);
    }
    g
}

pub const COMPOSITES: usize = 10;
/// Trees in which one small situation occurs at every place: (adjacency lists, root, description).
pub fn composite(k: usize, n: usize) -> (Vec<Vec<usize>>, usize, &'static str) {
    let link = |g: &mut Vec<Vec<usize>>, a: usize, b: usize| {
        g[a].push(b);
        g[b].push(a);
    };
    let mut g: Vec<Vec<usize>> = vec![];
    match k {
        // every labelled tree on 1..=5 vertices with every root, hung from a hub (0 or last), or along a spine
        0..=2 => {
            let mut parts = vec![];
            for s in 1..=5 {
                for i in 0..tree_count(s) {
                    for r in 0..s {
                        parts.push((reorder(&nth_tree(s, i), (i % 2) as usize), r));
                    }
                }
            }
            let total: usize = parts.iter().map(|p| p.0.len()).sum();
            let spine = if k == 2 { parts.len() } else { 1 };
            g = vec![vec![]; total + spine];
            let (mut at, hub) = if k == 1 { (0, total) } else { (spine, 0) };
            for i in 1..spine {
                // the spine vertex lists its parent first
                link(&mut g, i - 1, i);
            }
            for (i, (t, r)) in parts.iter().enumerate() {
                let from = if k == 2 { i } else { hub };
                for (u, l) in t.iter().enumerate() {
                    g[at + u].extend(l.iter().map(|v| at + v));
                }
                g[at + r].push(from);
                // the hung tree comes before or after the rest of the spine
                if k == 2 && i % 2 == 0 { g[from].insert(0, at + r) } else { g[from].push(at + r) }
                at += t.len();
            }
            (g, hub, ["all small rooted trees under a hub", "all small rooted trees under a last hub", "all small rooted trees along a spine"][k])
        }
        // caterpillars: leaf listed before (3, 5) or after (4) the rest of the spine; 5: numbered from the far end
        3..=5 => {
            let m = n / 2;
            g = vec![vec![]; 2 * m];
            let name = |i: usize| if k == 5 { 2 * m - 1 - i } else { i };
            for i in 0..m {
                let (s, leaf) = (name(2 * i), name(2 * i + 1));
                if k == 4 {
                    if i + 1 < m { link(&mut g, s, name(2 * i + 2)); }
                    link(&mut g, s, leaf);
                } else {
                    link(&mut g, s, leaf);
                    if i + 1 < m { link(&mut g, s, name(2 * i + 2)); }
                }
            }
            (g, name(0), "caterpillar")
        }
        // a hub with a chain of every length, ascending or descending
        6 | 7 => {
            g.push(vec![]);
            let mut len = 1;
            let mut left = n - 1;
            let mut lens = vec![];
            while left > 0 {
                lens.push(len.min(left));
                left -= len.min(left);
                len += 1;
            }
            if k == 7 {
                lens.reverse();
            }
            for l in lens {
                for j in 0..l {
                    let x = g.len();
                    g.push(vec![]);
                    link(&mut g, if j == 0 { 0 } else { x - 1 }, x);
                }
            }
            (g, 0, "chains of every length from a hub")
        }
        // a spine with a chain of its own length left over at each vertex: equal and nearly equal children
        8 => {
            let m = (1..).take_while(|m| m * (m + 1) / 2 <= n).last().unwrap();
            g = vec![vec![]; m];
            for i in 1..m {
                link(&mut g, i - 1, i);
            }
            for i in 0..m {
                let mut at = i;
                for _ in 0..m - i - 1 {
                    let x = g.len();
                    g.push(vec![]);
                    link(&mut g, at, x);
                    at = x;
                }
            }
            let r = m / 3;
            (g, r, "triangle of chains, root on the spine")
        }
        // the binary tree, numbered in post-order
        _ => {
            g = vec![vec![]; n];
            for i in 1..n {
                link(&mut g, n - 1 - (i - 1) / 2, n - 1 - i);
            }
            (g, n - 1, "binary tree numbered backwards")
        }
    }
}
/// A rooted tree with its own preorder and lowest common ancestors by range minimum over an Euler tour.
pub struct Tour {
    pub par: Vec<usize>,
    pub dep: Vec<usize>,
    /// vertices in preorder, place of each vertex in it, size of its subtree
    pub pre: Vec<usize>,
    pub at: Vec<usize>,
    pub size: Vec<usize>,
    first: Vec<usize>,
    mins: Vec<Vec<(u32, u32)>>,
}
impl Tour {
    pub fn new(g: &[Vec<usize>], root: usize) -> Tour {
        let n = g.len();
        let (par, dep) = hang(g, root);
        let (mut pre, mut at, mut size, mut first) = (vec![], vec![0; n], vec![1; n], vec![0; n]);
        let mut tour: Vec<(u32, u32)> = vec![];
        let mut stack = vec![(root, 0)];
        at[root] = 0;
        pre.push(root);
        tour.push((0, root as u32));
        while let Some((u, i)) = stack.pop() {
            if i < g[u].len() {
                stack.push((u, i + 1));
                let v = g[u][i];
                if v != par[u] {
                    at[v] = pre.len();
                    pre.push(v);
                    first[v] = tour.len();
                    tour.push((dep[v] as u32, v as u32));
                    stack.push((v, 0));
                }
            } else if par[u] != u {
                size[par[u]] += size[u];
                tour.push((dep[par[u]] as u32, par[u] as u32));
            }
        }
        let mut mins = vec![tour];
        let mut w = 1;
        while 2 * w <= mins[0].len() {
            let m = mins.last().unwrap();
            let next = (0..=mins[0].len() - 2 * w).map(|i| m[i].min(m[i + w])).collect();
            mins.push(next);
            w *= 2;
        }
        Tour { par, dep, pre, at, size, first, mins }
    }
    pub fn lca(&self, u: usize, v: usize) -> usize {
        let (a, b) = (self.first[u].min(self.first[v]), self.first[u].max(self.first[v]) + 1);
        let k = (b - a).ilog2() as usize;
        self.mins[k][a].min(self.mins[k][b - (1 << k)]).1 as usize
    }
    /// Vertices paired with u in queries: relatives, neighbours by number, and far ones.
    pub fn partners(&self, u: usize) -> Vec<usize> {
        let n = self.par.len();
        let end = self.at[u] + self.size[u];
        let p = self.par[u];
        let mut v = vec![
            u,
            p,
            self.par[p],
            self.pre[self.at[u].saturating_sub(1)],
            self.pre[end - 1],
            self.pre[end % n],
            self.pre[self.at[p] + 1.min(self.size[p] - 1)],
            self.pre[self.at[p] + self.size[p] - 1],
            (u + 1) % n,
            (u + n / 2) % n,
            n - 1 - u,
            mix(u as u64) as usize % n,
        ];
        let (mut x, mut step) = (u, 0);
        while x != self.par[x] && v.len() < 20 && step < 40 {
            x = self.par[x];
            step += 1;
            if step & (step - 1) == 0 {
                v.push(x);
                v.push(self.pre[self.at[x] + self.size[x] - 1]);
            }
        }
        v.sort();
        v.dedup();
        v
    }
}
