//! C11 maximum flow against minimum cuts.
use mc::model::*;
use mc::*;
use rust_cp::graph::max_flow::Dinic;
use rust_cp::traits::integral::Integral;

type Edges = Vec<(usize, usize, u128)>;
/// Minimum cut by enumeration of all vertex sets.
fn min_cut(n: usize, e: &[(usize, usize, u128)], s: usize, t: usize) -> u128 {
    let mut best = u128::MAX;
    for set in 0..1u32 << n {
        if set >> s & 1 == 1 && set >> t & 1 == 0 {
            let c = e.iter().filter(|&&(u, v, _)| set >> u & 1 == 1 && set >> v & 1 == 0).map(|x| x.2).sum();
            best = best.min(c);
        }
    }
    best
}
/// Plain augmenting paths, for larger networks.
fn ford_fulkerson(n: usize, e: &[(usize, usize, u128)], s: usize, t: usize) -> u128 {
    let mut cap = vec![std::collections::BTreeMap::new(); n];
    for &(u, v, c) in e {
        if u != v {
            *cap[u].entry(v).or_insert(0u128) += c;
            cap[v].entry(u).or_insert(0);
        }
    }
    let mut total = 0;
    loop {
        let mut from = vec![usize::MAX; n];
        from[s] = s;
        let mut q = std::collections::VecDeque::from([s]);
        while let Some(u) = q.pop_front() {
            for (&v, &c) in &cap[u] {
                if c > 0 && from[v] == usize::MAX {
                    from[v] = u;
                    q.push_back(v);
                }
            }
        }
        if from[t] == usize::MAX {
            return total;
        }
        let mut f = u128::MAX;
        let mut v = t;
        while v != s {
            f = f.min(cap[from[v]][&v]);
            v = from[v];
        }
        let mut v = t;
        while v != s {
            *cap[from[v]].get_mut(&v).unwrap() -= f;
            *cap[v].get_mut(&from[v]).unwrap() += f;
            v = from[v];
        }
        total += f;
    }
}
trait Cap: Integral {
    const NAME: &'static str;
    const MAX: u128;
    fn of(x: u128) -> Self;
    fn to(self) -> u128;
}
macro_rules! cap {
    ($($t:ty)*) => {$(impl Cap for $t {
        const NAME: &'static str = stringify!($t);
        const MAX: u128 = <$t>::MAX as u128;
        fn of(x: u128) -> $t { x as $t }
        fn to(self) -> u128 { self as u128 }
    })*};
}
cap!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);

fn flow<C: Cap>(n: usize, e: &[(usize, usize, u128)], s: usize, t: usize, want: u128) -> Result<(), String> {
    let mut d = Dinic::<C>::new(n);
    for &(u, v, c) in e {
        d.add_edge(u, v, C::of(c));
    }
    let f = d.get_max_flow(s, t);
    ensure(f >= C::zero() && f.to() == want, || format!("flow from {s} to {t} is {f:?}, minimum cut {want}"))?;
    let f = d.get_max_flow(s, t);
    ensure(f == C::zero(), || format!("asking again reports another {f:?}"))
}
fn case<C: Cap>(cx: &mut Cx, n: usize, e: &[(usize, usize, u128)], s: usize, t: usize, want: u128) {
    let r = cx.run(|| format!("{} vertices, capacities {}, edges in order {e:?}, {s} -> {t}", n, C::NAME), || flow::<C>(n, e, s, t, want));
    if r.is_some() {
        cx.calls(2);
        cx.states(1);
        cx.outcome((n as u64) << 48 ^ want as u64);
    }
}
fn arcs(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|u| (0..n).map(move |v| (u, v))).filter(|&(u, v)| u != v).collect()
}
fn order(e: &mut Edges, how: usize) {
    match how {
        0 => {}
        1 => e.reverse(),
        _ => {
            if !e.is_empty() {
                let k = (how * 5) % e.len();
                e.rotate_left(k);
            }
        }
    }
}
fn network(a: &[(usize, usize)], caps: &[Option<u128>], mut code: u64) -> Edges {
    let mut e = vec![];
    for &(u, v) in a {
        if let Some(c) = caps[(code % caps.len() as u64) as usize] {
            e.push((u, v, c));
        }
        code /= caps.len() as u64;
    }
    e
}

/// Incremental use.
#[derive(Clone, Debug)]
enum Op {
    Add(usize, usize, i32),
    Flow,
}
struct Inc {
    n: usize,
    t: Dinic<i32>,
    e: Edges,
    sofar: u128,
    caps: &'static [i32],
    limit: usize,
}
fn inc(n: usize, caps: &'static [i32], limit: usize) -> Inc {
    Inc { n, t: Dinic::new(n), e: vec![], sofar: 0, caps, limit }
}
impl Sys for Inc {
    type Op = Op;
    fn fresh(&self) -> Self {
        inc(self.n, self.caps, self.limit)
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(Inc { n: self.n, t: self.t.clone(), e: self.e.clone(), sofar: self.sofar, caps: self.caps, limit: self.limit });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        #[cfg(vp_hooks)]
        return Some(fp_debug(&(&self.t, &self.e, self.sofar)));
        #[cfg(not(vp_hooks))]
        None
    }
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![Op::Flow];
        if self.e.len() < self.limit {
            for u in 0..self.n {
                for w in 0..self.n {
                    if u != w {
                        for &c in self.caps {
                            v.push(Op::Add(u, w, c));
                        }
                    }
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match *op {
            Op::Add(u, v, c) => {
                self.t.add_edge(u, v, c);
                self.e.push((u, v, c as u128));
                Ok(())
            }
            Op::Flow => {
                let f = self.t.get_max_flow(0, self.n - 1);
                let want = min_cut(self.n, &self.e, 0, self.n - 1);
                let inc = want - self.sofar;
                self.sofar = want;
                same(|| "increase reported".into(), f as i128, inc as i128)
            }
        }
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        self.apply(&Op::Flow)?;
        self.apply(&Op::Flow)?;
        Ok((2, self.sofar as u64))
    }
}
/// Flow that still fits from s to t after the earlier flows (each given by terminals and amount):
/// every cut has lost what crossed it and gained what crossed it backwards.
fn residual_cut(n: usize, e: &[(usize, usize, u128)], done: &[(usize, usize, u128)], s: usize, t: usize) -> u128 {
    let mut best = i128::MAX;
    for set in 0..1u32 << n {
        if set >> s & 1 == 1 && set >> t & 1 == 0 {
            let has = |v: usize| (set >> v & 1) as i128;
            let mut c = 0i128;
            for &(u, v, k) in e {
                c += k as i128 * has(u) * (1 - has(v));
            }
            for &(a, b, f) in done {
                c -= f as i128 * (has(a) - has(b));
            }
            best = best.min(c);
        }
    }
    best as u128
}
/// Use with a different pair of terminals in every call.
#[derive(Clone, Debug)]
enum AnyOp {
    Add(usize, usize, i32),
    Flow(usize, usize),
}
struct AnyT {
    n: usize,
    t: Dinic<i32>,
    e: Edges,
    done: Vec<(usize, usize, u128)>,
    caps: &'static [i32],
    limit: usize,
}
fn anyt(n: usize, caps: &'static [i32], limit: usize) -> AnyT {
    AnyT { n, t: Dinic::new(n), e: vec![], done: vec![], caps, limit }
}
impl Sys for AnyT {
    type Op = AnyOp;
    fn fresh(&self) -> Self {
        anyt(self.n, self.caps, self.limit)
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(AnyT { n: self.n, t: self.t.clone(), e: self.e.clone(), done: self.done.clone(), caps: self.caps, limit: self.limit });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        #[cfg(vp_hooks)]
        return Some(fp_debug(&(&self.t, &self.e, &self.done)));
        #[cfg(not(vp_hooks))]
        None
    }
    fn ops(&self) -> Vec<AnyOp> {
        let mut v = vec![];
        for (s, t) in arcs(self.n) {
            v.push(AnyOp::Flow(s, t));
            if self.e.len() < self.limit {
                for &c in self.caps {
                    v.push(AnyOp::Add(s, t, c));
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &AnyOp) -> Result<(), String> {
        match *op {
            AnyOp::Add(u, v, c) => {
                self.t.add_edge(u, v, c);
                self.e.push((u, v, c as u128));
                Ok(())
            }
            AnyOp::Flow(s, t) => {
                let want = residual_cut(self.n, &self.e, &self.done, s, t);
                let f = self.t.get_max_flow(s, t);
                if want > 0 {
                    self.done.push((s, t, want));
                }
                same(|| format!("further flow from {s} to {t}"), f as i128, want as i128)
            }
        }
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        let mut o = 0;
        let a = arcs(self.n);
        for &(s, t) in &a {
            self.apply(&AnyOp::Flow(s, t))?;
            o = o * 31 + self.done.len() as u64;
        }
        Ok((a.len() as u64, o))
    }
}
fn changing(cx: &mut Cx, n: usize, e: &[(usize, usize, u128)], calls: &[(usize, usize)]) {
    let r = cx.run(|| format!("{n} vertices, edges in order {e:?}, flows {calls:?}"), || {
        let mut d = Dinic::<i64>::new(n);
        for &(u, v, c) in e {
            d.add_edge(u, v, c as i64);
        }
        let mut done = vec![];
        for &(s, t) in calls {
            let want = residual_cut(n, e, &done, s, t);
            let f = d.get_max_flow(s, t);
            done.push((s, t, want));
            same(|| format!("flow from {s} to {t}, call {}", done.len()), f as i128, want as i128)?;
        }
        Ok(done.last().unwrap().2)
    });
    if let Some(o) = r {
        cx.calls(calls.len() as u64);
        cx.states(1);
        cx.outcome(o as u64 ^ (n as u64) << 40);
    }
}
fn family(k: usize, n: usize) -> Edges {
    let mut e = vec![];
    let c = |u: usize, v: usize| 1 + (mix((u * 131 + v) as u64) % 9) as u128;
    for u in 0..n {
        for v in 0..n {
            if u == v {
                continue;
            }
            let yes = match k {
                0 => u < v && v - u <= 3,
                1 => mix((u * n + v) as u64) % 3 == 0,
                2 => v == u + 1 || (u % 2 == 0 && v == u + 2) || v + 3 == u,
                3 => {
                    // layers of width 4, complete between neighbours, in a scrambled numbering
                    let l = |x: usize| if x == 0 { 0 } else if x == n - 1 { n } else { 1 + (x * 7) % (n / 4 + 1) };
                    l(v) == l(u) + 1 || (u == 0 && l(v) == 1) || (v == n - 1 && l(u) >= n / 4)
                }
                4 => (u == 0 && v % 2 == 1) || (u % 2 == 1 && v % 2 == 0 && v != 0 && mix((u * n + v) as u64) % 2 == 0) || (v == n - 1 && u % 2 == 0 && u != 0),
                5 => true,
                // long detours: zig-zag forcing flow to be pushed back
                6 => v == u + 1 || (v > u && (v - u) % 5 == 4) || (u > v && (u - v) == 2),
                _ => (v + n - u) % n <= 4,
            };
            if yes {
                e.push((u, v, c(u, v)));
            }
        }
    }
    e
}

fn main() {
    mc::main("C11", false, |thorough| {
        let mut v = vec![];
        v.push(space("2-3 vertices", "all networks with capacities absent/0/1/2/5, loops absent, every ordered terminal pair, three edge orders", 2, |c, cx| {
            let n = c + 2;
            let a = arcs(n);
            let caps = [None, Some(0), Some(1), Some(2), Some(5)];
            for code in 0..5u64.pow(a.len() as u32) {
                for how in 0..3 {
                    let mut e = network(&a, &caps, code);
                    order(&mut e, how);
                    for &(s, t) in &a {
                        let w = min_cut(n, &e, s, t);
                        case::<i32>(cx, n, &e, s, t, w);
                    }
                }
            }
        }));
        let c4: Vec<Vec<Option<u128>>> = if thorough { vec![vec![None, Some(1), Some(3)], vec![None, Some(1), Some(2), Some(4)]] } else { vec![vec![None, Some(1), Some(3)]] };
        let k4 = c4.len();
        v.push(space("4 vertices", &format!("all loop-free networks, capacities in {c4:?}, two edge orders, two terminal pairs"), 128 * k4, move |c, cx| {
            let a = arcs(4);
            let caps = &c4[c / 128];
            for code in ((c % 128) as u64..(caps.len() as u64).pow(12)).step_by(128) {
                for how in 0..2 {
                    let mut e = network(&a, caps, code);
                    order(&mut e, how);
                    for (s, t) in [(0, 3), (2, 1)] {
                        let w = min_cut(4, &e, s, t);
                        case::<u32>(cx, 4, &e, s, t, w);
                    }
                }
            }
        }));
        v.push(space("5 vertices", "all unit-capacity networks (every subset of the 20 arcs), ascending or rotated edge order", 256, |c, cx| {
            let a = arcs(5);
            for code in (c as u64..1 << 20).step_by(256) {
                let mut e: Edges = a.iter().enumerate().filter(|(i, _)| code >> i & 1 == 1).map(|(_, &(u, v))| (u, v, 1)).collect();
                order(&mut e, (code / 256 % 3) as usize);
                let w = min_cut(5, &e, 0, 4);
                case::<i64>(cx, 5, &e, 0, 4, w);
            }
        }));
        v.push(space("6 vertices", "unit and mixed capacities: every subset of 18 arcs of a three-layer network with back arcs", 256, |c, cx| {
            let a = [(0, 1), (0, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 5), (4, 5), (3, 1), (4, 2), (1, 2), (2, 1), (3, 4), (4, 3), (3, 2), (4, 1), (1, 5), (0, 4)];
            for code in (c as u64..1 << 18).step_by(256) {
                let mut e: Edges = a.iter().enumerate().filter(|(i, _)| code >> i & 1 == 1).map(|(i, &(u, v))| (u, v, [1, 3, 2][i % 3])).collect();
                order(&mut e, (code / 256 % 3) as usize);
                let w = min_cut(6, &e, 0, 5);
                case::<i32>(cx, 6, &e, 0, 5, w);
            }
        }));
        let len = if thorough { 5 } else { 4 };
        v.push(space("edge lists", &format!("all ordered edge lists (parallel edges, self-loops, anti-parallel pairs) of length 0..={len}: 4 vertices, capacities 1/2"), 32, move |c, cx| {
            for l in 0..=len {
                for w in words(32, l) {
                    if l > 0 && w[0] != c || l == 0 && c > 0 {
                        continue;
                    }
                    let e: Edges = w.iter().map(|&x| (x / 2 % 4, x / 8, 1 + (x % 2) as u128)).collect();
                    let want = min_cut(4, &e, 0, 3);
                    case::<i32>(cx, 4, &e, 0, 3, want);
                }
            }
        }));
        let id = if thorough { 6 } else { 5 };
        v.push(space("incremental", &format!("every history of up to {id} add_edge/get_max_flow calls on 3 vertices (capacities 1, 2), up to {} on 4 vertices (capacity 1, 3), states merged; two solvers used alternately", id - 1), 3, move |c, cx| {
            match c {
                0 => {
                    bfs(cx, "Dinic::<i32>::new(3), flows 0 -> 2", || inc(3, &[1, 2], 9), Bfs::depth(id, true));
                }
                1 => {
                    bfs(cx, "Dinic::<i32>::new(4), flows 0 -> 3", || inc(4, &[1, 3], 9), Bfs::depth(id - 1, true));
                }
                _ => {
                    bfs(cx, "two solvers", || Pair(inc(3, &[1], 3), inc(2, &[2], 3)), Bfs::depth(4, true));
                }
            }
        }));
        let ad = if thorough { 5 } else { 4 };
        v.push(space("changing terminals: histories", &format!("every history of up to {ad} add_edge/get_max_flow calls with any pair of terminals on 3 vertices (capacities 1, 2), up to {ad} on 4 vertices (capacity 1); states merged; afterwards a flow between every ordered pair"), 2, move |c, cx| {
            if c == 0 {
                bfs(cx, "Dinic::<i32>::new(3), any terminals", || anyt(3, &[1, 2], 9), Bfs::depth(ad, true));
            } else {
                bfs(cx, "Dinic::<i32>::new(4), any terminals", || anyt(4, &[1], 9), Bfs::depth(ad, true));
            }
        }));
        let ct = if thorough { 5 } else { 4 };
        v.push(space("changing terminals: 3 vertices", &format!("all 3-vertex networks with capacities absent/1/2/5, every sequence of {ct} ordered terminal pairs"), 64, move |c, cx| {
            let a = arcs(3);
            let caps = [None, Some(1), Some(2), Some(5)];
            for code in (c as u64..4096).step_by(64) {
                let e = network(&a, &caps, code);
                for w in words(6, ct) {
                    let calls: Vec<_> = w.iter().map(|&i| a[i]).collect();
                    changing(cx, 3, &e, &calls);
                }
            }
        }));
        let step4 = if thorough { 1 } else { 3 };
        v.push(space("changing terminals: 4 vertices", &format!("4-vertex networks with capacities absent/1/3 (every network code divisible by {step4}), with 12 sequences of terminals: every ordered pair first, its reverse second, then two pairs crossing it, then the first again"), 128, move |c, cx| {
            let a = arcs(4);
            let caps = [None, Some(1), Some(3)];
            for code in (c as u64 * step4..3u64.pow(12)).step_by(128 * step4 as usize) {
                let mut e = network(&a, &caps, code);
                order(&mut e, (code % 3) as usize);
                for &(s, t) in &a {
                    let o: Vec<usize> = (0..4).filter(|x| *x != s && *x != t).collect();
                    let calls = if code % 2 == 0 { [(s, t), (t, s), (o[0], t), (s, o[1]), (s, t)] } else { [(s, t), (o[1], o[0]), (t, o[0]), (t, s), (s, t)] };
                    changing(cx, 4, &e, &calls);
                }
            }
        }));
        let cfm = if thorough { 13 } else { 10 };
        v.push(space("changing terminals: families", &format!("8 network families, sizes 3..={cfm}, every pair of ordered terminal pairs, then back to the first"), 8 * (cfm - 2), move |c, cx| {
            let n = cfm - c / 8;
            let mut e = family(c % 8, n);
            order(&mut e, c % 3);
            let a = arcs(n);
            for (i, &p) in a.iter().enumerate() {
                for &q in a.iter().skip(i % 7).step_by(7) {
                    changing(cx, n, &e, &[p, q, p]);
                }
            }
        }));
        v.push(space("added later", "4 vertices: every ordered way to place 6 fixed-position edges before/between/after two flow calls, over all assignments of arcs from a menu of 6 (unit and larger capacities)", 36, |c, cx| {
            let menu = [(0usize, 1usize, 2u128), (1, 3, 1), (0, 2, 1), (2, 3, 2), (1, 2, 1), (2, 1, 2)];
            for w in words(6, 6) {
                if w[0] * 6 + w[1] != c {
                    continue;
                }
                let r = cx.run(|| format!("edges {:?}, a flow after every edge", w.iter().map(|&i| menu[i]).collect::<Vec<_>>()), || {
                    for mask in [0b111111u32, 0b101010, 0b001001, 0b100100] {
                        let mut d = Dinic::<u64>::new(4);
                        let mut e: Edges = vec![];
                        let mut sum = 0;
                        for (i, &x) in w.iter().enumerate() {
                            let (u, v, k) = menu[x];
                            d.add_edge(u, v, k as u64);
                            e.push(menu[x]);
                            if mask >> i & 1 == 1 {
                                sum += d.get_max_flow(0, 3) as u128;
                                same(|| format!("sum of reports after {} edges", i + 1), sum, min_cut(4, &e, 0, 3))?;
                            }
                        }
                    }
                    Ok(())
                });
                if r.is_some() {
                    cx.calls(24);
                    cx.states(1);
                }
            }
        }));
        v.push(space("capacity types", "every integer type: all 4-vertex networks with capacities absent/1/greatest value whose minimum cut is representable", 12 * 16, |c, cx| {
            macro_rules! go {
                ($t:ty) => {{
                    let max = <$t as Cap>::MAX;
                    let a = arcs(4);
                    let caps = [None, Some(1), Some(max)];
                    for code in ((c % 16) as u64..3u64.pow(12)).step_by(16 * 5) {
                        let e = network(&a, &caps, code);
                        // cuts whose sum does not even fit 128 bits cannot be minimal unless all of them are
                        let w = (0..16u32)
                            .filter(|set| set & 1 == 1 && set >> 3 & 1 == 0)
                            .filter_map(|set| {
                                e.iter().filter(|&&(u, v, _)| set >> u & 1 == 1 && set >> v & 1 == 0).try_fold(0u128, |s, x| s.checked_add(x.2))
                            })
                            .min();
                        if let Some(w) = w.filter(|&w| w <= max) {
                            case::<$t>(cx, 4, &e, 0, 3, w);
                        }
                    }
                    if c % 16 == 0 {
                        let h = max / 2;
                        case::<$t>(cx, 2, &[(0, 1, h), (0, 1, max - h)], 0, 1, max);
                        case::<$t>(cx, 2, &[(0, 1, max)], 0, 1, max);
                        case::<$t>(cx, 3, &[(0, 1, max), (1, 2, max - 1), (2, 1, max)], 0, 2, max - 1);
                        case::<$t>(cx, 4, &[(0, 1, max), (0, 2, max), (1, 3, h), (2, 3, h)], 0, 3, 2 * h);
                        case::<$t>(cx, 4, &[(0, 1, h), (0, 2, h), (1, 3, max), (2, 3, max), (1, 2, max), (2, 1, max)], 0, 3, 2 * h);
                    }
                }};
            }
            match c / 16 {
                0 => go!(i8),
                1 => go!(u8),
                2 => go!(i16),
                3 => go!(u16),
                4 => go!(i32),
                5 => go!(u32),
                6 => go!(i64),
                7 => go!(u64),
                8 => go!(i128),
                9 => go!(u128),
                10 => go!(isize),
                _ => go!(usize),
            }
        }));
        let fmax = if thorough { 60 } else { 34 };
        v.push(space("families", &format!("8 network families, sizes 2..={fmax}, three edge orders, four terminal pairs, all at once and in three instalments (oracle: plain augmenting paths)"), 8 * (fmax - 1), move |c, cx| {
            let n = fmax - c / 8;
            let k = c % 8;
            for how in 0..3 {
                let mut e = family(k, n);
                order(&mut e, how);
                for (s, t) in [(0, n - 1), (n - 1, 0), (n / 2, 0), (0, n / 2)] {
                    if s == t {
                        continue;
                    }
                    let want = ford_fulkerson(n, &e, s, t);
                    let r = cx.run(|| format!("family {k} on {n} vertices, edge order {how}, {s} -> {t}"), || {
                        flow::<i64>(n, &e, s, t, want)?;
                        let mut d = Dinic::<u32>::new(n);
                        let mut sum = 0;
                        for (i, &(u, v, c)) in e.iter().enumerate() {
                            d.add_edge(u, v, c as u32);
                            if i == e.len() / 3 || i == e.len() * 2 / 3 {
                                sum += d.get_max_flow(s, t) as u128;
                            }
                        }
                        sum += d.get_max_flow(s, t) as u128;
                        same(|| "sum over three instalments".into(), sum, want)
                    });
                    if r.is_some() {
                        cx.calls(5);
                        cx.states(1);
                        cx.outcome(want as u64);
                    }
                }
            }
        }));
        let lens: Vec<usize> = if thorough { vec![300_000, 140_000, 70_000, 33_000, 1000, 258, 129] } else { vec![140_000, 70_000, 33_000, 1000, 258, 129] };
        v.push(space("long", &format!("{lens:?} vertices: chains, ladders, combs of parallel routes, one big star, chains with back edges and with many parallel arcs, known answers (in and against the numbering)"), lens.len() * 12, move |c, cx| {
            let (n, k, back) = (lens[c / 12], c % 12 / 2, c % 2 == 1);
            let mut e: Edges = vec![];
            let want = match k {
                // a chain with one narrow place
                0 => {
                    (1..n).for_each(|i| e.push((i - 1, i, 7 + (i % 5) as u128 - 4 * (i == n / 2) as u128)));
                    7 + (n / 2 % 5) as u128 - 4
                }
                // a ladder: two rails of capacity 2 and 3, rungs both ways
                1 => {
                    for i in 1..n / 2 {
                        e.extend([(2 * i - 2, 2 * i, 2), (2 * i - 1, 2 * i + 1, 3), (2 * i, 2 * i + 1, 1), (2 * i + 1, 2 * i, 1)]);
                    }
                    e.extend([(0, 1, 9), (n / 2 * 2 - 2, n / 2 * 2 - 1, 2)]);
                    if n % 2 == 1 {
                        e.push((n - 2, n - 1, 99));
                    }
                    5
                }
                // every middle vertex is a route of its own
                2 => {
                    (1..n - 1).for_each(|i| e.extend([(i, n - 1, 1 + (i % 2) as u128), (0, i, 1 + (i % 3) as u128)]));
                    (1..n - 1).map(|i| (1 + i % 2).min(1 + i % 3) as u128).sum()
                }
                // a chain with dead ends and edges back to every earlier power of two
                3 => {
                    (1..n).for_each(|i| {
                        e.push((i - 1, i & (i - 1), 5));
                        e.push((i - 1, i, 3));
                    });
                    3
                }
                // one pair of vertices joined by very many parallel edges
                4 => {
                    e.extend((0..n).map(|i| (1, 2, (i % 3) as u128)));
                    e.extend([(0, 1, 4 * n as u128), (2, n - 1, 5 * n as u128)]);
                    (0..n).map(|i| (i % 3) as u128).sum()
                }
                // unreachable sink, everything else reachable
                _ => {
                    (1..n - 1).for_each(|i| e.extend([(i / 2, i, 3), (i, i - 1, 2)]));
                    e.push((n - 1, 0, 9));
                    0
                }
            };
            let (mut s, mut t) = (0, n - 1);
            if back {
                e.iter_mut().for_each(|x| *x = (n - 1 - x.0, n - 1 - x.1, x.2));
                (s, t) = (t, s);
            }
            let r = cx.run(|| format!("family {k} on {n} vertices, {s} -> {t}"), || {
                flow::<i64>(n, &e, s, t, want)?;
                flow::<u32>(n, &e, s, t, want)
            });
            if r.is_some() {
                cx.calls(4);
                cx.states(1);
                cx.outcome(want as u64);
            }
        }));
        let w = if thorough { 12 } else { 8 };
        v.push(space("many routes into dead ends", &format!("2 to {w} * 5 layers of width 1..={w}, complete between neighbours, narrow or closed at the end, capacities that leave every edge open: answers known, work bounded by the time limit"), w * 4, move |c, cx| {
            let (width, kind) = (1 + c / 4, c % 4);
            for layers in (2..=w * 5).step_by(3) {
                let n = 2 + layers * width;
                let at = |l: usize, i: usize| 1 + l * width + i;
                let mut e: Edges = vec![];
                for i in 0..width {
                    e.push((0, at(0, i), 1000));
                }
                for l in 1..layers {
                    for i in 0..width {
                        for j in 0..width {
                            e.push((at(l - 1, i), at(l, j), 1000));
                        }
                    }
                }
                // 0: nothing arrives; 1: one unit; 2: different amounts; 3: a shorter route makes all the layers useless first
                let mut want = 0;
                if kind > 0 {
                    for i in 0..width {
                        let c = if kind == 1 { (i == width - 1) as u128 } else { i as u128 };
                        e.push((at(layers - 1, i), n - 1, c));
                        want += c;
                    }
                }
                if kind == 3 {
                    e.push((0, n - 1, 5));
                    want += 5;
                }
                let r = cx.run(|| format!("{layers} layers of width {width}, kind {kind}"), || {
                    flow::<i32>(n, &e, 0, n - 1, want)?;
                    e.reverse();
                    flow::<i32>(n, &e, 0, n - 1, want)
                });
                if r.is_some() {
                    cx.calls(4);
                    cx.states(1);
                    cx.outcome((n * 4 + kind) as u64);
                }
            }
        }));
        v.push(space("every pair of terminals", "n = 2..=40, 64..=66 and 127..=130: a ring with arcs both ways (capacities 1..=9 by index), every ordered pair of terminals: the answer is the least capacity one way round plus the least the other way; i32 and u8 capacities", 46, |c, cx| {
            let n = if c < 39 { 40 - c } else { [130, 129, 128, 127, 66, 65, 64][c - 39] };
            let (fw, bw) = (|i: usize| 1 + (i * 5 + 3) % 9, |i: usize| 1 + (i * 7 + i / 3) % 9);
            let mut e: Edges = vec![];
            for i in 0..n {
                e.push((i, (i + 1) % n, fw(i) as u128));
                e.push(((i + 1) % n, i, bw(i) as u128));
            }
            for s in 0..n {
                for t in 0..n {
                    if s != t {
                        let a = (0..n).take_while(|d| (s + d) % n != t).map(|d| fw((s + d) % n)).min().unwrap();
                        let b = (0..n).take_while(|d| (t + d) % n != s).map(|d| bw((t + d) % n)).min().unwrap();
                        let want = a as u128 + b as u128;
                        if (s + t) % 2 == 0 {
                            case::<i32>(cx, n, &e, s, t, want);
                        } else {
                            case::<u8>(cx, n, &e, s, t, want);
                        }
                    }
                }
            }
        }));
        // a detour network in which the shortest path blocks two longer ones: the way back is needed
        const DETOUR: [(usize, usize); 11] = [(0, 2), (2, 5), (5, 1), (2, 3), (3, 4), (4, 1), (0, 6), (6, 7), (7, 5), (3, 1), (6, 5)];
        v.push(space("unions of gadgets", "the 2048 sub-networks of an 8-vertex detour network with capacity 1, and the 19683 with capacities absent/1/2 on 9 arcs of it, side by side between the same terminals (12290 and 118100 vertices; terminals first, last or in the middle; vertices consecutive or spread; edges gadget by gadget, in step, or backwards), and one after another (those of minimum cut 2, 200 at a time): total and repeated flow against the sum (the least) of the minimum cuts", 36, move |c, cx| {
            let (place, spread, ord, mixed) = (c % 3, c / 3 % 2 == 1, c / 6 % 3, c / 18 == 1);
            let nets: Vec<Edges> = if mixed {
                (0..3u64.pow(9)).map(|code| network(&DETOUR[..9], &[None, Some(1), Some(2)], code)).collect()
            } else {
                (0..1u64 << 11).map(|code| network(&DETOUR, &[None, Some(1)], code)).collect()
            };
            let cuts: Vec<u128> = nets.iter().map(|e| min_cut(8, e, 0, 1)).collect();
            let m = nets.len();
            let n = 6 * m + 2;
            let (s, t) = [(0, 1), (n - 1, 0), if mixed { (65_535, 65_536) } else { (n / 2, n / 2 + 1) }][place];
            let inner: Vec<usize> = (0..n).filter(|&x| x != s && x != t).collect();
            let at = |i: usize, u: usize| match u {
                0 => s,
                1 => t,
                _ => inner[if spread { (u - 2) * m + i } else { i * 6 + u - 2 }],
            };
            let mut e: Vec<(usize, (usize, usize, u128))> = vec![];
            for (i, net) in nets.iter().enumerate() {
                for (k, &(u, v, w)) in net.iter().enumerate() {
                    e.push((k * m + i, (at(i, u), at(i, v), w)));
                }
            }
            match ord {
                0 => {}
                1 => e.sort_by_key(|x| x.0),
                _ => e.reverse(),
            }
            let e: Edges = e.into_iter().map(|x| x.1).collect();
            let want: u128 = cuts.iter().sum();
            let r = cx.run(|| format!("{m} gadgets side by side, terminals {s} and {t}, spread {spread}, order {ord}, capacities {}", if mixed { "to 2" } else { "1" }), || flow::<i64>(n, &e, s, t, want));
            if r.is_some() {
                cx.calls(2);
                cx.states(1);
                cx.outcome(c as u64);
            }
            // one after another: gadget i runs from joint i to joint i + 1
            let two: Vec<usize> = (0..m).filter(|&i| cuts[i] == 2).collect();
            for (b, block) in two.chunks(200).enumerate().take(if cx.thorough { 1000 } else { 4 }) {
                let k = block.len();
                let n = 7 * k + 1;
                let name = |i: usize, u: usize| {
                    let x = match u {
                        0 => i,
                        1 => i + 1,
                        _ if spread => k + 1 + (u - 2) * k + i,
                        _ => k + 1 + i * 6 + u - 2,
                    };
                    if place == 1 { n - 1 - x } else { x }
                };
                let mut e: Edges = vec![];
                for (i, &j) in block.iter().enumerate() {
                    for &(u, v, w) in &nets[j] {
                        e.push((name(i, u), name(i, v), w));
                    }
                }
                if ord == 2 {
                    e.reverse();
                }
                let (s, t) = (name(0, 0), name(k - 1, 1));
                let r = cx.run(|| format!("block {b} of gadgets with minimum cut 2 in a row ({k} of them), {s} -> {t}"), || flow::<u16>(n, &e, s, t, 2));
                if r.is_some() {
                    cx.calls(2);
                    cx.states(1);
                }
            }
        }));
        v.push(space("parallel arcs at the limits", "every integer type: all ordered edge lists of up to 4 arcs (one direction or both between each two of 3 vertices, parallel ones included) with capacities 1 and the greatest value, the flow asked for at the end, and once before each later arc: every report against the minimum cut wherever that is representable", 12 * 12, |c, cx| {
            macro_rules! go {
                ($t:ty) => {{
                    let max = <$t as Cap>::MAX;
                    let a = arcs(3);
                    let menu: Vec<(usize, usize, u128)> = a.iter().flat_map(|&(u, v)| [(u, v, 1), (u, v, max)]).collect();
                    // a cut beyond 128 bits is not the least one unless none is
                    let cut = |e: &[(usize, usize, u128)]| {
                        (0..8u32)
                            .filter(|set| set & 1 == 1 && set >> 2 & 1 == 0)
                            .filter_map(|set| e.iter().filter(|&&(u, v, _)| set >> u & 1 == 1 && set >> v & 1 == 0).try_fold(0u128, |s, x| s.checked_add(x.2)))
                            .min()
                            .filter(|&w| w <= max)
                    };
                    for len in 0..=4u32 {
                        for code in 0..12usize.pow(len) {
                            if code % 12 != c % 12 && len > 0 || len == 0 && c % 12 > 0 {
                                continue;
                            }
                            let e: Edges = (0..len).map(|i| menu[code / 12usize.pow(i) % 12]).collect();
                            let Some(all) = cut(&e) else { continue };
                            for split in 0..=e.len() {
                                let Some(part) = cut(&e[..split]) else { continue };
                                let r = cx.run(|| format!("3 vertices, capacities {}, edges in order {e:?}, flow 0 -> 2 after {split} of them and at the end", <$t as Cap>::NAME), || {
                                    let mut d = Dinic::<$t>::new(3);
                                    for (i, &(u, v, c)) in e.iter().enumerate() {
                                        if i == split && split > 0 {
                                            same(|| "first report".into(), d.get_max_flow(0, 2).to(), part)?;
                                        }
                                        d.add_edge(u, v, <$t as Cap>::of(c));
                                    }
                                    same(|| "last report".into(), d.get_max_flow(0, 2).to(), if split > 0 && split < e.len() { all - part } else { all })?;
                                    same(|| "asked again".into(), d.get_max_flow(0, 2).to(), 0)
                                });
                                if r.is_some() {
                                    cx.calls(3);
                                    cx.states(1);
                                    cx.outcome(len as u64 * 4 + (all > 1) as u64 * 2 + (all > 2) as u64);
                                }
                            }
                        }
                    }
                }};
            }
            match c / 12 {
                0 => go!(i8),
                1 => go!(u8),
                2 => go!(i16),
                3 => go!(u16),
                4 => go!(i32),
                5 => go!(u32),
                6 => go!(i64),
                7 => go!(u64),
                8 => go!(i128),
                9 => go!(u128),
                10 => go!(isize),
                _ => go!(usize),
            }
        }));
        v
    });
}
