//! C06 min-heap against a multiset model.
use mc::*;
use rust_cp::data_structure::min_heap::MinHeap;
use std::cmp::Ordering;

/// Ordered by key only; the id tells equal keys apart.
#[derive(Clone, Copy, Debug)]
struct E(u8, u8);
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.0 == o.0
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.0.cmp(&o.0)
    }
}
#[derive(Clone, Debug)]
enum Op {
    Push(u8),
    Pop,
    Clear,
    /// append a second heap holding these keys
    Append(Vec<u8>),
    /// move everything into a new heap by append
    Move,
    Peek,
    Sorted,
}
struct Heap {
    t: MinHeap<E>,
    /// held elements (key, id), sorted
    m: Vec<(u8, u8)>,
    cap: usize,
    ids: u8,
    keys: u8,
    start: Option<usize>,
}
fn make(start: Option<usize>) -> MinHeap<E> {
    match start {
        None => MinHeap::new(),
        Some(c) => MinHeap::with_capacity(c),
    }
}
fn new(cap: usize, ids: u8, keys: u8, start: Option<usize>) -> Heap {
    Heap { t: make(start), m: vec![], cap, ids, keys, start }
}
impl Heap {
    /// smallest unused id for this key, so that states stay finite
    fn id(&self, k: u8) -> u8 {
        if self.ids == 1 {
            return 0;
        }
        (0..).find(|&i| !self.m.contains(&(k, i))).unwrap()
    }
    fn insert(&mut self, e: (u8, u8)) {
        self.m.push(e);
        self.m.sort();
    }
    fn took(&mut self, e: Option<E>, what: &str) -> Result<(), String> {
        match e {
            None => ensure(self.m.is_empty(), || format!("{what} gave nothing while holding {:?}", self.m)),
            Some(E(k, i)) => {
                ensure(!self.m.is_empty() && self.m[0].0 == k, || format!("{what} gave key {k} while holding {:?}", self.m))?;
                match self.m.iter().position(|&x| x == (k, i)) {
                    Some(p) => {
                        self.m.remove(p);
                        Ok(())
                    }
                    None => Err(format!("{what} gave {:?}, which is not held: {:?}", (k, i), self.m)),
                }
            }
        }
    }
    fn sizes(&self) -> Result<(), String> {
        same(|| "len()".into(), self.t.len(), self.m.len())?;
        same(|| "is_empty()".into(), self.t.is_empty(), self.m.is_empty())?;
        match self.t.peek() {
            None => ensure(self.m.is_empty(), || "peek() gives nothing".into()),
            Some(e) => ensure(!self.m.is_empty() && e.0 == self.m[0].0 && self.m.contains(&(e.0, e.1)), || format!("peek() gives {e:?} while holding {:?}", self.m)),
        }
    }
}
impl Sys for Heap {
    type Op = Op;
    fn fresh(&self) -> Self {
        new(self.cap, self.ids, self.keys, self.start)
    }
    fn fork(&self) -> Option<Self> {
        #[cfg(vp_hooks)]
        return Some(Heap { t: self.t.clone(), m: self.m.clone(), ..new(self.cap, self.ids, self.keys, self.start) });
        #[cfg(not(vp_hooks))]
        None
    }
    fn key(&self) -> Option<u128> {
        Some(fp_debug(&(&self.t, &self.m)))
    }
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        if self.m.len() < self.cap {
            for k in 0..self.keys {
                v.push(Op::Push(k));
            }
        }
        v.push(Op::Pop);
        v.push(Op::Peek);
        v.push(Op::Clear);
        v.push(Op::Move);
        v.push(Op::Sorted);
        for len in 0..=3usize {
            if self.m.len() + len <= self.cap {
                for w in words(self.keys as usize, len) {
                    v.push(Op::Append(w.iter().map(|&x| x as u8).collect()));
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Push(k) => {
                let e = (*k, self.id(*k));
                self.t.push(E(e.0, e.1));
                self.insert(e);
            }
            Op::Pop => {
                let e = self.t.pop();
                self.took(e, "pop()")?;
            }
            Op::Peek => {}
            Op::Clear => {
                self.t.clear();
                self.m.clear();
            }
            Op::Append(ks) => {
                let mut o = MinHeap::new();
                for &k in ks {
                    let e = (k, self.id(k));
                    o.push(E(e.0, e.1));
                    self.insert(e);
                }
                self.t.append(&mut o);
                ensure(o.is_empty() && o.len() == 0 && o.peek().is_none() && o.pop().is_none(), || "the source of append is not empty".into())?;
            }
            Op::Move => {
                let mut o = make(self.start);
                o.append(&mut self.t);
                ensure(self.t.is_empty() && self.t.len() == 0 && self.t.pop().is_none(), || "the source of append is not empty".into())?;
                self.t = o;
            }
            Op::Sorted => {
                let t = std::mem::replace(&mut self.t, make(self.start));
                let g: Vec<(u8, u8)> = t.into_sorted_vec().into_iter().map(|e| (e.0, e.1)).collect();
                let mut s = g.clone();
                s.sort();
                ensure(s == self.m && g.windows(2).all(|w| w[0].0 <= w[1].0), || format!("into_sorted_vec() gave {g:?} while holding {:?}", self.m))?;
                self.m.clear();
            }
        }
        self.sizes()
    }
    fn observe(&mut self) -> Result<(u64, u64), String> {
        self.sizes()?;
        let h = fp_debug(&self.m) as u64;
        // drain
        let n = self.m.len() as u64;
        while !self.m.is_empty() {
            let e = self.t.pop();
            self.took(e, "pop() while draining")?;
            self.sizes()?;
        }
        let e = self.t.pop();
        self.took(e, "pop() of the drained heap")?;
        Ok((4 * n + 4, h))
    }
}

fn main() {
    mc::main("C06", false, |thorough| {
        let mut v = vec![];
        // (capacity bound, distinguishable, keys)
        let cfgs: Vec<(usize, u8, u8)> = if thorough { vec![(8, 1, 3), (6, 2, 3), (7, 1, 5), (9, 1, 2), (5, 2, 4)] } else { vec![(6, 1, 3), (5, 2, 3), (5, 1, 5), (7, 1, 2)] };
        let nc = cfgs.len();
        v.push(space(
            "closure",
            &format!("every reachable layout under push/pop/peek/clear/append/move/into_sorted_vec; (size cap, equal keys told apart (2) or not (1), keys) in {cfgs:?}; from new() and with_capacity(0, 1, 5)"),
            nc * 4,
            move |c, cx| {
                let (cap, ids, keys) = cfgs[c / 4];
                let start = [None, Some(0), Some(1), Some(5)][c % 4];
                bfs(cx, &format!("MinHeap::{} holding at most {cap}, keys 0..{keys}", if let Some(s) = start { format!("with_capacity({s})") } else { "new()".into() }), || new(cap, ids, keys, start), Bfs::closure(3).cap(1_500_000));
            },
        ));
        v.push(space("unmerged", "every history of 5 operations (cap 3, two keys) without merging", 1, |_, cx| {
            bfs(cx, "MinHeap::new()", || new(3, 2, 2, None), Bfs::depth(if cx.thorough { 5 } else { 4 }, false));
        }));
        v.push(space("pairs", "two heaps used alternately: closure", 1, |_, cx| {
            bfs(cx, "two heaps", || Pair(new(2, 2, 2, None), new(2, 1, 2, Some(1))), Bfs::closure(3));
        }));
        let pmax = if thorough { 8 } else { 7 };
        v.push(space("permutations", &format!("all permutations and all key patterns of up to {pmax} elements pushed, then popped or drained into a sorted vector"), pmax + 1, move |n, cx| {
            let mut p: Vec<usize> = (0..n).collect();
            permutations(&mut p, 0, &mut |p| {
                for pat in 0..3 {
                    let r = cx.run(|| format!("push {p:?} with key pattern {pat}"), || {
                        let key = |x: usize| match pat {
                            0 => x as u8,
                            1 => x as u8 / 2,
                            _ => x as u8 % 3,
                        };
                        let build = || {
                            let mut h = new(99, 1, 3, None);
                            for &x in p {
                                h.t.push(E(key(x), x as u8));
                                h.m.push((key(x), x as u8));
                            }
                            h.m.sort();
                            h
                        };
                        let mut h = build();
                        h.apply(&Op::Sorted)?;
                        let o = build().observe()?;
                        let mut h = build();
                        h.apply(&Op::Pop)?;
                        h.apply(&Op::Sorted)?;
                        Ok(o.0)
                    });
                    if let Some(k) = r {
                        cx.calls(k + 3 * n as u64 + 3);
                        cx.states(1);
                    }
                }
            });
        }));
        v.push(space("many", "n up to 300, around 2^12, 2^15, 2^16 and 2^17, ascending/descending/strided pushes with ties: drain by pop and into a sorted vector, append of two such heaps", 311, |n, cx| {
            let n = [1 << 17, (1 << 17) + 1, (1 << 16) + 2, (1 << 16) + 1, 1 << 16, (1 << 16) - 1, 1 << 15, (1 << 15) - 1, 4097, 4096].get(n).copied().unwrap_or_else(|| 310 - n);
            for order in 0..3 {
                let r = cx.run(|| format!("{n} elements, order {order}"), || {
                    let seq: Vec<u64> = (0..n).map(|i| match order { 0 => i, 1 => n - i, _ => i * 37 % (n / 2 + 1) } as u64).collect();
                    let mut s = seq.clone();
                    s.sort();
                    let mut h = MinHeap::with_capacity(n / 2);
                    let mut o = MinHeap::new();
                    for (i, &x) in seq.iter().enumerate() {
                        if i % 3 == 0 { o.push(x) } else { h.push(x) }
                    }
                    h.append(&mut o);
                    same(|| "len".into(), (h.len(), o.len()), (n, 0))?;
                    let mut got = vec![];
                    let mut back = MinHeap::new();
                    while let Some(x) = h.pop() {
                        got.push(x);
                        back.push(x);
                    }
                    ensure(got == s, || if n > 300 { "popped sequence is wrong".into() } else { format!("popped sequence {got:?}") })?;
                    let back = back.into_sorted_vec();
                    ensure(back == s, || if n > 300 { "into_sorted_vec is wrong".into() } else { format!("into_sorted_vec {back:?}") })
                });
                if r.is_some() {
                    cx.calls(4 * n as u64 + 3);
                    cx.states(1);
                }
            }
        }));
        v.push(space("beyond the capacity", "with_capacity(c) for c up to 1100 and around powers of two to 2^17: filled to c - 1, c, c + 1 and 2c + 1 elements, drained by pop or into a sorted vector; popped and pushed while full; appended to and emptied by another heap", 1101 + 16, |c, cx| {
            let cap = if c < 16 { (1usize << (10 + c / 2)) + c % 2 } else { 1116 - c };
            let key = |i: usize| (i * 7919 % (cap + 2)) as u64;
            for fill in [cap.saturating_sub(1), cap, cap + 1, 2 * cap + 1] {
                let r = cx.run(|| format!("with_capacity({cap}), {fill} elements"), || {
                    let mut want: Vec<u64> = (0..fill).map(key).collect();
                    want.sort();
                    let make = || {
                        let mut h = MinHeap::with_capacity(cap);
                        (0..fill).for_each(|i| h.push(key(i)));
                        h
                    };
                    let mut h = make();
                    same(|| "len".into(), h.len(), fill)?;
                    let mut got = vec![];
                    while let Some(x) = h.pop() {
                        got.push(x);
                    }
                    ensure(got == want, || format!("popped {:?}..", &got[..got.len().min(20)]))?;
                    ensure(make().into_sorted_vec() == want, || "into_sorted_vec differs from the sorted elements".into())?;
                    // full: take the least, put a greater one
                    let mut h = make();
                    for i in 0..fill.min(50) {
                        same(|| format!("pop {i} while full"), h.pop(), Some(want[i]))?;
                        h.push(u64::MAX - i as u64);
                        same(|| "len while full".into(), h.len(), fill)?;
                    }
                    let (mut a, mut b) = (make(), MinHeap::with_capacity(cap));
                    b.push(0);
                    b.append(&mut a);
                    same(|| "lens after append".into(), (b.len(), a.len()), (fill + 1, 0))?;
                    a.push(3);
                    a.append(&mut b);
                    same(|| "lens after append back".into(), (a.len(), b.len(), b.peek().copied()), (fill + 2, 0, None))?;
                    want.extend([0, 3]);
                    want.sort();
                    ensure(a.into_sorted_vec() == want, || "elements after two appends".into())?;
                    let mut h = make();
                    h.clear();
                    same(|| "cleared".into(), (h.len(), h.peek().copied(), h.pop()), (0, None, None))?;
                    (0..fill).rev().for_each(|i| h.push(key(i)));
                    same(|| "filled again".into(), h.len(), fill)
                });
                if r.is_some() {
                    cx.calls(6 * fill as u64 + 120);
                    cx.states(1);
                    cx.outcome(fill as u64);
                }
            }
        }));
        v
    });
}
