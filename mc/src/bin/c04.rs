//! C04 sparse table.
use mc::*;
use rust_cp::data_structure::sparse_table::SparseTable;

/// Idempotent order-sensitive exact elements: an interval of positions; combining takes the union of a left and a
/// right interval that overlap or touch and are in order; everything else is Bad.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    Span(u32, u32),
    Bad,
}
fn join(a: B, b: B) -> B {
    match (a, b) {
        (B::Span(a, b), B::Span(c, d)) if a <= c && c <= b && b <= d => B::Span(a, d),
        _ => B::Bad,
    }
}
fn conc<T: Copy + PartialEq + std::fmt::Debug>(v: &[T], inits: &[T], op: impl Fn(T, T) -> T + Copy) -> Result<u64, String> {
    let n = v.len();
    let mut calls = 0;
    for &init in inits {
        let t = SparseTable::from(v, init, op);
        for l in 0..n {
            let mut acc = v[l];
            for r in l + 1..=n {
                if r > l + 1 {
                    acc = op(acc, v[r - 1]);
                }
                same(|| format!("get({l},{r}) with filler {init:?}"), t.get(l, r), acc)?;
                calls += 1;
            }
        }
    }
    Ok(calls)
}
fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn main() {
    mc::main("C04", false, |thorough| {
        let mut v = vec![];
        let nmax = if thorough { 1100 } else { 520 };
        v.push(space("ranges", &format!("n = 0..={nmax}: every range of n distinct elements under the exact interval band, filler Bad"), nmax + 1, move |c, cx| {
            let n = nmax - c;
            let r = cx.run(|| format!("{n} distinct elements, every range"), || {
                let a: Vec<B> = (0..n as u32).map(|i| B::Span(i, i + 1)).collect();
                let t = SparseTable::from(&a, B::Bad, join);
                for l in 0..n {
                    for r in l + 1..=n {
                        let g = t.get(l, r);
                        if g != B::Span(l as u32, r as u32) {
                            return Err(format!("get({l},{r}) is {g:?}"));
                        }
                    }
                }
                Ok((n * (n + 1) / 2) as u64)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        let smax = if thorough { 9 } else { 7 };
        v.push(space("arrays", &format!("all arrays over three values of length 0..={smax}: min, max, gcd, bit-and, bit-or, left, right (order-sensitive), every range, three fillers"), smax + 1, move |c, cx| {
            let n = smax - c;
            for w in words(3, n) {
                let a: Vec<u32> = w.iter().map(|&x| [6, 4, 9][x]).collect();
                let r = cx.run(|| format!("array {a:?}"), || {
                    let f = [0, 6, u32::MAX];
                    let mut k = 0;
                    k += conc(&a, &f, |x, y| x.min(y)).map_err(|e| format!("min: {e}"))?;
                    k += conc(&a, &f, |x, y| x.max(y)).map_err(|e| format!("max: {e}"))?;
                    k += conc(&a, &f, gcd).map_err(|e| format!("gcd: {e}"))?;
                    k += conc(&a, &f, |x, y| x & y).map_err(|e| format!("and: {e}"))?;
                    k += conc(&a, &f, |x, y| x | y).map_err(|e| format!("or: {e}"))?;
                    k += conc(&a, &f, |x, _| x).map_err(|e| format!("left: {e}"))?;
                    k += conc(&a, &f, |_, y| y).map_err(|e| format!("right: {e}"))?;
                    Ok(k)
                });
                if let Some(k) = r {
                    cx.calls(k);
                    cx.states(1);
                    cx.outcome(fp_debug(&a) as u64);
                }
            }
        }));
        let mut sizes: Vec<usize> = straddling(if thorough { (1 << 22) + 2 } else { (1 << 17) + 2 }).into_iter().filter(|&n| n > 500).collect();
        if !thorough {
            sizes.extend([(1 << 18) + 1, (1 << 20) + 1]);
        }
        sizes.reverse();
        v.push(space("large", "n within 2 of powers of two (up to 2^17, and just above 2^18 and 2^20; thorough up to 2^22): every range between boundary indices and every range length at both ends", sizes.len(), move |c, cx| {
            let n = sizes[c];
            let r = cx.run(|| format!("{n} distinct elements, boundary ranges"), || {
                let a: Vec<B> = (0..n as u32).map(|i| B::Span(i, i + 1)).collect();
                let t = SparseTable::from(&a, B::Bad, join);
                let mut idx = straddling(n);
                idx.extend(straddling(n).iter().map(|x| n - x));
                idx.sort();
                idx.dedup();
                let check = |l: usize, r: usize| {
                    let g = t.get(l, r);
                    ensure(g == B::Span(l as u32, r as u32), || format!("get({l},{r}) is {g:?}"))
                };
                let mut k = 0;
                for &l in &idx {
                    for &r in &idx {
                        if l < r {
                            check(l, r)?;
                            k += 1;
                        }
                    }
                }
                for len in 1..=n {
                    check(0, len)?;
                    check(n - len, n)?;
                    check((n - len) / 2, (n - len) / 2 + len)?;
                    k += 3;
                }
                Ok(k)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        v.push(space("every index", "n = 3000: every range; n = 5000, 70000, 131075: from every start the ranges of all lengths within 1 of powers of two and some others, and from every end alike", 4, |c, cx| {
            let n = [131_075, 70_000, 5000, 3000][c];
            let r = cx.run(|| format!("{n} distinct elements, every start"), || {
                let a: Vec<B> = (0..n as u32).map(|i| B::Span(i, i + 1)).collect();
                let t = SparseTable::from(&a, B::Bad, join);
                let mut lens: Vec<usize> = straddling(n).into_iter().filter(|&d| d > 0).collect();
                lens.extend([3, 5, 7, 10, 100, 300, 1000, 1500, 3000, 5000, 6000, 50_000, n / 2, n]);
                if n == 3000 {
                    lens = (1..=n).collect();
                }
                let mut k = 0;
                for l in 0..n {
                    for &d in lens.iter().filter(|&&d| l + d <= n) {
                        let g = t.get(l, l + d);
                        ensure(g == B::Span(l as u32, (l + d) as u32), || format!("get({l},{}) is {g:?}", l + d))?;
                        k += 1;
                    }
                }
                Ok(k)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        v.push(space("refused", "n = 0..=72, 1000: every empty or inverted range is refused, before and after valid queries", 74, |n, cx| {
            let r = cx.run(|| format!("n={}, empty and inverted ranges", if n == 73 { 1000 } else { n }), || {
                let n = if n == 73 { 1000 } else { n };
                let a: Vec<B> = (0..n as u32).map(|i| B::Span(i, i + 1)).collect();
                let t = SparseTable::from(&a, B::Bad, join);
                let mut k = 0;
                for l in 0..=n {
                    for r in 0..=l {
                        refuses(&format!("get({l},{r})"), || t.get(l, r))?;
                        if l < n {
                            same(|| format!("get({l},{n})"), t.get(l, n), B::Span(l as u32, n as u32))?;
                        }
                        k += 2;
                    }
                }
                Ok(k)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
            }
        }));
        let pmax = if thorough { 40 } else { 24 };
        v.push(space("asked in every order", &format!("n = 1..={pmax} distinct elements: every two ranges after one another on one table"), pmax, move |c, cx| {
            let n = pmax - c;
            let r = cx.run(|| format!("{n} distinct elements, every two ranges in turn"), || {
                let a: Vec<B> = (0..n as u32).map(|i| B::Span(i, i + 1)).collect();
                let t = SparseTable::from(&a, B::Bad, join);
                let qs: Vec<(usize, usize)> = (0..n).flat_map(|l| (l + 1..=n).map(move |r| (l, r))).collect();
                for &(l, r) in &qs {
                    for &(l2, r2) in &qs {
                        let g = (t.get(l, r), t.get(l2, r2));
                        ensure(g == (B::Span(l as u32, r as u32), B::Span(l2 as u32, r2 as u32)), || format!("get({l},{r}), then get({l2},{r2}): {g:?}"))?;
                    }
                }
                Ok((2 * qs.len() * qs.len()) as u64)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(n as u64);
            }
        }));
        let huge = if thorough { vec![(1usize << 21) - 1, (1 << 21) + 1, (1 << 22) - 1, (1 << 22) + 1, (1 << 23) + 1] } else { vec![(1 << 21) + 1, (1 << 22) + 1] };
        v.push(space("millions", &format!("n in {huge:?}: least and greatest of ascending numbers, every range between indices around powers of two from either end, and every range of such a length at either end and in the middle"), 2 * huge.len(), move |c, cx| {
            let (n, most) = (huge[huge.len() - 1 - c / 2], c % 2 == 1);
            let r = cx.run(|| format!("0..{n}, {}", if most { "greatest" } else { "least" }), || {
                let a: Vec<u32> = (0..n as u32).collect();
                let t = SparseTable::from(&a, if most { 0 } else { u32::MAX }, move |x: u32, y: u32| if most { x.max(y) } else { x.min(y) });
                let mut idx = straddling(n);
                idx.extend(straddling(n).iter().map(|x| n - x));
                idx.sort();
                idx.dedup();
                let mut k = 0;
                let mut ask = |l: usize, r: usize| {
                    let g = t.get(l, r) as usize;
                    k += 1;
                    ensure(g == if most { r - 1 } else { l }, || format!("get({l},{r}) is {g}"))
                };
                for &l in &idx {
                    for &r in idx.iter().filter(|&&r| r > l) {
                        ask(l, r)?;
                    }
                    for at in [1, n / 3, n / 2] {
                        if l > 0 && at + l <= n {
                            ask(at, at + l)?;
                            ask(n - at - l, n - at)?;
                        }
                    }
                }
                Ok(k)
            });
            if let Some(k) = r {
                cx.calls(k);
                cx.states(1);
                cx.outcome(c as u64);
            }
        }));
        v
    });
}
