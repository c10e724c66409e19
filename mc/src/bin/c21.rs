//! C21 systems of linear congruences.
use mc::model::mix;
use mc::*;
use rust_cp::math::number_theory::ex_crt;

type Sys3 = (i64, i64, i64);

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
fn inverse(a: i128, m: i128) -> i128 {
    let (mut r0, mut r1, mut x0, mut x1) = (m, a.rem_euclid(m), 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (x0, x1) = (x1, x0 - q * x1);
    }
    x0.rem_euclid(m)
}
/// Each congruence alone is x = c (mod n) or unsolvable.
fn alone(&(a, b, m): &Sys3) -> Option<(i128, i128)> {
    let (a, b, m) = (a as i128, b as i128, m as i128);
    let g = gcd(a, m);
    if b % g != 0 {
        return None;
    }
    let n = m / g;
    Some(((b / g).rem_euclid(n) * inverse(a / g, n) % n, n))
}
enum Want {
    Nothing,
    Period(i128),
}
/// Whether a solution exists (pairwise compatibility) and the period of the solutions.
fn want(s: &[Sys3]) -> Want {
    let mut l = 1i128;
    let mut c = vec![];
    for t in s {
        match alone(t) {
            Some(x) => c.push(x),
            None => return Want::Nothing,
        }
    }
    for i in 0..c.len() {
        for j in 0..i {
            if (c[i].0 - c[j].0) % gcd(c[i].1, c[j].1) != 0 {
                return Want::Nothing;
            }
        }
        l = l / gcd(l, c[i].1) * c[i].1;
    }
    Want::Period(l)
}
/// All intermediate products representable, whatever the order of merging.
fn in_domain(s: &[Sys3]) -> bool {
    let mut l = 1i128;
    for &(a, _, m) in s {
        let n = m as i128 / gcd(a as i128, m as i128);
        l = match (l / gcd(l, n)).checked_mul(n) {
            Some(x) if x < 1 << 63 => x,
            _ => return false,
        };
    }
    s.iter().all(|&(a, b, _)| (a as i128).abs() * l + (b as i128).abs() < 1 << 63)
}
fn one(s: &[Sys3], brute: bool) -> Result<bool, String> {
    let (a, b, m): (Vec<i64>, Vec<i64>, Vec<i64>) = (s.iter().map(|t| t.0).collect(), s.iter().map(|t| t.1).collect(), s.iter().map(|t| t.2).collect());
    let got = ex_crt(&a, &b, &m);
    let what = || format!("ex_crt({a:?}, {b:?}, {m:?})");
    if brute {
        // straight from the statement: the solutions within one common multiple of the moduli
        let top: i64 = m.iter().fold(1, |l, &x| l / gcd(l as i128, x as i128) as i64 * x);
        let sols: Vec<i64> = (0..top).filter(|&x| s.iter().all(|&(a, b, m)| (a * x - b).rem_euclid(m) == 0)).collect();
        let w = sols.first().map(|&x| (x, sols.get(1).map_or(top, |y| y - x)));
        return same(what, got, w).map(|_| w.is_some());
    }
    match (want(s), got) {
        (Want::Nothing, None) => Ok(false),
        (Want::Nothing, Some(g)) => Err(format!("{} = {g:?} but there is no solution", what())),
        (Want::Period(l), None) => Err(format!("{} = None but there are solutions with period {l}", what())),
        (Want::Period(l), Some((x, p))) => {
            ensure(p as i128 == l, || format!("{} = {:?}: the period is {l}", what(), (x, p)))?;
            ensure(0 <= x && x < p, || format!("{} = {:?} is not the smallest non-negative solution", what(), (x, p)))?;
            ensure(s.iter().all(|&(a, b, m)| (a as i128 * x as i128 - b as i128) % m as i128 == 0), || format!("{} = {:?} is not a solution", what(), (x, p)))?;
            Ok(true)
        }
    }
}
/// All systems of `k` congruences from `set`, the first given.
fn systems(cx: &mut Cx, set: &[Sys3], first: Option<usize>, k: usize, brute: bool) {
    let n = set.len() as u64;
    let mut s = vec![(0, 0, 1); k];
    let rest = k - first.is_some() as usize;
    // one case per choice of all but the last congruence
    let outer = n.pow(rest.saturating_sub(1) as u32);
    for code in 0..outer {
        let mut c = code;
        let mut at = 0;
        if let Some(f) = first {
            s[0] = set[f];
            at = 1;
        }
        for x in s.iter_mut().take(k.saturating_sub(1)).skip(at) {
            *x = set[(c % n) as usize];
            c /= n;
        }
        let r = cx.run(
            || format!("systems starting with {:?} (a, b, m), last congruence over {} choices", &s[..k.saturating_sub(1)], set.len()),
            || {
                let (mut solved, mut n) = (0, 0);
                for last in 0..if rest == 0 { 1 } else { set.len() } {
                    let mut t = s.clone();
                    if rest > 0 {
                        t[k - 1] = set[last];
                    }
                    if brute || in_domain(&t) {
                        solved += one(&t, brute)? as u64;
                        n += 1;
                    }
                }
                Ok((n, solved))
            },
        );
        if let Some((n, solved)) = r {
            cx.calls(n);
            cx.states(n);
            cx.nontrivial(solved);
            cx.outcome(code);
        }
    }
}
fn set(a: std::ops::RangeInclusive<i64>, over: i64, mmax: i64) -> Vec<Sys3> {
    let mut v = vec![];
    for m in 1..=mmax {
        for a in a.clone() {
            for b in -over..m + over {
                v.push((a, b, m));
            }
        }
    }
    v
}
fn large_set() -> Vec<Sys3> {
    let mut v = vec![];
    let ms: Vec<i64> = vec![1, 2, 6, 1 << 20, 1_000_003, 999_999_937, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 40) - 87, 3_037_000_493, 600_851_475_143, 6_469_693_230, 1 << 61, (1 << 61) - 1, (1 << 62) - 57, (1 << 62) + 1, i64::MAX, i64::MAX - 24, i64::MAX - 1];
    for &m in &ms {
        for a in [0, 1, -1, 2, -6, 1000, -999_983, 1 << 31, (1 << 61) - 2, -((1 << 60) + 7)] {
            for b in [0, 1, -1, m / 2, m - 1, -(m / 3), 123_456_789_012_345] {
                if in_domain(&[(a, b, m)]) {
                    v.push((a, b, m));
                }
            }
        }
    }
    v
}

fn main() {
    mc::main("C21", false, |thorough| {
        let x = thorough as i64;
        let mut v = vec![];
        v.push(space("none and one", "the empty system; every single congruence with coefficient -16..=16, modulus 1..=20, right-hand side -22..=41; every solution enumerated", 1, |_, cx| {
            let r = cx.run(|| "empty system".into(), || same(|| "ex_crt of nothing".into(), ex_crt(&vec![], &vec![], &vec![]), Some((0, 1))));
            if r.is_some() {
                cx.calls(1);
            }
            let s: Vec<Sys3> = (1..=20).flat_map(|m| (-16..=16).flat_map(move |a| (-22..=41).map(move |b| (a, b, m)))).collect();
            for i in 0..s.len() {
                systems(cx, &s, Some(i), 1, true);
            }
        }));
        let two = set(-6 - x..=6 + x, 2, 9 + 2 * x);
        let n2 = two.len();
        v.push(space("two congruences", &format!("every ordered pair with coefficients {}..={}, moduli 1..={}, right-hand sides -2..=m+1; every solution enumerated", -6 - x, 6 + x, 9 + 2 * x), n2, move |c, cx| systems(cx, &two, Some(c), 2, true)));
        let three = set(-3 - x..=3, x, 5);
        let n3 = three.len();
        v.push(space("three congruences", &format!("every ordered triple with coefficients {}..=3, moduli 1..=5, right-hand sides {}..m+{x}; every solution enumerated", -3 - x, -x), n3, move |c, cx| systems(cx, &three, Some(c), 3, true)));
        let four = set(-2..=2, 0, 3);
        let n4 = four.len();
        v.push(space("four congruences", "every ordered quadruple with coefficients -2..=2, moduli 1..=3, residues; every solution enumerated", n4, move |c, cx| systems(cx, &four, Some(c), 4, true)));
        let five = set(-1..=1, 0, 3);
        let n5 = five.len();
        v.push(space("five congruences", "every ordered quintuple with coefficients -1..=1, moduli 1..=3, residues; every solution enumerated", n5, move |c, cx| systems(cx, &five, Some(c), 5, true)));
        let mono: Vec<Sys3> = (1..=if thorough { 16 } else { 12 }).flat_map(|m| (0..m).map(move |b| (1, b, m))).collect();
        let n6 = mono.len();
        v.push(space("plain remainders", &format!("every ordered triple x = b (mod m), moduli 1..={}, all residues", if thorough { 16 } else { 12 }), n6, move |c, cx| systems(cx, &mono, Some(c), 3, false)));
        let big = large_set();
        let nb = big.len();
        let big2 = big.clone();
        v.push(space("large pairs", &format!("every single and every ordered pair of {nb} large congruences (moduli to 2^63-1, coefficients to 2^61, both signs) that stays representable; expected existence by pairwise compatibility, expected period by lcm"), nb, move |c, cx| {
            systems(cx, &big2, Some(c), 1, false);
            systems(cx, &big2, Some(c), 2, false);
        }));
        v.push(space("long systems", "4000 systems of up to 15 congruences over small prime powers (consistent, and with one right-hand side off by one), representable", 40, |c, cx| {
            let ms = [2i64, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 19, 23, 25, 27, 29, 31, 37, 6, 10, 12];
            for q in 0..100u64 {
                let seed = c as u64 * 100 + q;
                let r = cx.run(
                    || format!("long system number {seed}"),
                    || {
                        let hidden = (mix(seed) % 1_000_003) as i64 - 500_000;
                        let mut s = vec![];
                        for i in 0..15u64 {
                            let m = ms[(mix(seed * 64 + i) % ms.len() as u64) as usize];
                            let a = (mix(seed * 77 + i) % 13) as i64 - 6;
                            let k = (mix(seed * 99 + i) % 5) as i64 - 2;
                            s.push((a, (a * hidden).rem_euclid(m) + k * m, m));
                            if !in_domain(&s) {
                                s.pop();
                                break;
                            }
                        }
                        ensure(one(&s, false)?, || "a consistent system".into())?;
                        for i in 0..s.len() {
                            let mut t = s.clone();
                            t[i].1 += 1;
                            if in_domain(&t) {
                                one(&t, false)?;
                            }
                        }
                        Ok(s.len() as u64 + 1)
                    },
                );
                if let Some(n) = r {
                    cx.calls(n);
                    cx.states(n);
                }
            }
        }));
        let wide = if thorough { 1200 } else { 330 };
        v.push(space("two moduli, wide", &format!("x = r (mod m1), a x = b (mod m2) with m1 = 1..=7, m2 = 1..={wide} and the same exchanged; a = 1, -1, 5; all right-hand sides (the lifting step takes every multiplier)"), wide, move |c, cx| {
            let m2 = (wide - c) as i64;
            for m1 in 1..=7i64 {
                for swap in [false, true] {
                    let r = cx.run(|| format!("moduli {m1} and {m2}, exchanged {swap}, all right-hand sides"), || {
                        let mut k = 0;
                        for r in 0..m1 {
                            for b in 0..m2 {
                                for a in [1, -1, 5] {
                                    let mut s = vec![(1, r, m1), (a, b, m2)];
                                    if swap {
                                        s.reverse();
                                    }
                                    one(&s, false)?;
                                    k += 1;
                                }
                            }
                        }
                        Ok(k)
                    });
                    if let Some(k) = r {
                        cx.calls(k);
                        cx.states(k);
                        cx.outcome((m1 * 1000 + m2) as u64);
                    }
                }
            }
        }));
        let many = if thorough { 5000 } else { 1300 };
        v.push(space("many congruences", &format!("systems of 1..={many} congruences whose moduli divide 5040 or 720720, coefficients -6..=6, a solution planted: every length once, and with the last right-hand side off by one"), 24, move |c, cx| {
            let hidden = (mix(c as u64) % 1_000_003) as i64 - 500_000;
            let whole = if c % 2 == 0 { 5040 } else { 720_720i64 };
            let ms: Vec<i64> = (1..=whole).filter(|d| whole % d == 0 && *d < 5000).collect();
            let s: Vec<Sys3> = (0..many as u64).map(|i| {
                let m = ms[(mix(i * 31 + c as u64) % ms.len() as u64) as usize];
                let a = (mix(i * 77 + c as u64) % 13) as i64 - 6;
                (a, (a * hidden).rem_euclid(m) + (mix(i) % 3) as i64 * m - m, m)
            }).collect();
            // the solutions among 0..whole of the first k congruences, kept as the list is extended
            let mut alive: Vec<i64> = (0..whole).collect();
            for k in 1..=many {
                let (a, b, m) = s[k - 1];
                let off: Vec<i64> = alive.iter().copied().filter(|x| (a * x - b - 1).rem_euclid(m) == 0).take(2).collect();
                alive.retain(|x| (a * x - b).rem_euclid(m) == 0);
                if k % 24 != c && k > 60 {
                    continue;
                }
                let r = cx.run(|| format!("{k} congruences, list {c}"), || {
                    for (sols, d) in [(&alive, 0), (&off, 1)] {
                        let (a, mut b, m): (Vec<i64>, Vec<i64>, Vec<i64>) = (s[..k].iter().map(|t| t.0).collect(), s[..k].iter().map(|t| t.1).collect(), s[..k].iter().map(|t| t.2).collect());
                        b[k - 1] += d;
                        let want = sols.first().map(|&x| (x, sols.get(1).map_or(whole, |y| y - x)));
                        same(|| format!("last right-hand side off by {d}"), ex_crt(&a, &b, &m), want)?;
                    }
                    Ok(())
                });
                if r.is_some() {
                    cx.calls(2);
                    cx.states(2);
                    cx.outcome(k as u64);
                }
            }
        }));
        v.push(space("very many congruences", "70000 and 140000 congruences (thorough: also 1200000) whose moduli divide 5040: a solution planted; the last one, the 65537th or the middle one off by one: no solution", 4, |c, cx| {
            let lens: &[usize] = if cx.thorough { &[70_000, 140_000, 1_200_000] } else { &[70_000, 140_000] };
            for &n in lens {
                let hidden = 3917i64;
                let ms: Vec<i64> = (2..=5040).filter(|d| 5040 % d == 0).collect();
                let mut s: Vec<Sys3> = (0..n as u64).map(|i| {
                    let m = if i == 0 { 5040 } else { ms[(mix(i * 31 + c as u64) % ms.len() as u64) as usize] };
                    let a = if i == 0 { 1 } else { (mix(i * 77 + c as u64) % 13) as i64 - 6 };
                    (a, (a * hidden).rem_euclid(m), m)
                }).collect();
                let mut want = Some((hidden, 5040));
                if c > 0 {
                    let at = [0, n - 1, 65_536, n / 2][c];
                    s[at] = (1, (hidden + 1) % 5040, 5040);
                    want = None;
                }
                let (a, b, m): (Vec<i64>, Vec<i64>, Vec<i64>) = (s.iter().map(|t| t.0).collect(), s.iter().map(|t| t.1).collect(), s.iter().map(|t| t.2).collect());
                let r = cx.run(|| format!("{n} congruences, kind {c}"), || same(|| "answer".into(), ex_crt(&a, &b, &m), want));
                if r.is_some() {
                    cx.calls(1);
                    cx.states(1);
                    cx.outcome(n as u64 * 4 + c as u64);
                }
            }
        }));
        v
    });
}
