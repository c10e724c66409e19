//! C22 binomials and falling factorials from factorial tables.
use mc::modi::*;
use mc::*;
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, Modulus};

/// Is n! invertible modulo m?
fn invertible(n: usize, m: u32) -> bool {
    (2..=n as u64).all(|i| gcd_u(i, m as u64) == 1)
}
fn declared<M: Modulus>() -> String {
    format!("modulus {}{}", M::VALUE, if M::HINT_VALUE_IS_PRIME { " (declared prime)" } else { "" })
}
/// Every (n, k) of the table of size top against Pascal's triangle, and every refusal next to it.
fn table<M: Modulus>(cx: &mut Cx, top: usize) {
    let m = M::VALUE as u64;
    let r = cx.run(
        || format!("{}, Factorial::new({top}): every choose and perm with n <= {top}", declared::<M>()),
        || {
            let f = Factorial::<M>::new(top);
            let mut row = vec![1 % m];
            let mut calls = 1;
            for n in 0..=top {
                let mut falling = 1 % m;
                for k in 0..=n {
                    let c = f.choose(n, k).val() as u64;
                    if c != row[k] {
                        return Err(format!("choose({n}, {k}) = {c}, expected {}", row[k]));
                    }
                    let p = f.perm(n, k).val() as u64;
                    if p != falling {
                        return Err(format!("perm({n}, {k}) = {p}, expected {falling}"));
                    }
                    falling = falling * ((n - k) as u64 % m) % m;
                    calls += 2;
                }
                let mut next = vec![1 % m; n + 2];
                for k in 1..=n {
                    next[k] = (row[k - 1] + row[k]) % m;
                }
                row = next;
            }
            Ok(calls)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 2);
        cx.outcome(m * 10_000 + top as u64);
    }
}
fn refused<M: Modulus>(cx: &mut Cx, top: usize) {
    let r = cx.run(
        || format!("{}, Factorial::new({top}): every (n, k) up to {} outside 0 <= k <= n <= {top}, and huge ones", declared::<M>(), top + 3),
        || {
            let f = Factorial::<M>::new(top);
            let mut calls = 0;
            let mut vals: Vec<usize> = (0..=top + 3).collect();
            vals.extend([2 * top + 1, 2 * top + 2, 1 << 20, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
            for &n in &vals {
                for &k in &vals {
                    if k > n || n > top {
                        refuses(&format!("choose({n}, {k})"), || f.choose(n, k))?;
                        refuses(&format!("perm({n}, {k})"), || f.perm(n, k))?;
                        calls += 2;
                    }
                }
            }
            Ok(calls)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 2);
    }
}
/// A large table: every n against its neighbours on a grid of k, through exact factorials.
fn large<M: Modulus>(cx: &mut Cx, top: usize) {
    let m = M::VALUE as u64;
    let r = cx.run(
        || format!("{}, Factorial::new({top}): all n, grid of k", declared::<M>()),
        || {
            let f = Factorial::<M>::new(top);
            let mut fac = vec![1 % m];
            for i in 1..=top as u64 {
                fac.push(fac[i as usize - 1] * (i % m) % m);
            }
            let mut calls = 0;
            for n in 0..=top {
                for k in [0, 1, 2, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] {
                    if k > n {
                        continue;
                    }
                    // c * k! * (n-k)! = n!, all factors invertible: determines c
                    let (c, p) = (f.choose(n, k).val() as u64, f.perm(n, k).val() as u64);
                    if c >= m || c * fac[k] % m * fac[n - k] % m != fac[n] {
                        return Err(format!("choose({n}, {k}) = {c}"));
                    }
                    if p >= m || p * fac[n - k] % m != fac[n] {
                        return Err(format!("perm({n}, {k}) = {p}"));
                    }
                    calls += 2;
                }
            }
            Ok(calls)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 2);
    }
}
fn sizes<M: Modulus>(cx: &mut Cx, most: usize) {
    for top in (0..=most).take_while(|&n| invertible(n, M::VALUE)) {
        table::<M>(cx, top);
        if top <= 24 || top % 16 == 0 {
            refused::<M>(cx, top);
        }
    }
}
trait Go {
    fn small(cx: &mut Cx);
    fn big(cx: &mut Cx);
}
impl<M: Modulus> Go for rust_cp::misc::modint::StaticModInt<M> {
    fn small(cx: &mut Cx) {
        sizes::<M>(cx, 70);
    }
    fn big(cx: &mut Cx) {
        sizes::<M>(cx, 40);
        let most = if cx.thorough { 1200 } else { 300 };
        for top in [most, most - 1, 256, 255] {
            if invertible(top, M::VALUE) {
                table::<M>(cx, top);
            }
        }
        for top in [65_535, 65_536, 65_537, if cx.thorough { 3_000_000 } else { 300_000 }] {
            if invertible(top, M::VALUE) {
                large::<M>(cx, top);
            }
        }
    }
}
/// The entries at the top of a table, for every table size in a range.
fn tops<M: Modulus>(cx: &mut Cx, from: usize, step: usize, most: usize) {
    let m = M::VALUE as u64;
    let mut fac = vec![1 % m];
    for i in 1..=most as u64 {
        fac.push(fac[i as usize - 1] * (i % m) % m);
    }
    for top in (from..=most).step_by(step) {
        let r = cx.run(
            || format!("{}, Factorial::new({top}): the last entries", declared::<M>()),
            || {
                let f = Factorial::<M>::new(top);
                let mut calls = 0;
                for n in [top, top - top.min(1), top / 2 + 1, top - top / 3] {
                    for k in [0, 1, 2, 3, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] {
                        if n > top || k > n {
                            continue;
                        }
                        let (c, p) = (f.choose(n, k).val() as u64, f.perm(n, k).val() as u64);
                        ensure(c < m && c * fac[k] % m * fac[n - k] % m == fac[n], || format!("choose({n}, {k}) = {c}"))?;
                        ensure(p < m && p * fac[n - k] % m == fac[n], || format!("perm({n}, {k}) = {p}"))?;
                        calls += 2;
                    }
                }
                refuses("choose beyond the table", || f.choose(top + 1, 1))?;
                refuses("perm beyond the table", || f.perm(top + 1, 1))?;
                Ok(calls + 2)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(1);
            cx.outcome(top as u64);
        }
    }
}
fn small<Z: Go>(cx: &mut Cx) {
    Z::small(cx)
}
fn big<Z: Go>(cx: &mut Cx) {
    Z::big(cx)
}

fn main() {
    mc::main("C22", false, |thorough| {
        let mut v = vec![];
        let (s, l) = (small_static!(small), large_static!(big));
        v.push(space("small moduli", "moduli 1..=20 and ten up to 64 (primes declared and undeclared): every table size up to 70 whose factorial is invertible, every (n, k) against Pascal's triangle and falling products; every refusal", SMALL_STATIC, move |c, cx| s[c](cx)));
        v.push(space("large moduli", &format!("large moduli up to 2^31: every table size up to 40, and {0} (all n, k), and around 2^16 and {1} (all n, grid of k)", if thorough { 1200 } else { 300 }, if thorough { 3_000_000 } else { 300_000 }), LARGE_STATIC, move |c, cx| l[c](cx)));
        v.push(space("built-in moduli", "1000000007 and 998244353: the same, table sizes up to 120 one by one", 2, |c, cx| {
            if c == 0 {
                sizes::<Mod1000000007>(cx, 120);
                <rust_cp::misc::modint::ModInt1000000007 as Go>::big(cx);
            } else {
                sizes::<Mod998244353>(cx, 120);
                <rust_cp::misc::modint::ModInt998244353 as Go>::big(cx);
            }
        }));
        v.push(space("whole field", "prime moduli 251, 257, 1009, 4099 (declared and undeclared): the full table N = p-1 (thorough; quick: 251, 257, 1009), every (n, k)", 8, |c, cx| {
            match c {
                0 => table::<K<251, true>>(cx, 250),
                1 => table::<K<251, false>>(cx, 250),
                2 => table::<K<257, true>>(cx, 256),
                3 => table::<K<257, false>>(cx, 256),
                4 => table::<K<1009, true>>(cx, 1008),
                5 => table::<K<1009, false>>(cx, 1008),
                6 if cx.thorough => table::<K<4099, true>>(cx, 4098),
                7 if cx.thorough => table::<K<4099, false>>(cx, 4098),
                _ => (),
            }
        }));
        let most = if thorough { 20_000 } else { 5000 };
        v.push(space("every table size", &format!("1000000007, 998244353, 100003 (undeclared): every table size up to {most}: the last entries, the middle ones, and what lies beyond the table"), 96, move |c, cx| match c % 3 {
            0 => tops::<Mod1000000007>(cx, c / 3, 32, most),
            1 => tops::<Mod998244353>(cx, c / 3, 32, most),
            _ => tops::<K<100_003, false>>(cx, c / 3, 32, most),
        }));
        let millions: &[usize] = if thorough { &[20_000_000, 4_200_000, 1_050_000] } else { &[4_200_000, 1_050_000] };
        v.push(space("beyond 2^20", &format!("both built-in moduli, tables of {millions:?}: the last entries, the middle ones, and what lies beyond the table"), 2 * millions.len(), move |c, cx| {
            let n = millions[c / 2];
            if c % 2 == 0 {
                tops::<Mod1000000007>(cx, n, 1, n);
            } else {
                tops::<Mod998244353>(cx, n, 1, n);
            }
        }));
        v
    });
}
