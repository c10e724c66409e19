//! C17 modular powers, inverses and division.
use mc::modi::*;
use mc::*;

fn who<Z: Mi>(m: u32, dynamic: bool) -> String {
    if dynamic {
        format!("run-time modulus {m}")
    } else {
        format!("compile-time modulus {m}, declared prime: {}", Z::declared_prime())
    }
}
fn pow<Z: Mi>(m: u32, a: u32, e: u64, w: u32) -> Result<(), String> {
    same(|| format!("{a}^{e} modulo {m} (inherent, trait)"), Z::pows(a, e), [w; 2])
}
/// The inverse by Euclid on wide integers, if any (0 modulo 1).
fn inverse(a: u32, m: u32) -> Option<u32> {
    let (mut r0, mut r1, mut x0, mut x1) = (m as i128, a as i128, 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (x0, x1) = (x1, x0 - q * x1);
    }
    if r0 == 1 {
        let x = x0.rem_euclid(m as i128) as u32;
        assert!(x as u64 * a as u64 % m as u64 == 1 % m as u64);
        Some(x)
    } else {
        None
    }
}
fn inv<Z: Mi>(m: u32, a: u32) -> Result<(), String> {
    match inverse(a, m) {
        Some(x) => same(|| format!("inverse of {a} modulo {m} (inherent, trait)"), Z::invs(a), [x; 2]),
        None => {
            refuses(&format!("the inverse of {a} modulo {m}"), || Z::raw(a).inv())?;
            refuses(&format!("the inverse of {a} modulo {m} (as used by division)"), || Z::raw(1 % m) / Z::raw(a))
        }
    }
}
type Forms = fn(Bin, u32, u32, &mut dyn FnMut(&'static str, u32));
fn div(m: u32, a: u32, b: u32, bi: u32, f: Forms) -> Result<u64, String> {
    let w = (a as u64 * bi as u64 % m as u64) as u32;
    let mut bad = None;
    let mut n = 0;
    f(Bin::Div, a, b, &mut |name, got| {
        n += 1;
        if got != w && bad.is_none() {
            bad = Some(format!("{a} / {b} modulo {m} as {name}: got {got}, expected {w}"));
        }
    });
    bad.map_or(Ok(n), Err)
}
fn big_exponents() -> Vec<u64> {
    let mut v = vec![u64::MAX, u64::MAX - 1, u64::MAX / 3, 0x0123_4567_89ab_cdef, 1_000_000_006, 998_244_352];
    for k in 4..64 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v
}
fn all<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool) {
    let r = cx.run(
        || format!("{}: every residue: exponents 0..=2m+2 and powers of two up to 2^63; inverse or refusal; every division in every form", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            let big = big_exponents();
            let mut n = 0;
            for a in 0..m {
                let mut p = 1 % m as u64;
                for e in 0..=2 * m as u64 + 2 {
                    pow::<Z>(m, a, e, p as u32)?;
                    p = p * a as u64 % m as u64;
                }
                for &e in &big {
                    pow::<Z>(m, a, e, pow_ref(a as u64, e, m as u64) as u32)?;
                }
                inv::<Z>(m, a)?;
                n += 2 * m as u64 + 5 + big.len() as u64;
                if let Some(ai) = inverse(a, m) {
                    for x in 0..m {
                        n += div(m, x, a, ai, Z::forms)?;
                    }
                }
            }
            Ok(n)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states((m * m) as u64);
        cx.outcome(m as u64);
    }
}
fn grid<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool) {
    let r = cx.run(
        || format!("{}: residue grid: exponents, inverse or refusal, divisions", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            let rs = residues(m);
            let mut es: Vec<u64> = (0..8).collect();
            es.extend([m as u64 - 2, m as u64 - 1, m as u64, m as u64 + 1, 2 * m as u64 - 3]);
            es.extend(big_exponents());
            let mut n = 0;
            for &a in &rs {
                for &e in &es {
                    pow::<Z>(m, a, e, pow_ref(a as u64, e, m as u64) as u32)?;
                    n += 2;
                }
                inv::<Z>(m, a)?;
                n += 2;
                if let Some(ai) = inverse(a, m) {
                    for &x in &rs {
                        n += div(m, x, a, ai, Z::forms)?;
                    }
                }
            }
            // inverses of many residues: a window, and multiples of each small divisor
            for a in (0..200).chain((1..60).map(|k| (m as u64 * k / 60) as u32)).chain((1..60).map(|k| m - k)) {
                if a < m {
                    inv::<Z>(m, a)?;
                    n += 2;
                }
            }
            Ok(n)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(residues(m).len() as u64);
        cx.outcome(m as u64);
    }
}
/// Inverses of every residue of one modulus.
fn every_inverse<Z: Mi>(cx: &mut Cx, lo: u32, hi: u32) {
    for m in lo..hi {
        let r = cx.run(
            || format!("run-time modulus {m}: inverse of every residue"),
            || {
                Z::set(m);
                for a in 0..m {
                    let want = inverse(a, m);
                    match want {
                        Some(x) => {
                            let got = Z::raw(a).inv().val();
                            if got != x {
                                return Err(format!("inverse of {a} modulo {m}: got {got}, expected {x}"));
                            }
                        }
                        None => {
                            // refusals are slow to observe: one in eight
                            if a % 8 == m % 8 {
                                refuses(&format!("the inverse of {a} modulo {m}"), || Z::raw(a).inv())?;
                            }
                        }
                    }
                }
                Ok(())
            },
        );
        if r.is_some() {
            cx.calls(m as u64);
            cx.states(m as u64);
        }
    }
}
fn ints<Z: Mi>(cx: &mut Cx, c: usize) {
    for m in int_moduli(c) {
        let r = cx.run(
            || format!("{}: division by integers of every type", who::<Z>(m, c >= 4)),
            || {
                Z::set(m);
                let rs = if m <= 60 { (0..m).collect() } else { residues(m) };
                let mut n = 0;
                for &b in &rs {
                    match inverse(b, m) {
                        Some(bi) => {
                            for &a in &rs {
                                n += div(m, a, b, bi, Z::int_forms)?;
                            }
                        }
                        None => {
                            let mut answered = false;
                            for k in 0..1 + (rs.len() > 3) as u32 {
                                refuses(&format!("division by the integer {b} modulo {m}"), || Z::int_forms(Bin::Div, rs[k as usize], b, &mut |_, _| answered = true))?;
                                n += 1;
                            }
                            ensure(!answered, || format!("division by an integer congruent to {b} modulo {m} was answered"))?;
                        }
                    }
                }
                Ok(n)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(1);
            cx.outcome(m as u64);
        }
    }
}
/// Inverse of every residue in windows; every exponent of long runs, by repeated multiplication.
fn window<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool) {
    let (w, top) = if cx.thorough { (16_384, 200_000u64) } else { (2048, 20_000) };
    let r = cx.run(
        || format!("{}: inverses of windows of residues (size {w}), every exponent to {top} and around others", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            let ws = windows(m, w);
            let mut n = 0;
            for &a in &ws {
                match inverse(a, m) {
                    Some(x) => {
                        let got = Z::raw(a).inv().val();
                        if got != x {
                            return Err(format!("inverse of {a} modulo {m}: got {got}, expected {x}"));
                        }
                    }
                    None if a % 8 == 0 || a % 16 == 15 || m % 2 == 1 => refuses(&format!("the inverse of {a} modulo {m}"), || Z::raw(a).inv())?,
                    None => {}
                }
                n += 1;
            }
            let q = m as u64;
            for a in [2u64, 3, q - 2, q / 3 + 1] {
                for (lo, len) in [(0, top), (q - (q - 1).min(300), 600), (2 * q - 200, 400), ((1 << 32) - 300, 600), ((1 << 48) - 100, 200), ((1 << 63) - 300, 600), (u64::MAX - 300, 300)] {
                    let mut p = pow_ref(a, lo, q);
                    for e in lo..=lo + len {
                        let got = Z::raw(a as u32 % m).pow(e).val();
                        if got as u64 != p {
                            return Err(format!("{a}^{e} modulo {m} is {got}, expected {p}"));
                        }
                        p = p * a % q;
                    }
                    n += len + 1;
                }
            }
            Ok(n)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n);
        cx.outcome(m as u64);
    }
}
/// Every modulus of a range: few inverses, a division and a power each.
fn every_modulus<Z: Mi>(cx: &mut Cx, c: usize) {
    let ranges: Vec<(u64, u64)> = if cx.thorough {
        (0..8).map(|k| ((k << 28) + ((c as u64) << 20), (k << 28) + ((c as u64 + 1) << 20))).collect()
    } else {
        let w = 1u64 << 10;
        [0u64, 1 << 18, 1 << 24, (1 << 31) - (w << 8)].iter().map(|s| (s + c as u64 * w, s + (c as u64 + 1) * w)).collect()
    };
    for (lo, hi) in ranges {
        let r = cx.run(
            || format!("run-time moduli {}..={hi}: inverses, a division, powers", lo + 1),
            || {
                for m in lo + 1..=hi {
                    let k = m as u32;
                    Z::set(k);
                    for a in [1, k - 1, k / 2 + 1, (m as f64).sqrt() as u32, (m * 618 / 1000) as u32] {
                        let a = a % k;
                        if let Some(x) = inverse(a, k) {
                            let got = (Z::raw(a).inv().val(), (Z::raw(k - 1) / Z::raw(a)).val());
                            let want = (x, (k - x) % k);
                            if got != want {
                                return Err(format!("1 / {a} and -1 / {a} modulo {m}: got {got:?}, expected {want:?}"));
                            }
                        }
                    }
                    for e in [m - 1, m, 5] {
                        let a = 2 % k;
                        let (got, want) = (Z::raw(a).pow(e).val() as u64, pow_ref(2, e, m));
                        if got != want {
                            return Err(format!("2^{e} modulo {m} is {got}, expected {want}"));
                        }
                    }
                }
                Ok(())
            },
        );
        if r.is_some() {
            cx.calls((hi - lo) * 13);
            cx.states(hi - lo);
        }
    }
}
fn st_window<Z: Mi>(cx: &mut Cx) {
    window::<Z>(cx, Z::modulus(), false);
}
fn st_small<Z: Mi>(cx: &mut Cx) {
    all::<Z>(cx, Z::modulus(), false);
}
fn st_large<Z: Mi>(cx: &mut Cx) {
    grid::<Z>(cx, Z::modulus(), false);
}
const SMALL: usize = 0;
const INV: usize = 1;
const LARGE: usize = 2;
const WINDOW: usize = 3;
const EVERY: usize = 4;
fn dy<Z: Mi>(cx: &mut Cx, what: usize, c: usize) {
    match what {
        SMALL => {
            let top = if cx.thorough { 400 } else { 200 };
            for m in (1..=top).filter(|m| m % PARTS as u32 == c as u32) {
                all::<Z>(cx, m, true);
            }
        }
        INV => {
            let top = if cx.thorough { 9600 } else { 2560 };
            let per = top / 64;
            every_inverse::<Z>(cx, 1 + c as u32 * per, 1 + (c as u32 + 1) * per);
        }
        WINDOW => {
            for (_, m) in middle_moduli().into_iter().enumerate().filter(|x| x.0 % PARTS == c) {
                window::<Z>(cx, m, true);
            }
        }
        EVERY => every_modulus::<Z>(cx, c),
        _ => {
            for (i, m) in large_moduli().into_iter().enumerate() {
                if i % PARTS == c {
                    grid::<Z>(cx, m, true);
                }
            }
        }
    }
}
fn run_time(cx: &mut Cx, what: usize, c: usize) {
    per_worker!(dy)[cx.worker](cx, what, c)
}

fn main() {
    mc::main("C17", false, |thorough| {
        let mut v = vec![];
        let small = small_static!(st_small);
        let large = large_static!(st_large);
        v.push(space("small compile-time moduli", "moduli 1..=20 and ten up to 64 (primes declared and undeclared): every residue to every exponent 0..=2m+2 and around every power of two below 2^64; inverse or refusal of every residue; every division in every form", SMALL_STATIC, move |c, cx| small[c](cx)));
        v.push(space("built-in types", "1000000007, 998244353, and the default run-time family (also at moduli 1..=40)", 1, |_, cx| {
            grid::<rust_cp::misc::modint::ModInt1000000007>(cx, 1_000_000_007, false);
            grid::<rust_cp::misc::modint::ModInt998244353>(cx, 998_244_353, false);
            for m in 1..=40 {
                all::<rust_cp::misc::modint::ModInt>(cx, m, true);
            }
        }));
        v.push(space("small run-time moduli", &format!("moduli 1..={}: the same, all residues", if thorough { 400 } else { 200 }), PARTS, |c, cx| run_time(cx, SMALL, c)));
        let ints = int_families!(ints);
        v.push(space("integer operands", "division by integers of 12 types, compile-time moduli 1, 7 (prime), 60, 2^31 and run-time moduli 1..=40 and the large list, refusals included", INT_FAMILIES, move |c, cx| ints[c](cx, c)));
        v.push(space("every inverse", &format!("run-time moduli 1..={}: inverse of every residue (refusals: one in eight)", if thorough { 9600 } else { 2560 }), 64, |c, cx| run_time(cx, INV, c)));
        v.push(space("large compile-time moduli", "large moduli up to 2^31 (primes declared and undeclared): residue grid, all exponents around powers of two, around the modulus, inverses, divisions", LARGE_STATIC, move |c, cx| large[c](cx)));
        v.push(space("large run-time moduli", "moduli around every power of two up to 2^31, primes, smooth numbers: the same", PARTS, |c, cx| run_time(cx, LARGE, c)));
        let (w, top) = if thorough { (16_384, 200_000) } else { (2048, 20_000) };
        let window = large_static!(st_window);
        let what = format!("inverse of every residue in windows of {w} (from 0, middle, third, root, top); four bases to every exponent up to {top} and in windows around the modulus, its double, 2^32, 2^48, 2^63 and up to 2^64");
        v.push(space("windows, compile-time moduli", &format!("large moduli: {what}"), LARGE_STATIC, move |c, cx| window[c](cx)));
        v.push(space("windows, run-time moduli", "38 moduli up to 2^31: the same", PARTS, |c, cx| run_time(cx, WINDOW, c)));
        v.push(space("every modulus", if thorough { "every run-time modulus in eight windows of 2^28 up to 2^31: five inverses, five divisions, three powers" } else { "every run-time modulus in four windows of 2^18 (from 1, 2^18, 2^24, up to 2^31): five inverses, five divisions, three powers" }, 256, |c, cx| run_time(cx, EVERY, c)));
        v
    });
}
