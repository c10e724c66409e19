//! C16 modular addition, subtraction, negation, multiplication, sums and products against wide integers.
use mc::modi::*;
use mc::*;

fn expect(op: Bin, a: u32, b: u32, m: u32) -> u32 {
    let (a, b, m) = (a as i128, b as i128, m as i128);
    let x = match op {
        Bin::Add => a + b,
        Bin::Sub => a - b,
        _ => a * b,
    };
    x.rem_euclid(m) as u32
}
const OPS: [Bin; 3] = [Bin::Add, Bin::Sub, Bin::Mul];
fn with<Z: Mi>(m: u32, a: u32, b: u32, f: fn(Bin, u32, u32, &mut dyn FnMut(&'static str, u32))) -> Result<u64, String> {
    let mut bad = None;
    let mut n = 0;
    for op in OPS {
        let w = expect(op, a, b, m);
        f(op, a, b, &mut |name, got| {
            n += 1;
            if got != w && bad.is_none() {
                bad = Some(format!("{op:?} of {a} and {b} modulo {m} as {name}: got {got}, expected {w}"));
            }
        });
    }
    match bad {
        Some(e) => Err(e),
        None => Ok(n),
    }
}
fn pair<Z: Mi>(m: u32, a: u32, b: u32) -> Result<u64, String> {
    with::<Z>(m, a, b, Z::forms)
}
fn neg<Z: Mi>(m: u32, a: u32) -> Result<(), String> {
    same(|| format!("negation of {a} modulo {m} (value and reference)"), Z::negs(a), [((m - a) as u64 % m as u64) as u32; 2])
}
fn fold<Z: Mi>(m: u32, v: &[u32]) -> Result<(), String> {
    let s = v.iter().fold(0u128, |s, &x| s + x as u128) % m as u128;
    let p = v.iter().fold(1u128 % m as u128, |p, &x| p * x as u128 % m as u128);
    same(|| format!("sum of {v:?} modulo {m} (of values, of references)"), Z::sums(v), [s as u32; 2])?;
    same(|| format!("product of {v:?} modulo {m} (of values, of references)"), Z::products(v), [p as u32; 2])
}
fn who<Z: Mi>(m: u32, dynamic: bool) -> String {
    if dynamic {
        format!("run-time modulus {m}")
    } else {
        format!("compile-time modulus {m}, declared prime: {}", Z::declared_prime())
    }
}
/// All pairs of residues of one modulus, all forms.
fn all_pairs<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool) {
    let r = cx.run(
        || format!("{}: all pairs of residues, all operator forms", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            same(|| "modulus()".into(), Z::modulus(), m)?;
            let mut n = 0;
            for a in 0..m {
                neg::<Z>(m, a)?;
                for b in 0..m {
                    n += pair::<Z>(m, a, b)?;
                }
            }
            Ok(n)
        },
    );
    if let Some(n) = r {
        cx.calls(n + 2 * m as u64);
        cx.states((m * m) as u64);
        cx.outcome(m as u64);
    }
}
fn sequences<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool, len: usize) {
    let r = cx.run(
        || format!("{}: sums and products of all sequences of length up to {len} of residues (the largest ones if there are more than 5)", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            let k = m.min(5);
            let mut n = 0;
            for l in 0..=len {
                for w in words(k as usize, l) {
                    fold::<Z>(m, &w.iter().map(|&x| m - 1 - x as u32).collect::<Vec<_>>())?;
                    n += 1;
                }
            }
            for l in [10usize, 255, 256, 257, 1000, 5000] {
                fold::<Z>(m, &vec![m - 1; l])?;
                fold::<Z>(m, &(0..l).map(|i| i as u32 % m).collect::<Vec<_>>())?;
                fold::<Z>(m, &(0..l).map(|i| (model::mix(i as u64) % m as u64) as u32).collect::<Vec<_>>())?;
                n += 3;
            }
            Ok(n)
        },
    );
    if let Some(n) = r {
        cx.calls(4 * n);
        cx.states(n);
    }
}
fn grid<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool) {
    let r = cx.run(
        || format!("{}: residue grid, products next to multiples of the modulus", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            same(|| "modulus()".into(), Z::modulus(), m)?;
            let rs = residues(m);
            let (mut n, mut st) = (0, 0);
            for &a in &rs {
                neg::<Z>(m, a)?;
                for &b in &rs {
                    n += pair::<Z>(m, a, b)?;
                    st += 1;
                }
                if a > 0 {
                    // a * b just below and just above c * m
                    for c in [1u64, 2, a as u64 / 2, a as u64 - 1, a as u64].into_iter().chain((3..31).map(|k| a as u64 >> k)) {
                        for d in -2i64..=2 {
                            let b = (c * m as u64 / a as u64) as i64 + d;
                            if b >= 0 && b < m as i64 {
                                n += pair::<Z>(m, a, b as u32)?;
                                st += 1;
                            }
                        }
                    }
                }
            }
            Ok((n, st))
        },
    );
    if let Some((n, st)) = r {
        cx.calls(n);
        cx.states(st);
        cx.outcome(m as u64);
    }
}
/// Right-hand sides that are plain integers.
fn ints<Z: Mi>(cx: &mut Cx, c: usize) {
    for m in int_moduli(c) {
        let r = cx.run(
            || format!("{}: integer right-hand sides of every type", who::<Z>(m, c >= 4)),
            || {
                Z::set(m);
                let rs = if m <= 130 { (0..m).collect() } else { residues(m) };
                let (mut n, mut st) = (0, 0);
                for &a in &rs {
                    for &b in &rs {
                        n += with::<Z>(m, a, b, Z::int_forms)?;
                        st += 1;
                    }
                }
                Ok((n, st))
            },
        );
        if let Some((n, st)) = r {
            cx.calls(n);
            cx.states(st);
            cx.outcome(m as u64);
        }
    }
}
fn st_small<Z: Mi>(cx: &mut Cx) {
    all_pairs::<Z>(cx, Z::modulus(), false);
    sequences::<Z>(cx, Z::modulus(), false, 5);
}
fn st_large<Z: Mi>(cx: &mut Cx) {
    grid::<Z>(cx, Z::modulus(), false);
    sequences::<Z>(cx, Z::modulus(), false, 4);
}
fn dy_small<Z: Mi>(cx: &mut Cx, c: usize) {
    let top = if cx.thorough { 1200 } else { 480 };
    for m in (1..=top).filter(|m| m % PARTS as u32 == c as u32) {
        all_pairs::<Z>(cx, m, true);
    }
}
fn dy_large<Z: Mi>(cx: &mut Cx, c: usize) {
    for (i, m) in large_moduli().into_iter().enumerate() {
        if i % PARTS == c {
            grid::<Z>(cx, m, true);
        }
    }
}
fn dy_seq<Z: Mi>(cx: &mut Cx, c: usize) {
    for (i, m) in (1..=64).chain(large_moduli()).enumerate() {
        if i % PARTS == c {
            sequences::<Z>(cx, m, true, if cx.thorough { 6 } else { 5 });
        }
    }
}
/// Every modulus of a range, few pairs each: the reciprocal of each modulus is used.
fn dy_every<Z: Mi>(cx: &mut Cx, c: usize) {
    let ranges: Vec<(u64, u64)> = if cx.thorough {
        vec![((c as u64) << 21, (c as u64 + 1) << 21)]
    } else {
        let w = 1u64 << 11;
        [0u64, 1 << 16, 1 << 24, (1 << 31) - (w << 10)].iter().map(|s| (s + c as u64 * w, s + (c as u64 + 1) * w)).collect()
    };
    for (lo, hi) in ranges {
        let r = cx.run(
            || format!("run-time moduli {}..={hi}: largest products", lo + 1),
            || {
                for m in lo + 1..=hi {
                    let m = m as u32;
                    Z::set(m);
                    let t = m - 1;
                    for (a, b) in [(t, t), (t, m / 2), (m / 2, m / 2 + (m > 1) as u32), (t, (m as f64).sqrt() as u32 % m), (1 % m, t)] {
                        let got = (Z::raw(a) * Z::raw(b)).val();
                        let want = (a as u64 * b as u64 % m as u64) as u32;
                        if got != want {
                            return Err(format!("{a} * {b} modulo {m}: got {got}, expected {want}"));
                        }
                    }
                }
                Ok(())
            },
        );
        if r.is_some() {
            cx.calls((hi - lo) * 5);
            cx.states(hi - lo);
        }
    }
}
/// Windows of residues against the grid.
fn window<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool) {
    let w = if cx.thorough { 16_384 } else { 2048 };
    let r = cx.run(
        || format!("{}: windows of residues (size {w}) against the grid", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            let (ws, rs) = (windows(m, w), residues(m));
            let m = m as u64;
            for &a in &ws {
                let x = Z::raw(a);
                let n = (-x).val();
                if n as u64 != (m - a as u64) % m {
                    return Err(format!("-{a} modulo {m} is {n}"));
                }
                for &b in &rs {
                    let y = Z::raw(b);
                    let got = [(x + y).val(), (y + x).val(), (x - y).val(), (y - x).val(), (x * y).val(), (y * x).val()].map(|v| v as u64);
                    let (a, b) = (a as u64, b as u64);
                    let want = [(a + b) % m, (a + b) % m, (a + m - b) % m, (b + m - a) % m, a * b % m, a * b % m];
                    if got != want {
                        return Err(format!("{a} and {b} modulo {m}: a+b, b+a, a-b, b-a, a*b, b*a are {got:?}, expected {want:?}"));
                    }
                }
            }
            Ok((ws.len() * (6 * rs.len() + 1)) as u64)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 6);
        cx.outcome(m as u64);
    }
}
fn st_window<Z: Mi>(cx: &mut Cx) {
    window::<Z>(cx, Z::modulus(), false);
}
const SMALL: usize = 0;
const SEQ: usize = 1;
const LARGE: usize = 2;
const EVERY: usize = 3;
const WINDOW: usize = 4;
fn dy<Z: Mi>(cx: &mut Cx, what: usize, c: usize) {
    match what {
        SMALL => dy_small::<Z>(cx, c),
        SEQ => dy_seq::<Z>(cx, c),
        LARGE => dy_large::<Z>(cx, c),
        WINDOW => {
            for (_, m) in middle_moduli().into_iter().enumerate().filter(|x| x.0 % PARTS == c) {
                window::<Z>(cx, m, true);
            }
        }
        _ => dy_every::<Z>(cx, c),
    }
}
fn run_time(cx: &mut Cx, what: usize, c: usize) {
    per_worker!(dy)[cx.worker](cx, what, c)
}
/// Built-in families.
fn builtin(cx: &mut Cx) {
    grid::<rust_cp::misc::modint::ModInt1000000007>(cx, 1_000_000_007, false);
    grid::<rust_cp::misc::modint::ModInt998244353>(cx, 998_244_353, false);
    sequences::<rust_cp::misc::modint::ModInt1000000007>(cx, 1_000_000_007, false, 5);
    sequences::<rust_cp::misc::modint::ModInt998244353>(cx, 998_244_353, false, 5);
    grid::<rust_cp::misc::modint::ModInt>(cx, 998_244_353, true);
    for m in 1..=60 {
        all_pairs::<rust_cp::misc::modint::ModInt>(cx, m, true);
    }
}

fn main() {
    mc::main("C16", false, |thorough| {
        let mut v = vec![];
        let small = small_static!(st_small);
        let large = large_static!(st_large);
        v.push(space("small compile-time moduli", "moduli 1..=20 and 23, 24, 25, 30, 32, 36, 48, 60, 61, 64 (primes declared and undeclared): every pair of residues in every by-value, by-reference and assigning form, negation, sums and products of all sequences up to length 5", SMALL_STATIC, move |c, cx| small[c](cx)));
        v.push(space("built-in types", "1000000007, 998244353, and the default run-time family (also at moduli 1..=60)", 1, |_, cx| builtin(cx)));
        v.push(space("small run-time moduli", &format!("moduli 1..={}: every pair of residues in every by-value, by-reference and assigning form", if thorough { 1200 } else { 480 }), PARTS, move |c, cx| run_time(cx, SMALL, c)));
        let ints = int_families!(ints);
        v.push(space("integer operands", "compile-time moduli 1, 7 (prime), 60, 2^31 and run-time moduli 1..=40 and the large list: every pair of residues (grid for large moduli), the right-hand side given as each of the 12 integer types by up to four congruent values of both signs, plain and assigning", INT_FAMILIES, move |c, cx| ints[c](cx, c)));
        v.push(space("sequences", "run-time moduli 1..=64 and the large list: sums and products of all sequences up to length 5 (thorough 6) over up to 5 residues, and of long sequences", PARTS, move |c, cx| run_time(cx, SEQ, c)));
        v.push(space("large compile-time moduli", "large moduli up to 2^31: residue grid squared in every form, products around multiples of the modulus", LARGE_STATIC, move |c, cx| large[c](cx)));
        v.push(space("large run-time moduli", "moduli around every power of two up to 2^31, primes, smooth numbers: residue grid squared in every form, products around multiples of the modulus", PARTS, move |c, cx| run_time(cx, LARGE, c)));
        v.push(space("every modulus", if thorough { "every run-time modulus from 1 to 2^31: five largest-product multiplications each" } else { "every run-time modulus in four windows of 2^21 (from 1, 2^16, 2^24 and up to 2^31): five largest-product multiplications each" }, 1024, move |c, cx| run_time(cx, EVERY, c)));
        let w = if thorough { "16384" } else { "2048" };
        let window = large_static!(st_window);
        v.push(space("windows of residues, compile-time moduli", &format!("large moduli: every residue in windows of {w} (from 0, middle, third, root, top), negated and with each residue of the grid on either side"), LARGE_STATIC, move |c, cx| window[c](cx)));
        v.push(space("windows of residues, run-time moduli", "38 moduli up to 2^31: the same", PARTS, move |c, cx| run_time(cx, WINDOW, c)));
        v
    });
}
