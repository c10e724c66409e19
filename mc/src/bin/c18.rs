//! C18 conversions into and out of modular integers.
use mc::modi::*;
use mc::*;
use rust_cp::misc::modint::{ModIntBase, RemEuclidU32};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn who<Z: Mi>(m: u32, dynamic: bool) -> String {
    if dynamic {
        format!("run-time modulus {m}")
    } else {
        format!("compile-time modulus {m}, declared prime: {}", Z::declared_prime())
    }
}

/// Conversion of every given value of one type through `new` and `From`; `w(v)` is v modulo m.
macro_rules! ty {
    ($name:ident, $t:ty) => {
        fn $name<Z: Mi>(m: u32, vs: &mut dyn Iterator<Item = $t>) -> Result<u64, String>
        where
            $t: RemEuclidU32,
        {
            let mut n = 0;
            for v in vs {
                // the wide remainder is taken on the unsigned magnitude, then reflected
                let mag = if (v as i128) < 0 && <$t>::MIN != 0 { (v as i128).unsigned_abs() } else { v as u128 };
                let r = (mag % m as u128) as u32;
                let w = if (v as i128) < 0 && <$t>::MIN != 0 && r != 0 { m - r } else { r };
                let (a, b) = (<Z as ModIntBase>::new(v).val(), <Z as From<$t>>::from(v).val());
                n += 2;
                if a != w || b != w {
                    return Err(format!("{v}{} modulo {m}: new gives {a}, From gives {b}, expected {w}", stringify!($t)));
                }
            }
            Ok(n)
        }
    };
}
ty!(c_i8, i8);
ty!(c_i16, i16);
ty!(c_i32, i32);
ty!(c_i64, i64);
ty!(c_i128, i128);
ty!(c_isize, isize);
ty!(c_u8, u8);
ty!(c_u16, u16);
ty!(c_u32, u32);
ty!(c_u64, u64);
ty!(c_u128, u128);
ty!(c_usize, usize);

/// Values where representations and signs change, and around multiples of m.
fn corners(m: u32) -> Vec<i128> {
    let m = m as i128;
    let mut v: Vec<i128> = (-20..=20).collect();
    for k in 1..127u32 {
        for d in -1..=1 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    for q in [1i128, 2, 3, 7, 1 << 16, (1 << 31) / m, (1 << 32) / m, (1 << 33) / m, (1i128 << 63) / m, (1i128 << 64) / m, (1i128 << 94) / m, i128::MAX / m] {
        for d in -2..=2 {
            if let Some(x) = (q * m).checked_add(d) {
                v.push(x);
                v.push(-x);
            }
        }
    }
    v.extend([i128::MIN, i128::MIN + 1, i128::MAX, i128::MAX - 1]);
    v
}
fn fits<T: TryFrom<i128>>(v: &[i128]) -> impl Iterator<Item = T> + '_ {
    v.iter().filter_map(|&x| T::try_from(x).ok())
}
fn wide<Z: Mi>(m: u32) -> Result<u64, String> {
    let v = corners(m);
    let mut n = 0;
    n += c_i32::<Z>(m, &mut fits(&v))?;
    n += c_i64::<Z>(m, &mut fits(&v))?;
    n += c_isize::<Z>(m, &mut fits(&v))?;
    n += c_i128::<Z>(m, &mut v.iter().copied())?;
    n += c_u32::<Z>(m, &mut fits(&v))?;
    n += c_u64::<Z>(m, &mut fits(&v))?;
    n += c_usize::<Z>(m, &mut fits(&v))?;
    n += c_u128::<Z>(m, &mut fits(&v))?;
    n += c_u128::<Z>(m, &mut (0..200).map(|d| u128::MAX - d))?;
    n += c_u64::<Z>(m, &mut (0..200).map(|d| u64::MAX - d))?;
    n += c_u32::<Z>(m, &mut (0..200).map(|d| u32::MAX - d))?;
    n += c_usize::<Z>(m, &mut (0..200).map(|d| usize::MAX - d))?;
    n += c_u128::<Z>(m, &mut (0..128).map(|k| u128::MAX >> k))?;
    Ok(n)
}
fn text<Z: Mi>(m: u32) -> Result<u64, String>
where
    <Z as std::str::FromStr>::Err: std::fmt::Debug,
{
    let mut v: Vec<i64> = fits(&corners(m)).collect();
    v.extend([i64::MIN, i64::MAX]);
    v.extend(-300..300);
    for v in &v {
        let w = (*v as i128).rem_euclid(m as i128) as u32;
        let t = v.to_string();
        let got = t.parse::<Z>().unwrap().val();
        if got != w {
            return Err(format!("parsing {t:?} modulo {m} gives {got}, expected {w}"));
        }
    }
    Ok(v.len() as u64)
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Printing, equality, hashing, default on all residues (or the grid), values made from congruent integers.
fn show<Z: Mi>(m: u32) -> Result<u64, String> {
    let rs = if m <= 70 { (0..m).collect() } else { residues(m) };
    let mut n = 0;
    same(|| format!("default modulo {m}"), Z::default().val(), 0)?;
    for &a in &rs {
        let x = Z::raw(a);
        same(|| format!("raw({a}).val()"), x.val(), a)?;
        same(|| format!("Display of {a} modulo {m}"), x.to_string(), a.to_string())?;
        same(|| format!("Debug of {a} modulo {m}"), format!("{x:?}"), a.to_string())?;
        n += 3;
        for &b in &rs {
            // the same residue from a distant integer
            for k in [0i64, 1, -1, 3] {
                let y = <Z as ModIntBase>::new(b as i64 + k * m as i64);
                same(|| format!("{a} == {b} + {k} * {m} modulo {m}"), x == y, a == b)?;
                same(|| format!("{a} != {b} + {k} * {m} modulo {m}"), x != y, a != b)?;
                if a == b {
                    same(|| format!("hash of {a} modulo {m} made in two ways"), hash(&x), hash(&y))?;
                    n += 1;
                }
                n += 2;
            }
        }
    }
    same(|| format!("number of distinct members in a hash set modulo {m}"), rs.iter().chain(&rs).map(|&a| Z::raw(a)).collect::<std::collections::HashSet<Z>>().len(), rs.len())?;
    Ok(n)
}
fn all<Z: Mi>(cx: &mut Cx, m: u32, dynamic: bool, full16: bool)
where
    <Z as std::str::FromStr>::Err: std::fmt::Debug,
{
    let step = if full16 { 1 } else { 7 };
    let r = cx.run(
        || format!("{}: conversions from every 8- and 16-bit value and wide corners, text, printing, equality, hashing", who::<Z>(m, dynamic)),
        || {
            Z::set(m);
            same(|| "modulus()".into(), Z::modulus(), m)?;
            let mut n = c_i8::<Z>(m, &mut (i8::MIN..=i8::MAX))?;
            n += c_u8::<Z>(m, &mut (u8::MIN..=u8::MAX))?;
            n += c_i16::<Z>(m, &mut (i16::MIN..=i16::MAX).step_by(step))?;
            n += c_u16::<Z>(m, &mut (u16::MIN..=u16::MAX).step_by(step))?;
            n += c_i16::<Z>(m, &mut [i16::MIN, i16::MAX].into_iter())?;
            n += c_u16::<Z>(m, &mut (u16::MAX - 3..=u16::MAX))?;
            n += wide::<Z>(m)?;
            n += text::<Z>(m)?;
            n += show::<Z>(m)?;
            Ok(n)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 2);
        cx.outcome(m as u64);
    }
}
/// Every 32-bit value of one modulus in one chunk of 2^22.
fn every32<Z: Mi>(cx: &mut Cx, m: u32, part: u32) {
    let (lo, hi) = (part << 22, (part << 22) + ((1 << 22) - 1));
    let r = cx.run(
        || format!("run-time modulus {m}: u32 {lo}..={hi} and the same bit patterns as i32"),
        || {
            Z::set(m);
            Ok(c_u32::<Z>(m, &mut (lo..=hi))? + c_i32::<Z>(m, &mut (lo..=hi).map(|x| x as i32))?)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 2);
    }
}
/// Numbers with at most three bits set, and their complements.
fn few_bits(bits: u32, each: &mut dyn FnMut(u128)) {
    for a in 0..bits {
        for b in a..bits {
            for c in b..bits {
                let x = 1u128 << a | 1u128 << b | 1u128 << c;
                each(x);
                each(!x & (u128::MAX >> (128 - bits)));
            }
        }
    }
}
fn patterns<Z: Mi>(cx: &mut Cx, m: u32)
where
    <Z as std::str::FromStr>::Err: std::fmt::Debug,
{
    let span = if cx.thorough { 2_000_000 } else { 70_000 };
    let r = cx.run(
        || format!("run-time modulus {m}: bit patterns of the 64- and 128-bit types, a long window of integers"),
        || {
            Z::set(m);
            let mut v64 = vec![];
            few_bits(64, &mut |x| v64.push(x as u64));
            let mut v128 = vec![];
            few_bits(128, &mut |x| v128.push(x));
            let mut n = c_u64::<Z>(m, &mut v64.iter().copied())?;
            n += c_i64::<Z>(m, &mut v64.iter().map(|&x| x as i64))?;
            n += c_usize::<Z>(m, &mut v64.iter().map(|&x| x as usize))?;
            n += c_isize::<Z>(m, &mut v64.iter().map(|&x| x as isize))?;
            n += c_u128::<Z>(m, &mut v128.iter().copied())?;
            n += c_i128::<Z>(m, &mut v128.iter().map(|&x| x as i128))?;
            n += c_i128::<Z>(m, &mut v64.iter().map(|&x| -(x as i128)))?;
            for &x in v64.iter().step_by(7) {
                let x = x as i64;
                let w = (x as i128).rem_euclid(m as i128) as u32;
                let got = x.to_string().parse::<Z>().unwrap().val();
                if got != w {
                    return Err(format!("parsing \"{x}\" modulo {m} gives {got}, expected {w}"));
                }
            }
            let q = m as i64;
            for lo in [-span / 2, (1 << 40) - span / 4, q * (1 << 20) - span / 4, -q * 1000 - span / 4] {
                let it = || lo..lo + if lo < 0 && lo > -span { span } else { span / 2 };
                n += c_i64::<Z>(m, &mut it())?;
                n += c_isize::<Z>(m, &mut it().map(|x| x as isize))?;
                n += c_i128::<Z>(m, &mut it().map(|x| x as i128))?;
                n += c_u64::<Z>(m, &mut it().map(|x| x as u64))?;
                n += c_usize::<Z>(m, &mut it().map(|x| x as usize))?;
                n += c_u128::<Z>(m, &mut it().map(|x| x as i128 as u128))?;
                for x in it() {
                    let w = x.rem_euclid(q) as u32;
                    let got = x.to_string().parse::<Z>().unwrap();
                    if got.val() != w {
                        return Err(format!("parsing \"{x}\" modulo {m} gives {got}, expected {w}"));
                    }
                    if x % 4 == 0 && (got.to_string() != w.to_string() || format!("{got:?}") != w.to_string()) {
                        return Err(format!("{w} modulo {m} is shown as {got} and {got:?}"));
                    }
                }
            }
            Ok(n)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 2);
        cx.outcome(m as u64);
    }
}
fn st<Z: Mi>(cx: &mut Cx)
where
    <Z as std::str::FromStr>::Err: std::fmt::Debug,
{
    all::<Z>(cx, Z::modulus(), false, true);
}
fn dy<Z: Mi>(cx: &mut Cx, what: usize, c: usize)
where
    <Z as std::str::FromStr>::Err: std::fmt::Debug,
{
    match what {
        0 => {
            let top = if cx.thorough { 600 } else { 160 };
            for m in (1..=top).filter(|m| m % PARTS as u32 == c as u32) {
                all::<Z>(cx, m, true, cx.thorough || m <= 16);
            }
        }
        1 => {
            for (i, m) in large_moduli().into_iter().enumerate() {
                if i % PARTS == c {
                    all::<Z>(cx, m, true, cx.thorough);
                }
            }
        }
        3 => patterns::<Z>(cx, PATTERN_MODULI[c]),
        _ => {
            for m in [3, 998_244_353, 1 << 31, 65_537, 1] {
                every32::<Z>(cx, m, c as u32);
            }
        }
    }
}
const PATTERN_MODULI: [u32; 12] = [998_244_353, 1_000_000_007, 1 << 31, (1 << 31) - 1, 1, 2, 7, 10_000, 65_536, 65_537, 720_720, 1_431_655_765];
fn run_time(cx: &mut Cx, what: usize, c: usize) {
    per_worker!(dy)[cx.worker](cx, what, c)
}

fn main() {
    mc::main("C18", false, |thorough| {
        let mut v = vec![];
        let (small, large) = (small_static!(st), large_static!(st));
        let what = "every value of the 8- and 16-bit types; corners of the eight wider types (powers of two, multiples of the modulus, extremes, both signs) through new and From; text of 64-bit integers; Display, Debug, equality and hashing of congruent values; default";
        v.push(space("small compile-time moduli", &format!("moduli 1..=20 and ten up to 64: {what}"), SMALL_STATIC, move |c, cx| small[c](cx)));
        v.push(space("large compile-time moduli", "the same at large moduli up to 2^31", LARGE_STATIC, move |c, cx| large[c](cx)));
        v.push(space("built-in types", "the same at 1000000007, 998244353 and the default run-time family (moduli 998244353 and 1..=20)", 1, |_, cx| {
            st::<rust_cp::misc::modint::ModInt1000000007>(cx);
            st::<rust_cp::misc::modint::ModInt998244353>(cx);
            for m in std::iter::once(998_244_353).chain(1..=20) {
                all::<rust_cp::misc::modint::ModInt>(cx, m, true, false);
            }
        }));
        v.push(space("small run-time moduli", &format!("the same at moduli 1..={} (16-bit types: every value up to modulus 16{}, every seventh above)", if thorough { 600 } else { 160 }, if thorough { " (thorough: at every modulus)" } else { "" }), PARTS, |c, cx| run_time(cx, 0, c)));
        v.push(space("large run-time moduli", "the same around every power of two up to 2^31, primes, smooth numbers", PARTS, |c, cx| run_time(cx, 1, c)));
        v.push(space("32-bit values", &format!("every u32 and i32 value{} at run-time moduli 3, 998244353, 2^31, 65537, 1", if thorough { "" } else { " in 16 of 1024 windows" }), if thorough { 1024 } else { 16 }, move |c, cx| run_time(cx, 2, if thorough { c } else { [0, 1, 127, 255, 256, 383, 511, 512, 513, 640, 767, 768, 895, 1000, 1022, 1023][c] })));
        v.push(space("bit patterns and windows", &format!("12 run-time moduli: the 64- and 128-bit types: every value with at most three bits set or clear; windows of {} integers around 0 (half as many at 2^40 and around multiples of the modulus): conversion, parsing, printing", if thorough { 2_000_000 } else { 70_000 }), PATTERN_MODULI.len(), |c, cx| run_time(cx, 3, c)));
        v
    });
}
