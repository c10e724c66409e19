//! C20 gcd, lcm and Bezout coefficients for every integer type.
use mc::model::*;
use mc::*;
use rust_cp::math::number_theory::{ex_gcd, gcd, lcm};
use rust_cp::traits::integral::Integral;

/// gcd by definition for small magnitudes.
fn gcd_def(a: u128, b: u128) -> u128 {
    if a == 0 || b == 0 {
        return a | b;
    }
    (1..=a.min(b)).rev().find(|d| a % d == 0 && b % d == 0).unwrap()
}
/// gcd by repeated subtraction of shifted values (no remainder).
fn gcd_bin(mut a: u128, mut b: u128) -> u128 {
    if a == 0 || b == 0 {
        return a | b;
    }
    let s = (a | b).trailing_zeros();
    a >>= a.trailing_zeros();
    loop {
        b >>= b.trailing_zeros();
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        b -= a;
        if b == 0 {
            return a << s;
        }
    }
}
/// Sign and magnitude of a value of any type.
trait Num: Integral + std::fmt::Debug {
    const SIGNED: bool;
    const NAME: &'static str;
    /// greatest value, as a magnitude
    const TOP: u128;
    fn neg(self) -> bool;
    fn mag(self) -> u128;
    fn make(neg: bool, mag: u128) -> Option<Self>;
    /// x*a + y*b == g over the integers
    fn bezout(x: Self, a: Self, y: Self, b: Self, g: Self) -> bool;
}
/// Signed 256-bit-safe comparison: x*a + y*b == g on (sign, magnitude).
fn wide_mul(a: u128, b: u128) -> (u128, u128) {
    let (a1, a0, b1, b0) = (a >> 64, a as u64 as u128, b >> 64, b as u64 as u128);
    let (p, q, r) = (a0 * b0, a0 * b1, a1 * b0);
    let (m, c) = q.overflowing_add(r);
    let (lo, c2) = p.overflowing_add(m << 64);
    (a1 * b1 + (m >> 64) + ((c as u128) << 64) + c2 as u128, lo)
}
fn add256(a: (u128, u128), b: (u128, u128)) -> (u128, u128) {
    let (lo, c) = a.1.overflowing_add(b.1);
    (a.0 + b.0 + c as u128, lo)
}
fn bezout_wide(x: (bool, u128), a: (bool, u128), y: (bool, u128), b: (bool, u128), g: (bool, u128)) -> bool {
    // collect positive and negative terms
    let (mut pos, mut neg) = ((0, 0), (0, 0));
    for (s, v) in [(x.0 ^ a.0, wide_mul(x.1, a.1)), (y.0 ^ b.0, wide_mul(y.1, b.1)), (!g.0, (0, g.1))] {
        if s {
            neg = add256(neg, v);
        } else {
            pos = add256(pos, v);
        }
    }
    pos == neg
}
macro_rules! num {
    ($signed:literal, $($t:ty),*) => {$(
        impl Num for $t {
            const SIGNED: bool = $signed;
            const NAME: &'static str = stringify!($t);
            const TOP: u128 = <$t>::MAX as u128;
            #[allow(unused_comparisons)]
            fn neg(self) -> bool {
                self < 0
            }
            #[allow(unused_comparisons)]
            fn mag(self) -> u128 {
                if self < 0 { (self as i128).unsigned_abs() } else { self as u128 }
            }
            fn make(neg: bool, mag: u128) -> Option<Self> {
                let v = <$t>::try_from(mag).ok()?;
                if neg && v != 0 { (0 as $t).checked_sub(v) } else { Some(v) }
            }
            fn bezout(x: Self, a: Self, y: Self, b: Self, g: Self) -> bool {
                let f = |v: Self| (v.neg(), v.mag());
                bezout_wide(f(x), f(a), f(y), f(b), f(g))
            }
        }
    )*};
}
num!(true, i8, i16, i32, i64, i128, isize);
num!(false, u8, u16, u32, u64, u128, usize);

fn one<T: Num>(a: T, b: T, g: u128) -> Result<u64, String> {
    let call = |f: &str| format!("{f}({a}, {b}) over {}", T::NAME);
    let mut n = 1;
    let r = gcd(a, b);
    if a.neg() || b.neg() {
        same(|| format!("magnitude of {}", call("gcd")), r.mag(), g)?;
    } else {
        same(|| call("gcd"), (r.neg(), r.mag()), (false, g))?;
    }
    if g != 0 {
        let l = (a.mag() / g).checked_mul(b.mag());
        if let Some(l) = l.filter(|&l| l <= T::TOP) {
            let r = lcm(a, b);
            if a.neg() || b.neg() {
                same(|| format!("magnitude of {}", call("lcm")), r.mag(), l)?;
            } else {
                same(|| call("lcm"), (r.neg(), r.mag()), (false, l))?;
            }
            n += 1;
        }
    }
    if T::SIGNED {
        let (x, y, d) = ex_gcd(a, b);
        same(|| format!("magnitude of the divisor of {}", call("ex_gcd")), d.mag(), g)?;
        ensure(T::bezout(x, a, y, b, d), || format!("{} = ({x}, {y}, {d}) does not satisfy the Bezout identity", call("ex_gcd")))?;
        n += 1;
    }
    Ok(n)
}
fn pairs<T: Num>(cx: &mut Cx, what: String, it: impl Fn(&mut dyn FnMut(T, T, u128) -> Result<(), String>) -> Result<(), String>) {
    let r = cx.run(
        || format!("{} {what}", T::NAME),
        || {
            let (mut n, mut st) = (0, 0);
            it(&mut |a, b, g| {
                n += one(a, b, g)?;
                st += 1;
                Ok(())
            })?;
            Ok((n, st))
        },
    );
    if let Some((n, st)) = r {
        cx.calls(n);
        cx.states(st);
        cx.outcome(fp_debug(&what) as u64);
    }
}
/// Both signs where the type has them.
fn signs<T: Num>(a: u128, b: u128, g: u128, f: &mut dyn FnMut(T, T, u128) -> Result<(), String>) -> Result<(), String> {
    for s in 0..if T::SIGNED { 4 } else { 1 } {
        if s & 1 == 1 && a == 0 || s & 2 == 2 && b == 0 {
            continue;
        }
        if let (Some(x), Some(y)) = (T::make(s & 1 == 1, a), T::make(s & 2 == 2, b)) {
            f(x, y, g)?;
        }
    }
    Ok(())
}
fn rows<T: Num>(cx: &mut Cx, lo: u128, hi: u128, bmax: u128, slow: bool) {
    for a in lo..hi {
        pairs::<T>(cx, format!("with |first| = {a}, every second argument up to {bmax} in magnitude, every sign"), |f| {
            for b in 0..=bmax {
                signs(a, b, if slow { gcd_def(a, b) } else { gcd_bin(a, b) }, f)?;
            }
            Ok(())
        });
    }
}
/// Magnitudes worth pairing in a type: ends, powers of two and neighbours, smooth numbers, Fibonacci numbers, square roots.
fn magnitudes(top: u128) -> Vec<u128> {
    let mut v: Vec<u128> = (0..13).collect();
    let mut p: u128 = 16;
    while p <= top {
        v.extend([p - 1, p, p + 1]);
        if p > top / 2 {
            break;
        }
        p *= 2;
    }
    for d in 0..6 {
        v.push(top - d);
        v.push(top / 2 - d);
        v.push(top / 3 - d);
    }
    let r = (1..).take(128).map(|k| 1u128 << k).take_while(|&x| x.checked_mul(x).map_or(false, |y| y <= top)).last().unwrap_or(1);
    for d in 0..3 {
        v.push(r + d);
        v.push(r - d.min(r));
        v.push(r * 7 / 5 + d);
    }
    let (mut a, mut b) = (1u128, 2u128);
    while b <= top {
        v.push(b);
        match a.checked_add(b) {
            Some(c) => (a, b) = (b, c),
            None => break,
        }
    }
    let mut f: u128 = 1;
    for k in 2..40u128 {
        match f.checked_mul(k) {
            Some(x) if x <= top => {
                f = x;
                v.push(f);
                v.push(top / f * f);
            }
            _ => break,
        }
    }
    let mut t: u128 = 3;
    while t <= top {
        v.push(t);
        match t.checked_mul(3) {
            Some(x) => t = x,
            None => break,
        }
    }
    v.retain(|&x| x <= top);
    v.sort();
    v.dedup();
    v
}
fn corner<T: Num>(cx: &mut Cx, c: usize, parts: usize) {
    let v = magnitudes(T::TOP);
    for (i, &a) in v.iter().enumerate() {
        if i % parts != c {
            continue;
        }
        pairs::<T>(cx, format!("with |first| = {a}, second argument over {} corner magnitudes, every sign", v.len()), |f| {
            for &b in &v {
                signs(a, b, gcd_bin(a, b), f)?;
            }
            // common factors: second argument a multiple of a divisor of the first
            for k in 1..30u128 {
                let d = a / k;
                for q in [1u128, 2, 3, 5, 10, T::TOP / d.max(1), (T::TOP / d.max(1)) / 2] {
                    if let Some(b) = d.checked_mul(q).filter(|&b| b <= T::TOP) {
                        signs(a, b, gcd_bin(a, b), f)?;
                    }
                }
            }
            Ok(())
        });
    }
}
/// Each call has long remainder chains: consecutive members of linear recurrences.
fn chains<T: Num>(cx: &mut Cx) {
    pairs::<T>(cx, "consecutive members (and small multiples) of recurrences x' = k x + y up to the greatest value".into(), |f| {
        for k in 1..=5u128 {
            for s in 0..4u128 {
                for mul in 1..=6u128 {
                    let (mut a, mut b) = (s * mul, mul);
                    while b <= T::TOP {
                        signs(a, b, gcd_bin(a, b), f)?;
                        signs(b, a, gcd_bin(a, b), f)?;
                        match b.checked_mul(k).and_then(|x| x.checked_add(a)) {
                            Some(c) => (a, b) = (b, c),
                            None => break,
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

fn main() {
    mc::main("C20", false, |thorough| {
        let mut v = vec![];
        v.push(space("8-bit types", "every pair of i8 (minimum excluded) and of u8, gcd by definition", 16, |c, cx| {
            let c = c as u128;
            rows::<i8>(cx, c * 8, c * 8 + 8, 127, true);
            rows::<u8>(cx, c * 16, c * 16 + 16, 255, true);
        }));
        macro_rules! all_types {
            ($f:ident, $($a:expr),*) => {{
                $f::<i8>($($a),*); $f::<i16>($($a),*); $f::<i32>($($a),*); $f::<i64>($($a),*); $f::<i128>($($a),*); $f::<isize>($($a),*);
                $f::<u8>($($a),*); $f::<u16>($($a),*); $f::<u32>($($a),*); $f::<u64>($($a),*); $f::<u128>($($a),*); $f::<usize>($($a),*);
            }};
        }
        let low: u128 = if thorough { 1000 } else { 256 };
        v.push(space("small values of every type", &format!("every pair of magnitude up to {low} in every sign, 10 wider types"), 64, move |c, cx| {
            let per = low / 64 + 1;
            let (lo, hi) = (c as u128 * per, ((c as u128 + 1) * per).min(low + 1));
            rows::<i16>(cx, lo, hi, low, false);
            rows::<i32>(cx, lo, hi, low, false);
            rows::<i64>(cx, lo, hi, low, false);
            rows::<i128>(cx, lo, hi, low, false);
            rows::<isize>(cx, lo, hi, low, false);
            rows::<u16>(cx, lo, hi, low, false);
            rows::<u32>(cx, lo, hi, low, false);
            rows::<u64>(cx, lo, hi, low, false);
            rows::<u128>(cx, lo, hi, low, false);
            rows::<usize>(cx, lo, hi, low, false);
        }));
        v.push(space("corners", "every pair of corner magnitudes (extremes, powers of two, square roots, Fibonacci numbers, factorials, powers of three, multiples of divisors) in every sign, all 12 types", 32, |c, cx| all_types!(corner, cx, c, 32)));
        v.push(space("long remainder chains", "consecutive members of 120 linear recurrences up to the greatest value, every sign, all 12 types", 1, |_, cx| all_types!(chains, cx)));
        if thorough {
            v.push(space("16-bit types", "every pair of u16 and every pair of i16 (minimum excluded)", 2048, |c, cx| {
                let c = c as u128;
                rows::<u16>(cx, c * 32, c * 32 + 32, 65535, false);
                rows::<i16>(cx, c * 16, c * 16 + 16, 32767, false);
            }));
        } else {
            v.push(space("16-bit types", "every pair of u16 and i16 with the first magnitude one of 32 spread over the range", 32, |c, cx| {
                let c = c as u128;
                rows::<u16>(cx, c * 2111, c * 2111 + 1, 65535, false);
                rows::<i16>(cx, c * 1057, c * 1057 + 1, 32767, false);
            }));
        }
        let _ = mix(0);
        v
    });
}
