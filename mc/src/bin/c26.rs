//! C26 provided monoids and numeric constants.
use mc::*;
use rust_cp::misc::monoids::{Additive, Max, Min, Multiplicative};
use rust_cp::traits::monoid::Monoid;
use rust_cp::traits::numeric::{BoundedAbove, BoundedBelow, One, Zero};
use std::fmt::Debug;

/// A primitive integer type with an independent notion of its arithmetic.
trait Int: Copy + Ord + Debug + Zero + One + BoundedBelow + BoundedAbove + std::ops::Add<Output = Self> + std::ops::Mul<Output = Self> + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    /// The value whose two's complement bits are given.
    fn bits(b: u128) -> Self;
    fn add_fits(self, o: Self) -> Option<Self>;
    fn mul_fits(self, o: Self) -> Option<Self>;
}
macro_rules! int {
    ($($t:ident $s:expr),*) => {$(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = <$t>::BITS;
            const SIGNED: bool = $s;
            fn bits(b: u128) -> Self { b as $t }
            fn add_fits(self, o: Self) -> Option<Self> { self.checked_add(o) }
            fn mul_fits(self, o: Self) -> Option<Self> { self.checked_mul(o) }
        }
    )*};
}
int!(i8 true, i16 true, i32 true, i64 true, i128 true, isize true, u8 false, u16 false, u32 false, u64 false, u128 false, usize false);

fn least<T: Int>() -> T {
    T::bits(if T::SIGNED { 1u128 << (T::BITS - 1) } else { 0 })
}
fn greatest<T: Int>() -> T {
    T::bits(if T::SIGNED { (1u128 << (T::BITS - 1)) - 1 } else { u128::MAX })
}
/// Every value of an 8-bit type; values around every power of two of a wider one.
fn corner_values<T: Int>() -> Vec<T> {
    let mut v = vec![];
    if T::BITS == 8 {
        v.extend((0..256).map(T::bits));
    } else {
        for k in 0..T::BITS {
            for d in -2i128..=2 {
                let b = (1u128 << k).wrapping_add(d as u128);
                v.push(T::bits(b));
                v.push(T::bits(b.wrapping_neg()));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn constants<T: Int>() -> Result<u64, String> {
    same(|| format!("{}: zero", T::NAME), T::zero(), T::bits(0))?;
    same(|| format!("{}: one", T::NAME), T::one(), T::bits(1))?;
    same(|| format!("{}: least value", T::NAME), <T as BoundedBelow>::min_value(), least())?;
    same(|| format!("{}: greatest value", T::NAME), <T as BoundedAbove>::max_value(), greatest())?;
    same(|| format!("{}: identity of the maximum", T::NAME), Max::<T>::identity(), least())?;
    same(|| format!("{}: identity of the minimum", T::NAME), Min::<T>::identity(), greatest())?;
    same(|| format!("{}: identity of the sum", T::NAME), Additive::<T>::identity(), T::bits(0))?;
    same(|| format!("{}: identity of the product", T::NAME), Multiplicative::<T>::identity(), T::bits(1))?;
    Ok(8)
}
fn neutral<T: Int>(vals: impl Iterator<Item = T>) -> Result<u64, String> {
    fn both<M: Monoid<S = T>, T: Int>(n: &str, x: T) -> Result<(), String> {
        if M::binary_operation(&M::identity(), &x) != x || M::binary_operation(&x, &M::identity()) != x {
            return Err(format!("{}: the identity of the {n} is not neutral for {x:?}", T::NAME));
        }
        Ok(())
    }
    let mut n = 0;
    for x in vals {
        both::<Max<T>, T>("maximum", x)?;
        both::<Min<T>, T>("minimum", x)?;
        both::<Additive<T>, T>("sum", x)?;
        both::<Multiplicative<T>, T>("product", x)?;
        n += 8;
    }
    Ok(n)
}
fn pairs<T: Int>(a: T, vals: &[T]) -> Result<u64, String> {
    let mut n = 0;
    for &b in vals {
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        let e = |w: &str, g: T, x: T| Err(format!("{}: {w} of {a:?} and {b:?} = {g:?}, expected {x:?}", T::NAME));
        let g = Max::<T>::binary_operation(&a, &b);
        if g != hi {
            return e("maximum", g, hi);
        }
        let g = Min::<T>::binary_operation(&a, &b);
        if g != lo {
            return e("minimum", g, lo);
        }
        n += 2;
        if let Some(x) = a.add_fits(b) {
            let g = Additive::<T>::binary_operation(&a, &b);
            if g != x {
                return e("sum", g, x);
            }
            n += 1;
        }
        if let Some(x) = a.mul_fits(b) {
            let g = Multiplicative::<T>::binary_operation(&a, &b);
            if g != x {
                return e("product", g, x);
            }
            n += 1;
        }
    }
    Ok(n)
}
/// Both groupings of three values, where every partial result fits.
fn triples<T: Int>(a: T, vals: &[T]) -> Result<u64, String> {
    fn assoc<M: Monoid<S = T>, T: Int>(w: &str, a: T, b: T, c: T, want: T) -> Result<(), String> {
        let l = M::binary_operation(&M::binary_operation(&a, &b), &c);
        let r = M::binary_operation(&a, &M::binary_operation(&b, &c));
        if l != want || r != want {
            return Err(format!("{}: {w} of ({a:?}, {b:?}), {c:?} = {l:?}; of {a:?}, ({b:?}, {c:?}) = {r:?}; expected {want:?}", T::NAME));
        }
        Ok(())
    }
    let mut n = 0;
    for &b in vals {
        for &c in vals {
            let mut s = [a, b, c];
            s.sort();
            assoc::<Max<T>, T>("maximum", a, b, c, s[2])?;
            assoc::<Min<T>, T>("minimum", a, b, c, s[0])?;
            n += 4;
            if let (Some(ab), Some(bc)) = (a.add_fits(b), b.add_fits(c)) {
                if let (Some(w), Some(_)) = (ab.add_fits(c), a.add_fits(bc)) {
                    assoc::<Additive<T>, T>("sum", a, b, c, w)?;
                    n += 2;
                }
            }
            if let (Some(ab), Some(bc)) = (a.mul_fits(b), b.mul_fits(c)) {
                if let (Some(w), Some(_)) = (ab.mul_fits(c), a.mul_fits(bc)) {
                    assoc::<Multiplicative<T>, T>("product", a, b, c, w)?;
                    n += 2;
                }
            }
        }
    }
    Ok(n)
}
fn count(cx: &mut Cx, r: Option<u64>, h: u64) {
    if let Some(n) = r {
        cx.calls(n);
        cx.states(n / 2);
        cx.outcome(h);
    }
}
/// Folding any sequence from the identity gives the mathematical result, wherever the sequence is cut in two.
fn folds<T: Int>(w: &[T]) -> Result<u64, String> {
    fn one<M: Monoid<S = T>, T: Int>(name: &str, w: &[T], want: T) -> Result<u64, String> {
        let f = |v: &[T]| v.iter().fold(M::identity(), |a, b| M::binary_operation(&a, b));
        for cut in 0..=w.len() {
            let g = M::binary_operation(&f(&w[..cut]), &f(&w[cut..]));
            if g != want {
                return Err(format!("{}: {name} of {w:?} cut at {cut} = {g:?}, expected {want:?}", T::NAME));
            }
        }
        Ok(w.len() as u64 * 2 + 1)
    }
    let mut n = one::<Max<T>, T>("maximum", w, w.iter().copied().max().unwrap_or(least()))?;
    n += one::<Min<T>, T>("minimum", w, w.iter().copied().min().unwrap_or(greatest()))?;
    // sums and products of values this small always fit
    n += one::<Additive<T>, T>("sum", w, w.iter().try_fold(T::bits(0), |a, &b| a.add_fits(b)).unwrap())?;
    n += one::<Multiplicative<T>, T>("product", w, w.iter().try_fold(T::bits(1), |a, &b| a.mul_fits(b)).unwrap())?;
    Ok(n)
}

macro_rules! each {
    ($f:ident) => {
        [$f::<i8>, $f::<i16>, $f::<i32>, $f::<i64>, $f::<i128>, $f::<isize>, $f::<u8>, $f::<u16>, $f::<u32>, $f::<u64>, $f::<u128>, $f::<usize>]
    };
}
fn basics<T: Int>(cx: &mut Cx) {
    let r = cx.run(|| format!("{}: constants and identities", T::NAME), constants::<T>);
    count(cx, r, T::BITS as u64);
    let r = cx.run(
        || format!("{}: identities are neutral", T::NAME),
        || {
            if T::BITS <= 16 {
                neutral((0..1u128 << T::BITS).map(T::bits))
            } else {
                neutral(corner_values::<T>().into_iter())
            }
        },
    );
    count(cx, r, 1000 + T::BITS as u64);
}
fn all_pairs<T: Int>(cx: &mut Cx) {
    let v = corner_values::<T>();
    for &a in &v {
        let r = cx.run(|| format!("{}: {a:?} with each of {} values", T::NAME, v.len()), || pairs(a, &v));
        count(cx, r, r.unwrap_or(0));
    }
}
fn all_triples<T: Int>(cx: &mut Cx) {
    let mut v = corner_values::<T>();
    if T::BITS == 8 && !cx.thorough {
        v = v.into_iter().filter(|&x| x.add_fits(x).is_some() || x == least() || x == greatest()).collect();
    }
    if T::BITS > 8 {
        let step = if cx.thorough { 3 } else { 9 };
        let keep: Vec<T> = [least(), greatest(), T::bits(0), T::bits(1), T::bits(2), T::bits(u128::MAX)].into();
        v = v.into_iter().enumerate().filter(|(i, x)| i % step == 0 || keep.contains(x)).map(|(_, x)| x).collect();
    }
    for &a in &v {
        let r = cx.run(|| format!("{}: {a:?} grouped with every pair of {} values", T::NAME, v.len()), || triples(a, &v));
        count(cx, r, r.unwrap_or(0));
    }
}
fn all_folds<T: Int>(cx: &mut Cx) {
    let vals: Vec<T> = if T::SIGNED { [u128::MAX, 0, 1, 2, u128::MAX - 1].map(T::bits).to_vec() } else { [0u128, 1, 2, 3].map(T::bits).to_vec() };
    let len = if cx.thorough { 6 } else { 4 };
    let len = if T::BITS == 8 { 4 } else { len };
    for l in 0..=len {
        for w in words(vals.len(), l) {
            let w: Vec<T> = w.into_iter().map(|i| vals[i]).collect();
            let r = cx.run(|| format!("{}: folding {w:?}", T::NAME), || folds(&w));
            count(cx, r, r.unwrap_or(0) + l as u64);
        }
    }
}
fn pairs16<T: Int>(cx: &mut Cx, lo: u128, hi: u128) {
    let v: Vec<T> = (0..1u128 << 16).map(T::bits).collect();
    let r = cx.run(|| format!("{}: values {lo} to {hi} with every value", T::NAME), || (lo..hi).try_fold(0, |n, a| Ok(n + pairs::<T>(T::bits(a), &v)?)));
    count(cx, r, r.unwrap_or(0));
}

fn main() {
    mc::main("C26", false, |thorough| {
        let mut v = vec![];
        v.push(space("constants and identities", "12 integer types; neutrality for every value up to 16 bits, for values around powers of two above", 12, |c, cx| each!(basics)[c](cx)));
        v.push(space("pairs", "12 integer types: all pairs of 8-bit values, all pairs of values within 2 of a power of two (both signs) for wider types", 12, |c, cx| each!(all_pairs)[c](cx)));
        v.push(space("triples", &format!("12 integer types: {} triples of 8-bit values, corner triples of wider types, both groupings, where all partial results fit", if thorough { "all" } else { "half-range" }), 12, |c, cx| each!(all_triples)[c](cx)));
        v.push(space("folds", "12 integer types: all sequences of small values, folded in two parts at every cut", 12, |c, cx| each!(all_folds)[c](cx)));
        if thorough {
            v.push(space("16-bit pairs", "all pairs of 16-bit values, signed and unsigned", 512, |c, cx| {
                let lo = (c as u128 / 2) * 256;
                if c % 2 == 0 {
                    pairs16::<i16>(cx, lo, lo + 256)
                } else {
                    pairs16::<u16>(cx, lo, lo + 256)
                }
            }));
        }
        v
    });
}
