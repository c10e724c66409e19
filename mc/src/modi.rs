//! Modular-integer families and operator forms shared by C16-C19.
use crate::*;
use rust_cp::misc::modint::*;
use std::thread::LocalKey;

/// Compile-time modulus M, declared prime when P.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct K<const M: u32, const P: bool>;
impl<const M: u32, const P: bool> Modulus for K<M, P> {
    const VALUE: u32 = M;
    const HINT_VALUE_IS_PRIME: bool = P;
    fn butterfly_cache() -> &'static LocalKey<RefCell<Option<ButterflyCache<Self>>>> {
        unimplemented!()
    }
}
pub type S<const M: u32, const P: bool> = StaticModInt<K<M, P>>;

#[repr(align(64))]
struct Own(Barrett);
#[allow(clippy::declare_interior_mutable_const)]
const FRESH: Own = Own(Barrett::new(998_244_353));
static POOL: [Own; 64] = [FRESH; 64];
/// Run-time modulus family number I.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct D<const I: usize>;
impl<const I: usize> Id for D<I> {
    fn companion_barrett() -> &'static Barrett {
        &POOL[I].0
    }
}
pub type Dy<const I: usize> = DynamicModInt<D<I>>;

pub fn is_prime_slow(m: u32) -> bool {
    m >= 2 && (2u64..).take_while(|&d| d * d <= m as u64).all(|d| m as u64 % d != 0)
}
pub fn gcd_u(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd_u(b, a % b)
    }
}
/// x^e mod m by halving from the top.
pub fn pow_ref(x: u64, e: u64, m: u64) -> u64 {
    if e == 0 {
        return 1 % m;
    }
    let h = pow_ref(x, e / 2, m);
    let h2 = (h as u128 * h as u128 % m as u128) as u64;
    if e % 2 == 1 {
        (h2 as u128 * (x % m) as u128 % m as u128) as u64
    } else {
        h2
    }
}

macro_rules! int_forms {
    ($z:ident, $op:tt, $asg:tt, $a:expr, $b:expr, $m:expr, $out:ident, $($t:ty),*) => {{
        // b, and congruent integers of the other sign and of larger size where the type can hold them
        $(for k in [0i128, -1, 1, 7] {
            let c = $b as i128 + k * $m as i128;
            if let Ok(c) = <$t>::try_from(c) {
                $out(concat!("value ", stringify!($op), " ", stringify!($t)), $a $op c);
                let mut x = $a;
                x $asg c;
                $out(concat!("value ", stringify!($asg), " ", stringify!($t)), x);
            }
        })*
    }};
}
macro_rules! int_all {
    ($z:ident, $op:tt, $asg:tt, $a:expr, $b:expr, $m:expr, $o:ident) => {
        int_forms!($z, $op, $asg, $a, $b, $m, $o, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize)
    };
}
macro_rules! forms {
    ($z:ident, $op:tt, $asg:tt, $a:expr, $b:expr, $out:ident) => {{
        let (a, b) = ($z::raw($a), $z::raw($b));
        $out(concat!("value ", stringify!($op), " value"), a $op b);
        $out(concat!("value ", stringify!($op), " &value"), a $op &b);
        $out(concat!("&value ", stringify!($op), " value"), &a $op b);
        $out(concat!("&value ", stringify!($op), " &value"), &a $op &b);
        let mut x = a;
        x $asg b;
        $out(concat!("value ", stringify!($asg), " value"), x);
        let mut x = a;
        x $asg &b;
        $out(concat!("value ", stringify!($asg), " &value"), x);
    }};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div,
}

/// Everything the checks need from a modular integer type, written against the concrete operators.
pub trait Mi: ModIntBase {
    fn declared_prime() -> bool;
    /// Calls `out` with every operator form of `a op b`.
    fn forms(op: Bin, a: u32, b: u32, out: &mut dyn FnMut(&'static str, u32));
    /// The forms whose right-hand side is an integer congruent to b (expensive to compile: use for few types).
    fn int_forms(op: Bin, a: u32, b: u32, out: &mut dyn FnMut(&'static str, u32));
    fn negs(a: u32) -> [u32; 2];
    fn sums(v: &[u32]) -> [u32; 2];
    fn products(v: &[u32]) -> [u32; 2];
    /// inherent and trait forms
    fn pows(a: u32, e: u64) -> [u32; 2];
    fn invs(a: u32) -> [u32; 2];
    fn set(m: u32);
}
macro_rules! body {
    ($z:ident) => {
        fn forms(op: Bin, a: u32, b: u32, out: &mut dyn FnMut(&'static str, u32)) {
            let mut o = |n: &'static str, v: $z| out(n, v.val());
            match op {
                Bin::Add => forms!($z, +, +=, a, b, o),
                Bin::Sub => forms!($z, -, -=, a, b, o),
                Bin::Mul => forms!($z, *, *=, a, b, o),
                Bin::Div => forms!($z, /, /=, a, b, o),
            }
        }
        fn int_forms(op: Bin, a: u32, b: u32, out: &mut dyn FnMut(&'static str, u32)) {
            let m = <$z as ModIntBase>::modulus();
            let a = $z::raw(a);
            let mut o = |n: &'static str, v: $z| out(n, v.val());
            match op {
                Bin::Add => int_all!($z, +, +=, a, b, m, o),
                Bin::Sub => int_all!($z, -, -=, a, b, m, o),
                Bin::Mul => int_all!($z, *, *=, a, b, m, o),
                Bin::Div => int_all!($z, /, /=, a, b, m, o),
            }
        }
        fn negs(a: u32) -> [u32; 2] {
            let a = $z::raw(a);
            [(-a).val(), (-&a).val()]
        }
        fn sums(v: &[u32]) -> [u32; 2] {
            let v: Vec<$z> = v.iter().map(|&x| $z::raw(x)).collect();
            [v.iter().copied().sum::<$z>().val(), v.iter().sum::<$z>().val()]
        }
        fn products(v: &[u32]) -> [u32; 2] {
            let v: Vec<$z> = v.iter().map(|&x| $z::raw(x)).collect();
            [v.iter().copied().product::<$z>().val(), v.iter().product::<$z>().val()]
        }
        fn pows(a: u32, e: u64) -> [u32; 2] {
            [$z::raw(a).pow(e).val(), <$z as ModIntBase>::pow($z::raw(a), e).val()]
        }
        fn invs(a: u32) -> [u32; 2] {
            [$z::raw(a).inv().val(), <$z as ModIntBase>::inv($z::raw(a)).val()]
        }
    };
}
type St<M> = StaticModInt<M>;
type Dn<I> = DynamicModInt<I>;
impl<M: Modulus> Mi for St<M> {
    fn declared_prime() -> bool {
        M::HINT_VALUE_IS_PRIME
    }
    fn set(m: u32) {
        assert_eq!(m, M::VALUE);
    }
    body!(Self);
}
impl<I: Id> Mi for Dn<I> {
    fn declared_prime() -> bool {
        false
    }
    fn set(m: u32) {
        DynamicModInt::<I>::set_modulus(m)
    }
    body!(Self);
}

/// The function at one run-time family per worker thread, so that no two threads share a modulus.
#[macro_export]
macro_rules! per_worker {
    ($f:ident) => {{
        use $crate::modi::Dy;
        [
            $f::<Dy<0>>,
            $f::<Dy<1>>,
            $f::<Dy<2>>,
            $f::<Dy<3>>,
            $f::<Dy<4>>,
            $f::<Dy<5>>,
            $f::<Dy<6>>,
            $f::<Dy<7>>,
            $f::<Dy<8>>,
            $f::<Dy<9>>,
            $f::<Dy<10>>,
            $f::<Dy<11>>,
            $f::<Dy<12>>,
            $f::<Dy<13>>,
            $f::<Dy<14>>,
            $f::<Dy<15>>,
        ]
    }};
}
/// Chunks of the run-time spaces.
pub const PARTS: usize = 16;

/// Compile-time moduli 1..=20 and ten up to 64 not declared prime, then the primes among them declared prime.
#[macro_export]
macro_rules! small_static {
    ($f:ident) => {{
        use $crate::modi::S;
        vec![
            $f::<S<1, false>>,
            $f::<S<2, false>>,
            $f::<S<3, false>>,
            $f::<S<4, false>>,
            $f::<S<5, false>>,
            $f::<S<6, false>>,
            $f::<S<7, false>>,
            $f::<S<8, false>>,
            $f::<S<9, false>>,
            $f::<S<10, false>>,
            $f::<S<11, false>>,
            $f::<S<12, false>>,
            $f::<S<13, false>>,
            $f::<S<14, false>>,
            $f::<S<15, false>>,
            $f::<S<16, false>>,
            $f::<S<17, false>>,
            $f::<S<18, false>>,
            $f::<S<19, false>>,
            $f::<S<20, false>>,
            $f::<S<23, false>>,
            $f::<S<24, false>>,
            $f::<S<25, false>>,
            $f::<S<30, false>>,
            $f::<S<32, false>>,
            $f::<S<36, false>>,
            $f::<S<48, false>>,
            $f::<S<60, false>>,
            $f::<S<61, false>>,
            $f::<S<64, false>>,
            $f::<S<2, true>>,
            $f::<S<3, true>>,
            $f::<S<5, true>>,
            $f::<S<7, true>>,
            $f::<S<11, true>>,
            $f::<S<13, true>>,
            $f::<S<17, true>>,
            $f::<S<19, true>>,
            $f::<S<23, true>>,
            $f::<S<61, true>>,
        ]
    }};
}
pub const SMALL_STATIC: usize = 40;
/// Large compile-time moduli, not declared prime, then the primes among them declared prime.
#[macro_export]
macro_rules! large_static {
    ($f:ident) => {{
        use $crate::modi::S;
        vec![
            $f::<S<2147483648, false>>,
            $f::<S<2147483647, false>>,
            $f::<S<2147483646, false>>,
            $f::<S<2147483629, false>>,
            $f::<S<1073741824, false>>,
            $f::<S<1073741827, false>>,
            $f::<S<1431655765, false>>,
            $f::<S<1000000006, false>>,
            $f::<S<754974721, false>>,
            $f::<S<65535, false>>,
            $f::<S<65536, false>>,
            $f::<S<65537, false>>,
            $f::<S<46341, false>>,
            $f::<S<111546435, false>>,
            $f::<S<16777213, false>>,
            $f::<S<256, false>>,
            $f::<S<257, false>>,
            $f::<S<1000, false>>,
            $f::<S<2147483647, true>>,
            $f::<S<2147483629, true>>,
            $f::<S<1073741827, true>>,
            $f::<S<754974721, true>>,
            $f::<S<65537, true>>,
            $f::<S<16777213, true>>,
            $f::<S<257, true>>,
        ]
    }};
}
pub const LARGE_STATIC: usize = 25;
/// Families the integer-operand spaces run on: compile-time ones, then two run-time ones (not used elsewhere).
#[macro_export]
macro_rules! int_families {
    ($f:ident) => {{
        use $crate::modi::{Dy, S};
        [$f::<S<1, false>>, $f::<S<7, true>>, $f::<S<60, false>>, $f::<S<2147483648, false>>, $f::<Dy<16>>, $f::<Dy<17>>]
    }};
}
pub const INT_FAMILIES: usize = 6;
/// The moduli of family number c of `int_families`.
pub fn int_moduli(c: usize) -> Vec<u32> {
    match c {
        0..=3 => vec![[1, 7, 60, 2_147_483_648][c]],
        _ => (1..=40).chain(large_moduli()).filter(|m| m % 2 == c as u32 % 2).collect(),
    }
}
/// Large run-time moduli: around every power of two up to 2^31, primes, smooth numbers.
pub fn large_moduli() -> Vec<u32> {
    let mut v: Vec<u32> = vec![998_244_353, 1_000_000_007, 754_974_721, 167_772_161, 111_546_435, 223_092_870, 1_073_741_789, 2_147_483_629, 1_431_655_765, 1_234_567_891, 46_340, 46_341, 2_147_117_569, 99_999_989, 720_720, 1_396_755_360];
    for k in 8..=31u32 {
        for d in -3i64..=3 {
            let m = (1i64 << k) + d;
            if m <= 1 << 31 {
                v.push(m as u32);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Residues of m worth combining: ends, middle, around the root, powers of two, thirds.
pub fn residues(m: u32) -> Vec<u32> {
    let m = m as u64;
    let r = (m as f64).sqrt() as u64;
    let mut v: Vec<u64> = vec![0, 1, 2, 3, m / 2, m / 2 + 1, (m / 2).wrapping_sub(1), m / 3, 2 * m / 3, m / 7, r, r + 1, r.wrapping_sub(1), m / (r + 1)];
    for d in 1..=4u64 {
        v.push(m.wrapping_sub(d));
    }
    for k in (3..31).step_by(4) {
        v.push(1 << k);
        v.push((1u64 << k) - 1);
    }
    v.retain(|&x| x < m);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u32).collect()
}
/// Windows of residues: from 0, in the middle, a third, the root and up to the modulus.
pub fn windows(m: u32, w: u32) -> Vec<u32> {
    let r = (m as f64).sqrt() as u32;
    let mut v: Vec<u32> = vec![];
    for (lo, len) in [(0, 2 * w), (m / 2, w), (m / 2 - (m / 2).min(w), w), (m / 3, w / 4), (m / 16, w / 4), (r - r.min(w / 2), w), (m - m.min(w), w)] {
        v.extend((lo..lo.saturating_add(len).min(m)).filter(|&x| x < m));
    }
    v.sort();
    v.dedup();
    v
}
/// Moduli for the window spaces.
pub fn middle_moduli() -> Vec<u32> {
    let mut v = vec![998_244_353, 1_000_000_007, 1 << 31, (1 << 31) - 1, (1 << 31) - 2, 1_396_755_360, 720_720, 46_341, 65_536, 65_537, 1_000_000, 5040, 100_003, 16_777_216, 223_092_870, 1_234_567_891];
    for k in 9..31 {
        v.push((3u32 << (k - 2)) + k);
    }
    v
}
