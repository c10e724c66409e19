//! C23 primality, primitive roots, modular helpers.
use mc::modi::*;
use mc::*;
#[cfg(vp_hooks)]
use rust_cp::math::internal_math::vp_hooks as im;

const TOP: u64 = 1 << 31;

/// Multiplication as the library exposes it publicly: run-time moduli.
fn public<Z: Mi>(cx: &mut Cx, ms: &[u32]) {
    for &m in ms {
        let r = cx.run(
            || format!("run-time modulus {m}: products of residues through the public type"),
            || {
                Z::set(m);
                let rs: Vec<u32> = if m <= 24 { (0..m).collect() } else { residues(m) };
                let mut n = 0;
                let mut bad = None;
                for &a in &rs {
                    for &b in &rs {
                        let want = (a as u64 * b as u64 % m as u64) as u32;
                        Z::forms(Bin::Mul, a, b, &mut |form, got| {
                            n += 1;
                            if got != want && bad.is_none() {
                                bad = Some(format!("{a} * {b} ({form}) = {got}, expected {want}"));
                            }
                        });
                    }
                }
                match bad {
                    Some(e) => Err(e),
                    None => Ok(n),
                }
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(1);
            cx.outcome(m as u64);
        }
    }
}
fn public_any(cx: &mut Cx, ms: &[u32]) {
    per_worker!(public)[cx.worker](cx, ms)
}

#[cfg(vp_hooks)]
mod hooked {
    use super::*;
    use std::sync::OnceLock;

    /// Primes up to 46341 (the root of 2^31).
    pub fn primes() -> &'static [u32] {
        static P: OnceLock<Vec<u32>> = OnceLock::new();
        P.get_or_init(|| {
            let n = 46_341;
            let mut c = vec![false; n + 1];
            let mut p = vec![];
            for i in 2..=n {
                if !c[i] {
                    p.push(i as u32);
                    for j in (i * i..=n).step_by(i) {
                        c[j] = true;
                    }
                }
            }
            p
        })
    }
    /// composite[i] tells whether lo + i is composite (or below 2).
    pub fn sieve(lo: u64, len: usize) -> Vec<bool> {
        let mut c = vec![false; len];
        for i in 0..len.min(2usize.saturating_sub(lo as usize)) {
            c[i] = true;
        }
        for &p in primes() {
            let p = p as u64;
            if p * p >= lo + len as u64 {
                break;
            }
            let mut j = (lo.div_ceil(p) * p).max(p * p) - lo;
            while (j as usize) < len {
                c[j as usize] = true;
                j += p;
            }
        }
        c
    }
    pub fn is_prime_trial(n: u64) -> bool {
        n >= 2 && primes().iter().take_while(|&&p| p as u64 * p as u64 <= n).all(|&p| n % p as u64 != 0)
    }
    pub fn prime_window(cx: &mut Cx, lo: u64, len: usize) {
        let r = cx.run(
            || format!("is_prime on {lo}..{}", lo + len as u64),
            || {
                let c = sieve(lo, len);
                let mut np = 0;
                for i in 0..len {
                    let n = lo + i as u64;
                    let got = im::is_prime(n as i32);
                    if got == c[i] {
                        return Err(format!("is_prime({n}) = {got}"));
                    }
                    np += got as u64;
                }
                Ok(np)
            },
        );
        if let Some(np) = r {
            cx.calls(len as u64);
            cx.states(len as u64);
            cx.outcome(np);
        }
    }
    /// Numbers that fool probabilistic tests: n = p q with (q-1)/(p-1) = a/b for small a, b.
    pub fn pseudo_forms(cx: &mut Cx, a: u64, parts: u64, part: u64) {
        let r = cx.run(
            || format!("is_prime on products p*q, p and q prime below 2^31, (q-1)/(p-1) = {a}/b, part {part}"),
            || {
                let mut n = 0u64;
                for b in 1..=a {
                    if gcd_u(a, b) != 1 {
                        continue;
                    }
                    for &p in primes().iter().skip(part as usize).step_by(parts as usize) {
                        let p = p as u64;
                        if (p - 1) * a % b != 0 {
                            continue;
                        }
                        let q = (p - 1) * a / b + 1;
                        if p * q >= TOP || !is_prime_trial(q) {
                            continue;
                        }
                        if im::is_prime((p * q) as i32) {
                            return Err(format!("is_prime({}) = true, but it is {p} * {q}", p * q));
                        }
                        n += 1;
                    }
                }
                Ok(n)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(n);
        }
    }
    /// All products of three primes p < q < r below 2^31 with p - 1, q - 1, r - 1 each dividing n - 1 (Carmichael numbers).
    pub fn carmichael3(cx: &mut Cx, part: usize, parts: usize) {
        let r = cx.run(
            || format!("is_prime on Carmichael numbers with three prime factors, smallest factor class {part} of {parts}"),
            || {
                let ps = primes();
                let mut found = 0u64;
                for (i, &p) in ps.iter().enumerate().skip(1).skip(part).step_by(parts) {
                    let p = p as u64;
                    if p * p * p >= TOP {
                        break;
                    }
                    for &q in &ps[i + 1..] {
                        let q = q as u64;
                        if p * q * q >= TOP {
                            break;
                        }
                        // r - 1 divides p q - 1
                        let t = p * q - 1;
                        let mut d = 1;
                        while d * d <= t {
                            if t % d == 0 {
                                for r in [d + 1, t / d + 1] {
                                    let n = p * q * r;
                                    if r > q && n < TOP && (n - 1) % (p - 1) == 0 && (n - 1) % (q - 1) == 0 && is_prime_trial(r) {
                                        found += 1;
                                        if im::is_prime(n as i32) {
                                            return Err(format!("is_prime({n}) = true, but it is {p} * {q} * {r}"));
                                        }
                                    }
                                }
                            }
                            d += 1;
                        }
                    }
                }
                Ok(found)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(n);
        }
    }
    pub fn squares(cx: &mut Cx) {
        let r = cx.run(
            || "is_prime on prime squares and products of neighbouring primes".to_string(),
            || {
                let mut k = 0u64;
                let ps = primes();
                for i in 0..ps.len() {
                    for j in i..(i + 30).min(ps.len()) {
                        let n = ps[i] as u64 * ps[j] as u64;
                        if n < TOP {
                            if im::is_prime(n as i32) {
                                return Err(format!("is_prime({n}) = true, but it is {} * {}", ps[i], ps[j]));
                            }
                            k += 1;
                        }
                    }
                }
                Ok(k)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
        }
    }
    fn prime_factors(mut n: u64) -> Vec<u64> {
        let mut f = vec![];
        for &p in primes() {
            let p = p as u64;
            if p * p > n {
                break;
            }
            if n % p == 0 {
                f.push(p);
                while n % p == 0 {
                    n /= p;
                }
            }
        }
        if n > 1 {
            f.push(n);
        }
        f
    }
    pub fn smallest_generator(p: u64) -> u64 {
        if p < 400 {
            // straight from the definition
            return (1..p)
                .find(|&g| {
                    let mut x = g % p;
                    let mut ord = 1;
                    while x != 1 % p {
                        x = x * g % p;
                        ord += 1;
                    }
                    ord == p - 1
                })
                .unwrap();
        }
        let fs = prime_factors(p - 1);
        (1..p).find(|&g| fs.iter().all(|&q| pow_ref(g, (p - 1) / q, p) != 1)).unwrap()
    }
    pub fn roots(cx: &mut Cx, desc: String, ps: impl Fn() -> Vec<u64>) {
        let r = cx.run(
            || desc.clone(),
            || {
                let v = ps();
                let mut h = 0;
                for &p in &v {
                    let got = im::primitive_root(p as i32) as i64;
                    let want = smallest_generator(p) as i64;
                    if got != want {
                        return Err(format!("primitive_root({p}) = {got}, expected {want}"));
                    }
                    h ^= 1u64 << (want % 64);
                }
                Ok((v.len() as u64, h))
            },
        );
        if let Some((n, h)) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(h);
        }
    }
    pub fn window_primes(lo: u64, len: usize) -> Vec<u64> {
        let c = sieve(lo, len);
        (0..len).filter(|&i| !c[i]).map(|i| lo + i as u64).collect()
    }

    /// x^n by repeated multiplication, for small n.
    fn pow_direct(x: i64, n: i64, m: i64) -> i64 {
        let mut r = 1 % m as i128;
        for _ in 0..n {
            r = (r * x as i128).rem_euclid(m as i128);
        }
        r as i64
    }
    pub fn powers_small(cx: &mut Cx, m: i64, top: i64) {
        let r = cx.run(
            || format!("pow_mod(x, n, {m}) for |x| <= {top}, n <= {top}"),
            || {
                let mut k = 0;
                for x in -top..=top {
                    for n in 0..=top {
                        same(|| format!("pow_mod({x}, {n}, {m})"), im::pow_mod(x, n, m as i32), pow_direct(x, n, m))?;
                        k += 1;
                    }
                }
                Ok(k)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(m as u64);
        }
    }
    pub fn corners64() -> Vec<i64> {
        let mut v = vec![0i64, i64::MIN, i64::MAX];
        for k in 0..63 {
            for d in -2..=2 {
                let x = (1i64 << k).wrapping_add(d);
                v.push(x);
                v.push(x.wrapping_neg());
            }
        }
        for b in [10i64, 3, 998_244_353, 1_000_000_007, 46_341] {
            let mut x = 1i64;
            while let Some(y) = x.checked_mul(b) {
                x = y;
                v.push(x);
                v.push(-x);
            }
        }
        v.sort();
        v.dedup();
        v
    }
    pub fn powers_large(cx: &mut Cx, m: u32) {
        let r = cx.run(
            || format!("pow_mod(x, n, {m}) for every corner x and n of 64 bits"),
            || {
                let c = corners64();
                let mut k = 0;
                for &x in c.iter().step_by(3) {
                    for &n in c.iter().filter(|&&n| n >= 0).step_by(2) {
                        let want = pow_ref(x.rem_euclid(m as i64) as u64, n as u64, m as u64) as i64;
                        same(|| format!("pow_mod({x}, {n}, {m})"), im::pow_mod(x, n, m as i32), want)?;
                        k += 1;
                    }
                }
                Ok(k)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(m as u64);
        }
    }
    pub fn remainders(cx: &mut Cx, m: i64, xs: &[i64]) {
        let r = cx.run(
            || format!("safe_mod(x, {m}) for {} values of x", xs.len()),
            || {
                for &x in xs {
                    same(|| format!("safe_mod({x}, {m})"), im::safe_mod(x, m) as i128, (x as i128).rem_euclid(m as i128))?;
                }
                Ok(xs.len() as u64)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(m as u64);
        }
    }
    pub fn inverses(cx: &mut Cx, b: i64, aa: &[i64]) {
        let r = cx.run(
            || format!("inv_gcd(a, {b}) for {} values of a", aa.len()),
            || {
                for &a in aa {
                    let (g, x) = im::inv_gcd(a, b);
                    let want = gcd_u(a.unsigned_abs(), b as u64);
                    if g as i128 != want as i128 {
                        return Err(format!("inv_gcd({a}, {b}) has gcd {g}, expected {want}"));
                    }
                    // x a = g (mod b) in exact arithmetic
                    let p = x as i128 * a.rem_euclid(b) as i128;
                    if (p - g as i128).rem_euclid(b as i128) != 0 || x < 0 || x as i128 >= b as i128 / g as i128 {
                        return Err(format!("inv_gcd({a}, {b}) = ({g}, {x}): not the reduced coefficient"));
                    }
                }
                Ok(aa.len() as u64)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(b as u64);
        }
    }
    pub fn fibonacci() -> Vec<i64> {
        let mut v = vec![1i64, 2];
        while let Some(x) = v[v.len() - 1].checked_add(v[v.len() - 2]) {
            v.push(x);
        }
        v
    }
    pub fn barrett(cx: &mut Cx, desc: String, ms: impl Iterator<Item = u32>, rs: impl Fn(u32) -> Vec<u32>) {
        let r = cx.run(
            || desc.clone(),
            {
                let rs = &rs;
                move || {
                    let mut n = 0;
                    for m in ms {
                        let v = rs(m);
                        for &a in &v {
                            for &b in &v {
                                let got = im::barrett_mul(m, a, b);
                                let want = (m, (a as u64 * b as u64 % m as u64) as u32);
                                if got != want {
                                    return Err(format!("reciprocal multiplication of {a} and {b} modulo {m}: (umod, product) = {got:?}, expected {want:?}"));
                                }
                                n += 1;
                            }
                        }
                    }
                    Ok(n)
                }
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(n);
        }
    }
}

#[cfg(vp_hooks)]
fn spaces(thorough: bool, v: &mut Vec<Space>) {
    use hooked::*;
    v.push(space("primality, special composites", &format!("all products of two primes below 2^31 with (q-1)/(p-1) = a/b, a and b up to 24; all Carmichael numbers below 2^31 with three prime factors, {}; prime squares and products of primes at most 29 primes apart", if thorough { "all" } else { "smallest factor 3 to 23" }), 24 * 8 + 9, move |c, cx| {
        if c < 24 * 8 {
            pseudo_forms(cx, c as u64 / 8 + 1, 8, c as u64 % 8)
        } else if c < 24 * 8 + 8 {
            if thorough {
                carmichael3(cx, c % 8, 8)
            } else {
                // smallest factors up to about 100 hold most of them
                carmichael3_small(cx, c % 8)
            }
        } else {
            squares(cx)
        }
    }));
    let (w, n) = if thorough { (1usize << 18, 1usize << 13) } else { (1 << 16, 1 << 11) };
    v.push(space("primality, from 0", &format!("every n below {}", w * n), n, move |c, cx| prime_window(cx, c as u64 * w as u64, w)));
    v.push(space("primality, top of the range", "windows of 2^16 below 2^31, 2^30, 2^29, 2^28, 3*2^29 and around the largest squares", 16, move |c, cx| {
        let hi = [TOP, 1 << 30, 1 << 29, 1 << 28, 3 << 29, 46_337 * 46_337 + (1 << 15), TOP - (1 << 17), 2_000_000_000][c % 8];
        prime_window(cx, hi - (1 << 16) * (1 + (c as u64) / 8), 1 << 16)
    }));
    let (w, n) = if thorough { (1usize << 14, 1 << 10) } else { (1 << 13, 1 << 8) };
    v.push(space("primitive roots, from 2", &format!("every prime below {}", w * n), n, move |c, cx| {
        roots(cx, format!("primitive_root of every prime in {}..{}", c * w, (c + 1) * w), || window_primes((c * w) as u64, w))
    }));
    v.push(space("primitive roots, large", "every prime in windows of 2^12 below 2^31 and around other powers of two; the primes with a shortcut; primes k*2^e+1 with e >= 16", 24, move |c, cx| match c {
        0..=21 => {
            let hi = if c < 10 { TOP - c as u64 * 4096 } else { (1u64 << (22 + (c - 10) % 9)) + (c as u64 - 10) / 9 * 4096 + 2048 };
            roots(cx, format!("primitive_root of every prime in {}..{hi}", hi - 4096), || window_primes(hi - 4096, 4096))
        }
        22 => roots(cx, "primitive_root of well-known transform primes".into(), || vec![2, 3, 5, 7, 167_772_161, 469_762_049, 754_974_721, 998_244_353, 1_000_000_007, 1_000_000_009, 2_013_265_921, 1_811_939_329, 2_113_929_217, 2_147_483_647, 2_147_483_629, 65_537, 111_149_057]),
        _ => roots(cx, "primitive_root of every prime k*2^e+1 with e >= 16".into(), || (1..TOP >> 16).map(|k| (k << 16) + 1).filter(|&p| is_prime_trial(p)).step_by(if thorough { 1 } else { 4 }).collect()),
    }));
    let (m, w) = if thorough { (64u64, 1usize << 16) } else { (512, 1 << 13) };
    v.push(space("primality, spread windows", &format!("{m} windows of {w} spread evenly over the range"), m as usize, move |c, cx| prime_window(cx, (TOP / m * c as u64 + 77_777).min(TOP - w as u64), w)));
    let w = if thorough { 7 } else { 8 };
    v.push(space("primitive roots, most prime factors", &format!("every prime below 2^31 whose predecessor has at least {w} different prime factors"), 4, move |c, cx| {
        roots(cx, format!("primitive_root of every prime with {w} prime factors of its predecessor, part {c}"), || {
            // every even n < 2^31 with at least w prime factors, by increasing prime factors
            fn go(i: usize, n: u64, left: usize, out: &mut Vec<u64>) {
                if left == 0 {
                    out.push(n);
                }
                for (j, &q) in primes().iter().enumerate().skip(i) {
                    // the factors still missing are at least q each
                    if (n as u128) * (q as u128).pow(left.max(1) as u32) >= (TOP - 1) as u128 {
                        break;
                    }
                    let mut m = n * q as u64;
                    while m < TOP - 1 {
                        go(j + 1, m, left.saturating_sub(1), out);
                        m *= q as u64;
                    }
                }
            }
            let mut v = vec![];
            let mut m = 2u64;
            while m < TOP - 1 {
                go(1, m, w - 1, &mut v);
                m *= 2;
            }
            // a last prime factor above the root of 2^31 leaves room for too few others
            v.retain(|&n| n / 2 % 4 == c as u64 && pow_ref(2, n, n + 1) == 1 && is_prime_trial(n + 1));
            v.into_iter().map(|n| n + 1).collect()
        })
    }));
    let most = if thorough { 40_000 } else { 3000 };
    v.push(space("primitive roots, structured", &format!("primes k r^j + 1 below 2^31 with r prime: j = 1: even k <= 128 and the largest {most} r, split over k; j = 2 to 6: every r >= 5 with k <= 2000 (j = 2: k <= 40)"), 64 + 64, move |c, cx| {
        roots(cx, format!("primitive_root of every prime of form number {c}"), || {
            // composites that survive this are sorted out by trial division
            let maybe = |p: u64| pow_ref(2, p - 1, p) == 1 || p == 2;
            let mut v = vec![];
            if c < 64 {
                let k = 2 * (c as u64 + 1);
                let hi = (TOP - 2) / k;
                let mut lo = hi;
                while v.len() < most / 64 + 8 && lo > 100_000 {
                    lo -= 50_000;
                    v.extend(window_primes(lo, 50_000.min((hi - lo) as usize)).into_iter().map(|r| r * k + 1).filter(|&p| p < TOP && maybe(p) && is_prime_trial(p)));
                }
                v.truncate(most);
            } else {
                for (i, r) in window_primes(5, 46_341).into_iter().enumerate() {
                    if i % 64 != c - 64 {
                        continue;
                    }
                    for j in 2..=6 {
                        let q = (r as u128).pow(j);
                        for k in 1..=if j == 2 { 40 } else { 2000 } {
                            let p = q * k + 1;
                            if p < TOP as u128 && maybe(p as u64) && is_prime_trial(p as u64) {
                                v.push(p as u64);
                            }
                        }
                    }
                }
            }
            v
        });
    }));
    let top = if thorough { 90 } else { 40 };
    v.push(space("modular power, small", &format!("every x, n, m up to {top} in size"), top as usize, move |c, cx| powers_small(cx, c as i64 + 1, top)));
    let big: Vec<u32> = large_moduli().into_iter().filter(|&m| (m as u64) < TOP).collect();
    let n = big.len();
    {
        let big = big.clone();
        v.push(space("modular power, corners", "grid of 64-bit bases and exponents, moduli around powers of two and others up to 2^31 - 1", n, move |c, cx| powers_large(cx, big[c])));
    }
    let top = if thorough { 1500i64 } else { 400 };
    v.push(space("remainder and inverse, small", &format!("every modulus up to {top}, every operand within three times the modulus"), top as usize, move |c, cx| {
        let m = c as i64 + 1;
        let xs: Vec<i64> = (-3 * m - 1..=3 * m + 1).collect();
        remainders(cx, m, &xs);
        inverses(cx, m, &xs);
    }));
    let cs: Vec<i64> = corners64().into_iter().filter(|&x| x > 0).collect();
    let n = cs.len();
    v.push(space("remainder and inverse, corners", "all pairs of 64-bit corner values (powers of two +-2, powers of ten and others, both signs)", n, move |c, cx| {
        let all = corners64();
        remainders(cx, cs[c], &all);
        inverses(cx, cs[c], &all);
    }));
    v.push(space("inverse, longest division chains", "all pairs of Fibonacci numbers below 2^63, and their small multiples and neighbours", fibonacci().len(), move |c, cx| {
        let f = fibonacci();
        let mut aa = vec![];
        for &x in &f {
            for y in [Some(x), x.checked_neg(), x.checked_mul(2), x.checked_mul(3), x.checked_add(1), x.checked_sub(1)].into_iter().flatten() {
                aa.push(y);
            }
        }
        for b in [Some(f[c]), f[c].checked_mul(2), f[c].checked_mul(3), f[c].checked_add(1)].into_iter().flatten() {
            inverses(cx, b, &aa);
        }
    }));
    let w = if thorough { 100_000i64 } else { 6000 };
    let mut bs: Vec<i64> = middle_moduli().into_iter().map(|m| m as i64).collect();
    bs.extend([1_000_000_007 * 998_244_353, 6_469_693_230, 3_000_000_019, 1 << 40, (1 << 40) + 15, 10i64.pow(12) + 39, 10i64.pow(18) + 9, i64::MAX - 24, 2 * 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23 * 29 * 31 * 37 * 41 * 43 * 47, 1 << 62]);
    v.push(space("remainder and inverse, windows", &format!("48 moduli up to 2^63: every operand in windows of {w} (from 0, middle, third, root, top, negative)"), bs.len(), move |c, cx| {
        let b = bs[c];
        let r = (b as f64).sqrt() as i64;
        let mut xs = vec![];
        for (lo, len) in [(0, w), (b / 2 - w / 4, w / 2), (b / 3, w / 4), (r - w / 4, w / 2), (b - w / 2, w), (-w, w), (-b, w / 2), (b / 1000 * 618, w / 4)] {
            for d in 0..len {
                xs.extend(i64::checked_add(lo, d));
            }
        }
        remainders(cx, b, &xs);
        inverses(cx, b, &xs);
    }));
    let top = if thorough { 100_000i64 } else { 10_000 };
    v.push(space("modular power, runs of exponents", &format!("38 moduli up to 2^31 - 1: six bases to every exponent up to {top} and in windows around the modulus, 2^31, 2^32, 2^48 and up to 2^63"), 38, move |c, cx| {
        let m = middle_moduli()[c].min(TOP as u32 - 1) as i64;
        let r = cx.run(
            || format!("pow_mod of six bases to runs of exponents modulo {m}"),
            || {
                let mut n = 0;
                for x in [2, 3, m - 2, -1, 10i64.pow(15) + 7, i64::MIN + 5] {
                    let y = x.rem_euclid(m);
                    for (lo, len) in [(0, top), (m - m.min(300), 600), ((1 << 31) - 100, 200), ((1 << 32) - 300, 600), ((1 << 48) - 100, 200), (i64::MAX - 300, 300)] {
                        let mut p = pow_ref(y as u64, lo as u64, m as u64) as i64;
                        for k in 0..=len {
                            let got = im::pow_mod(x, lo + k, m as i32);
                            if got != p {
                                return Err(format!("pow_mod({x}, {}, {m}) is {got}, expected {p}", lo + k));
                            }
                            p = p * y % m;
                        }
                        n += len as u64 + 1;
                    }
                }
                Ok(n)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(m as u64);
        }
    }));
    v.push(space("reciprocal multiplication, windows of residues", "37 moduli up to 2^31: every residue in windows of 700 with eight others on either side", 37, move |c, cx| {
        let m = middle_moduli()[c + 1];
        let r = cx.run(
            || format!("products of windows of residues modulo {m}"),
            || {
                let mut n = 0;
                for a in windows(m, 700) {
                    for b in [1, 2, 10, m / 3, m / 2, m - 1, m - 2, (m as f64).sqrt() as u32] {
                        for (a, b) in [(a, b), (b, a)] {
                            let got = im::barrett_mul(m, a, b);
                            let want = (m, (a as u64 * b as u64 % m as u64) as u32);
                            if got != want {
                                return Err(format!("reciprocal multiplication of {a} and {b} modulo {m}: (umod, product) = {got:?}, expected {want:?}"));
                            }
                            n += 1;
                        }
                    }
                }
                Ok(n)
            },
        );
        if let Some(n) = r {
            cx.calls(n);
            cx.states(n);
            cx.outcome(m as u64);
        }
    }));
    let top = if thorough { 640usize } else { 256 };
    v.push(space("reciprocal multiplication, small", &format!("every modulus up to {top}, every pair of residues"), top, move |c, cx| {
        let m = c as u32 + 1;
        barrett(cx, format!("every product modulo {m}"), m..=m, |m| (0..m).collect())
    }));
    v.push(space("reciprocal multiplication, every modulus up to 2^16", "corner pairs of residues", 256, move |c, cx| {
        let lo = c as u32 * 256 + 1;
        barrett(cx, format!("corner products modulo every m in {lo}..{}", lo + 256), lo..lo + 256, |m| residues(m).into_iter().step_by(2).chain([m - 1]).collect())
    }));
    v.push(space("reciprocal multiplication, large", "moduli around powers of two up to 2^31 and others, all pairs of corner residues", large_moduli().len(), move |c, cx| {
        let m = large_moduli()[c];
        barrett(cx, format!("corner products modulo {m}"), m..=m, |m| {
            let mut r = residues(m);
            for d in 1..=64u32.min(m) {
                r.push(m - d);
                r.push(m / 2 + d.min(m - m / 2 - 1));
            }
            r.sort();
            r.dedup();
            r
        })
    }));
    let w: u32 = if thorough { 1 << 16 } else { 1 << 11 };
    v.push(space("reciprocal multiplication, moduli below 2^31", &format!("every modulus in the {} below 2^31 and as many around 2^30 and 3*2^29, products of the five largest residues", w), 48, move |c, cx| {
        let hi = [TOP + 1, 1 << 30, 3 << 29][c % 3] as u32 - (c as u32 / 3) * (w / 16);
        barrett(cx, format!("products of the largest residues modulo every m in {}..{hi}", hi - w / 16), hi - w / 16..hi, |m| vec![m - 1, m - 2, m - 3, m / 2, m / 2 + 1, 65_535, 65_536])
    }));
}
#[cfg(vp_hooks)]
fn carmichael3_small(cx: &mut Cx, part: usize) {
    // one smallest factor per part: 3, 5, 7, 11, 13, 17, 19, 23
    hooked::carmichael3(cx, part, 1_000_000)
}
#[cfg(not(vp_hooks))]
fn spaces(_: bool, _: &mut Vec<Space>) {}

fn main() {
    mc::main("C23", false, |thorough| {
        let mut v = vec![];
        v.push(space("products through the public type", "run-time moduli up to 64 and the large ones: all pairs (up to 24) or corner pairs of residues", 16, |c, cx| {
            let ms: Vec<u32> = (1..=64).chain(large_moduli()).skip(c).step_by(16).collect();
            public_any(cx, &ms)
        }));
        spaces(thorough, &mut v);
        v
    });
}
