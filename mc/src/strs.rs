//! Shared enumeration of sequences for the border (C13) and common-prefix (C14) functions.
use crate::model::mix;
use crate::*;

/// Comparable by class only; neither Clone nor Eq nor Ord.
#[derive(Debug)]
pub struct Cls(pub usize, pub usize);
impl PartialEq for Cls {
    fn eq(&self, o: &Cls) -> bool {
        self.0 == o.0
    }
}

/// The function under test at every element type used.
#[derive(Clone, Copy)]
pub struct Algo {
    pub name: &'static str,
    pub u8: fn(&[u8]) -> Vec<usize>,
    pub ch: fn(&[char]) -> Vec<usize>,
    pub i64: fn(&[i64]) -> Vec<usize>,
    pub st: fn(&[&str]) -> Vec<usize>,
    pub f64: fn(&[f64]) -> Vec<usize>,
    pub unit: fn(&[()]) -> Vec<usize>,
    pub cls: fn(&[Cls]) -> Vec<usize>,
    /// expected result from the table l[i] = length of the common prefix of s and s[i..]
    pub want: fn(&[usize]) -> Vec<usize>,
}

/// By definition, position by position.
pub fn common_prefixes(s: &[u8]) -> Vec<usize> {
    let n = s.len();
    (0..n).map(|i| (0..n - i).take_while(|&k| s[k] == s[i + k]).count()).collect()
}
pub fn borders(l: &[usize]) -> Vec<usize> {
    // prefix of length k ends at i  <=>  common prefix at i+1-k reaches i
    let n = l.len();
    (0..n).map(|i| (0..=i).rev().find(|&k| k == 0 || l[i + 1 - k] >= k).unwrap()).collect()
}
pub fn z_values(l: &[usize]) -> Vec<usize> {
    let mut v = l.to_vec();
    if let Some(x) = v.first_mut() {
        *x = 0;
    }
    v
}

/// Borders from common prefixes, filling each interval from its end until it meets a longer border.
fn borders_fast(l: &[usize]) -> Vec<usize> {
    let mut b = vec![0usize; l.len()];
    for i in 1..l.len() {
        for j in (0..l[i]).rev() {
            if b[i + j] != 0 {
                break;
            }
            b[i + j] = j + 1;
        }
    }
    b
}
fn first_difference(got: &[usize], want: &[usize]) -> Result<(), String> {
    ensure(got.len() == want.len(), || format!("result has {} entries", got.len()))?;
    match (0..want.len()).find(|&i| got[i] != want[i]) {
        Some(i) => Err(format!("entry {i} is {}, expected {}", got[i], want[i])),
        None => Ok(()),
    }
}
fn show(s: &[u8]) -> String {
    if s.len() <= 60 {
        format!("{s:?}")
    } else {
        format!("length {} starting {:?}, fingerprint {:x}", s.len(), &s[..20], fp_debug(s) as u64)
    }
}
fn one(cx: &mut Cx, a: &Algo, s: &[u8]) {
    let r = cx.run(
        || format!("{}({})", a.name, show(s)),
        || {
            let w = (a.want)(&common_prefixes(s));
            same(|| "result".into(), (a.u8)(s), w)
        },
    );
    if r.is_some() {
        cx.calls(1);
        cx.states(1);
    }
}
fn typed(cx: &mut Cx, a: &Algo, s: &[u8]) {
    let strs = ["", "a", "ab", "b", "ba", "é", "aa"];
    let r = cx.run(
        || format!("{}({}) as char, i64, &str, f64, (), class-compared", a.name, show(s)),
        || {
            let w = (a.want)(&common_prefixes(s));
            same(|| "char".into(), (a.ch)(&s.iter().map(|&c| char::from_u32(c as u32 * 0x1000 + 7).unwrap()).collect::<Vec<_>>()), w.clone())?;
            same(|| "i64 (values equal modulo 2^32)".into(), (a.i64)(&s.iter().map(|&c| ((c as i64) << 32) - 5).collect::<Vec<_>>()), w.clone())?;
            same(|| "&str".into(), (a.st)(&s.iter().map(|&c| strs[c as usize]).collect::<Vec<_>>()), w.clone())?;
            let f: Vec<f64> = s.iter().enumerate().map(|(i, &c)| if c == 0 { [0.0, -0.0][i % 2] } else { c as f64 / 3.0 }).collect();
            same(|| "f64 (zeros of both signs)".into(), (a.f64)(&f), w.clone())?;
            same(|| "class-compared".into(), (a.cls)(&s.iter().enumerate().map(|(i, &c)| Cls(c as usize, i)).collect::<Vec<_>>()), w.clone())?;
            let u = vec![(); s.len()];
            same(|| "unit type".into(), (a.unit)(&u), (a.want)(&(0..s.len()).map(|i| s.len() - i).collect::<Vec<_>>()))
        },
    );
    if r.is_some() {
        cx.calls(6);
        cx.outcome(fp_debug(&(a.want)(&common_prefixes(s))) as u64);
    }
}
/// All restricted growth strings of length n with the given second and third symbols: every sequence up to renaming.
fn rgs(n: usize, f: &mut impl FnMut(&[u8])) {
    fn go(w: &mut Vec<u8>, max: u8, n: usize, f: &mut impl FnMut(&[u8])) {
        if w.len() == n {
            return f(w);
        }
        for c in 0..=max {
            w.push(c);
            go(w, max.max(c + 1), n, f);
            w.pop();
        }
    }
    go(&mut vec![], 0, n, f)
}

pub fn spaces(a: Algo, thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    let x = thorough as usize;
    let top = 13 + x;
    v.push(space(
        "every sequence up to renaming",
        &format!("every sequence of length 0..={top} over any alphabet, up to renaming of its elements (the function can only compare elements)"),
        64,
        move |c, cx| {
            let mut i = 0usize;
            for n in 0..=top {
                rgs(n, &mut |s| {
                    i += 1;
                    if i % 64 == c {
                        one(cx, &a, s);
                    }
                });
            }
        },
    ));
    v.push(space("element types", "every sequence of length 0..=8 over any alphabet up to renaming with at most 7 classes, as char, i64, &str, f64, (), and a type comparable only by class", 16, move |c, cx| {
        let mut i = 0usize;
        for n in 0..=8 {
            rgs(n, &mut |s| {
                i += 1;
                if i % 16 == c && s.iter().all(|&c| c < 7) {
                    typed(cx, &a, s);
                }
            });
        }
    }));
    for (k, len) in [(2usize, 21 + 3 * x), (3, 13 + 2 * x), (4, 10 + 2 * x)] {
        v.push(space(&format!("all words over {k} letters"), &format!("length 0..={len}"), 64, move |c, cx| {
            let mut w = vec![0usize; len];
            let mut s = vec![0u8; len];
            for n in 0..=len {
                for code in (c as u64..(k as u64).pow(n as u32)).step_by(64) {
                    word_into(k, code, &mut w[..n]);
                    for i in 0..n {
                        s[i] = w[i] as u8;
                    }
                    one(cx, &a, &s[..n]);
                }
            }
        }));
    }
    let lmax = 140 + 200 * x;
    v.push(space(
        "periodic with one defect",
        &format!("every binary period word of length 1..=5 repeated to 6 lengths up to {lmax}, with no defect and with one foreign or flipped letter at every position"),
        62,
        move |c, cx| {
            let (plen, code) = {
                let mut l = 1;
                let mut c = c;
                while c >= 1 << l {
                    c -= 1 << l;
                    l += 1;
                }
                (l, c)
            };
            let p: Vec<u8> = (0..plen).map(|i| (code >> i & 1) as u8).collect();
            for n in [lmax, lmax - 1, lmax / 2 + 3, 33, 34, 17] {
                let s: Vec<u8> = (0..n).map(|i| p[i % plen]).collect();
                one(cx, &a, &s);
                for i in 0..n {
                    for d in 1..3 {
                        let mut t = s.clone();
                        t[i] = (t[i] + d) % 3;
                        one(cx, &a, &t);
                    }
                }
            }
        },
    ));
    v.push(space("structured words", "prefixes of every length up to 400 of the Fibonacci, Thue-Morse, ruler, square-free and paperfolding words, of a pseudo-random word, and each doubled", 6, move |c, cx| {
        let full = 400usize;
        let w: Vec<u8> = match c {
            0 => {
                let (mut x, mut y) = (vec![0u8], vec![0u8, 1]);
                while y.len() < full {
                    let z = [y.clone(), x].concat();
                    x = y;
                    y = z;
                }
                y[..full].to_vec()
            }
            1 => (0..full).map(|i| (i.count_ones() % 2) as u8).collect(),
            2 => (1..=full).map(|i| i.trailing_zeros() as u8).collect(),
            3 => (0..full).map(|i| ((((i + 1).count_ones() % 2) as i8 - (i.count_ones() % 2) as i8) + 1) as u8).collect(),
            4 => (1..=full).map(|i| (i >> (i.trailing_zeros() + 1) & 1) as u8).collect(),
            _ => (0..full).map(|i| (mix(i as u64) % 2) as u8).collect(),
        };
        for n in 0..=full {
            one(cx, &a, &w[..n]);
            if n <= 200 {
                one(cx, &a, &[&w[..n], &w[..n]].concat());
            }
        }
    }));
    v.push(space("long", "lengths around 2^8, 2^16, 100000, 1100000 (thorough: also 17000000): one repeated letter, periods 2 and 3, and a single odd letter at either end (closed-form expectations)", if thorough { 21 } else { 18 }, move |c, cx| {
        let n = [255usize, 257, 65_535, 65_537, 100_000, 1_100_000, 17_000_000][c / 3];
        for (name, p, odd) in match c % 3 {
            0 => vec![("one letter", 1usize, None), ("one letter, last differs", 1, Some(n - 1))],
            1 => vec![("period 2", 2, None), ("period 2, last differs", 2, Some(n - 1))],
            _ => vec![("period 3", 3, None), ("one letter, first differs", 1, Some(0))],
        } {
            let mut s: Vec<u8> = (0..n).map(|i| (i % p) as u8).collect();
            if let Some(i) = odd {
                s[i] = 9;
            }
            let r = cx.run(
                || format!("{}: length {n}, {name}", a.name),
                || {
                    let mut l: Vec<usize> = (0..n).map(|i| if i % p == 0 { n - i } else { 0 }).collect();
                    if let Some(o) = odd {
                        for i in 0..n {
                            l[i] = if i == 0 {
                                n
                            } else if o == 0 {
                                0
                            } else if i == o {
                                0
                            } else if i % p == 0 {
                                n - i - 1
                            } else {
                                0
                            };
                        }
                    }
                    let got = (a.u8)(&s);
                    // borders from common prefixes, linearly (lengths here are too long for the definition)
                    let mut b = vec![0usize; n];
                    for i in 1..n {
                        if l[i] > 0 && b[i + l[i] - 1] == 0 {
                            for j in (0..l[i]).rev() {
                                if b[i + j] != 0 {
                                    break;
                                }
                                b[i + j] = j + 1;
                            }
                        }
                    }
                    let want = if a.name == "kmp" { b } else { z_values(&l) };
                    ensure(got.len() == n, || format!("result has {} entries", got.len()))?;
                    match (0..n).find(|&i| got[i] != want[i]) {
                        Some(i) => Err(format!("entry {i} is {}, expected {}", got[i], want[i])),
                        None => Ok(()),
                    }
                },
            );
            if r.is_some() {
                cx.calls(1);
                cx.states(1);
            }
        }
    }));
    let size = if thorough { 1_200_000usize } else { 150_000 };
    v.push(space("long, structured", &format!("{size} elements: seven non-periodic words (Thue-Morse, Fibonacci, ruler, paperfolding, mixed, two sparse), each once, twice, three times, and with a copy of its first third at four places (oracle: direct comparison)"), 28, move |c, cx| {
        let (kind, shape) = (c / 4, c % 4);
        let m = [size, size / 2, size / 3, size / 6][shape];
        let w: Vec<u8> = match kind {
            0 => (0..m).map(|i| (i.count_ones() % 2) as u8).collect(),
            1 => {
                let (mut x, mut y) = (vec![0u8], vec![0u8, 1]);
                while y.len() < m {
                    let z = [y.clone(), x].concat();
                    x = y;
                    y = z;
                }
                y[..m].to_vec()
            }
            2 => (1..=m).map(|i| i.trailing_zeros() as u8).collect(),
            3 => (1..=m).map(|i| (i >> (i.trailing_zeros() + 1) & 1) as u8).collect(),
            4 => (0..m).map(|i| (mix(i as u64) % 2) as u8).collect(),
            5 => (0..m).map(|i| (mix(i as u64) % 97 == 0) as u8).collect(),
            _ => (0..m).map(|i| (i == 0 || i.is_power_of_two()) as u8).collect(),
        };
        let s: Vec<u8> = match shape {
            0 => w,
            1 => [&w[..], &w].concat(),
            2 => [&w[..], &w, &w].concat(),
            _ => {
                let third = &w[..m / 3];
                [&w[..], &[7], third, &w[m / 3..], third, third, &w[m / 2..], &[8], third].concat()
            }
        };
        let n = s.len();
        let r = cx.run(|| format!("{}: word {kind} in shape {shape}, {n} elements", a.name), || {
            // common prefixes, directly where they are short; the word of two sparse kinds has long runs, so count them by blocks
            let mut run = vec![0usize; n + 1]; // length of the run of zeros starting here
            for i in (0..n).rev() {
                run[i] = if s[i] == 0 { run[i + 1] + 1 } else { 0 };
            }
            let mut l = vec![0; n];
            l[0] = n;
            for i in 1..n {
                let mut k = 0;
                while i + k < n {
                    if s[k] == 0 && s[i + k] == 0 {
                        let (x, y) = (run[k], run[i + k]);
                        k += x.min(y);
                        if x != y {
                            break;
                        }
                    } else if s[k] == s[i + k] {
                        k += 1;
                    } else {
                        break;
                    }
                }
                l[i] = k.min(n - i);
            }
            let want = if a.name == "kmp" {
                let mut b = vec![0usize; n];
                for i in 1..n {
                    for j in (0..l[i]).rev() {
                        if b[i + j] != 0 {
                            break;
                        }
                        b[i + j] = j + 1;
                    }
                }
                b
            } else {
                z_values(&l)
            };
            let got = (a.u8)(&s);
            ensure(got.len() == n, || format!("result has {} entries", got.len()))?;
            match (0..n).find(|&i| got[i] != want[i]) {
                Some(i) => Err(format!("entry {i} is {}, expected {}", got[i], want[i])),
                None => Ok(fp_debug(&want) as u64),
            }
        });
        if let Some(o) = r {
            cx.calls(1);
            cx.states(1);
            cx.outcome(o);
        }
    }));
    let wl = if thorough { 15 } else { 12 };
    v.push(space("all short words behind every head", &format!("long texts (up to {} elements): every binary head of length 1..=7, with and without a mark, followed by all binary words of length {wl} with or without marks between them, all ternary words of length 7 (thorough 8), or all words of length 4 over 6 letters; so every short situation occurs at every distance and at high indices", (wl + 1) << wl), 254, move |c, cx| {
        let (head, mark) = {
            let mut c = c / 2;
            let mut l = 1;
            while c >= 1 << l {
                c -= 1 << l;
                l += 1;
            }
            ((0..l).map(|i| (c >> i & 1) as u8).collect::<Vec<u8>>(), c % 2 == 1)
        };
        let mark = mark ^ (c % 2 == 1);
        for (k, len) in [(2usize, wl), (3, 7 + thorough as usize), (6, 4)] {
            for between in [false, true] {
                let mut s = head.clone();
                if mark {
                    s.push(7);
                }
                let mut w = vec![0usize; len];
                for code in 0..(k as u64).pow(len as u32) {
                    word_into(k, code, &mut w);
                    s.extend(w.iter().map(|&x| x as u8));
                    if between {
                        s.push(8);
                    }
                }
                let n = s.len();
                let r = cx.run(|| format!("{}: head {head:?} (mark {mark}), all words of length {len} over {k} letters (marks between {between}), {n} elements", a.name), || {
                    let l = common_prefixes(&s);
                    let want = if a.name == "kmp" { borders_fast(&l) } else { z_values(&l) };
                    first_difference(&(a.u8)(&s), &want)
                });
                if r.is_some() {
                    cx.calls(1);
                    cx.states(1);
                    cx.outcome(n as u64 * 1000 + c as u64);
                }
            }
        }
    }));
    v
}
