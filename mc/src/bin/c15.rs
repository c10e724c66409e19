//! C15 multi-pattern search against comparison of every pattern at every position.
use mc::model::*;
use mc::*;
use rust_cp::string::aho_corasick::AhoCorasick;
use std::collections::HashMap;

/// An automaton seen through its three searches.
struct Auto {
    find: Box<dyn Fn(&[u8]) -> Vec<Option<usize>>>,
    all: Box<dyn Fn(&[u8]) -> Vec<Vec<usize>>>,
    cnt: Box<dyn Fn(&[u8]) -> Vec<usize>>,
}
type Make = fn(&How, &[(Vec<u8>, usize)], usize) -> Auto;
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    /// AhoCorasick::from
    From,
    /// new, insert in the given order under the given indices, build
    Insert,
}
fn make<const O: u8, const N: usize>(how: &How, pats: &[(Vec<u8>, usize)], n: usize) -> Auto {
    let a = std::rc::Rc::new(match how {
        How::From => AhoCorasick::<O, N>::from(&pats.iter().map(|p| &p.0[..]).collect::<Vec<_>>()),
        How::Insert => {
            let mut a = AhoCorasick::<O, N>::new(n);
            for (p, i) in pats {
                a.insert(p, *i);
            }
            a.build();
            a
        }
    });
    let (b, c) = (a.clone(), a.clone());
    Auto { find: Box::new(move |t| a.find(t)), all: Box::new(move |t| b.find_all(t)), cnt: Box::new(move |t| c.find_cnt(t)) }
}

/// Expected find, find_all (sorted), find_cnt.
fn naive(pats: &[(Vec<u8>, usize)], n: usize, t: &[u8]) -> (Vec<Option<usize>>, Vec<Vec<usize>>, Vec<usize>) {
    let mut by_len: Vec<(usize, HashMap<&[u8], usize>)> = vec![];
    if pats.len() > 40 {
        for (p, i) in pats {
            match by_len.iter_mut().find(|x| x.0 == p.len()) {
                Some(x) => {
                    x.1.insert(p, *i);
                }
                None => by_len.push((p.len(), HashMap::from([(&p[..], *i)]))),
            }
        }
    }
    let (mut f, mut a, mut c) = (vec![None; t.len()], vec![vec![]; t.len()], vec![0; n]);
    for e in 0..t.len() {
        let mut best = 0;
        let mut hit = |len: usize, i: usize| {
            a[e].push(i);
            c[i] += 1;
            if len > best {
                best = len;
                f[e] = Some(i);
            }
        };
        if pats.len() > 40 {
            for (l, m) in &by_len {
                if *l <= e + 1 {
                    if let Some(&i) = m.get(&t[e + 1 - l..e + 1]) {
                        hit(*l, i);
                    }
                }
            }
        } else {
            for (p, i) in pats {
                if t[..e + 1].ends_with(p) {
                    hit(p.len(), *i);
                }
            }
        }
        a[e].sort();
    }
    (f, a, c)
}
fn one_text(x: &Auto, pats: &[(Vec<u8>, usize)], n: usize, t: &[u8]) -> Result<u64, String> {
    let (f, a, c) = naive(pats, n, t);
    let show = |what: &str| if t.len() <= 80 { format!("{what}({:?})", String::from_utf8_lossy(t)) } else { format!("{what}(text of length {})", t.len()) };
    let mut got = (x.all)(t);
    for g in got.iter_mut() {
        g.sort();
    }
    same(|| show("find_all"), got, a)?;
    same(|| show("find_cnt"), (x.cnt)(t), c)?;
    let o = fp_debug(&f) as u64;
    same(|| show("find"), (x.find)(t), f)?;
    Ok(o)
}
fn names(pats: &[(Vec<u8>, usize)]) -> String {
    let l: Vec<String> = pats.iter().take(12).map(|(p, i)| format!("{i}:{:?}", if p.len() <= 40 { String::from_utf8_lossy(p).to_string() } else { format!("<{} bytes>", p.len()) })).collect();
    format!("[{}{}]", l.join(", "), if pats.len() > 12 { format!(", .. {} in all", pats.len()) } else { String::new() })
}
fn case(cx: &mut Cx, mk: Make, how: How, pats: &[(Vec<u8>, usize)], n: usize, texts: &[Vec<u8>]) {
    let r = cx.run(
        || format!("{how:?} of {n} with patterns {} searched in {} texts", names(pats), texts.len()),
        || {
            let x = mk(&how, pats, n);
            let mut o = 0;
            for t in texts {
                o = one_text(&x, pats, n, t)?;
            }
            Ok(o)
        },
    );
    if let Some(o) = r {
        cx.calls(3 * texts.len() as u64);
        cx.states(texts.len() as u64);
        cx.outcome(o);
    }
}
fn letters(k: usize, len: usize, abc: &[u8]) -> Vec<Vec<u8>> {
    words(k, len).map(|w| w.iter().map(|&d| abc[d]).collect()).collect()
}
fn up_to(k: usize, len: usize, abc: &[u8]) -> Vec<Vec<u8>> {
    (1..=len).flat_map(|l| letters(k, l, abc)).collect()
}
fn indexed(ps: &[&Vec<u8>]) -> Vec<(Vec<u8>, usize)> {
    ps.iter().enumerate().map(|(i, p)| (p.to_vec(), i)).collect()
}

fn main() {
    mc::main("C15", false, |thorough| {
        let x = thorough as usize;
        let mut v = vec![];
        v.push(space("refused", "an empty pattern at every position among up to 3 others, through from and insert", 1, |_, cx| {
            let ps = up_to(2, 2, b"ab");
            for n in 1..=4 {
                for at in 0..n {
                    for how in [How::From, How::Insert] {
                        let mut l: Vec<(Vec<u8>, usize)> = ps.iter().take(n).cloned().zip(0..).collect();
                        l[at].0.clear();
                        let r = cx.run(|| format!("{how:?} with patterns {}", names(&l)), || refuses("an empty pattern", || make::<b'a', 26>(&how, &l, n)));
                        if r.is_some() {
                            cx.calls(1);
                            cx.states(1);
                        }
                    }
                }
            }
        }));
        v.push(space("all subsets", &format!("all 2^14 subsets of the words of length 1..=3 over 2 letters (the empty set included), three insertion orders, every text of length 0..={}", 6 + x), 64, move |c, cx| {
            let u = up_to(2, 3, b"ab");
            let texts: Vec<Vec<u8>> = (0..=6 + cx.thorough as usize).flat_map(|l| letters(2, l, b"ab")).collect();
            for m in (c..1 << 14).step_by(64) {
                let mut l: Vec<&Vec<u8>> = (0..14).filter(|i| m >> i & 1 == 1).map(|i| &u[i]).collect();
                let n = l.len();
                let how = if m / 64 % 2 == 0 { How::From } else { How::Insert };
                case(cx, make::<b'a', 26>, how, &indexed(&l), n, &texts);
                if n > 1 {
                    l.reverse();
                    case(cx, make::<b'a', 26>, How::From, &indexed(&l), n, &texts);
                }
                if n > 2 {
                    l.sort_by_key(|p| mix(fp_debug(p) as u64));
                    case(cx, make::<b'a', 2>, How::From, &indexed(&l), n, &texts);
                }
            }
        }));
        v.push(space("ordered triples, long", &format!("every ordered choice of up to 3 of the words of length 1..=4 over 2 letters, every text of length {}", 8 + 2 * x), 31, |c, cx| {
            let u = up_to(2, 4, b"ab");
            let texts = letters(2, 8 + 2 * cx.thorough as usize, b"ab");
            if c == 30 {
                return case(cx, make::<b'a', 26>, How::From, &[], 0, &texts);
            }
            case(cx, make::<b'a', 26>, How::From, &indexed(&[&u[c]]), 1, &texts);
            for b in (0..30).filter(|&b| b != c) {
                case(cx, make::<b'a', 26>, How::From, &indexed(&[&u[c], &u[b]]), 2, &texts);
                for d in (0..30).filter(|&d| d != c && d != b) {
                    case(cx, make::<b'a', 26>, How::From, &indexed(&[&u[c], &u[b], &u[d]]), 3, &texts);
                }
            }
        }));
        v.push(space("ordered triples, 3 letters", &format!("every ordered choice of up to 3 of the words of length 1..=3 over 3 letters, every text of length {}", 5 + x), 39, |c, cx| {
            let u = up_to(3, 3, b"xyz");
            let texts = letters(3, 5 + cx.thorough as usize, b"xyz");
            case(cx, make::<b'a', 26>, How::From, &indexed(&[&u[c]]), 1, &texts);
            for b in (0..39).filter(|&b| b != c) {
                case(cx, make::<b'x', 3>, How::From, &indexed(&[&u[c], &u[b]]), 2, &texts);
                for d in (0..39).filter(|&d| d != c && d != b) {
                    case(cx, make::<b'a', 26>, How::From, &indexed(&[&u[c], &u[b], &u[d]]), 3, &texts);
                }
            }
        }));
        v.push(space("deep chains", "every set of 3 words of length 1..=6 over 2 letters, one of them of length 5 or 6 (quick: every eighth such set); every text of length 9 (quick: length 7 starting with b) and the concatenation of all words of length 7", 96, |c, cx| {
            let u = up_to(2, 6, b"ab");
            let mut texts = letters(2, 7 + 2 * cx.thorough as usize, b"ab");
            // every word of length 7: concatenate all
            texts.push(letters(2, 7, b"ab").concat());
            if !cx.thorough {
                texts.drain(..64);
            }
            let a = &u[30 + c];
            for i in 0..u.len() {
                for j in 0..i {
                    if i == 30 + c || j == 30 + c {
                        continue;
                    }
                    if !cx.thorough && (i * 31 + j * 7 + c) % 8 != 0 {
                        continue;
                    }
                    case(cx, make::<b'a', 26>, How::From, &indexed(&[a, &u[i], &u[j]]), 3, &texts);
                }
            }
        }));
        v.push(space("alphabets", "14 alphabet offsets and sizes (1 to 256 letters, ends of the byte range included); every set of up to 3 words of length 1..=2 over the first, second, middle and last letters; every text of length 4 over them", 14, |c, cx| {
            let (mk, off, n): (Make, u8, usize) = match c {
                0 => (make::<b'a', 26>, b'a', 26),
                1 => (make::<b'A', 26>, b'A', 26),
                2 => (make::<b'0', 10>, b'0', 10),
                3 => (make::<0, 256>, 0, 256),
                4 => (make::<0, 1>, 0, 1),
                5 => (make::<b'q', 1>, b'q', 1),
                6 => (make::<255, 1>, 255, 1),
                7 => (make::<128, 128>, 128, 128),
                8 => (make::<254, 2>, 254, 2),
                9 => (make::<0, 2>, 0, 2),
                10 => (make::<b' ', 95>, b' ', 95),
                11 => (make::<1, 255>, 1, 255),
                12 => (make::<b'a', 27>, b'a', 27),
                _ => (make::<200, 3>, 200, 3),
            };
            let mut abc: Vec<u8> = [0, 1, n / 2, n - 1].iter().filter(|&&i| i < n).map(|&i| (off as usize + i) as u8).collect();
            abc.sort();
            abc.dedup();
            let u = up_to(abc.len(), 2, &abc);
            let texts = letters(abc.len(), 4, &abc);
            for i in 0..u.len() {
                case(cx, mk, How::From, &indexed(&[&u[i]]), 1, &texts);
                for j in 0..i {
                    case(cx, mk, How::From, &indexed(&[&u[i], &u[j]]), 2, &texts);
                    for k in 0..j {
                        case(cx, mk, How::Insert, &indexed(&[&u[i], &u[j], &u[k]]), 3, &texts);
                    }
                }
            }
        }));
        v.push(space("indices", "every set of up to 3 words of length 1..=2 over 2 letters inserted under every injective choice of indices below 5, every text of length 5", 1, |_, cx| {
            let u = up_to(2, 2, b"ab");
            let texts = letters(2, 5, b"ab");
            for m in 0..1u32 << u.len() {
                let l: Vec<&Vec<u8>> = (0..u.len()).filter(|i| m >> i & 1 == 1).map(|i| &u[i]).collect();
                if l.len() > 3 {
                    continue;
                }
                for w in words(5, l.len()) {
                    let mut d = w.clone();
                    d.sort();
                    d.dedup();
                    if d.len() < l.len() {
                        continue;
                    }
                    let ps: Vec<(Vec<u8>, usize)> = l.iter().zip(&w).map(|(p, &i)| (p.to_vec(), i)).collect();
                    case(cx, make::<b'a', 26>, How::Insert, &ps, 5, &texts);
                }
            }
        }));
        let big = 60 + 60 * x;
        v.push(space("families", &format!("families of larger dictionaries and texts: all powers of one letter up to {big}; all suffixes / prefixes / factors of Fibonacci and periodic words; combs; all 702 words of length 1..=2 over 26 letters; 65536 + 4369 patterns (beyond 2^16 nodes); a pattern of length 70000; counts beyond 2^16"), 9, move |c, cx| {
            let fib = {
                let (mut a, mut b) = (b"a".to_vec(), b"ab".to_vec());
                while b.len() < 300 {
                    let z = [b.clone(), a].concat();
                    a = b;
                    b = z;
                }
                b
            };
            let dedup = |mut l: Vec<Vec<u8>>| {
                l.sort();
                l.dedup();
                l.into_iter().zip(0..).collect::<Vec<_>>()
            };
            match c {
                0 => {
                    for n in 1..=big {
                        let ps: Vec<_> = (1..=n).map(|i| (vec![b'c'; i], i - 1)).collect();
                        case(cx, make::<b'a', 26>, How::From, &ps, n, &[vec![b'c'; 2 * n], [vec![b'c'; n - 1], vec![b'd'], vec![b'c'; n + 1]].concat()]);
                        let back: Vec<_> = ps.iter().rev().cloned().map(|(p, i)| (p, n - 1 - i)).collect();
                        case(cx, make::<b'a', 26>, How::From, &back, n, &[vec![b'c'; 2 * n]]);
                    }
                }
                1 => {
                    for n in 1..=big {
                        let s = &fib[..n];
                        for l in [(0..n).map(|i| s[i..].to_vec()).collect::<Vec<_>>(), (1..=n).map(|i| s[..i].to_vec()).collect()] {
                            let ps = dedup(l);
                            case(cx, make::<b'a', 26>, How::From, &ps, ps.len(), &[fib.clone(), s.iter().rev().cloned().collect()]);
                        }
                    }
                }
                2 => {
                    for n in [5, 12, 20, 30] {
                        let s = &fib[..n];
                        let ps = dedup((0..n).flat_map(|i| (i + 1..=n).map(move |j| s[i..j].to_vec())).collect());
                        case(cx, make::<b'a', 26>, How::From, &ps, ps.len(), &[fib.clone(), b"abbaabab".to_vec()]);
                    }
                }
                3 => {
                    // combs: a^i b and b a^i
                    for n in 1..=big {
                        let mut l: Vec<Vec<u8>> = (0..n).map(|i| [vec![b'a'; i], vec![b'b']].concat()).collect();
                        l.extend((1..n).map(|i| [vec![b'b'], vec![b'a'; i]].concat()));
                        let ps = dedup(l);
                        let t: Vec<u8> = (0..n).flat_map(|i| [vec![b'a'; i], vec![b'b']].concat()).take(400).collect();
                        case(cx, make::<b'a', 26>, How::From, &ps, ps.len(), &[t]);
                    }
                }
                4 => {
                    let abc: Vec<u8> = (b'a'..=b'z').collect();
                    let ps = dedup(up_to(26, 2, &abc));
                    let t: Vec<u8> = (0..2000u64).map(|i| b'a' + (mix(i) % 26) as u8).collect();
                    case(cx, make::<b'a', 26>, How::From, &ps, ps.len(), &[t.clone()]);
                    let half: Vec<_> = ps.iter().filter(|p| mix(p.1 as u64 + 9) % 3 == 0).map(|p| p.0.clone()).collect();
                    let half = dedup(half);
                    case(cx, make::<b'a', 26>, How::From, &half, half.len(), &[t]);
                }
                5 => {
                    let abc: Vec<u8> = (b'a'..b'a' + 16).collect();
                    let ps = dedup(up_to(16, 4, &abc));
                    let t: Vec<u8> = (0..3000u64).map(|i| b'a' + (mix(i) % 16) as u8).collect();
                    case(cx, make::<b'a', 16>, How::From, &ps, ps.len(), &[t]);
                }
                6 => {
                    let long: Vec<u8> = (0..70_000).map(|i: usize| b'a' + (i.count_ones() % 2) as u8).collect();
                    let ps = dedup(vec![long.clone(), long[1..].to_vec(), b"abba".to_vec(), b"bb".to_vec()]);
                    case(cx, make::<b'a', 2>, How::From, &ps, ps.len(), &[[b"ab".to_vec(), long, b"a".to_vec()].concat()]);
                }
                7 => {
                    let t = vec![b'a'; 70_000];
                    case(cx, make::<b'a', 2>, How::From, &indexed(&[&b"a".to_vec(), &b"aa".to_vec(), &b"b".to_vec()]), 3, &[t]);
                }
                _ => {
                    for seed in 0..200u64 {
                        let l: Vec<Vec<u8>> = (0..8u64).map(|i| (0..1 + mix(seed * 64 + i) % 7).map(|j| b'a' + (mix(seed * 999 + i * 31 + j) % 2) as u8).collect()).collect();
                        let mut ps = dedup(l);
                        ps.sort_by_key(|p| mix(p.1 as u64 ^ seed));
                        let n = ps.len();
                        for (i, p) in ps.iter_mut().enumerate() {
                            p.1 = i;
                        }
                        let t: Vec<u8> = (0..200u64).map(|i| b'a' + (mix(seed + i * 7919) % 2) as u8).collect();
                        case(cx, make::<b'a', 26>, How::From, &ps, n, &[t]);
                    }
                }
            }
        }));
        let chain = if thorough { 4000 } else { 1600 };
        v.push(space("chains of outputs", &format!("all powers a^1 .. a^k for every k up to 64, 255..=258, 511..=514, 1023..=1026, {chain} (inserted by length up, down or mixed; all, or every one whose length passes one of three sieves), searched in runs with interruptions"), 12, move |c, cx| {
            let (ord, sieve) = (c % 3, c / 3);
            let keep = |l: usize| match sieve {
                0 => true,
                1 => l % 2 == 0,
                2 => mix(l as u64) % 3 > 0,
                _ => l.is_power_of_two() || l % 7 == 3,
            };
            let mut ks: Vec<usize> = (1..=64).collect();
            ks.extend([255, 256, 257, 258, 511, 512, 513, 514, 1023, 1024, 1025, 1026, chain]);
            for k in ks.into_iter().rev() {
                let mut lens: Vec<usize> = (1..=k).filter(|&l| keep(l)).collect();
                match ord {
                    0 => {}
                    1 => lens.reverse(),
                    _ => lens.sort_by_key(|&l| mix(l as u64 + 3)),
                }
                let ps: Vec<(Vec<u8>, usize)> = lens.iter().enumerate().map(|(i, &l)| (vec![b'a'; l], i)).collect();
                let mut idx = vec![None; k + 1];
                for (i, &l) in lens.iter().enumerate() {
                    idx[l] = Some(i);
                }
                let text: Vec<u8> = [vec![b'a'; k + 5], vec![b'b'], vec![b'a'; k - k / 3], vec![b'b'; 2], vec![b'a'; 2]].concat();
                let r = cx.run(|| format!("powers of a up to {k}, order {ord}, sieve {sieve}"), || {
                    let x = make::<b'a', 3>(&How::From, &ps, ps.len());
                    let (mut f, mut all, mut cnt) = (vec![], vec![], vec![0; ps.len()]);
                    let mut run = 0;
                    for &ch in &text {
                        run = if ch == b'a' { run + 1 } else { 0 };
                        let mut l: Vec<usize> = (1..=run.min(k)).rev().filter_map(|l| idx[l]).collect();
                        f.push(l.first().copied());
                        for &i in &l {
                            cnt[i] += 1;
                        }
                        l.sort();
                        all.push(l);
                    }
                    let mut got = (x.all)(&text);
                    for g in got.iter_mut() {
                        g.sort();
                    }
                    for i in 0..text.len() {
                        ensure(got[i] == all[i], || format!("find_all: {} matches ending at {i}, expected {}", got[i].len(), all[i].len()))?;
                    }
                    same(|| "find".into(), (x.find)(&text), f)?;
                    same(|| "find_cnt".into(), (x.cnt)(&text), cnt)
                });
                if r.is_some() {
                    cx.calls(3);
                    cx.states(1);
                    cx.outcome((k * 16 + c) as u64);
                }
            }
        }));
        let (l2, l3) = if thorough { (17, 11) } else { (14, 8) };
        v.push(space("all words of a length", &format!("all words of length 1..={l2} over 2 letters, 1..={l3} over 3, 1..=2 over all 255 bytes from 1 (offset 1) and over all 256: all of them, or those passing a sieve; inserted by length up, down or mixed, indices through from or (shuffled, table of 2^17 or larger) through insert; searched in a long text holding every word of the greatest length"), 4 * 3 * 3, move |c, cx| {
            let (dict, sieve, ord) = (c / 9, c / 3 % 3, c % 3);
            let (mk, off, k, len): (Make, usize, usize, usize) = match dict {
                0 => (make::<b'a', 2>, b'a' as usize, 2, l2),
                1 => (make::<b'x', 3>, b'x' as usize, 3, l3),
                2 => (make::<1, 255>, 1, 255, 2),
                _ => (make::<0, 256>, 0, 256, 2),
            };
            // words are numbered within their length, most significant letter first
            let keep = |l: usize, code: usize| match sieve {
                0 => true,
                1 => mix((l * 1_000_003 + code) as u64) % 3 == 0,
                _ => mix((l * 1_000_003 + code + 5) as u64) % 5 > 0 && l != 2,
            };
            let mut list = vec![];
            for l in 1..=len {
                for code in 0..k.pow(l as u32) {
                    if keep(l, code) {
                        list.push((l, code));
                    }
                }
            }
            match ord {
                0 => {}
                1 => list.reverse(),
                _ => list.sort_by_key(|&(l, code)| mix((code * 64 + l) as u64)),
            }
            let how = if ord == 2 { How::Insert } else { How::From };
            let table = if ord == 2 { (1 << 17) + 5 } else { list.len() }.max(list.len());
            let mut index: Vec<Vec<Option<usize>>> = (0..=len).map(|l| vec![None; k.pow(l as u32)]).collect();
            let mut ps = vec![];
            for (i, &(l, code)) in list.iter().enumerate() {
                // an odd stride in a table larger than the list: distinct indices all over it
                let i = if ord == 2 { (i * 3 + 70_001) % table } else { i };
                if ord == 2 && table % 3 == 0 {
                    return;
                }
                index[l][code] = Some(i);
                let mut w = vec![0u8; l];
                let mut x = code;
                for j in (0..l).rev() {
                    w[j] = (off + x % k) as u8;
                    x /= k;
                }
                ps.push((w, i));
            }
            let n = k.pow(len as u32).min(80_000);
            let mut text = vec![];
            for i in 0..n / len.min(8) + 300 {
                for j in 0..len {
                    text.push((off + i * 7 / k.pow(j as u32) % k) as u8);
                }
            }
            text.extend((0..3000u64).map(|i| (off + mix(i) as usize % k) as u8));
            let r = cx.run(|| format!("{} words over {k} letters (dictionary {dict}, sieve {sieve}, order {ord}), {} letters of text", ps.len(), text.len()), || {
                let x = mk(&how, &ps, table);
                let (mut f, mut all, mut cnt) = (vec![], vec![], vec![0; table]);
                for e in 0..text.len() {
                    let mut m = vec![];
                    let (mut code, mut unit) = (0, 1);
                    for l in 1..=len.min(e + 1) {
                        code += (text[e + 1 - l] as usize - off) * unit;
                        unit *= k;
                        if let Some(i) = index[l][code] {
                            m.push(i);
                            cnt[i] += 1;
                        }
                    }
                    f.push(m.last().copied());
                    m.sort();
                    all.push(m);
                }
                let mut got = (x.all)(&text);
                ensure(got.len() == all.len(), || "find_all: length".into())?;
                for (i, g) in got.iter_mut().enumerate() {
                    g.sort();
                    ensure(*g == all[i], || format!("find_all at {i}: {g:?}, expected {:?}", all[i]))?;
                }
                let got = (x.find)(&text);
                ensure(got.len() == f.len(), || "find: length".into())?;
                for i in 0..f.len() {
                    same(|| format!("find at {i}"), got[i], f[i])?;
                }
                let got = (x.cnt)(&text);
                ensure(got.len() == cnt.len(), || "find_cnt: length".into())?;
                for i in 0..cnt.len() {
                    same(|| format!("find_cnt of {i}"), got[i], cnt[i])?;
                }
                Ok(text.len() as u64)
            });
            if let Some(k) = r {
                cx.calls(3);
                cx.states(k);
                cx.outcome(c as u64);
            }
        }));
        v
    });
}
