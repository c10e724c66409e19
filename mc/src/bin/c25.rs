//! C25 the token reader.
use mc::*;
use rust_cp::misc::input::In;
use std::fmt::Debug;
use std::str::FromStr;

/// Maximal runs of non-whitespace characters, split by hand.
fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_whitespace() {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    ReadString,
    ReadI64,
    ReadChar,
    CheckedString,
    CheckedI32,
    I32,
    I64,
    Usize,
    Bytes,
    Chars,
    VecString(usize),
    VecI32(usize),
}
use Op::*;
const OPS: [Op; 16] = [ReadString, ReadI64, ReadChar, CheckedString, CheckedI32, I32, I64, Usize, Bytes, Chars, VecString(0), VecString(1), VecString(2), VecI32(0), VecI32(1), VecI32(3)];

/// What the reader owes: Ok(values as text) or Err for a panic.
fn model(op: Op, toks: &[String], pos: &mut usize) -> Result<String, ()> {
    fn one<T: FromStr + Debug>(toks: &[String], pos: &mut usize) -> Result<String, ()> {
        let t = toks.get(*pos).ok_or(())?;
        *pos += 1;
        t.parse::<T>().map(|x| format!("{x:?}")).map_err(|_| ())
    }
    fn many<T: FromStr + Debug>(n: usize, toks: &[String], pos: &mut usize) -> Result<String, ()> {
        let mut v = vec![];
        for _ in 0..n {
            let t = toks.get(*pos).ok_or(())?;
            *pos += 1;
            v.push(t.parse::<T>().map_err(|_| ())?);
        }
        Ok(format!("{v:?}"))
    }
    fn checked<T: FromStr + Debug>(toks: &[String], pos: &mut usize) -> Result<String, ()> {
        if *pos == toks.len() {
            return Ok("None".into());
        }
        one::<T>(toks, pos).map(|x| format!("Some({x})"))
    }
    match op {
        ReadString => one::<String>(toks, pos),
        ReadI64 => one::<i64>(toks, pos),
        ReadChar => one::<char>(toks, pos),
        CheckedString => checked::<String>(toks, pos),
        CheckedI32 => checked::<i32>(toks, pos),
        I32 => one::<i32>(toks, pos),
        I64 => one::<i64>(toks, pos),
        Usize => one::<usize>(toks, pos),
        Bytes => {
            let t = toks.get(*pos).ok_or(())?;
            *pos += 1;
            Ok(format!("{:?}", t.as_bytes()))
        }
        Chars => {
            let t = toks.get(*pos).ok_or(())?;
            *pos += 1;
            Ok(format!("{:?}", t.char_indices().map(|(_, c)| c).collect::<Vec<_>>()))
        }
        VecString(n) => many::<String>(n, toks, pos),
        VecI32(n) => many::<i32>(n, toks, pos),
    }
}
fn real(op: Op, r: &mut In) -> String {
    match op {
        ReadString => format!("{:?}", r.read::<String>()),
        ReadI64 => format!("{:?}", r.read::<i64>()),
        ReadChar => format!("{:?}", r.read::<char>()),
        CheckedString => format!("{:?}", r.checked_read::<String>()),
        CheckedI32 => format!("{:?}", r.checked_read::<i32>()),
        I32 => format!("{:?}", r.i32()),
        I64 => format!("{:?}", r.i64()),
        Usize => format!("{:?}", r.usize()),
        Bytes => format!("{:?}", r.bytes()),
        Chars => format!("{:?}", r.chars()),
        VecString(n) => format!("{:?}", r.vec::<String>(n)),
        VecI32(n) => format!("{:?}", r.vec::<i32>(n)),
    }
}
/// Runs one sequence. Ok(true) when every call answered, Ok(false) when the last one was rightly refused.
fn sequence(text: &String, toks: &[String], seq: &[Op]) -> Result<bool, String> {
    let mut r = In::new(text);
    let mut pos = 0;
    for (i, &op) in seq.iter().enumerate() {
        let want = model(op, toks, &mut pos);
        let got = guarded(|| real(op, &mut r));
        match (got, want) {
            (Ok(g), Ok(w)) => {
                if g != w {
                    return Err(format!("call {} ({op:?}) read {g}, expected {w}", i + 1));
                }
            }
            (Err(_), Err(())) => return Ok(false),
            (Ok(g), Err(())) => return Err(format!("call {} ({op:?}) read {g} instead of panicking", i + 1)),
            (Err(e), Ok(w)) => return Err(format!("call {} ({op:?}) panicked ({e}), expected {w}", i + 1)),
        }
    }
    Ok(true)
}
/// All sequences of up to `depth` calls, cut after the first refusal.
fn all_sequences(text: &String, toks: &[String], ops: &[Op], depth: usize, seq: &mut Vec<Op>, calls: &mut u64) -> Result<(), String> {
    for &op in ops {
        seq.push(op);
        *calls += 1;
        let answered = sequence(text, toks, seq).map_err(|e| format!("{seq:?}: {e}"))?;
        if answered && seq.len() < depth {
            all_sequences(text, toks, ops, depth, seq, calls)?;
        }
        seq.pop();
    }
    Ok(())
}
fn text_case(cx: &mut Cx, text: String, ops: &[Op], depth: usize) {
    let toks = tokens(&text);
    let r = cx.run(
        || format!("text {text:?}, every sequence of up to {depth} calls of {} kinds", ops.len()),
        || {
            let mut calls = 0;
            all_sequences(&text, &toks, ops, depth, &mut vec![], &mut calls)?;
            Ok(calls)
        },
    );
    if let Some(n) = r {
        cx.calls(n);
        cx.states(1);
        cx.outcome(n.wrapping_mul(31) + toks.len() as u64);
    }
}
fn text_of(alphabet: &[char], w: &[usize]) -> String {
    w.iter().map(|&i| alphabet[i]).collect()
}

/// Every white-space character of Unicode, then characters that only look like one.
const SPACES: [char; 25] = [
    '\t', '\n', '\u{b}', '\u{c}', '\r', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];
const NOT_SPACES: [char; 15] = ['\0', '\u{8}', '\u{e}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{180e}', '\u{200b}', '\u{200c}', '\u{2060}', '\u{feff}', ',', '_', '\u{84}', '\u{e9}'];

fn conversions<T: FromStr + Debug + PartialEq>(ty: &str, texts: &[String]) -> Result<u64, String> {
    let mut n = 0;
    for t in texts {
        let want = t.parse::<T>().ok();
        let text = format!(" {t}\n7 ");
        let got = guarded(|| In::new(&text).read::<T>()).ok();
        if format!("{got:?}") != format!("{want:?}") {
            return Err(format!("read::<{ty}> of {t:?}: got {got:?}, expected {want:?}"));
        }
        let got = guarded(|| In::new(&text).checked_read::<T>()).ok();
        if format!("{got:?}") != format!("{:?}", want.map(Some)) {
            return Err(format!("checked_read::<{ty}> of {t:?}: got {got:?}"));
        }
        let want = t.parse::<T>().ok();
        let text2 = format!("{t}\t{t}");
        let got = guarded(|| In::new(&text2).vec::<T>(2)).ok();
        let ok = match (&got, &want) {
            (Some(g), Some(w)) => g.len() == 2 && g.iter().all(|x| format!("{x:?}") == format!("{w:?}")),
            (None, None) => true,
            _ => false,
        };
        if !ok {
            return Err(format!("vec::<{ty}>(2) of {t:?} twice: got {got:?}"));
        }
        n += 3;
    }
    Ok(n)
}
fn number_texts() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for k in [7u32, 8, 15, 16, 31, 32, 53, 63, 64, 127] {
        for d in -2i128..=2 {
            let x = (1i128 << k.min(126)) * if k == 127 { 1 } else { 1 } + d;
            v.push(x.to_string());
            v.push((-x).to_string());
            v.push(format!("+{x}"));
        }
    }
    for s in [
        "0", "-0", "+0", "00", "007", "-007", "1_000", "1,000", "0x10", "1e3", "1.5", "-1.5", ".5", "5.", "1e400", "-", "+", "--1", "+-1", "1-", "1a", "a1", "inf", "-inf", "nan", "NaN", "true", "false", "True", "1", "é", "ééé", "日本", "😀", "'a'", "\"a\"", "٣", "１", "128", "255", "256", "65536", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    ] {
        v.push(s.into());
    }
    v
}
fn all_conversions(texts: &[String]) -> Result<u64, String> {
    let mut n = 0;
    macro_rules! go { ($($t:ty),*) => { $(n += conversions::<$t>(stringify!($t), texts)?;)* } }
    go!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool, char, String);
    // the shorthands
    for t in texts {
        let text = format!("\n {t}");
        macro_rules! short { ($m:ident, $t:ty) => {{
            let got = guarded(|| In::new(&text).$m()).ok();
            if got != t.parse::<$t>().ok() {
                return Err(format!("{}() of {t:?}: got {got:?}", stringify!($m)));
            }
            n += 1;
        }} }
        short!(i32, i32);
        short!(i64, i64);
        short!(usize, usize);
        same(|| format!("bytes() of {t:?}"), In::new(&text).bytes(), t.as_bytes().to_vec())?;
        same(|| format!("chars() of {t:?}"), In::new(&text).chars(), t.chars().collect())?;
        n += 2;
    }
    Ok(n)
}

fn main() {
    mc::main("C25", false, |thorough| {
        let mut v = vec![];
        let (len, depth) = if thorough { (5, 4) } else { (4, 3) };
        const MIX: [char; 7] = ['1', '-', 'a', ' ', '\n', '\t', 'é'];
        v.push(space("mixed texts", &format!("every text of up to {len} characters of {{1 - a space newline tab é}}, every sequence of up to {depth} calls of 16 kinds, cut after the first refusal"), 50, move |c, cx| {
            // first two characters, or shorter
            if c == 49 {
                for l in 0..2 {
                    for w in words(7, l) {
                        text_case(cx, text_of(&MIX, &w), &OPS, depth);
                    }
                }
                return;
            }
            for l in 2..=len {
                for w in words(7, l - 2) {
                    let mut t = vec![c / 7, c % 7];
                    t.extend(w);
                    text_case(cx, text_of(&MIX, &t), &OPS, depth);
                }
            }
        }));
        let (len, depth) = if thorough { (10, 4) } else { (8, 4) };
        v.push(space("longer texts", &format!("every text of up to {len} characters of {{2 space newline}}, every sequence of up to {depth} calls of 7 kinds"), 27, move |c, cx| {
            let ops = [ReadString, CheckedI32, I32, Chars, VecI32(0), VecString(2), VecI32(3)];
            let al = ['2', ' ', '\n'];
            if c == 0 {
                for l in 0..3 {
                    for w in words(3, l) {
                        text_case(cx, text_of(&al, &w), &ops, depth);
                    }
                }
            }
            for l in 3..=len {
                for w in words(3, l - 3) {
                    let mut t = vec![c / 9, c / 3 % 3, c % 3];
                    t.extend(w);
                    text_case(cx, text_of(&al, &t), &ops, depth);
                }
            }
        }));
        v.push(space("separators", "every white-space character of Unicode and 15 look-alikes: alone, around and between tokens, all ordered pairs of them", 40, |c, cx| {
            let all: Vec<char> = SPACES.iter().chain(&NOT_SPACES).copied().collect();
            let s = all[c];
            let ops = [ReadString, CheckedString, CheckedI32, Chars, Bytes, VecString(2)];
            for &t in &all {
                for text in [format!("{s}{t}"), format!("7{s}{t}8"), format!("{s}7{t}8"), format!("7{s}8{t}"), format!("{s}7{t}"), format!("x{s}y{t}z")] {
                    text_case(cx, text, &ops, 3);
                }
            }
        }));
        v.push(space("conversions", "17 types and the shorthands: values at and around the ends of every integer type, signs, leading zeros, floats, malformed numbers, multi-byte characters; texts of up to 3 characters of {0 1 9 - + . e é}", 10, |c, cx| {
            let texts: Vec<String> = if c < 2 {
                number_texts().into_iter().skip(c).step_by(2).collect()
            } else {
                let al = ['0', '1', '9', '-', '+', '.', 'e', 'é'];
                (1..=3).flat_map(|l| words(8, l)).filter(|w| w[0] == c - 2).map(|w| text_of(&al, &w)).collect()
            };
            let r = cx.run(|| format!("conversions of {} texts, first {:?}", texts.len(), texts[0]), || all_conversions(&texts));
            if let Some(n) = r {
                cx.calls(n);
                cx.states(texts.len() as u64);
                cx.outcome(c as u64);
            }
        }));
        let k = if thorough { 3 } else { 2 };
        v.push(space("long inputs", &format!("texts of 0 to 40, 1000 and 5000 numbers over 6 layouts, read by repeating every pattern of up to {k} calls, to the end and one call beyond"), 6 * 12, move |c, cx| {
            let (layout, first) = (c / 12, c % 12);
            let ops = [ReadString, ReadI64, CheckedString, CheckedI32, I32, I64, Usize, Bytes, Chars, VecI32(1), VecI32(3), VecString(7)];
            let mut pats: Vec<Vec<Op>> = vec![vec![ops[first]]];
            for l in 1..k {
                for w in words(12, l) {
                    pats.push(std::iter::once(ops[first]).chain(w.into_iter().map(|i| ops[i])).collect());
                }
            }
            let lens: Vec<usize> = (0..=40).chain([1000, 5000]).collect();
            for n in lens {
                let mut text = String::new();
                for i in 0..n {
                    let x = i * 7919 % 100_003;
                    match layout {
                        0 => text += &format!("{x} "),
                        1 => text += &format!("{x}\n"),
                        2 => text += &format!("\r\n{x}"),
                        3 => text += &format!("{x}{}", if i % 10 == 9 { " \n" } else { " " }),
                        4 => text += &format!("{x}{}", if i + 1 == n { "" } else { "   \t" }),
                        _ => text += &format!("\u{3000}{x}\n\n"),
                    }
                }
                let toks = tokens(&text);
                assert_eq!(toks.len(), n);
                for p in pats.iter().filter(|p| n <= 40 || p.len() < 3) {
                    let seq: Vec<Op> = (0..n + 1).map(|i| p[i % p.len()]).collect();
                    let r = cx.run(|| format!("{n} numbers in layout {layout}, calls {p:?} repeated"), || sequence(&text, &toks, &seq));
                    cx.calls(n as u64 + 1);
                    cx.states(1);
                    cx.outcome(r.map_or(2, |x| x as u64) * 10_000 + n as u64);
                }
            }
        }));
        v.push(space("very long", "65535 to 131073 tokens, one token of 65535 to 200000 characters, as many spaces or line ends in a row; read singly, as one vector and by repeated pairs of calls", 6 * 5, move |c, cx| {
            let (n, k) = ([65_535usize, 65_536, 65_537, 131_073, 70_000, 200_000][c / 5], c % 5);
            let text: String = match k {
                0 => (0..n).map(|i| format!("{}{}", i % 1000, if i % 100 == 99 { '\n' } else { ' ' })).collect(),
                1 => format!("7 {} 8\n9", "x".repeat(n)),
                2 => format!("7{}8{}", " ".repeat(n), " ".repeat(n)),
                3 => format!("{}7{}8{}", "\n".repeat(n), "\n".repeat(n), "\n".repeat(n)),
                _ => format!("{} 12 -3", "é".repeat(n)),
            };
            let toks = tokens(&text);
            let calls = toks.len() + 1;
            for pat in [vec![CheckedString], vec![ReadString, CheckedString], vec![Chars, CheckedString], vec![VecString(toks.len()), CheckedString], vec![VecString(toks.len() - 1), CheckedString], vec![VecString(toks.len() + 1)]] {
                let seq: Vec<Op> = if pat.len() == 2 && matches!(pat[0], VecString(_)) { vec![pat[0].clone(), pat[1].clone(), pat[1].clone()] } else { (0..calls).map(|i| pat[i % pat.len()].clone()).collect() };
                let seq = if pat.len() == 1 && matches!(pat[0], VecString(_)) { pat.clone() } else { seq };
                let r = cx.run(|| format!("{n}, layout {k}, calls {pat:?} repeated"), || sequence(&text, &toks, &seq));
                cx.calls(seq.len() as u64);
                cx.states(1);
                cx.outcome(r.map_or(2, |x| x as u64) * 10 + k as u64);
            }
        }));
        v.push(space("two readers", "two readers over one text and over two texts, all interleavings of up to 4 + 4 calls", 1, |_, cx| {
            let texts = ["1 22\n-3 \t4".to_string(), "é b 77".to_string()];
            for (a, b) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                for mask in 0..256u32 {
                    let r = cx.run(
                        || format!("readers over texts {a} and {b}, schedule {mask:08b}"),
                        || {
                            let (ta, tb) = (tokens(&texts[a]), tokens(&texts[b]));
                            let (mut ra, mut rb) = (In::new(&texts[a]), In::new(&texts[b]));
                            let (mut pa, mut pb) = (0, 0);
                            for i in 0..8 {
                                let op = if i % 2 == 0 { CheckedString } else { VecString(0) };
                                let (r, t, p) = if mask >> i & 1 == 0 { (&mut ra, &ta, &mut pa) } else { (&mut rb, &tb, &mut pb) };
                                let want = model(op, t, p).unwrap();
                                same(|| format!("call {}", i + 1), real(op, r), want)?;
                            }
                            Ok(())
                        },
                    );
                    if r.is_some() {
                        cx.calls(8);
                        cx.states(1);
                    }
                }
            }
        }));
        v.push(space("millions", "1100000 tokens (thorough: also 17000000) read into one vector whole, all but one, one too many; then the rest", 3, move |c, cx| {
            let lens: &[usize] = if cx.thorough { &[1_100_000, 17_000_000] } else { &[1_100_000] };
            for &n in lens {
                let text: String = (0..n).map(|i| format!("{}{}", i % 10, if i % 100 == 99 { '\n' } else { ' ' })).collect();
                let ask = [n, n - 1, n + 1][c];
                let r = cx.run(|| format!("{n} tokens, a vector of {ask}"), || {
                    let mut i = In::new(&text);
                    if ask > n {
                        return refuses("more values than tokens", || i.vec::<u8>(ask)).map(|_| 1);
                    }
                    let got: Vec<u8> = i.vec(ask);
                    same(|| "length".into(), got.len(), ask)?;
                    if let Some(j) = (0..ask).find(|&j| got[j] != (j % 10) as u8) {
                        return Err(format!("value {j} is {}", got[j]));
                    }
                    if ask < n {
                        same(|| "the last token".into(), i.checked_read::<u8>(), Some(((n - 1) % 10) as u8))?;
                    }
                    same(|| "at the end".into(), i.checked_read::<u8>(), None)?;
                    Ok(3)
                });
                if let Some(k) = r {
                    cx.calls(k);
                    cx.states(1);
                    cx.outcome(c as u64);
                }
            }
        }));
        v
    });
}
