//! C24 integer logarithms.
use mc::*;
use rust_cp::misc::util::{ceil_lg, lg};

fn check_lg(lo: u64, hi: u64) -> Result<u64, String> {
    // [lo, hi] lies within [2^k, 2^(k+1))
    let k = (0..64).filter(|&k| 1u64 << k <= lo).max().unwrap();
    for x in lo..=hi {
        let g = lg(x as usize);
        if g != k {
            return Err(format!("lg({x}) = {g}, expected {k}"));
        }
    }
    Ok(hi - lo + 1)
}
fn check_ceil(lo: u32, hi: u32) -> Result<u64, String> {
    let mut k = (0..=32).find(|&k| 1u64 << k >= lo as u64).unwrap();
    for x in lo..=hi {
        while 1u64 << k < x as u64 {
            k += 1;
        }
        let g = ceil_lg(x);
        if g != k {
            return Err(format!("ceil_lg({x}) = {g}, expected {k}"));
        }
    }
    Ok((hi - lo) as u64 + 1)
}
fn main() {
    mc::main("C24", false, |thorough| {
        let mut v = vec![];
        let done = |cx: &mut Cx, r: Option<u64>| {
            if let Some(n) = r {
                cx.calls(n);
                cx.states(n);
            }
        };
        v.push(space("around powers of two", "floor form: 64-bit values within 4096 of every power of two, every value with at most three bits set or clear", 64, move |c, cx| {
            let k = c as u32;
            let p = 1u64 << k;
            let r = cx.run(|| format!("lg from 2^{k} - 4096 to 2^{k} + 4096"), || {
                let mut n = check_lg(p, (p.saturating_add(4096)).min(p - 1 + p))?;
                if k > 0 {
                    n += check_lg((p - 1).saturating_sub(4096).max(p / 2), p - 1)?;
                }
                Ok(n)
            });
            done(cx, r);
            let r = cx.run(|| format!("lg of values with top bit {k} and at most two more bits set, and all ones but at most two"), || {
                let mut n = 0;
                for i in 0..k {
                    for j in 0..=i {
                        for x in [p | 1 << i | 1 << j, (p - 1 + p) & !(1 << i | 1 << j)] {
                            n += check_lg(x, x)?;
                        }
                    }
                }
                Ok(n)
            });
            done(cx, r);
            cx.outcome(c as u64);
        }));
        v.push(space("ceiling form, every argument", "all 2^32 arguments", 1024, move |c, cx| {
            let lo = (c as u32) << 22;
            let r = cx.run(|| format!("ceil_lg from {lo}"), || check_ceil(lo, lo + ((1 << 22) - 1)));
            done(cx, r);
            cx.outcome(c as u64);
        }));
        v.push(space("floor form, small arguments", &format!("every argument from 1 to 2^{}", if thorough { 36 } else { 32 }), if thorough { 16384 } else { 1024 }, move |c, cx| {
            let lo = (c as u64) << 22;
            let r = cx.run(|| format!("lg from {lo}"), || {
                if c == 0 {
                    (0..22).map(|k| check_lg(1 << k, (2 << k) - 1)).sum()
                } else {
                    check_lg(lo, lo + ((1 << 22) - 1))
                }
            });
            done(cx, r);
            cx.outcome(c as u64);
        }));
        v
    });
}
