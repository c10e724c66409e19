//! C13 prefix function against its definition.
use mc::strs::*;
use rust_cp::string::kmp::kmp;
fn main() {
    let a = Algo { name: "kmp", u8: |s| kmp(s), ch: |s| kmp(s), i64: |s| kmp(s), st: |s| kmp(s), f64: |s| kmp(s), unit: |s| kmp(s), cls: |s| kmp(s), want: borders };
    mc::main("C13", false, |thorough| spaces(a, thorough));
}
