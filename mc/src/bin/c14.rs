//! C14 Z function against its definition.
use mc::strs::*;
use rust_cp::string::z_algorithm::z_function;
fn main() {
    let a = Algo {
        name: "z_function",
        u8: |s| z_function(s),
        ch: |s| z_function(s),
        i64: |s| z_function(s),
        st: |s| z_function(s),
        f64: |s| z_function(s),
        unit: |s| z_function(s),
        cls: |s| z_function(s),
        want: z_values,
    };
    mc::main("C14", false, |thorough| spaces(a, thorough));
}
