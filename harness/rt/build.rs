use std::fmt::Write;

fn carriers(size: usize) -> Vec<usize> {
    [8usize, 16, 32, 64].into_iter().filter(|v| *v >= size).collect()
}

/// C02: one harness per (bit order, width), instantiating every offset and carrier type.
fn main() {
    println!("cargo::rerun-if-changed=build.rs");
    let thorough = std::env::var_os("CARGO_FEATURE_THOROUGH").is_some();
    let mut out = String::from("harnesses! {\n");
    for (e, codec) in [("le", "BitCodecLE"), ("be", "BitCodecBE")] {
        for first in (1..64usize).step_by(4) {
            for part in ["r", "w"] {
                writeln!(out, "#[unwind(18)]\nfn bits_{e}_{part}_{first}() {{").unwrap();
                for size in first..(first + 4).min(64) { for off in 0..8usize {
                    let span = (off + size).div_ceil(8);
                    if span > 8 { continue; }
                    // Quick: every other position, except at the edges of the carriers.
                    if !thorough && off != 0 && !matches!(size % 8, 0 | 1 | 7) && (off + size + (e == "be") as usize) % 2 == 0 { continue; }
                    let all = carriers(size);
                    // The other carriers and regions share the code paths: an eighth of them in the quick tier.
                    let extra = thorough || (off + size) % 8 == 0;
                    for (i, t) in all.iter().enumerate() {
                        // The natural carrier, and the widest one.
                        if i != 0 && (*t != 64 || !extra) { continue; }
                        writeln!(out, "    {part}_{e}::<{codec}, u{t}, {off}, {size}, {span}>();").unwrap();
                        if extra && span < *t / 8 {
                            writeln!(out, "    {part}_{e}::<{codec}, u{t}, {off}, {size}, {}>();", *t / 8).unwrap();
                        }
                    }
                } }
                writeln!(out, "    witness!(true);\n}}").unwrap();
            }
        }
    }
    out += "}\n";
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{dir}/c02_gen.rs"), out).unwrap();
}
