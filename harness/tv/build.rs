//! Runs the real compiler of /repo on the schema corpus, and writes the harnesses of the structure
//! matrix with their oracles. The oracles are computed here, from the schema alone.
use bp3d_protoc::generate_rust;
use std::fmt::Write;
use std::path::PathBuf;

#[path = "build/matrix.rs"]
mod matrix;

pub struct Ctx {
    pub out: PathBuf,
    pub thorough: bool
}

impl Ctx {
    pub fn feature(&self, name: &str) -> bool {
        std::env::var_os(format!("CARGO_FEATURE_{}", name.to_ascii_uppercase())).is_some()
    }

    pub fn any(&self, names: &[&str]) -> bool { names.iter().any(|v| self.feature(v)) }

    pub fn save(&self, name: &str, data: &str) -> PathBuf {
        let p = self.out.join(name);
        std::fs::write(&p, data).unwrap();
        p
    }

    /// Compiles protocols: (imported ones, compiled ones).
    pub fn protoc(&self, what: &str, imports: &[(PathBuf, &str)], loads: &[PathBuf]) {
        for l in loads {
            // Protocols are written once per build.
            let name = l.file_stem().unwrap().to_str().unwrap();
            let _ = std::fs::remove_dir_all(self.out.join(name));
        }
        let r = std::panic::catch_unwind(|| {
            generate_rust(|loader| {
                for (p, path) in imports { loader.import(p, *path)?; }
                for p in loads { loader.load(p)?; }
                Ok(())
            }, |protoc| protoc.set_reads_messages(true).set_writes_messages(true));
        });
        if r.is_err() {
            println!("cargo::error=SCHEMA-VIOLATION: the compiler does not accept a valid schema: {}", what);
            eprintln!("SCHEMA-VIOLATION: the compiler does not accept a valid schema: {}", what);
            std::process::exit(1);
        }
    }
}

/// The corpus of messages: harness suffix, model, number of shapes (quick, thorough).
const CASES: [(&str, &str, usize, usize); 15] = [
    ("sub", "MSub", 2, 3),
    ("scalars", "MScalars", 1, 1),
    ("structs", "MStructs", 1, 1),
    ("strs", "MStrs", 4, 12),
    ("nuls", "MNuls", 4, 9),
    ("longs", "MLongs", 4, 9),
    ("opts", "MOpts", 4, 24),
    ("nest", "MNest", 2, 9),
    ("arrs", "MArrs", 3, 9),
    ("trail", "MTrail", 3, 27),
    ("emb", "MEmb", 3, 27),
    ("table", "MTable", 6, 48),
    ("uni", "MUni", 3, 9),
    ("unis", "MUnis", 9, 54),
    ("pay", "MPay", 4, 12),
];

fn all(_: &str) -> bool { true }
fn long(name: &str) -> bool { name == "scalars" }
fn lists(name: &str) -> bool { matches!(name, "trail" | "emb" | "table") }
fn short(name: &str) -> bool { !long(name) && !lists(name) }

/// One harness per function, byte order and message: (suffix, function, unwinding, messages, model of from_utf8,
/// lengths of the input if the function works on arbitrary bytes, rather than on the shapes of the message).
/// Messages which hold items of other messages or structures.
fn held(name: &str) -> bool { matches!(name, "opts" | "arrs" | "trail" | "emb") }

fn cases(ctx: &Ctx, id: &str, functions: &[(&str, &str, usize, fn(&str) -> bool, &str, &[usize])]) {
    let mut code = String::from("harnesses! {\n");
    for (e, _) in matrix::ENDIAN {
        for (suffix, f, unwind, on, utf8, lengths) in functions {
            for (name, model, quick, thorough) in CASES {
                // Quick: the largest messages in one byte order only, where the other is left to the other checks.
                if !ctx.thorough && e == "be" && matches!(name, "table" | "unis") && matches!(id, "c11" | "c12" | "c08") { continue; }
                if on(name) {
                    let n = if lengths.len() > 0 { lengths.len() } else if ctx.thorough { thorough } else { quick };
                    let arg = if lengths.len() > 0 { format!("&{lengths:?}") } else { String::new() };
                    writeln!(code, "#[unwind({unwind})]\n#[kani::stub(core::str::from_utf8, crate::sym::from_utf8_{utf8})]\nfn {id}{suffix}_{e}_{name}__{n}() {{ {f}::<{e}::{model}>({arg}) }}").unwrap();
                }
            }
        }
    }
    code += "}\n";
    ctx.save(&format!("{id}_gen.rs"), &code);
}

fn main() {
    println!("cargo::rerun-if-changed=build.rs");
    println!("cargo::rerun-if-changed=build");
    println!("cargo::rerun-if-changed=schemas");
    let ctx = Ctx {
        out: PathBuf::from(std::env::var("OUT_DIR").unwrap()),
        thorough: std::env::var_os("CARGO_FEATURE_THOROUGH").is_some()
    };
    if ctx.feature("c03") { matrix::arrays(&ctx); }
    if ctx.feature("c05") { matrix::unsigned(&ctx); }
    if ctx.feature("c07") { matrix::scaled(&ctx); }
    if ctx.feature("c06") { matrix::views(&ctx); }
    if ctx.any(&["c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16"]) {
        for (e, endian) in matrix::ENDIAN {
            let text = std::fs::read_to_string("schemas/m.json5").unwrap();
            let p = ctx.save(&format!("m_{e}.json5"), &text.replace("@NAME@", &format!("m_{e}")).replace("@ENDIAN@", endian));
            ctx.protoc("messages of every kind of field (schemas/m.json5)", &[], &[p.clone()]);
            let text = std::fs::read_to_string("schemas/u.json5").unwrap().replace("@IMPORT@", &format!("m_{e}"));
            let u = ctx.save(&format!("u_{e}.json5"), &text.replace("@NAME@", &format!("u_{e}")).replace("@ENDIAN@", endian));
            ctx.protoc("unions and messages with unions (schemas/u.json5)", &[(p, &format!("crate::m_{e}"))], &[u]);
        }
    }
    if ctx.feature("c20") {
        let mut code = String::from("harnesses! {\n");
        for ((e, endian), (_, other)) in matrix::ENDIAN.iter().zip(matrix::ENDIAN.iter().rev()) {
            let read = |n: &str| std::fs::read_to_string(format!("schemas/{n}.json5")).unwrap().replace("@IMPORT@", &format!("ib_{e}"));
            let b = ctx.save(&format!("ib_{e}.json5"), &read("ib").replace("@NAME@", &format!("ib_{e}")).replace("@ENDIAN@", endian));
            ctx.protoc("imported types (schemas/ib.json5)", &[], &[b.clone()]);
            let u = ctx.save(&format!("iu_{e}.json5"), &read("iu").replace("@NAME@", &format!("iu_{e}")).replace("@ENDIAN@", other));
            ctx.protoc("uses of imported types (schemas/iu.json5)", &[(b, &format!("crate::ib_{e}"))], &[u]);
            for (name, n) in [("mix", 1), ("notes", 4), ("bags", 4), ("unis", 2)] {
                writeln!(code, "#[unwind(14)]\n#[kani::stub(core::str::from_utf8, crate::sym::from_utf8_valid)]\nfn c20_{name}_{e}__{n}() {{ {e}::{name}() }}").unwrap();
            }
        }
        code += "}\n";
        ctx.save("c20_gen.rs", &code);
    }
    let (shorts, longs, listed): (Vec<usize>, Vec<usize>, Vec<usize>) = if ctx.thorough {
        ((0..15).collect(), (0..31).collect(), (0..11).collect())
    } else {
        (vec![0, 1, 2, 3, 5, 8, 13], vec![0, 1, 2, 3, 5, 8, 14, 16, 19, 26, 27, 28, 30], vec![0, 1, 3, 5, 7])
    };
    if ctx.feature("c08") { cases(&ctx, "c08", &[("", "plain", 14, short, "any", &shorts), ("", "plain", 32, long, "any", &longs), ("", "plain", 5, lists, "any", &listed)]); }
    let (both, listed) = if ctx.thorough { (shorts.clone(), listed) } else { (vec![1, 3, 6, 13], vec![0, 3, 7]) };
    if ctx.feature("c09") { cases(&ctx, "c09", &[("", "steps", 50, all, "valid", &[]), ("_again", "again", 50, held, "valid", &[]), ("_full", "full", 50, all, "model", &[])]); }
    if ctx.feature("c10") { cases(&ctx, "c10", &[("", "wire", 50, all, "valid", &[])]); }
    if ctx.feature("c11") { cases(&ctx, "c11", &[("_cut", "cut", 12, all, "valid", &[]), ("_more", "more", 12, all, "valid", &[])]); }
    if ctx.feature("c12") { cases(&ctx, "c12", &[("_enc", "encoded", 12, all, "valid", &[]), ("_any", "agree", 14, short, "model", &both), ("_any", "agree", 32, long, "model", &longs), ("_any", "agree", 5, lists, "model", &listed)]); }
    if ctx.feature("c14") { cases(&ctx, "c14", &[("_fail", "fails", 50, all, "valid", &[]), ("_short", "short", 50, all, "valid", &[])]); }
    if ctx.feature("c13") { cases(&ctx, "c13", &[("", "sizes", 50, all, "valid", &[])]); }
    if ctx.feature("c15") {
        let mut code = String::from("harnesses! {\n");
        for (e, _) in matrix::ENDIAN {
            for (name, cases) in [("value", 3), ("deep", 3), ("num", 3), ("wid", 3), ("sig", 3), ("lon", 3), ("bit", 1), ("full", 3), ("twin", 2)] {
                writeln!(code, "#[unwind(10)]\n#[kani::stub(core::str::from_utf8, crate::sym::from_utf8_model)]\nfn c15_decode_{e}_{name}__8() {{ {e}::{name}_decode() }}").unwrap();
                writeln!(code, "#[unwind(10)]\nfn c15_write_{e}_{name}__{cases}() {{ {e}::{name}_write() }}").unwrap();
            }
        }
        code += "}\n";
        ctx.save("c15_gen.rs", &code);
    }
}
