//! Structure matrix: every bit offset and width in both byte orders.
use crate::Ctx;
use std::fmt::Write;

pub const ENDIAN: [(&str, &str); 2] = [("le", "little"), ("be", "big")];

pub fn carrier(w: usize) -> usize {
    match w { 0..=8 => 8, 9..=16 => 16, 17..=32 => 32, _ => 64 }
}

/// A structure under construction.
pub struct S {
    pub name: String,
    pub fields: String,
    pub pos: usize,
    pads: usize
}

impl S {
    pub fn new(name: impl Into<String>) -> S { S { name: name.into(), fields: String::new(), pos: 0, pads: 0 } }

    pub fn field(&mut self, name: &str, ty: &str, bits: usize, extra: &str) -> usize {
        let pos = self.pos;
        writeln!(self.fields, "{{ name: \"{name}\", info: {{ type: \"{ty}\", bits: {bits} }} {extra} }},").unwrap();
        self.pos += bits;
        pos
    }

    /// Pads up to the given bit offset in a byte.
    pub fn align(&mut self, offset: usize) {
        let n = (offset + 8 - self.pos % 8) % 8;
        if n > 0 {
            let name = format!("pad{}", self.pads);
            self.pads += 1;
            self.field(&name, "unsigned", n, "");
        }
    }

    pub fn bytes(&self) -> usize { self.pos.div_ceil(8) }

    pub fn text(&self) -> String { format!("{{ name: \"{}\", fields: [\n{}] }},\n", self.name, self.fields) }
}

pub fn protocol(name: &str, endian: &str, structs: &str, rest: &str) -> String {
    format!("{{ name: \"{name}\", endianness: \"{endian}\", {rest} structs: [\n{structs}] }}")
}

/// C05: unsigned fields at every offset and width, packed in one structure per width.
pub fn unsigned(ctx: &Ctx) {
    let mut code = String::from("harnesses! {\n");
    for (e, endian) in ENDIAN {
        let mut structs = String::new();
        for part in 0..2usize {
            for w in 1..=64usize {
                let mut s = S::new(format!("W{w}_{part}"));
                let mut fields = Vec::new();
                for o in part * 4..part * 4 + 4 {
                    if (o + w).div_ceil(8) > 8 { continue; }
                    s.align(o);
                    let pos = s.field(&format!("f{o}"), "unsigned", w, "");
                    fields.push((o, pos));
                }
                s.field("last", "unsigned", 5, "");
                structs += &s.text();
                let n = s.bytes();
                let t = carrier(w);
                if w % 4 == 1 {
                    writeln!(code, "#[unwind(48)]\nfn c05_{e}_{w}_{part}() {{ use crate::s_{e}::*;").unwrap();
                }
                for (o, pos) in fields {
                    // Quick: every other position, except at the edges of the carriers.
                    if !ctx.thorough && o != 0 && !matches!(w % 8, 0 | 1 | 7) && (o + w + e.len() + (e == "be") as usize) % 2 == 0 { continue; }
                    writeln!(code, "    field_check!({e}, W{w}_{part}, {n}, {pos}, {w}, u{t}, get_raw_f{o}, set_raw_f{o}, get_f{o}, set_f{o});").unwrap();
                }
                if w % 4 == 0 { writeln!(code, "    witness!(true);\n}}").unwrap(); }
            }
        }
        let p = ctx.save(&format!("s_{e}.json5"), &protocol(&format!("s_{e}"), endian, &structs, ""));
        ctx.protoc("structures of unsigned fields of 1 to 64 bits at every bit offset, spanning at most 8 bytes", &[], &[p]);
    }
    code += "}\n";
    ctx.save("c05_gen.rs", &code);
}

/// The enums of C06: names, declared values (in declaration order, deliberately unsorted).
pub const ENUMS: [(&str, &[(&str, u64)]); 5] = [
    ("Tiny", &[("On", 1), ("Off", 0)]),
    ("Holes", &[("E", 12), ("A", 0), ("C", 5), ("B", 1), ("D", 7)]),
    ("NoZero", &[("P", 3), ("Q", 200)]),
    ("Wide", &[("Max16", 65535), ("Low", 2), ("Mid", 256)]),
    ("Huge", &[("Big", 4294967296), ("Small", 9), ("Bigger", 1099511627775)])
];

pub fn enums_text() -> String {
    let mut t = String::from("enums: [\n");
    for (name, variants) in ENUMS {
        let v: Vec<String> = variants.iter().map(|(k, v)| format!("{k}: {v}")).collect();
        writeln!(t, "{{ name: \"{name}\", variants: {{ {} }} }},", v.join(", ")).unwrap();
    }
    t + "],"
}

/// C06: signed, boolean, enum and plain float fields.
pub fn views(ctx: &Ctx) {
    let mut code = String::from("harnesses! {\n");
    for (e, endian) in ENDIAN {
        let mut structs = String::new();
        for w in 1..=64usize {
            let mut s = S::new(format!("G{w}"));
            let mut fields = Vec::new();
            for o in if ctx.thorough { (0..8).collect() } else if (w % 2 == 0) == (e == "be") { vec![0, 3] } else { vec![0, 6] } {
                if (o + w).div_ceil(8) > 8 { continue; }
                s.align(o);
                let pos = s.field(&format!("f{o}"), "signed", w, "");
                fields.push((o, pos));
            }
            s.field("last", "unsigned", 3, "");
            structs += &s.text();
            let n = s.bytes();
            let t = carrier(w);
            if w % 4 == 1 { writeln!(code, "#[unwind(90)]\nfn c06_signed_{e}_{w}() {{ use crate::v_{e}::*;").unwrap(); }
            for (o, pos) in fields {
                writeln!(code, "    signed_check!({e}, G{w}, {n}, {pos}, {w}, i{t}, get_f{o}, set_f{o});").unwrap();
            }
            if w % 4 == 0 { writeln!(code, "    witness!(true);\n}}").unwrap(); }
        }
        writeln!(code, "#[unwind(90)]\nfn c06_bool_{e}() {{ use crate::v_{e}::*;").unwrap();
        for (i, (o, w)) in [(0, 1), (1, 1), (7, 1), (0, 2), (5, 3), (6, 3), (0, 8), (4, 8), (0, 9), (0, 16), (3, 16), (0, 17), (0, 32), (0, 33), (0, 40), (0, 64)].iter().enumerate() {
            let mut s = S::new(format!("B{i}"));
            s.field("first", "unsigned", 8, "");
            s.align(*o);
            let pos = s.field("f", "boolean", *w, "");
            s.field("last", "unsigned", 5, "");
            structs += &s.text();
            writeln!(code, "    bool_check!({e}, B{i}, {}, {pos}, {w}, get_f, set_f);", s.bytes()).unwrap();
        }
        writeln!(code, "    witness!(true);\n}}\n#[unwind(90)]\nfn c06_float_{e}() {{ use crate::v_{e}::*;").unwrap();
        for (i, (o, w)) in [(0, 32), (3, 32), (7, 32), (0, 64)].iter().enumerate() {
            let mut s = S::new(format!("F{i}"));
            s.field("first", "unsigned", 8, "");
            s.align(*o);
            let pos = s.field("f", "float", *w, "");
            s.field("last", "unsigned", 5, "");
            structs += &s.text();
            writeln!(code, "    float_check!({e}, F{i}, {}, {pos}, {w}, f{w}, get_f, set_f);", s.bytes()).unwrap();
        }
        writeln!(code, "    witness!(true);\n}}").unwrap();
        let mut i = 0;
        for (k, (name, variants)) in ENUMS.iter().enumerate() {
            let largest = variants.iter().map(|v| v.1).max().unwrap();
            let min = 64 - largest.leading_zeros() as usize;
            writeln!(code, "#[unwind(90)]\nfn c06_enum_{e}_{k}() {{ use crate::v_{e}::*;").unwrap();
            let mut widths = vec![min, min + 1, 8, 12, 16, 24, 31, 40, 63, 64];
            widths.sort();
            widths.dedup();
            for w in widths {
                if w < min { continue; }
                for o in [0usize, 5] {
                    if !ctx.thorough && o != 0 && !matches!(w, 12 | 31 | 40) && w != min { continue; }
                    if (o + w).div_ceil(8) > 8 { continue; }
                    let mut s = S::new(format!("E{i}"));
                    s.field("first", "unsigned", 8, "");
                    s.align(o);
                    let pos = s.field("f", "unsigned", w, &format!(", view: {{ type: \"enum\", name: \"{name}\" }}"));
                    s.field("last", "unsigned", 5, "");
                    structs += &s.text();
                    let vs: Vec<String> = variants.iter().map(|(n, v)| format!("{n} {v}")).collect();
                    writeln!(code, "    enum_check!({e}, E{i}, {}, {pos}, {w}, {name}, [{}]);", s.bytes(), vs.join(", ")).unwrap();
                    i += 1;
                }
            }
            writeln!(code, "    witness!(true);\n}}").unwrap();
        }
        let p = ctx.save(&format!("v_{e}.json5"), &protocol(&format!("v_{e}"), endian, &structs, &enums_text()));
        ctx.protoc("structures of signed, boolean, float and enum fields", &[], &[p]);
    }
    code += "}\n";
    ctx.save("c06_gen.rs", &code);
}

/// C03: arrays, after a field of another size and before a last one.
pub fn arrays(ctx: &Ctx) {
    let mut code = String::from("harnesses! {\n");
    for (e, endian) in ENDIAN {
        let mut structs = String::new();
        let mut i = 0;
        for (ty, prefix, widths) in [("unsigned", "u", &[8usize, 16, 24, 32, 40, 48, 56, 64][..]), ("signed", "i", &[8, 16, 32, 64]), ("float", "f", &[32, 64])] {
            for w in widths {
                let len = if *w > 32 { 2 } else { 3 };
                let mut s = S::new(format!("A{i}"));
                s.field("first", "unsigned", if i % 2 == 0 { 8 } else { 16 }, "");
                let pos = s.field("f", ty, *w, &format!(", array_len: {len}"));
                s.pos += (len - 1) * w;
                s.field("last", "unsigned", 5, "");
                structs += &s.text();
                let t = carrier(*w);
                writeln!(code, "#[unwind(40)]\nfn c03_gen_{e}_{ty}_{w}() {{ use crate::a_{e}::*;\n    array_check!({e}, A{i}, {}, {pos}, {w}, {len}, {prefix}{t});\n    witness!(true);\n}}", s.bytes()).unwrap();
                i += 1;
            }
        }
        for w in [24usize, 40] {
            let mut s = S::new(format!("N{w}"));
            let pos = s.field("f", "signed", w, ", array_len: 2");
            s.pos += w;
            structs += &s.text();
            writeln!(code, "#[unwind(40)]\nfn kf_c03_signed_{e}_{w}() {{ use crate::a_{e}::*;\n    signed_array_check!({e}, N{w}, {}, {pos}, {w}, i{});\n}}", s.bytes(), carrier(w)).unwrap();
        }
        let p = ctx.save(&format!("a_{e}.json5"), &protocol(&format!("a_{e}"), endian, &structs, ""));
        ctx.protoc("structures with arrays", &[], &[p]);
    }
    code += "}\n";
    ctx.save("c03_gen.rs", &code);
}

/// (offset, width, minimum, maximum) of ranges, (offset, width, multiplier).
const RANGES: [(usize, usize, &str, &str); 11] = [
    (0, 8, "0.0", "1.0"), (3, 5, "-1.0", "1.0"), (4, 12, "-180.0", "180.0"), (0, 16, "-100.0", "50.0"), (7, 1, "-2.5", "10.0"), (6, 2, "5.0", "11.0"),
    (0, 9, "1000.0", "2000.0"), (0, 10, "-3.0", "-1.0"), (2, 20, "-1000.0", "1000.0"), (0, 24, "0.0", "16.0"), (0, 40, "0.0", "1000000.0")
];
const STEPS: [(usize, usize, &str); 6] = [(0, 8, "0.5"), (4, 12, "0.1"), (3, 5, "25.0"), (0, 16, "0.01"), (5, 17, "0.001"), (0, 24, "3.0")];

/// More than a minute of solving for every value of the field.
const SLOW: [(&str, usize); 2] = [("r", 3), ("m", 4)];

/// C07: float fields with a range or a multiplier.
pub fn scaled(ctx: &Ctx) {
    let mut code = String::from("harnesses! {\n");
    for (e, endian) in ENDIAN {
        let mut structs = String::new();
        let mut one = |kind: &str, i: usize, o: usize, w: usize, view: String, args: String| {
            let mut s = S::new(format!("{}{i}", kind.to_uppercase()));
            s.field("first", "unsigned", 8, "");
            s.align(o);
            let pos = s.field("f", "float", w, &format!(", view: {view}"));
            s.field("last", "unsigned", 5, "");
            structs += &s.text();
            // A float of 24 bits of precision up to 16 bits, of 53 above.
            let t = if w <= 16 { 32 } else { 64 };
            for what in ["get", "set", "trip"] {
                // Quick: what the solver decides within a minute.
                let quick = match what {
                    "set" => true,
                    "get" => if e == "le" { w <= 17 && !SLOW.contains(&(kind, i)) } else { w <= 9 },
                    _ => e == "le" && w <= 12
                };
                if !ctx.thorough && !quick { continue; }
                writeln!(code, "#[unwind(20)]\nfn c07_{what}_{e}_{kind}{i}() {{ use crate::f_{e}::*; scaled_{what}!({e}, {}, {}, {pos}, {w}, f{t}, {args}); }}", s.name, s.bytes()).unwrap();
            }
        };
        for (i, (o, w, min, max)) in RANGES.iter().enumerate() {
            one("r", i, *o, *w, format!("{{ type: \"float-range\", min: {min}, max: {max} }}"), format!("{min}, {max}"));
        }
        for (i, (o, w, m)) in STEPS.iter().enumerate() {
            one("m", i, *o, *w, format!("{{ type: \"float-multiplier\", multiplier: {m} }}"), format!("0.0, {m} * ((1u64 << {w}) - 1) as f64"));
        }
        let p = ctx.save(&format!("f_{e}.json5"), &protocol(&format!("f_{e}"), endian, &structs, ""));
        ctx.protoc("structures of scaled floats", &[], &[p]);
    }
    code += "}\n";
    ctx.save("c07_gen.rs", &code);
}
