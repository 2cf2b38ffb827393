//! C04: the layout of structures.
use crate::sym::*;
use crate::schema::*;

#[derive(Copy, Clone)]
struct Decl { kind: u8, bits: usize, array: Option<usize>, scaled: bool }

fn any_decl(kind: u8) -> Decl {
    let n = any_usize();
    Decl { kind, bits: any_usize(), array: if any_bool() { Some(n) } else { None }, scaled: kind == 4 }
}

fn model_of(d: &Decl) -> StructField {
    let bits = d.bits;
    StructField {
        name: String::new(),
        info: match d.kind {
            0 => StructFieldType::Unsigned { bits },
            1 => StructFieldType::Signed { bits },
            2 => StructFieldType::Float { bits },
            3 => StructFieldType::Boolean { bits },
            _ => StructFieldType::Float { bits }
        },
        view: if d.scaled { Some(StructFieldView::FloatMultiplier { multiplier: 0.5 }) } else { None },
        array_len: d.array
    }
}

/// The position of the field and of the next one, if the field can be laid out.
struct Spec { ok: bool, start: usize, bits: usize, count: usize, end: usize }

fn spec(d: &Decl, start: usize) -> Spec {
    let w = d.bits;
    let n = match d.array { Some(n) => n, None => 1 };
    let mut ok = w >= 1 && w <= 64 && n >= 1;
    // An unscaled float has the two widths of the IEEE formats.
    if d.kind == 2 && !d.scaled && w != 32 && w != 64 { ok = false; }
    if n > 1 {
        if w % 8 != 0 || start % 8 != 0 { ok = false; }
    } else if ok && start % 8 + w > 64 {
        ok = false;
    }
    // No size may overflow.
    let bits = match w.checked_mul(n) { Some(v) => v, None => { ok = false; 0 } };
    let end = match start.checked_add(bits) { Some(v) => v, None => { ok = false; 0 } };
    Spec { ok, start, bits, count: n, end }
}

fn carrier(w: usize) -> usize { if w <= 8 { 1 } else if w <= 16 { 2 } else if w <= 32 { 4 } else { 8 } }

fn check(f: &Field, d: &Decl, p: &Spec) {
    let l = f.loc();
    assert!(l.bit_offset < 8 && l.byte_offset <= usize::MAX / 8 && l.byte_offset * 8 + l.bit_offset == p.start, "the field follows the previous one");
    assert!(l.bit_size == p.bits, "the field has the bits of its items");
    let first = p.start / 8;
    let last = p.end / 8 + if p.end % 8 != 0 { 1 } else { 0 };
    assert!(l.byte_offset == first && l.byte_size == last - first, "the window covers the bits, and no other byte");
    let w = d.bits;
    let ty = match f {
        Field::Fixed(v) => {
            assert!(p.count == 1, "an array of more than one item");
            v.ty
        },
        Field::Array(v) => {
            assert!(p.count > 1, "a single item is not an array");
            assert!(v.array_len == p.count, "length");
            v.ty
        },
        Field::Struct(_) => panic!("not a nested structure")
    };
    if d.kind == 3 {
        assert!(ty.get_byte_size() == 1, "carrier of a boolean");
    } else if d.kind < 2 {
        assert!(ty.get_byte_size() == carrier(w), "smallest carrier");
    } else if w == 32 || w == 64 {
        assert!(ty.get_byte_size() * 8 == w, "carrier of a float");
    }
}

fn fields(kinds: &[u8]) {
    let mut decls = [Decl { kind: 0, bits: 0, array: None, scaled: false }; 3];
    let mut v = Vec::with_capacity(3);
    let mut i = 0;
    while i < kinds.len() {
        decls[i] = any_decl(kinds[i]);
        v.push(model_of(&decls[i]));
        i += 1;
    }
    let proto = empty(Endianness::Little);
    let r = bp3d_protoc::compiler::structure::Structure::from_model(&proto, Structure { name: String::new(), fields: v });
    let mut start = 0;
    let mut ok = true;
    let mut i = 0;
    while i < kinds.len() {
        let p = spec(&decls[i], start);
        ok = ok && p.ok;
        start = p.end;
        i += 1;
    }
    match &r {
        Ok(st) => {
            assert!(ok, "a field which cannot be laid out is accepted");
            assert!(st.fields.len() == kinds.len(), "number of fields");
            let mut start = 0;
            let mut i = 0;
            while i < kinds.len() {
                let p = spec(&decls[i], start);
                check(&st.fields[i], &decls[i], &p);
                start = p.end;
                i += 1;
            }
            assert!(st.bit_size == start, "bit size");
            assert!(st.byte_size == start / 8 + if start % 8 != 0 { 1 } else { 0 }, "byte size");
            witness!(true);
        },
        Err(_) => {
            assert!(!ok, "a valid structure is refused");
            witness!(true);
        }
    }
    leak(r);
    leak(proto);
}

compiler_harnesses! {
    #[unwind(5)]
    fn c04_one__5() { fields(&[shape() as u8]) }
    #[unwind(5)]
    fn c04_xtwo__25() { fields(&[(shape() % 5) as u8, (shape() / 5) as u8]) }
}
