// Included once per byte order, with the generated protocols in scope.
use crate::c13::agree;

static LONG: [u8; 300] = [b'a'; 300];

/// Any strings, null bytes included.
pub fn nuls() {
    let a: [u8; 2] = any_bytes();
    let c: [u8; 2] = any_bytes();
    let (i, j) = (shape() % 3, shape() / 3);
    assume(valid_utf8(&a[..i]) && valid_utf8(&c[..j]));
    agree(&Nuls { a: unsafe { core::str::from_utf8_unchecked(&a[..i]) }, b: any_u16(), c: unsafe { core::str::from_utf8_unchecked(&c[..j]) } });
}
/// A union under any discriminant.
pub fn uni() {
    let h: [u8; 3] = any_bytes();
    let p: [u8; 3] = any_bytes();
    let v = match shape() { 0 => Value::Nothing, 1 => Value::Spot(Point::new(&p[..])), _ => Value::Text(Sub { p: Point::new(&p[..]), s: "ab" }) };
    agree(&Uni { h: Hdr::new(&h[..]), n: any_i8(), v, z: any_u16() });
}
pub fn unis() {
    let h: [u8; 5] = any_bytes();
    let p: [u8; 3] = any_bytes();
    let d = match shape() % 3 { 0 => Deep::Min, 1 => Deep::Neg(Point::new(&p[..])), _ => Deep::Pos(U24::new(&p[..])) };
    let e = match shape() / 3 { 0 => Num::Empty, 1 => Num::Large(Point::new(&p[..])), _ => Num::Small(Sub { p: Point::new(&p[..]), s: "ab" }) };
    agree(&Unis { h: Outer::new(&h[..]), d, e });
}
/// Any counts: more than the prefix can count as well.
pub fn counts() {
    let (a, b) = (any_usize(), any_usize());
    match shape() {
        0 => agree(&Arrs { a: unsafe { Array::from_raw_parts(&[], a) }, b: unsafe { Array::from_raw_parts(&[], b) }, c: 0 }),
        1 => agree(&Trail { a: 0, b: unsafe { List::from_raw_parts(&[], a) } }),
        2 => agree(&Emb { a: unsafe { List::from_raw_parts(&[], a) }, b: 0 }),
        3 => agree(&Table { rows: unsafe { List::from_raw_parts(&[], a) } }),
        4 => agree(&Opts { a: Some(unsafe { Array::from_raw_parts(&[], a) }), b: 0, c: None, d: 0 }),
        _ => agree(&Row { id: 0, cells: unsafe { List::from_raw_parts(&[], a) } })
    }
}
/// Strings of any length up to 300.
pub fn lengths() {
    let n = any_u16() as usize;
    assume(n <= 300);
    let s = unsafe { core::str::from_utf8_unchecked(&LONG[..n]) };
    match shape() {
        0 => agree(&Strs { b: s, c: "", d: 0 }),
        1 => agree(&Strs { b: "", c: s, d: 0 }),
        _ => agree(&Sub { p: Point::new(&[0; 3]), s })
    }
}
/// The size of a decoded structure.
macro_rules! size_of_struct {
    ($s: ident, $n: literal, $const: ident) => {{
        let data: [u8; 32] = any_bytes();
        let n = any_u8() as usize;
        assume(n <= 32);
        match <$s<&[u8]> as FromSlice>::from_slice(&data[..n]) {
            Ok(m) => {
                assert!(n >= $n && m.size() == $n, "size of a structure");
                let s = m.into_inner();
                let mut out = Buf::<$n>::new();
                let r = $s::write_to(&s, &mut out);
                assert!(r.is_ok());
                leak(r);
                assert!(out.len == $n, "encoded length of a structure");
                match bp3d_proto::message::util::size_of(&s) {
                    Ok(k) => assert!(k == $n, "computed size of a structure"),
                    Err(e) => { leak(e); panic!("no size") }
                };
                witness!(true);
            },
            Err(e) => {
                leak(e);
                assert!(n < $n, "a structure is refused");
                witness!(true);
            }
        };
        assert!($const == $n && <$s<&[u8]> as bp3d_proto::util::FixedSize>::SIZE == $n && bp3d_proto::util::Size::size(&$s::new(&data[..])) == $n, "declared size");
    }};
}
pub fn structs() {
    match shape() {
        0 => size_of_struct!(Point, 3, SIZE_POINT),
        1 => size_of_struct!(Outer, 5, SIZE_OUTER),
        2 => size_of_struct!(Disc, 20, SIZE_DISC),
        3 => size_of_struct!(U24, 3, SIZE_U24),
        _ => size_of_struct!(Hdr, 3, SIZE_HDR)
    }
}
