//! C05: generated accessors of unsigned fields.
use crate::sym::*;
use crate::oracle::*;

pub trait Any { fn any() -> Self; }
macro_rules! any { ($($t: ty, $f: ident),*) => { $(impl Any for $t { fn any() -> Self { $f() } })* }; }
any!(u8, any_u8, u16, any_u16, u32, any_u32, u64, any_u64);

macro_rules! field_check {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ty, $get_raw: ident, $set_raw: ident, $get: ident, $set: ident) => {{
        let mut b: [u8; $n] = any_bytes();
        let old = b;
        let s = $s::new(&b[..]);
        let want = bits_of!($e, &b, $pos, $w);
        assert!(s.$get_raw() as u128 == want, "get_raw");
        assert!(s.$get() as u128 == want, "get");
        let v = <$t as Any>::any();
        let mut s = $s::new(&mut b[..]);
        if any_bool() { s.$set_raw(v); } else { s.$set(v); }
        assert!(bits_of!($e, &b, $pos, $w) == v as u128 & mask($w), "set");
        assert!(rest_of!($e, &old, &b, $pos, $w), "set changes other bits");
    }};
}

include!(concat!(env!("OUT_DIR"), "/c05_gen.rs"));
