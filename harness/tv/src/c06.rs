//! C06: signed, boolean, enum and unscaled float views.
use crate::sym::*;
use crate::oracle::*;

pub trait Any { fn any() -> Self; }
macro_rules! any { ($($t: ty, $f: ident),*) => { $(impl Any for $t { fn any() -> Self { $f() } })* }; }
any!(i8, any_i8, i16, any_i16, i32, any_i32, i64, any_i64);

fn sign_extend(v: u128, bits: usize) -> i128 { ((v << (128 - bits)) as i128) >> (128 - bits) }

macro_rules! signed_check {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ty, $get: ident, $set: ident) => {{
        let mut b: [u8; $n] = any_bytes();
        let old = b;
        let got: $t = $s::new(&b[..]).$get();
        assert!(got as i128 == sign_extend(bits_of!($e, &b, $pos, $w), $w), "get");
        let v = <$t as Any>::any();
        $s::new(&mut b[..]).$set(v);
        assert!(rest_of!($e, &old, &b, $pos, $w), "set changes other bits");
        assert!(bits_of!($e, &b, $pos, $w) == v as i128 as u128 & mask($w), "set");
        if v as i128 == sign_extend(v as i128 as u128 & mask($w), $w) {
            assert!($s::new(&b[..]).$get() == v, "a value in range reads back unchanged");
        }
    }};
}

macro_rules! bool_check {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $get: ident, $set: ident) => {{
        let mut b: [u8; $n] = any_bytes();
        let old = b;
        assert!($s::new(&b[..]).$get() == (bits_of!($e, &b, $pos, $w) != 0), "get");
        let v = any_bool();
        $s::new(&mut b[..]).$set(v);
        assert!(rest_of!($e, &old, &b, $pos, $w), "set changes other bits");
        assert!(bits_of!($e, &b, $pos, $w) == v as u128, "set");
        assert!($s::new(&b[..]).$get() == v, "read back");
    }};
}

macro_rules! float_check {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ty, $get: ident, $set: ident) => {{
        let mut b: [u8; $n] = any_bytes();
        let old = b;
        let got: $t = $s::new(&b[..]).$get();
        assert!(got.to_bits() as u128 == bits_of!($e, &b, $pos, $w), "get");
        let mut x: [u8; $w / 8] = any_bytes();
        let v = <$t>::from_le_bytes(x);
        $s::new(&mut b[..]).$set(v);
        assert!(rest_of!($e, &old, &b, $pos, $w), "set changes other bits");
        assert!(bits_of!($e, &b, $pos, $w) == v.to_bits() as u128, "set");
    }};
}

macro_rules! enum_value {
    ($i: ident, $t: ident, $k1: ident $v1: literal, $k2: ident $v2: literal) => { if $i == 0 { $t::$k1 } else { $t::$k2 } };
    ($i: ident, $t: ident, $k1: ident $v1: literal, $k2: ident $v2: literal, $k3: ident $v3: literal) => { if $i == 0 { $t::$k1 } else if $i == 1 { $t::$k2 } else { $t::$k3 } };
    ($i: ident, $t: ident, $k1: ident $v1: literal, $k2: ident $v2: literal, $k3: ident $v3: literal, $k4: ident $v4: literal, $k5: ident $v5: literal) => {
        if $i == 0 { $t::$k1 } else if $i == 1 { $t::$k2 } else if $i == 2 { $t::$k3 } else if $i == 3 { $t::$k4 } else { $t::$k5 }
    };
}

macro_rules! enum_check {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ident, [$($k: ident $v: literal),*]) => {{
        let mut b: [u8; $n] = any_bytes();
        let old = b;
        let raw = bits_of!($e, &b, $pos, $w);
        let got = $s::new(&b[..]).get_f();
        match raw {
            $($v => assert!(matches!(got, Some($t::$k)), "get"),)*
            _ => assert!(got.is_none(), "no variant has this value")
        }
        let i = any_u8();
        let mut n = 0u8;
        let mut expect = 0u128;
        $(
            if i == n { expect = $v; }
            n += 1;
        )*
        assume(i < n);
        let v = enum_value!(i, $t, $($k $v),*);
        assert!(v as u128 == expect, "declared value");
        $s::new(&mut b[..]).set_f(v);
        assert!(rest_of!($e, &old, &b, $pos, $w), "set changes other bits");
        assert!(bits_of!($e, &b, $pos, $w) == expect, "set");
        match ($s::new(&b[..]).get_f(), expect) {
            $((Some($t::$k), $v) => (),)*
            _ => panic!("read back")
        }
    }};
}

include!(concat!(env!("OUT_DIR"), "/c06_gen.rs"));
