//! C03: array accessors of generated structures.
use crate::sym::*;
use crate::oracle::*;

pub trait Bits: Copy { fn any() -> Self; fn bits(self) -> u64; }
macro_rules! bits { ($($t: ty, $u: ty, $f: ident, |$v: ident| $e: expr);*) => {
    $(impl Bits for $t { fn any() -> Self { $f() } fn bits(self) -> u64 { let $v = self; ($e) as $u as u64 } })* }; }
bits!(u8, u8, any_u8, |v| v; u16, u16, any_u16, |v| v; u32, u32, any_u32, |v| v; u64, u64, any_u64, |v| v;
      i8, u8, any_i8, |v| v; i16, u16, any_i16, |v| v; i32, u32, any_i32, |v| v; i64, u64, any_i64, |v| v;
      f32, u32, any_f32, |v| v.to_bits(); f64, u64, any_f64, |v| v.to_bits());

macro_rules! array_check {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $len: literal, $t: ty) => {{
        let mut b: [u8; $n] = any_bytes();
        let old = b;
        let i = any_u8() as usize;
        assume(i < $len);
        let mut slots = [0u128; $len];
        {
            let s = $s::new(&b[..]);
            let a = s.get_f();
            assert!(a.len() == $len, "length");
            let mut it = a.iter_raw();
            let mut j = 0;
            while j < $len {
                slots[j] = bits_of!($e, &b, $pos + j * $w, $w);
                match it.next() {
                    Some(v) => assert!(Bits::bits(v) as u128 == slots[j], "iteration"),
                    None => panic!("iteration stops early")
                }
                j += 1;
            }
            assert!(it.next().is_none(), "iteration goes on");
            let v: $t = a.get_raw(i);
            assert!(v.bits() as u128 == slots[i], "get");
        }
        let v = <$t as Bits>::any();
        {
            let mut s = $s::new(&mut b[..]);
            s.get_f_mut().set_raw(i, v);
        }
        let mut j = 0;
        while j < $len {
            let now = bits_of!($e, &b, $pos + j * $w, $w);
            assert!(now == if j == i { v.bits() as u128 & mask($w) } else { slots[j] }, "set");
            j += 1;
        }
        let mut j = 0;
        while j < $n {
            assert!((j * 8 >= $pos && j * 8 < $pos + $len * $w) || b[j] == old[j], "set changes another field");
            j += 1;
        }
    }};
}

/// Known finding: the items of a signed array are not sign extended from their declared width.
macro_rules! signed_array_check {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ty) => {{
        let b: [u8; $n] = any_bytes();
        let raw = bits_of!($e, &b, $pos, $w);
        let v: $t = $s::new(&b[..]).get_f().get_raw(0);
        assert!(v as i128 == ((raw << (128 - $w)) as i128) >> (128 - $w), "an item of a signed array is sign extended");
        witness!(true);
    }};
}

include!(concat!(env!("OUT_DIR"), "/c03_gen.rs"));
