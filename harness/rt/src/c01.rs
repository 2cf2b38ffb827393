//! C01: byte codecs and scalar value codecs.
use crate::sym::*;
use bp3d_proto::codec::{ByteCodec, ByteCodecBE, ByteCodecLE};
use bp3d_proto::message::util::{ValueBE, ValueLE};
use bp3d_proto::message::{Error, FromSlice, WriteTo};

const LEAD: usize = 1;
const TOTAL: usize = 10;

// The N bytes at LEAD as a number.
fn le<const N: usize>(b: &[u8; TOTAL]) -> u64 {
    let mut v = 0;
    let mut i = 0;
    while i < N {
        v |= (b[LEAD + i] as u64) << (8 * i);
        i += 1;
    }
    v
}

fn be<const N: usize>(b: &[u8; TOTAL]) -> u64 {
    let mut v = 0;
    let mut i = 0;
    while i < N {
        v |= (b[LEAD + i] as u64) << (8 * (N - 1 - i));
        i += 1;
    }
    v
}

fn mask<const N: usize>() -> u64 { u64::MAX >> (64 - 8 * N) }

fn outside<const N: usize>(a: &[u8; TOTAL], b: &[u8; TOTAL]) -> bool {
    let mut i = 0;
    while i < TOTAL {
        if (i < LEAD || i >= LEAD + N) && a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

macro_rules! rw {
    ($codec: ident, $num: ident, $t: ty, $any: ident, $($n: literal)*) => {
        $({
            let mut b: [u8; TOTAL] = any_bytes();
            let old = b;
            let got = <$codec as ByteCodec>::read::<$t>(&b[LEAD..LEAD + $n]);
            assert!(got as u64 == $num::<$n>(&b), "read");
            if $n != core::mem::size_of::<$t>() {
                let got = unsafe { <$codec as ByteCodec>::read_unaligned::<$t>(&b[LEAD..LEAD + $n]) };
                assert!(got as u64 == $num::<$n>(&b), "read_unaligned");
            }
            let v: $t = $any();
            <$codec as ByteCodec>::write::<$t>(&mut b[LEAD..LEAD + $n], v);
            assert!($num::<$n>(&b) == v as u64 & mask::<$n>(), "write");
            assert!(outside::<$n>(&b, &old), "write touches other bytes");
            let back = <$codec as ByteCodec>::read::<$t>(&b[LEAD..LEAD + $n]);
            assert!(back as u64 == v as u64 & mask::<$n>(), "read back");
            witness!(old[LEAD] != b[LEAD]);
        })*
    };
}

macro_rules! rw_signed {
    ($codec: ident, $num: ident, $t: ty, $u: ty, $any: ident, $n: literal) => {{
        let mut b: [u8; TOTAL] = any_bytes();
        let old = b;
        let got = <$codec as ByteCodec>::read::<$t>(&b[LEAD..LEAD + $n]);
        assert!(got as $u as u64 == $num::<$n>(&b), "read");
        let v: $t = $any();
        <$codec as ByteCodec>::write::<$t>(&mut b[LEAD..LEAD + $n], v);
        assert!($num::<$n>(&b) == v as $u as u64, "write");
        assert!(outside::<$n>(&b, &old), "write touches other bytes");
        witness!(v < 0);
    }};
}

macro_rules! rw_float {
    ($codec: ident, $num: ident, $t: ty, $any: ident, $n: literal) => {{
        let mut b: [u8; TOTAL] = any_bytes();
        let old = b;
        let got = <$codec as ByteCodec>::read::<$t>(&b[LEAD..LEAD + $n]);
        assert!(got.to_bits() as u64 == $num::<$n>(&b), "read");
        let v: $t = $any();
        <$codec as ByteCodec>::write::<$t>(&mut b[LEAD..LEAD + $n], v);
        assert!($num::<$n>(&b) == v.to_bits() as u64, "write");
        assert!(outside::<$n>(&b, &old), "write touches other bytes");
        witness!(v == 1.5);
    }};
}

// A scalar value codec against a plain specification of its bytes.
macro_rules! value {
    ($t: ty, $v: expr, $n: literal, $bits: expr) => {{
        // Decoding, on every length.
        let b: [u8; 9] = any_bytes();
        let len = any_len(9);
        let slice = &b[..len];
        let mut le = 0u64;
        let mut be = 0u64;
        let mut i = 0;
        while i < $n {
            le |= (b[i] as u64) << (8 * i);
            be |= (b[i] as u64) << (8 * ($n - 1 - i));
            i += 1;
        }
        let bits: fn($t) -> u64 = $bits;
        match ValueLE::<$t>::from_slice(slice) {
            Ok(m) => {
                assert!(len >= $n && m.size() == $n, "size");
                assert!(bits(m.into_inner()) == le, "little endian value");
            }
            Err(e) => { assert!(len < $n && matches!(e, Error::Truncated), "truncated"); leak(e) }
        }
        match ValueBE::<$t>::from_slice(slice) {
            Ok(m) => {
                assert!(len >= $n && m.size() == $n, "size");
                assert!(bits(m.into_inner()) == be, "big endian value");
            }
            Err(e) => { assert!(len < $n && matches!(e, Error::Truncated), "truncated"); leak(e) }
        }
        witness!(len == $n);
        witness!(len < $n);
        // Encoding.
        let v: $t = $v;
        let mut o = Buf::<9>::new();
        let r = ValueLE::<$t>::write_to(&v, &mut o);
        assert!(r.is_ok() && o.len == $n);
        leak(r);
        let mut le = 0u64;
        let mut i = 0;
        while i < $n { le |= (o.data[i] as u64) << (8 * i); i += 1; }
        assert!(le == bits(v), "little endian encoding");
        let mut o = Buf::<9>::new();
        let r = ValueBE::<$t>::write_to(&v, &mut o);
        assert!(r.is_ok() && o.len == $n);
        leak(r);
        let mut be = 0u64;
        let mut i = 0;
        while i < $n { be |= (o.data[i] as u64) << (8 * ($n - 1 - i)); i += 1; }
        assert!(be == bits(v), "big endian encoding");
    }};
}

harnesses! {
    #[unwind(17)]
    fn c01_u8() { rw!(ByteCodecLE, le, u8, any_u8, 1); rw!(ByteCodecBE, be, u8, any_u8, 1); }
    #[unwind(17)]
    fn c01_u16_le() { rw!(ByteCodecLE, le, u16, any_u16, 1 2); }
    #[unwind(17)]
    fn c01_u16_be() { rw!(ByteCodecBE, be, u16, any_u16, 1 2); }
    #[unwind(17)]
    fn c01_u32_le() { rw!(ByteCodecLE, le, u32, any_u32, 1 2 3 4); }
    #[unwind(17)]
    fn c01_u32_be() { rw!(ByteCodecBE, be, u32, any_u32, 1 2 3 4); }
    #[unwind(17)]
    fn c01_u64_le_1() { rw!(ByteCodecLE, le, u64, any_u64, 1); }
    #[unwind(17)]
    fn c01_u64_le_2() { rw!(ByteCodecLE, le, u64, any_u64, 2); }
    #[unwind(17)]
    fn c01_u64_le_3() { rw!(ByteCodecLE, le, u64, any_u64, 3); }
    #[unwind(17)]
    fn c01_u64_le_4() { rw!(ByteCodecLE, le, u64, any_u64, 4); }
    #[unwind(17)]
    fn c01_u64_le_5() { rw!(ByteCodecLE, le, u64, any_u64, 5); }
    #[unwind(17)]
    fn c01_u64_le_6() { rw!(ByteCodecLE, le, u64, any_u64, 6); }
    #[unwind(17)]
    fn c01_u64_le_7() { rw!(ByteCodecLE, le, u64, any_u64, 7); }
    #[unwind(17)]
    fn c01_u64_le_8() { rw!(ByteCodecLE, le, u64, any_u64, 8); }
    #[unwind(17)]
    fn c01_u64_be_1() { rw!(ByteCodecBE, be, u64, any_u64, 1); }
    #[unwind(17)]
    fn c01_u64_be_2() { rw!(ByteCodecBE, be, u64, any_u64, 2); }
    #[unwind(17)]
    fn c01_u64_be_3() { rw!(ByteCodecBE, be, u64, any_u64, 3); }
    #[unwind(17)]
    fn c01_u64_be_4() { rw!(ByteCodecBE, be, u64, any_u64, 4); }
    #[unwind(17)]
    fn c01_u64_be_5() { rw!(ByteCodecBE, be, u64, any_u64, 5); }
    #[unwind(17)]
    fn c01_u64_be_6() { rw!(ByteCodecBE, be, u64, any_u64, 6); }
    #[unwind(17)]
    fn c01_u64_be_7() { rw!(ByteCodecBE, be, u64, any_u64, 7); }
    #[unwind(17)]
    fn c01_u64_be_8() { rw!(ByteCodecBE, be, u64, any_u64, 8); }
    #[unwind(17)]
    fn c01_signed_le() {
        rw_signed!(ByteCodecLE, le, i8, u8, any_i8, 1);
        rw_signed!(ByteCodecLE, le, i16, u16, any_i16, 2);
        rw_signed!(ByteCodecLE, le, i32, u32, any_i32, 4);
        rw_signed!(ByteCodecLE, le, i64, u64, any_i64, 8);
    }
    #[unwind(17)]
    fn c01_signed_be() {
        rw_signed!(ByteCodecBE, be, i8, u8, any_i8, 1);
        rw_signed!(ByteCodecBE, be, i16, u16, any_i16, 2);
        rw_signed!(ByteCodecBE, be, i32, u32, any_i32, 4);
        rw_signed!(ByteCodecBE, be, i64, u64, any_i64, 8);
    }
    #[unwind(17)]
    fn c01_float() {
        rw_float!(ByteCodecLE, le, f32, any_f32, 4);
        rw_float!(ByteCodecLE, le, f64, any_f64, 8);
        rw_float!(ByteCodecBE, be, f32, any_f32, 4);
        rw_float!(ByteCodecBE, be, f64, any_f64, 8);
    }
    #[unwind(17)]
    fn c01_value_u8() { value!(u8, any_u8(), 1, |v| v as u64) }
    #[unwind(17)]
    fn c01_value_u16() { value!(u16, any_u16(), 2, |v| v as u64) }
    #[unwind(17)]
    fn c01_value_u32() { value!(u32, any_u32(), 4, |v| v as u64) }
    #[unwind(17)]
    fn c01_value_u64() { value!(u64, any_u64(), 8, |v| v) }
    #[unwind(17)]
    fn c01_value_i8() { value!(i8, any_i8(), 1, |v| v as u8 as u64) }
    #[unwind(17)]
    fn c01_value_i16() { value!(i16, any_i16(), 2, |v| v as u16 as u64) }
    #[unwind(17)]
    fn c01_value_i32() { value!(i32, any_i32(), 4, |v| v as u32 as u64) }
    #[unwind(17)]
    fn c01_value_i64() { value!(i64, any_i64(), 8, |v| v as u64) }
    #[unwind(17)]
    fn c01_value_f32() { value!(f32, any_f32(), 4, |v| v.to_bits() as u64) }
    #[unwind(17)]
    fn c01_value_f64() { value!(f64, any_f64(), 8, |v| v.to_bits()) }
    #[unwind(17)]
    fn c01_value_bool() {
        let b: [u8; 2] = any_bytes();
        let len = any_len(2);
        match ValueLE::<bool>::from_slice(&b[..len]) {
            Ok(m) => { assert!(len >= 1 && m.size() == 1); assert!(m.into_inner() == (b[0] != 0)) }
            Err(e) => { assert!(len < 1 && matches!(e, Error::Truncated)); leak(e) }
        }
        match ValueBE::<bool>::from_slice(&b[..len]) {
            Ok(m) => { assert!(len >= 1 && m.size() == 1); assert!(m.into_inner() == (b[0] != 0)) }
            Err(e) => { assert!(len < 1 && matches!(e, Error::Truncated)); leak(e) }
        }
        let v = any_bool();
        let mut o = Buf::<2>::new();
        let r = ValueLE::<bool>::write_to(&v, &mut o);
        assert!(r.is_ok() && o.len == 1 && o.data[0] == v as u8);
        leak(r);
        let mut o = Buf::<2>::new();
        let r = ValueBE::<bool>::write_to(&v, &mut o);
        assert!(r.is_ok() && o.len == 1 && o.data[0] == v as u8);
        leak(r);
        witness!(v);
    }
}
