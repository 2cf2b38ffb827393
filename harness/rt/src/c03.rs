//! C03: array codec, every item width of a whole number of bytes, any region and index.
use crate::sym::*;
use bp3d_proto::codec::{ArrayCodec, ByteCodec, ByteCodecBE, ByteCodecLE};
use bytesutil::{ReadBytes, WriteBytes};

pub trait Item: Copy + ReadBytes + WriteBytes {
    const SIZE: usize;
    fn any() -> Self;
    fn bits(self) -> u64;
}

macro_rules! item {
    ($($t: ty, $u: ty, $n: literal, $f: ident, |$v: ident| $e: expr);*) => {
        $(impl Item for $t { const SIZE: usize = $n; fn any() -> Self { $f() } fn bits(self) -> u64 { let $v = self; ($e) as $u as u64 } })*
    };
}
item!(u8, u8, 1, any_u8, |v| v; u16, u16, 2, any_u16, |v| v; u32, u32, 4, any_u32, |v| v; u64, u64, 8, any_u64, |v| v;
      i8, u8, 1, any_i8, |v| v; i16, u16, 2, any_i16, |v| v; i32, u32, 4, any_i32, |v| v; i64, u64, 8, any_i64, |v| v;
      f32, u32, 4, any_f32, |v| v.to_bits(); f64, u64, 8, any_f64, |v| v.to_bits());

const TOTAL: usize = 34;
const LEAD: usize = 1;

pub trait Order { type Codec: ByteCodec; const BIG: bool; }
pub struct LE;
pub struct BE;
impl Order for LE { type Codec = ByteCodecLE; const BIG: bool = false; }
impl Order for BE { type Codec = ByteCodecBE; const BIG: bool = true; }

fn slot<O: Order>(b: &[u8; TOTAL], start: usize, k: usize) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < k {
        let j = if O::BIG { i } else { k - 1 - i };
        v = (v << 8) | b[start + j] as u64;
        i += 1;
    }
    v
}

/// The value's low k bytes.
fn low<T: Item>(v: T, k: usize) -> u64 {
    if k == 8 { v.bits() } else { v.bits() & ((1u64 << (k * 8)) - 1) }
}

fn count(k: usize) -> usize { if 32 / k > 5 { 5 } else { 32 / k } }

fn read<O: Order, T: Item, const BITS: usize>() {
    let k = BITS / 8;
    let b: [u8; TOTAL] = any_bytes();
    let n = any_len(count(k));
    let a = ArrayCodec::<&[u8], T, O::Codec, BITS>::new(&b[LEAD..LEAD + n * k]);
    assert!(a.len() == n, "len");
    let i = any_u8() as usize;
    if i < n {
        assert!(a.get_raw(i).bits() == slot::<O>(&b, LEAD + i * k, k), "get");
    }
}

fn iter<O: Order, T: Item, const BITS: usize>() {
    let b: [u8; TOTAL] = any_bytes();
    iter_n::<O, T, BITS>(&b, 0);
    iter_n::<O, T, BITS>(&b, 1);
    iter_n::<O, T, BITS>(&b, 2);
    iter_n::<O, T, BITS>(&b, 3);
}

fn iter_n<O: Order, T: Item, const BITS: usize>(b: &[u8; TOTAL], n: usize) {
    let k = BITS / 8;
    let a = ArrayCodec::<&[u8], T, O::Codec, BITS>::new(&b[LEAD..LEAD + n * k]);
    let mut it = a.iter_raw();
    let mut i = 0;
    while i < n {
        match it.next() {
            Some(v) => assert!(v.bits() == slot::<O>(b, LEAD + i * k, k), "iteration yields the elements in order"),
            None => panic!("iteration stops early")
        }
        i += 1;
    }
    assert!(it.next().is_none(), "iteration stops after the last element");
    assert!(it.next().is_none(), "iteration stays stopped");
}

fn write<O: Order, T: Item, const BITS: usize>() {
    let k = BITS / 8;
    let mut b: [u8; TOTAL] = any_bytes();
    let old = b;
    let n = any_len(count(k));
    let i = any_u8() as usize;
    assume(i < n);
    let v = T::any();
    let start = LEAD + i * k;
    {
        let mut a = ArrayCodec::<&mut [u8], T, O::Codec, BITS>::new(&mut b[LEAD..LEAD + n * k]);
        a.set_raw(i, v);
    }
    assert!(slot::<O>(&b, start, k) == low(v, k), "set");
    let mut j = 0;
    while j < TOTAL {
        assert!((j >= start && j < start + k) || b[j] == old[j], "set changes another slot");
        j += 1;
    }
    let a = ArrayCodec::<&[u8], T, O::Codec, BITS>::new(&b[LEAD..LEAD + n * k]);
    assert!(a.get_raw(i).bits() == low(v, k), "read back");
}

fn outside<O: Order, T: Item, const BITS: usize>() -> (usize, usize) {
    let k = BITS / 8;
    let n = any_len(count(k));
    let i = any_usize();
    assume(i >= n && i <= usize::MAX / 8 - 1);
    (n, i)
}

fn read_outside<O: Order, T: Item, const BITS: usize>() {
    let k = BITS / 8;
    let b: [u8; TOTAL] = any_bytes();
    let (n, i) = outside::<O, T, BITS>();
    let a = ArrayCodec::<&[u8], T, O::Codec, BITS>::new(&b[LEAD..LEAD + n * k]);
    witness!(i == n);
    witness!(i > 1000);
    must_panic!(a.get_raw(i));
}

fn write_outside<O: Order, T: Item, const BITS: usize>() {
    let k = BITS / 8;
    let mut b: [u8; TOTAL] = any_bytes();
    let (n, i) = outside::<O, T, BITS>();
    let v = T::any();
    let mut a = ArrayCodec::<&mut [u8], T, O::Codec, BITS>::new(&mut b[LEAD..LEAD + n * k]);
    witness!(i == n);
    witness!(i > 1000);
    must_panic!({ a.set_raw(i, v); });
}

macro_rules! all {
    ($f: ident $o: ident) => {
        $f::<$o, u8, 8>(); $f::<$o, u16, 16>(); $f::<$o, u32, 24>(); $f::<$o, u32, 32>(); $f::<$o, u64, 40>(); $f::<$o, u64, 48>();
        $f::<$o, u64, 56>(); $f::<$o, u64, 64>(); $f::<$o, i8, 8>(); $f::<$o, i16, 16>(); $f::<$o, i32, 32>(); $f::<$o, i64, 64>();
        $f::<$o, f32, 32>(); $f::<$o, f64, 64>();
        witness!(true);
    };
}

harnesses! {
    #[unwind(37)] fn c03_read_le() { all!(read LE); }
    #[unwind(37)] fn c03_read_be() { all!(read BE); }
    #[unwind(37)] fn c03_iter_le() { all!(iter LE); }
    #[unwind(37)] fn c03_iter_be() { all!(iter BE); }
    #[unwind(37)] fn c03_write_le_small() { write::<LE, u8, 8>(); write::<LE, i8, 8>(); write::<LE, u16, 16>(); write::<LE, i16, 16>(); witness!(true); }
    #[unwind(37)] fn c03_write_be_small() { write::<BE, u8, 8>(); write::<BE, i8, 8>(); write::<BE, u16, 16>(); write::<BE, i16, 16>(); witness!(true); }
    #[unwind(37)] fn c03_write_le_32() { write::<LE, u32, 24>(); write::<LE, u32, 32>(); write::<LE, i32, 32>(); write::<LE, f32, 32>(); witness!(true); }
    #[unwind(37)] fn c03_write_be_32() { write::<BE, u32, 24>(); write::<BE, u32, 32>(); write::<BE, i32, 32>(); write::<BE, f32, 32>(); witness!(true); }
    #[unwind(37)] fn c03_write_le_64() { write::<LE, u64, 40>(); write::<LE, u64, 48>(); write::<LE, u64, 56>(); witness!(true); }
    #[unwind(37)] fn c03_write_be_64() { write::<BE, u64, 40>(); write::<BE, u64, 48>(); write::<BE, u64, 56>(); witness!(true); }
    #[unwind(37)] fn c03_write_le_full() { write::<LE, u64, 64>(); write::<LE, i64, 64>(); write::<LE, f64, 64>(); witness!(true); }
    #[unwind(37)] fn c03_write_be_full() { write::<BE, u64, 64>(); write::<BE, i64, 64>(); write::<BE, f64, 64>(); witness!(true); }
    #[unwind(37)] fn c03_panics_read_8() { read_outside::<LE, u8, 8>(); }
    #[unwind(37)] fn c03_panics_read_24() { read_outside::<BE, u32, 24>(); }
    #[unwind(37)] fn c03_panics_read_32() { read_outside::<LE, f32, 32>(); }
    #[unwind(37)] fn c03_panics_read_64() { read_outside::<BE, i64, 64>(); }
    #[unwind(37)] fn c03_panics_write_8() { write_outside::<BE, u8, 8>(); }
    #[unwind(37)] fn c03_panics_write_16() { write_outside::<LE, i16, 16>(); }
    #[unwind(37)] fn c03_panics_write_40() { write_outside::<LE, u64, 40>(); }
    #[unwind(37)] fn c03_panics_write_64() { write_outside::<BE, f64, 64>(); }
    #[unwind(37)]
    fn c03_bytes() {
        let mut b: [u8; TOTAL] = any_bytes();
        let old = b;
        let n = any_len(8);
        {
            let a = ArrayCodec::<&[u8], u8, ByteCodecLE, 8>::new(&b[LEAD..LEAD + n]);
            assert!(same(a.as_ref(), &old[LEAD..LEAD + n]));
        }
        let i = any_len(8);
        let v = any_u8();
        assume(i < n);
        {
            let mut a = ArrayCodec::<&mut [u8], u8, ByteCodecBE, 8>::new(&mut b[LEAD..LEAD + n]);
            assert!(a.as_mut().len() == n);
            a.as_mut()[i] = v;
        }
        let mut j = 0;
        while j < TOTAL {
            assert!(b[j] == if j == LEAD + i { v } else { old[j] });
            j += 1;
        }
        witness!(true);
    }
}
