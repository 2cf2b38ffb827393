//! C02: bit codecs, for every width 1..=63 and offset 0..=7 with a span of at most 8 bytes.
use crate::sym::*;
use bp3d_proto::codec::{BitCodec, BitCodecBE, BitCodecLE};
use bp3d_proto::util::ToUsize;
use bytesutil::{ReadBytes, WriteBytes};
use std::ops::{BitAnd, BitOr, Shl, Shr};

pub trait Carrier: Copy + ToUsize + ReadBytes + WriteBytes + Shl<Output = Self> + Shr<Output = Self> + BitAnd<Output = Self> + BitOr<Output = Self> {
    fn any() -> Self;
    fn wide(self) -> u128;
}

macro_rules! carrier {
    ($($t: ty, $f: ident),*) => { $(impl Carrier for $t { fn any() -> Self { $f() } fn wide(self) -> u128 { self as u128 } })* };
}
carrier!(u8, any_u8, u16, any_u16, u32, any_u32, u64, any_u64);

// The region sits inside a larger buffer: LEAD bytes before it, the rest after it.
const LEAD: usize = 1;
const TOTAL: usize = 10;

fn le(b: &[u8; TOTAL]) -> u128 {
    let mut x = [0u8; 16];
    x[..TOTAL].copy_from_slice(b);
    u128::from_le_bytes(x)
}

fn be(b: &[u8; TOTAL]) -> u128 {
    let mut x = [0u8; 16];
    x[..TOTAL].copy_from_slice(b);
    u128::from_be_bytes(x)
}

fn r_le<C: BitCodec, T: Carrier, const OFF: usize, const SIZE: usize, const N: usize>() {
    let b: [u8; TOTAL] = any_bytes();
    let got = C::read::<T, OFF, SIZE>(&b[LEAD..LEAD + N]);
    assert!(got.wide() == (le(&b) >> (LEAD * 8 + OFF)) & ((1u128 << SIZE) - 1));
}

fn r_be<C: BitCodec, T: Carrier, const OFF: usize, const SIZE: usize, const N: usize>() {
    let b: [u8; TOTAL] = any_bytes();
    let got = C::read::<T, OFF, SIZE>(&b[LEAD..LEAD + N]);
    assert!(got.wide() == (be(&b) >> (128 - LEAD * 8 - OFF - SIZE)) & ((1u128 << SIZE) - 1));
}

fn w_le<C: BitCodec, T: Carrier, const OFF: usize, const SIZE: usize, const N: usize>() {
    let mut b: [u8; TOTAL] = any_bytes();
    let old = le(&b);
    let v = T::any();
    C::write::<T, OFF, SIZE>(&mut b[LEAD..LEAD + N], v);
    let mask = (1u128 << SIZE) - 1;
    let shift = LEAD * 8 + OFF;
    assert!(le(&b) == (old & !(mask << shift)) | ((v.wide() & mask) << shift));
}

fn w_be<C: BitCodec, T: Carrier, const OFF: usize, const SIZE: usize, const N: usize>() {
    let mut b: [u8; TOTAL] = any_bytes();
    let old = be(&b);
    let v = T::any();
    C::write::<T, OFF, SIZE>(&mut b[LEAD..LEAD + N], v);
    let mask = (1u128 << SIZE) - 1;
    let shift = 128 - LEAD * 8 - OFF - SIZE;
    assert!(be(&b) == (old & !(mask << shift)) | ((v.wide() & mask) << shift));
}

include!(concat!(env!("OUT_DIR"), "/c02_gen.rs"));
