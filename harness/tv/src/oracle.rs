//! Bit level oracle: a field is a contiguous range of the buffer seen as one number, counted from
//! the least significant bit of the first byte (little endian) or from the most significant bit of
//! the first byte (big endian).

fn window<const N: usize>(b: &[u8; N], first: usize, len: usize) -> [u8; 16] {
    let mut w = [0u8; 16];
    let mut i = 0;
    while i < len {
        w[i] = b[first + i];
        i += 1;
    }
    w
}

pub fn mask(bits: usize) -> u128 { (1u128 << bits) - 1 }

/// Reads the bits at pos..pos + bits in little endian.
pub fn get_le<const N: usize>(b: &[u8; N], pos: usize, bits: usize) -> u128 {
    let first = pos / 8;
    let last = (pos + bits - 1) / 8;
    (u128::from_le_bytes(window(b, first, last - first + 1)) >> (pos % 8)) & mask(bits)
}

/// Reads the bits at pos..pos + bits in big endian.
pub fn get_be<const N: usize>(b: &[u8; N], pos: usize, bits: usize) -> u128 {
    let first = pos / 8;
    let last = (pos + bits - 1) / 8;
    (u128::from_be_bytes(window(b, first, last - first + 1)) >> (128 - pos % 8 - bits)) & mask(bits)
}

/// All the bits but those at pos..pos + bits are the same.
pub fn rest_le<const N: usize>(a: &[u8; N], b: &[u8; N], pos: usize, bits: usize) -> bool {
    let first = pos / 8;
    let last = (pos + bits - 1) / 8;
    let keep = !(mask(bits) << (pos % 8));
    if u128::from_le_bytes(window(a, first, last - first + 1)) & keep != u128::from_le_bytes(window(b, first, last - first + 1)) & keep {
        return false;
    }
    others(a, b, first, last)
}

pub fn rest_be<const N: usize>(a: &[u8; N], b: &[u8; N], pos: usize, bits: usize) -> bool {
    let first = pos / 8;
    let last = (pos + bits - 1) / 8;
    let keep = !(mask(bits) << (128 - pos % 8 - bits));
    if u128::from_be_bytes(window(a, first, last - first + 1)) & keep != u128::from_be_bytes(window(b, first, last - first + 1)) & keep {
        return false;
    }
    others(a, b, first, last)
}

fn others<const N: usize>(a: &[u8; N], b: &[u8; N], first: usize, last: usize) -> bool {
    let mut same = true;
    let mut i = 0;
    while i < N {
        if (i < first || i > last) && a[i] != b[i] {
            same = false;
        }
        i += 1;
    }
    same
}

#[macro_export]
macro_rules! bits_of {
    (le, $b: expr, $pos: expr, $w: expr) => { $crate::oracle::get_le($b, $pos, $w) };
    (be, $b: expr, $pos: expr, $w: expr) => { $crate::oracle::get_be($b, $pos, $w) };
}
#[macro_export]
macro_rules! rest_of {
    (le, $a: expr, $b: expr, $pos: expr, $w: expr) => { $crate::oracle::rest_le($a, $b, $pos, $w) };
    (be, $a: expr, $b: expr, $pos: expr, $w: expr) => { $crate::oracle::rest_be($a, $b, $pos, $w) };
}
