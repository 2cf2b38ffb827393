//! C07: scaled floats.
use crate::sym::*;
use crate::oracle::*;

pub trait Any { fn any() -> Self; }
impl Any for f32 { fn any() -> Self { any_f32() } }
impl Any for f64 { fn any() -> Self { any_f64() } }

/// A step of the range, and the rounding of a few operations on numbers of its size.
fn step(w: usize, min: f64, max: f64) -> f64 { (max - min) / ((1u64 << w) - 1) as f64 }
fn largest(min: f64, max: f64) -> f64 { if -min > max { -min } else { max } }
macro_rules! rounding { (f32, $min: expr, $max: expr) => { largest($min, $max) * 1e-6 }; (f64, $min: expr, $max: expr) => { largest($min, $max) * 1e-14 }; }

fn near(a: f64, b: f64, d: f64) -> bool { a - b <= d && b - a <= d }

macro_rules! scaled_get {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ident, $min: expr, $max: expr) => {{
        let b: [u8; $n] = any_bytes();
        let raw = bits_of!($e, &b, $pos, $w) as u64;
        let v = $s::new(&b[..]).get_f() as f64;
        assert!(near(v, $min + raw as f64 * step($w, $min, $max), rounding!($t, $min, $max)), "affine");
        assert!(raw != 0 || near(v, $min, rounding!($t, $min, $max)), "smallest");
        assert!(raw != (1u64 << $w) - 1 || near(v, $max, rounding!($t, $min, $max)), "largest");
        witness!(true);
    }};
}

macro_rules! scaled_set {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ident, $min: expr, $max: expr) => {{
        let mut b: [u8; $n] = any_bytes();
        let old = b;
        let v = <$t as Any>::any();
        $s::new(&mut b[..]).set_f(v);
        assert!(rest_of!($e, &old, &b, $pos, $w), "set changes other bits");
        witness!(true);
    }};
}

macro_rules! scaled_trip {
    ($e: ident, $s: ident, $n: literal, $pos: literal, $w: literal, $t: ident, $min: expr, $max: expr) => {{
        let mut b: [u8; $n] = [0; $n];
        let v = <$t as Any>::any();
        assume(v as f64 >= $min && v as f64 <= $max);
        $s::new(&mut b[..]).set_f(v);
        let got = $s::new(&b[..]).get_f();
        assert!(near(got as f64, v as f64, step($w, $min, $max) + rounding!($t, $min, $max)), "set then get");
        witness!(true);
    }};
}

include!(concat!(env!("OUT_DIR"), "/c07_gen.rs"));
