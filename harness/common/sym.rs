//! Input shim shared by all harness crates.
//!
//! Under Kani every `any_*` is a symbolic value, `assume` restricts the state space and `cover!`
//! is a reachability witness. Natively the same harness body is driven by the bytes of a solver
//! counterexample, so that each violation is replayed against the real build before it is reported.
#![allow(dead_code)]

#[cfg(not(kani))]
use std::cell::RefCell;

#[cfg(not(kani))]
thread_local! {
    static INPUT: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0));
}

/// Exit code of a replay whose input does not satisfy the harness' assumptions.
pub const EXIT_ASSUME: i32 = 77;

#[cfg(not(kani))]
pub fn set_input(data: Vec<u8>) {
    INPUT.with(|v| *v.borrow_mut() = (data, 0));
}

#[cfg(not(kani))]
fn take<const N: usize>() -> [u8; N] {
    INPUT.with(|v| {
        let mut v = v.borrow_mut();
        let mut out = [0; N];
        for b in out.iter_mut() {
            let pos = v.1;
            *b = v.0.get(pos).copied().unwrap_or(0);
            v.1 += 1;
        }
        out
    })
}

macro_rules! any_fn {
    ($($name: ident $t: ty),*) => {
        $(
            #[cfg(kani)]
            #[inline]
            pub fn $name() -> $t { kani::any() }
            #[cfg(not(kani))]
            pub fn $name() -> $t { <$t>::from_le_bytes(take()) }
        )*
    };
}

any_fn!(any_u8 u8, any_u16 u16, any_u32 u32, any_u64 u64, any_usize usize, any_i8 i8, any_i16 i16, any_i32 i32, any_i64 i64, any_isize isize);

pub fn any_f32() -> f32 { f32::from_bits(any_u32()) }
pub fn any_f64() -> f64 { f64::from_bits(any_u64()) }

pub fn any_bool() -> bool {
    let v = any_u8();
    v & 1 != 0
}

#[cfg(kani)]
pub fn any_bytes<const N: usize>() -> [u8; N] { kani::any() }
#[cfg(not(kani))]
pub fn any_bytes<const N: usize>() -> [u8; N] { take() }

/// The shape of the input: a constant of each program given to the solver (bin/check.py makes one per
/// shape of a harness named ..__<number of shapes>), the first byte of a replayed input.
#[cfg(kani)]
pub fn shape() -> usize {
    extern "C" { fn bp3d_shape() -> usize; }
    unsafe { bp3d_shape() }
}
#[cfg(not(kani))]
pub fn shape() -> usize { SHAPE.with(|v| v.get()) }
#[cfg(not(kani))]
thread_local! { static SHAPE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

/// A length in 0..=max.
pub fn any_len(max: usize) -> usize {
    let v = any_u8() as usize;
    assume(v <= max);
    v
}

#[cfg(kani)]
#[inline]
pub fn assume(c: bool) { kani::assume(c) }
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        eprintln!("REPLAY: input outside of the harness' assumptions");
        std::process::exit(EXIT_ASSUME);
    }
}

/// Reachability witness: Kani must find an input reaching it with the condition true.
#[macro_export]
macro_rules! witness {
    ($e: expr) => {
        #[cfg(kani)]
        kani::cover!($e);
        #[cfg(not(kani))]
        { let _ = $e; }
    };
}

/// The expression must panic. Harnesses using it have "panics" in their name: bin/check.py ignores
/// panics there, and fails when the marker is reachable (or memory is accessed out of bounds).
#[macro_export]
macro_rules! must_panic {
    ($e: expr) => {
        #[cfg(kani)]
        {
            let _v = $e;
            core::mem::forget(_v);
            assert!(false, "MUST-PANIC");
        }
        #[cfg(not(kani))]
        {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = $e; }));
            assert!(r.is_err(), "no panic");
        }
    };
}

/// Declares harnesses (Kani proofs, and natively a lookup table for replay).
#[macro_export]
macro_rules! harnesses {
    ($(#[unwind($u: expr)] $(#[$m: meta])* fn $name: ident() $body: block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            $(#[cfg_attr(kani, $m)])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn lookup(name: &str) -> Option<fn()> {
            match name {
                $(stringify!($name) => Some($name as fn()),)*
                _ => None
            }
        }
    };
}

/// Entry point of the native replay binary: `replay <harness> <file with the input bytes>`.
#[cfg(not(kani))]
pub fn replay_main(lookup: fn(&str) -> Option<fn()>) {
    let args: Vec<String> = std::env::args().collect();
    let f = match lookup(&args[1]) {
        Some(f) => f,
        None => {
            eprintln!("REPLAY: unknown harness {}", args[1]);
            std::process::exit(78);
        }
    };
    let mut input = std::fs::read(&args[2]).expect("input file");
    if args[1].rsplit_once("__").is_some_and(|(_, n)| n.parse::<usize>().is_ok()) && input.len() > 0 {
        let shape = input.remove(0) as usize;
        SHAPE.with(|v| v.set(shape));
    }
    set_input(input);
    match std::panic::catch_unwind(f) {
        Ok(()) => {
            println!("REPLAY: property holds on this input");
            std::process::exit(0)
        }
        Err(_) => {
            println!("REPLAY: property violated on this input");
            std::process::exit(1)
        }
    }
}

/// Leaks a value: keeps the drop glue of error types out of the formula.
#[inline]
pub fn leak<T>(v: T) { core::mem::forget(v) }

/// Well-formedness of UTF-8 as defined by the Unicode standard (table 3-7), used in place of
/// `core::str::from_utf8` whose word-at-a-time loop does not fit in a solver query.
pub fn valid_utf8(b: &[u8]) -> bool {
    let mut need = 0u8;
    let mut lo = 0x80u8;
    let mut hi = 0xBFu8;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if need == 0 {
            lo = 0x80;
            hi = 0xBF;
            if c < 0x80 {
            } else if c >= 0xC2 && c <= 0xDF {
                need = 1;
            } else if c >= 0xE0 && c <= 0xEF {
                need = 2;
                if c == 0xE0 { lo = 0xA0; }
                if c == 0xED { hi = 0x9F; }
            } else if c >= 0xF0 && c <= 0xF4 {
                need = 3;
                if c == 0xF0 { lo = 0x90; }
                if c == 0xF4 { hi = 0x8F; }
            } else {
                return false;
            }
        } else {
            if c < lo || c > hi {
                return false;
            }
            lo = 0x80;
            hi = 0xBF;
            need -= 1;
        }
        i += 1;
    }
    need == 0
}

pub fn from_utf8_model(v: &[u8]) -> core::result::Result<&str, core::str::Utf8Error> {
    if valid_utf8(v) {
        Ok(unsafe { core::str::from_utf8_unchecked(v) })
    } else {
        Err(unsafe { core::mem::zeroed() })
    }
}

/// Where only well-formed strings can be found: the result is a constant for the formulas.
pub fn from_utf8_valid(v: &[u8]) -> core::result::Result<&str, core::str::Utf8Error> {
    assert!(valid_utf8(v), "the bytes taken as a string are not those of the string written");
    Ok(unsafe { core::str::from_utf8_unchecked(v) })
}

/// Any answer: what follows must hold whether the bytes are well-formed or not.
pub fn from_utf8_any(v: &[u8]) -> core::result::Result<&str, core::str::Utf8Error> {
    if any_stub_bool() {
        Ok(unsafe { core::str::from_utf8_unchecked(v) })
    } else {
        Err(unsafe { core::mem::zeroed() })
    }
}
#[cfg(kani)]
fn any_stub_bool() -> bool { kani::any::<i128>() != 0 }
#[cfg(not(kani))]
fn any_stub_bool() -> bool { unreachable!() }

/// A symbolic string of at most N bytes in the given storage.
pub fn any_str<const N: usize>(storage: &mut [u8; N]) -> &str {
    *storage = any_bytes();
    let len = any_len(N);
    let s = &storage[..len];
    assume(valid_utf8(s));
    unsafe { core::str::from_utf8_unchecked(s) }
}

/// A fixed capacity writer; bytes over the capacity are an error.
pub struct Buf<const N: usize> {
    pub data: [u8; N],
    pub len: usize
}

impl<const N: usize> Buf<N> {
    pub fn new() -> Self { Self { data: [0; N], len: 0 } }
    pub fn as_slice(&self) -> &[u8] { &self.data[..self.len] }
    fn push(&mut self, buf: &[u8]) {
        assert!(buf.len() <= N - self.len, "the encoding is longer than expected");
        let mut i = 0;
        while i < buf.len() {
            self.data[self.len + i] = buf[i];
            i += 1;
        }
        self.len += buf.len();
    }
}

impl<const N: usize> std::io::Write for Buf<N> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.push(buf);
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.push(buf);
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

impl<const N: usize> AsRef<[u8]> for Buf<N> {
    fn as_ref(&self) -> &[u8] { &self.data[..self.len] }
}
impl<const N: usize> AsMut<[u8]> for Buf<N> {
    fn as_mut(&mut self) -> &mut [u8] { &mut self.data[..self.len] }
}

/// Byte-wise comparison (no memcmp).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
