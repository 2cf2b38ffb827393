// The wire format, as declared: written by hand from the documentation of the format, not from the
// generated code.
use crate::sym::*;
use bp3d_proto::message::{FieldOffset, FromSlice, FromSliceWithOffsets, WriteTo};

pub const CAP: usize = 48;

/// An encoding, and where each top level field ends.
pub struct Wire {
    pub data: [u8; CAP],
    pub len: usize,
    pub big: bool,
    pub ends: [usize; 8],
    pub fields: usize
}

impl Wire {
    pub fn new(big: bool) -> Self { Wire { data: [0; CAP], len: 0, big, ends: [0; 8], fields: 0 } }
    pub fn as_slice(&self) -> &[u8] { &self.data[..self.len] }
    pub fn byte(&mut self, b: u8) {
        self.data[self.len] = b;
        self.len += 1;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.byte(b[i]);
            i += 1;
        }
    }
    /// A number of n bytes in the byte order of the protocol.
    pub fn num(&mut self, v: u64, n: usize) {
        let mut i = 0;
        while i < n {
            let k = if self.big { n - 1 - i } else { i };
            self.byte((v >> (8 * k)) as u8);
            i += 1;
        }
    }
    /// Ends a top level field.
    pub fn end(&mut self) {
        self.ends[self.fields] = self.len;
        self.fields += 1;
    }
}

/// A string of at most N bytes.
pub struct Text<const N: usize> {
    pub b: [u8; N],
    pub n: usize
}

impl<const N: usize> Text<N> {
    pub fn any(s: &mut Shape) -> Self {
        let t = Text { b: any_bytes(), n: s.text(N) };
        assume(valid_utf8(&t.b[..t.n]));
        t
    }
    pub fn nested(s: &mut Shape) -> Self { Self::upto(N, s) }
    pub fn upto(max: usize, s: &mut Shape) -> Self {
        let t = Text { b: any_bytes(), n: s.pick(max) };
        assume(valid_utf8(&t.b[..t.n]));
        t
    }
    pub fn any_without_null(s: &mut Shape) -> Self {
        let t = Self::any(s);
        let mut i = 0;
        while i < N {
            assume(i >= t.n || t.b[i] != 0);
            i += 1;
        }
        t
    }
    pub fn as_bytes(&self) -> &[u8] { &self.b[..self.n] }
    pub fn as_str(&self) -> &str { unsafe { core::str::from_utf8_unchecked(self.as_bytes()) } }
    pub fn is(&self, s: &str) -> bool { same(self.as_bytes(), s.as_bytes()) }
}

/// The fixed bytes of a structure.
pub struct Raw<const N: usize>(pub [u8; N]);

impl<const N: usize> Raw<N> {
    pub fn any() -> Self { Raw(any_bytes()) }
}

/// The lengths, counts, presences and cases of a message, as digits of a number: the harnesses run on
/// every shape, so that they are constants of the formulas, whose symbolic inputs are then the values.
pub struct Shape(pub usize);

impl Shape {
    pub fn len(&mut self, max: usize) -> usize {
        let v = self.0 % (max + 1);
        self.0 /= max + 1;
        v
    }
    /// The length of a string: empty or the longest, or (thorough) anything between.
    pub fn text(&mut self, max: usize) -> usize {
        if cfg!(feature = "thorough") { self.len(max) } else { self.len(1) * max }
    }
    /// Secondary lengths: the longest, or (thorough) anything.
    pub fn pick(&mut self, max: usize) -> usize {
        if cfg!(feature = "thorough") { self.len(max) } else { max }
    }
    pub fn bool(&mut self) -> bool { self.len(1) == 1 }
}

/// Any value of the shape.
pub fn any_case<C: Case, F: Fn(C)>(f: F) {
    let mut shape = Shape(shape());
    let c = C::any(&mut shape);
    // What is left would be a second name for a shape.
    if shape.0 == 0 {
        f(c);
        witness!(true);
    } else {
        #[cfg(kani)]
        kani::cover!(true, "shape skipped");
    }
}

/// A message of the corpus: a plain model of its value, its construction as a generated message,
/// its encoding by hand, and the comparison of a decoded message to the model.
pub trait Case: Sized {
    const BIG: bool;
    type Msg<'a>: WriteTo<Input = Self::Msg<'a>> + FromSlice<'a, Output = Self::Msg<'a>> + FromSliceWithOffsets<'a, Offsets = Self::Offsets> where Self: 'a;
    type Offsets;
    type Scratch;
    fn any(s: &mut Shape) -> Self;
    fn scratch() -> Self::Scratch;
    fn build<'a>(&'a self, scratch: &'a mut Self::Scratch) -> Self::Msg<'a>;
    fn spec(&self, w: &mut Wire);
    fn check(&self, m: &Self::Msg<'_>);
    /// An unsized list or payload takes the rest of the input.
    fn takes_rest() -> bool { false }
    /// A trailing payload has no end of its own.
    fn payload() -> bool { false }
    /// The offsets of nested messages, and decoding items with offsets.
    fn check_nested(&self, _m: &Self::Msg<'_>, _o: &Self::Offsets) {}
    /// Walks everything the decoded message gives access to.
    fn walk(_m: &Self::Msg<'_>) {}
    /// The ranges of the top level fields.
    fn ranges(o: &Self::Offsets, r: &mut Ranges);
}

/// Field ranges reported by a decoder.
pub struct Ranges {
    pub of: [FieldOffset; 8],
    pub n: usize
}

impl Ranges {
    pub fn new() -> Self { Ranges { of: [FieldOffset { start: 0, end: 0 }; 8], n: 0 } }
    pub fn add(&mut self, f: &FieldOffset) {
        self.of[self.n] = *f;
        self.n += 1;
    }
    /// Consecutive ranges, from 0 to the given end.
    pub fn consecutive(&self, end: usize) -> bool {
        let mut ok = self.of[0].start == 0 && self.of[self.n - 1].end == end;
        let mut i = 0;
        while i < self.n {
            ok = ok && self.of[i].start <= self.of[i].end && (i == 0 || self.of[i].start == self.of[i - 1].end);
            i += 1;
        }
        ok
    }
}
