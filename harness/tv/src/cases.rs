// Included once per byte order, with the generated protocol in scope and BIG set.

pub fn point(b: &[u8; 3]) -> Point<&[u8]> { Point::new(&b[..]) }

macro_rules! data {
    ($v: expr, $n: literal, $name: expr) => {{
        // The bytes of a decoded structure.
        let mut out = Buf::<$n>::new();
        leak(WriteTo::write_to($v, &mut out));
        assert!(out.len == $n, $name);
        out.data
    }};
}

macro_rules! struct_is {
    ($t: ident, $v: expr, $b: expr, $n: literal) => {{
        let mut out = Buf::<$n>::new();
        leak($t::write_to($v, &mut out));
        assert!(same(&out.data, &$b), "structure");
    }};
}

// ---------------------------------------------------------------- Sub

pub struct MSub { pub p: [u8; 3], pub s: Text<2> }
impl MSub {
    pub fn nested(s: &mut Shape) -> Self { MSub { p: any_bytes(), s: Text::nested(s) } }
    pub fn none() -> Self { MSub { p: [0; 3], s: Text { b: [0; 2], n: 0 } } }
    pub fn value(&self) -> Sub<'_> { Sub { p: Point::new(&self.p[..]), s: self.s.as_str() } }
}
impl Case for MSub {
    const BIG: bool = BIG;
    type Offsets = SubOffsets;
    fn ranges(o: &SubOffsets, r: &mut Ranges) { r.add(&o.p); r.add(&o.s); }
    type Msg<'a> = Sub<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MSub { p: any_bytes(), s: Text::any(s) } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Sub<'a> { self.value() }
    fn spec(&self, w: &mut Wire) {
        w.bytes(&self.p); w.end();
        w.num(self.s.n as u64, 1); w.bytes(self.s.as_bytes()); w.end();
    }
    fn check(&self, m: &Sub<'_>) {
        struct_is!(Point, &m.p, self.p, 3);
        assert!(self.s.is(m.s), "string");
    }
}
/// The offsets of a nested message are relative to it.
fn sub_ranges(s: &MSub, o: &SubOffsets) {
    assert!(o.p.start == 0 && o.p.end == 3, "range of a structure in a nested message");
    assert!(o.s.start == 3 && o.s.end == 4 + s.s.n, "range of a string in a nested message");
}
/// A nested message: its fields are not top level fields.
fn nested(s: &MSub, w: &mut Wire) {
    w.bytes(&s.p);
    w.num(s.s.n as u64, 1);
    w.bytes(s.s.as_bytes());
}

// ---------------------------------------------------------------- Scalars

pub struct MScalars { a: i8, b: u16, c: i32, d: u64, e: u32, f: u64, g: bool }
impl Case for MScalars {
    const BIG: bool = BIG;
    type Offsets = ScalarsOffsets;
    fn ranges(o: &ScalarsOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); r.add(&o.c); r.add(&o.d); r.add(&o.e); r.add(&o.f); r.add(&o.g); }
    type Msg<'a> = Scalars;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MScalars { a: any_i8(), b: any_u16(), c: any_i32(), d: any_u64(), e: any_u32(), f: any_u64(), g: any_bool() } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Scalars {
        Scalars { a: self.a, b: self.b, c: self.c, d: self.d, e: f32::from_bits(self.e), f: f64::from_bits(self.f), g: self.g }
    }
    fn spec(&self, w: &mut Wire) {
        w.num(self.a as u8 as u64, 1); w.end();
        w.num(self.b as u64, 2); w.end();
        w.num(self.c as u32 as u64, 4); w.end();
        w.num(self.d, 8); w.end();
        w.num(self.e as u64, 4); w.end();
        w.num(self.f, 8); w.end();
        w.num(self.g as u64, 1); w.end();
    }
    fn check(&self, m: &Scalars) {
        assert!(m.a == self.a && m.b == self.b && m.c == self.c && m.d == self.d, "integers");
        assert!(m.e.to_bits() == self.e && m.f.to_bits() == self.f, "floats");
        assert!(m.g == self.g, "boolean");
    }
}

// ---------------------------------------------------------------- Structs

pub struct MStructs { a: [u8; 3], b: [u8; 1], c: [u8; 5], d: u16 }
impl Case for MStructs {
    const BIG: bool = BIG;
    type Offsets = StructsOffsets;
    fn ranges(o: &StructsOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); r.add(&o.c); r.add(&o.d); }
    type Msg<'a> = Structs<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MStructs { a: any_bytes(), b: any_bytes(), c: any_bytes(), d: any_u16() } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Structs<'a> {
        Structs { a: U24::new(&self.a[..]), b: Tag::new(&self.b[..]), c: Outer::new(&self.c[..]), d: self.d }
    }
    fn spec(&self, w: &mut Wire) {
        w.bytes(&self.a); w.end();
        w.bytes(&self.b); w.end();
        w.bytes(&self.c); w.end();
        w.num(self.d as u64, 2); w.end();
    }
    fn check(&self, m: &Structs<'_>) {
        struct_is!(U24, &m.a, self.a, 3);
        struct_is!(Tag, &m.b, self.b, 1);
        struct_is!(Outer, &m.c, self.c, 5);
        assert!(m.d == self.d, "number");
    }
}

// ---------------------------------------------------------------- Strs

pub struct MStrs { b: Text<2>, c: Text<3>, d: i8 }
impl Case for MStrs {
    const BIG: bool = BIG;
    type Offsets = StrsOffsets;
    fn ranges(o: &StrsOffsets, r: &mut Ranges) { r.add(&o.b); r.add(&o.c); r.add(&o.d); }
    type Msg<'a> = Strs<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MStrs { b: Text::any(s), c: Text::any(s), d: any_i8() } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Strs<'a> { Strs { b: self.b.as_str(), c: self.c.as_str(), d: self.d } }
    fn spec(&self, w: &mut Wire) {
        w.num(self.b.n as u64, 1); w.bytes(self.b.as_bytes()); w.end();
        w.num(self.c.n as u64, 2); w.bytes(self.c.as_bytes()); w.end();
        w.byte(self.d as u8); w.end();
    }
    fn check(&self, m: &Strs<'_>) {
        assert!(self.b.is(m.b), "string with a byte prefix");
        assert!(self.c.is(m.c), "string with a two byte prefix");
        assert!(m.d == self.d, "number");
    }
}

// ---------------------------------------------------------------- Nuls

pub struct MNuls { a: Text<2>, b: u16, c: Text<2> }
impl Case for MNuls {
    const BIG: bool = BIG;
    type Offsets = NulsOffsets;
    fn ranges(o: &NulsOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); r.add(&o.c); }
    type Msg<'a> = Nuls<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MNuls { a: Text::any_without_null(s), b: any_u16(), c: Text::any_without_null(s) } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Nuls<'a> { Nuls { a: self.a.as_str(), b: self.b, c: self.c.as_str() } }
    fn spec(&self, w: &mut Wire) {
        w.bytes(self.a.as_bytes()); w.byte(0); w.end();
        w.num(self.b as u64, 2); w.end();
        w.bytes(self.c.as_bytes()); w.byte(0); w.end();
    }
    fn check(&self, m: &Nuls<'_>) {
        assert!(self.a.is(m.a), "null terminated string");
        assert!(self.c.is(m.c), "last null terminated string");
        assert!(m.b == self.b, "number");
    }
}

// ---------------------------------------------------------------- Longs

pub struct MLongs { a: Text<2>, b: Text<2> }
impl Case for MLongs {
    const BIG: bool = BIG;
    type Offsets = LongsOffsets;
    fn ranges(o: &LongsOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); }
    type Msg<'a> = Longs<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MLongs { a: Text::any(s), b: Text::any(s) } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Longs<'a> { Longs { a: self.a.as_str(), b: self.b.as_str() } }
    fn spec(&self, w: &mut Wire) {
        w.num(self.a.n as u64, 4); w.bytes(self.a.as_bytes()); w.end();
        w.num(self.b.n as u64, 8); w.bytes(self.b.as_bytes()); w.end();
    }
    fn check(&self, m: &Longs<'_>) {
        assert!(self.a.is(m.a), "string with a four byte prefix");
        assert!(self.b.is(m.b), "string with an eight byte prefix");
    }
}

// ---------------------------------------------------------------- Opts

pub struct MOpts { a: Option<([u8; 6], usize)>, b: u16, c: Option<MSub>, d: i8 }
impl Case for MOpts {
    const BIG: bool = BIG;
    type Offsets = OptsOffsets;
    fn ranges(o: &OptsOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); r.add(&o.c); r.add(&o.d); }
    type Msg<'a> = Opts<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self {
        MOpts {
            a: if s.bool() { Some((any_bytes(), s.pick(2))) } else { None },
            b: any_u16(),
            c: if s.bool() { Some(MSub::nested(s)) } else { None },
            d: any_i8()
        }
    }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Opts<'a> {
        Opts {
            a: match &self.a { Some((b, n)) => Some(unsafe { Array::from_raw_parts(&b[..*n * 3], *n) }), None => None },
            b: self.b,
            c: match &self.c { Some(c) => Some(c.value()), None => None },
            d: self.d
        }
    }
    fn spec(&self, w: &mut Wire) {
        match &self.a { Some((b, n)) => { w.byte(1); w.num(*n as u64, 1); w.bytes(&b[..*n * 3]); }, None => w.byte(0) }
        w.end();
        w.num(self.b as u64, 2); w.end();
        match &self.c { Some(c) => { w.byte(1); nested(c, w); }, None => w.byte(0) }
        w.end();
        w.byte(self.d as u8); w.end();
    }
    fn check(&self, m: &Opts<'_>) {
        match (&m.a, &self.a) {
            (Some(m), Some((b, n))) => {
                assert!(m.len() == *n, "count of an optional array");
                let mut i = 0;
                while i < *n {
                    let p: Point<&[u8]> = m.get(i);
                    struct_is!(Point, &p, b[i * 3..i * 3 + 3], 3);
                    i += 1;
                }
            },
            (None, None) => (),
            _ => panic!("optional array")
        }
        match (&m.c, &self.c) {
            (Some(m), Some(c)) => c.check(m),
            (None, None) => (),
            _ => panic!("optional message")
        }
        assert!(m.b == self.b && m.d == self.d, "numbers");
    }
    fn check_nested(&self, _: &Opts<'_>, o: &OptsOffsets) {
        match (&self.c, &o.c_offsets) {
            (Some(c), Some(o)) => sub_ranges(c, o),
            (None, None) => (),
            _ => panic!("offsets of an optional message")
        }
    }
}

// ---------------------------------------------------------------- Nest

pub struct MNest { a: u16, b: MSub, c: MSub, d: i8 }
impl Case for MNest {
    const BIG: bool = BIG;
    type Offsets = NestOffsets;
    fn ranges(o: &NestOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); r.add(&o.c); r.add(&o.d); }
    type Msg<'a> = Nest<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MNest { a: any_u16(), b: MSub::any(s), c: MSub::nested(s), d: any_i8() } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Nest<'a> { Nest { a: self.a, b: self.b.value(), c: self.c.value(), d: self.d } }
    fn spec(&self, w: &mut Wire) {
        w.num(self.a as u64, 2); w.end();
        nested(&self.b, w); w.end();
        nested(&self.c, w); w.end();
        w.byte(self.d as u8); w.end();
    }
    fn check(&self, m: &Nest<'_>) {
        assert!(m.a == self.a && m.d == self.d, "numbers");
        self.b.check(&m.b);
        self.c.check(&m.c);
    }
    fn check_nested(&self, _: &Nest<'_>, o: &NestOffsets) {
        sub_ranges(&self.b, &o.b_offsets);
        sub_ranges(&self.c, &o.c_offsets);
    }
}

// ---------------------------------------------------------------- Arrs

pub struct MArrs { a: [u8; 6], an: usize, b: [u8; 6], bn: usize, c: u16 }
impl Case for MArrs {
    const BIG: bool = BIG;
    type Offsets = ArrsOffsets;
    fn ranges(o: &ArrsOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); r.add(&o.c); }
    type Msg<'a> = Arrs<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { 
        let an = s.len(2);
        let bn = if cfg!(feature = "thorough") { s.len(2) } else { 2 - an };
        MArrs { a: any_bytes(), an, b: any_bytes(), bn, c: any_u16() }
     }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Arrs<'a> {
        Arrs {
            a: unsafe { Array::from_raw_parts(&self.a[..self.an * 3], self.an) },
            b: unsafe { Array::from_raw_parts(&self.b[..self.bn * 3], self.bn) },
            c: self.c
        }
    }
    fn spec(&self, w: &mut Wire) {
        w.num(self.an as u64, 1); w.bytes(&self.a[..self.an * 3]); w.end();
        w.num(self.bn as u64, 4); w.bytes(&self.b[..self.bn * 3]); w.end();
        w.num(self.c as u64, 2); w.end();
    }
    fn check(&self, m: &Arrs<'_>) {
        assert!(m.a.len() == self.an && m.b.len() == self.bn && m.c == self.c, "counts");
        let mut i = 0;
        while i < 2 {
            if i < self.an {
                let p: Point<&[u8]> = m.a.get(i);
                struct_is!(Point, &p, self.a[i * 3..i * 3 + 3], 3);
            }
            if i < self.bn {
                let p: U24<&[u8]> = m.b.get(i);
                struct_is!(U24, &p, self.b[i * 3..i * 3 + 3], 3);
            }
            i += 1;
        }
    }
    fn walk(m: &Arrs<'_>) {
        let mut n = 0;
        for p in m.a.iter::<Point<&[u8]>>() {
            leak(p.get_raw_x());
            n += 1;
        }
        assert!(n == m.a.len(), "the array has as many items as it says");
        if m.b.len() > 0 {
            let p: U24<&[u8]> = m.b.get(m.b.len() - 1);
            leak(p.get_raw_v());
        }
    }
}

// ---------------------------------------------------------------- lists of messages

pub struct Subs { pub items: [MSub; 2], pub n: usize }
impl Subs {
    pub fn any(s: &mut Shape) -> Self { 
        let n = s.len(2);
        let a = if n > 0 { MSub::nested(s) } else { MSub::none() };
        let b = if n > 1 { MSub::nested(s) } else { MSub::none() };
        Subs { items: [a, b], n }
     }
    pub fn spec(&self, w: &mut Wire) {
        if self.n > 0 { nested(&self.items[0], w); }
        if self.n > 1 { nested(&self.items[1], w); }
    }
    /// The encoded items, as found in the data of a list.
    pub fn encode(&self) -> Wire {
        let mut w = Wire::new(BIG);
        self.spec(&mut w);
        w
    }
    pub fn check_offsets<T>(&self, l: &List<&[u8], T, Sub<'_>>) {
        let mut it = l.iter_offsets();
        let mut i = 0;
        while i < 2 {
            if i < self.n {
                match it.next() {
                    Some(Ok((m, o))) => { self.items[i].check(&m); sub_ranges(&self.items[i], &o); },
                    v => { leak(v); panic!("an item of the list does not decode with offsets") }
                }
            }
            i += 1;
        }
        match it.next() {
            None => (),
            v => { leak(v); panic!("the list goes on") }
        }
    }
    pub fn check<B: AsRef<[u8]>, T>(&self, l: &List<B, T, Sub<'_>>) where for<'a> Sub<'a>: FromSlice<'a, Output = Sub<'a>> {
        assert!(l.len() == self.n, "count of a list");
        let r: List<&[u8], T, Sub> = l.to_ref();
        let mut it = r.iter();
        let mut i = 0;
        while i < 2 {
            if i < self.n {
                match it.next() {
                    Some(Ok(m)) => self.items[i].check(&m),
                    Some(Err(e)) => { leak(e); panic!("an item of the list does not decode") },
                    None => panic!("the list stops early")
                }
            }
            i += 1;
        }
        match it.next() {
            None => (),
            v => { leak(v); panic!("the list goes on") }
        }
    }
}

/// Up to two items: what follows an item is again arbitrary bytes.
pub fn walk_list<'a, T, I: FromSlice<'a, Output = I> + 'a>(l: &'a List<&'a [u8], T, I>) {
    let mut it = l.iter();
    match it.next() {
        Some(Ok(m)) => {
            leak(m);
            let n = it.next();
            assert!(n.is_some() == (l.len() > 1), "a list has as many items as it says");
            leak(n);
        },
        Some(Err(e)) => {
            leak(e);
            let n = it.next();
            assert!(n.is_none(), "a list ends after its first error");
            leak(n);
        },
        None => assert!(l.len() == 0, "a list has as many items as it says")
    }
}

pub struct MTrail { a: i8, b: Subs }
impl Case for MTrail {
    const BIG: bool = BIG;
    type Offsets = TrailOffsets;
    fn ranges(o: &TrailOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); }
    type Msg<'a> = Trail<'a>;
    type Scratch = Wire;
    fn any(s: &mut Shape) -> Self { MTrail { a: any_i8(), b: Subs::any(s) } }
    fn scratch() -> Wire { Wire::new(BIG) }
    fn build<'a>(&'a self, s: &'a mut Wire) -> Trail<'a> {
        self.b.spec(s);
        Trail { a: self.a, b: unsafe { List::from_raw_parts(s.as_slice(), self.b.n) } }
    }
    fn spec(&self, w: &mut Wire) {
        w.byte(self.a as u8); w.end();
        w.num(self.b.n as u64, 2); self.b.spec(w); w.end();
    }
    fn check(&self, m: &Trail<'_>) {
        assert!(m.a == self.a, "number");
        self.b.check(&m.b);
    }
    fn check_nested(&self, m: &Trail<'_>, _: &TrailOffsets) { self.b.check_offsets(&m.b) }
    fn takes_rest() -> bool { true }
    fn walk(m: &Trail<'_>) { walk_list(&m.b) }
}

pub struct MEmb { a: Subs, b: u16 }
impl Case for MEmb {
    const BIG: bool = BIG;
    type Offsets = EmbOffsets;
    fn ranges(o: &EmbOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.b); }
    type Msg<'a> = Emb<'a>;
    type Scratch = Wire;
    fn any(s: &mut Shape) -> Self { MEmb { a: Subs::any(s), b: any_u16() } }
    fn scratch() -> Wire { Wire::new(BIG) }
    fn build<'a>(&'a self, s: &'a mut Wire) -> Emb<'a> {
        self.a.spec(s);
        Emb { a: unsafe { List::from_raw_parts(s.as_slice(), self.a.n) }, b: self.b }
    }
    fn spec(&self, w: &mut Wire) {
        w.num(self.a.n as u64, 2); self.a.spec(w); w.end();
        w.num(self.b as u64, 2); w.end();
    }
    fn check(&self, m: &Emb<'_>) {
        self.a.check(&m.a);
        assert!(m.b == self.b, "number");
    }
    fn check_nested(&self, m: &Emb<'_>, _: &EmbOffsets) { self.a.check_offsets(&m.a) }
    fn walk(m: &Emb<'_>) { walk_list(&m.a) }
}

/// A list of messages which have a list themselves.
pub struct MTable { rows: [(i8, MSub, usize); 2], n: usize }
fn any_row(n: usize, s: &mut Shape) -> (i8, MSub, usize) {
    (any_i8(), if n > 0 { MSub { p: any_bytes(), s: Text::upto(1, s) } } else { MSub::none() }, n)
}
fn row(r: &(i8, MSub, usize), w: &mut Wire) {
    w.byte(r.0 as u8);
    w.num(r.2 as u64, 1);
    if r.2 > 0 { nested(&r.1, w); }
}
impl Case for MTable {
    const BIG: bool = BIG;
    type Offsets = TableOffsets;
    fn ranges(o: &TableOffsets, r: &mut Ranges) { r.add(&o.rows); }
    type Msg<'a> = Table<'a>;
    type Scratch = Wire;
    fn any(s: &mut Shape) -> Self {
        let n = s.len(2);
        let a = if n > 0 { any_row(s.pick(1), s) } else { (0, MSub::none(), 0) };
        let b = if n > 1 { any_row(s.len(1), s) } else { (0, MSub::none(), 0) };
        MTable { rows: [a, b], n }
    }
    fn scratch() -> Wire { Wire::new(BIG) }
    fn build<'a>(&'a self, s: &'a mut Wire) -> Table<'a> {
        if self.n > 0 { row(&self.rows[0], s); }
        if self.n > 1 { row(&self.rows[1], s); }
        Table { rows: unsafe { List::from_raw_parts(s.as_slice(), self.n) } }
    }
    fn spec(&self, w: &mut Wire) {
        w.num(self.n as u64, 1);
        if self.n > 0 { row(&self.rows[0], w); }
        if self.n > 1 { row(&self.rows[1], w); }
        w.end();
    }
    fn check(&self, m: &Table<'_>) {
        assert!(m.rows.len() == self.n, "count");
        let mut it = m.rows.iter();
        let mut i = 0;
        while i < 2 {
            if i < self.n {
                match it.next() {
                    Some(Ok(m)) => {
                        assert!(m.id == self.rows[i].0 && m.cells.len() == self.rows[i].2, "row");
                        let mut it = m.cells.iter();
                        if self.rows[i].2 > 0 {
                            match it.next() {
                                Some(Ok(m)) => self.rows[i].1.check(&m),
                                v => { leak(v); panic!("cell") }
                            }
                        }
                        match it.next() {
                            None => (),
                            v => { leak(v); panic!("the cells go on") }
                        }
                    },
                    v => { leak(v); panic!("row") }
                }
            }
            i += 1;
        }
        match it.next() {
            None => (),
            v => { leak(v); panic!("the rows go on") }
        }
    }
    fn takes_rest() -> bool { true }
    fn walk(m: &Table<'_>) { walk_list(&m.rows) }
}

// ---------------------------------------------------------------- unions

/// Bytes 0 and 1 hold flags and size, byte 2 the kind.
pub struct MUni { h: [u8; 3], n: i8, which: u8, p: [u8; 3], s: MSub, z: u16 }
impl Case for MUni {
    const BIG: bool = BIG;
    type Offsets = UniOffsets;
    fn ranges(o: &UniOffsets, r: &mut Ranges) { r.add(&o.h); r.add(&o.n); r.add(&o.v); r.add(&o.z); }
    type Msg<'a> = Uni<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self {
        let mut h: [u8; 3] = any_bytes();
        let which = s.len(2) as u8;
        h[2] = if which == 0 { 0 } else if which == 1 { 7 } else { 2 };
        let sub = if which == 2 { MSub::nested(s) } else { MSub::none() };
        MUni { h, n: any_i8(), which, p: any_bytes(), s: sub, z: any_u16() }
    }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Uni<'a> {
        Uni {
            h: Hdr::new(&self.h[..]),
            n: self.n,
            v: if self.which == 0 { Value::Nothing } else if self.which == 1 { Value::Spot(Point::new(&self.p[..])) } else { Value::Text(self.s.value()) },
            z: self.z
        }
    }
    fn spec(&self, w: &mut Wire) {
        w.bytes(&self.h); w.end();
        w.byte(self.n as u8); w.end();
        if self.which == 1 { w.bytes(&self.p); }
        if self.which == 2 { nested(&self.s, w); }
        w.end();
        w.num(self.z as u64, 2); w.end();
    }
    fn check(&self, m: &Uni<'_>) {
        struct_is!(Hdr, &m.h, self.h, 3);
        assert!(m.n == self.n && m.z == self.z, "numbers");
        match (&m.v, self.which) {
            (Value::Nothing, 0) => (),
            (Value::Spot(p), 1) => struct_is!(Point, p, self.p, 3),
            (Value::Text(s), 2) => self.s.check(s),
            _ => panic!("union case")
        }
    }
}

/// Two unions on two fields of the same structure, one in a nested structure.
/// Byte 0: head, bytes 1 and 2: inner (2 bits of padding, 6 of selector, 8 of padding), bytes 3 and 4: 12 bits of
/// number, 4 of boolean.
pub struct MUnis { h: [u8; 5], d: u8, e: u8, p: [u8; 3], u: [u8; 3], s: MSub }
pub fn set_sel(h: &mut [u8; 5], v: u8) { h[1] = if BIG { (h[1] & 0xC0) | (v & 0x3F) } else { (h[1] & 3) | (v << 2) } }
pub fn set_num(h: &mut [u8; 5], v: u16) {
    if BIG {
        h[3] = (v >> 4) as u8;
        h[4] = (h[4] & 0x0F) | ((v as u8) << 4);
    } else {
        h[3] = v as u8;
        h[4] = (h[4] & 0xF0) | (v >> 8) as u8;
    }
}
impl Case for MUnis {
    const BIG: bool = BIG;
    type Offsets = UnisOffsets;
    fn ranges(o: &UnisOffsets, r: &mut Ranges) { r.add(&o.h); r.add(&o.d); r.add(&o.e); }
    type Msg<'a> = Unis<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self {
        let mut h: [u8; 5] = any_bytes();
        let d = s.len(2) as u8;
        let e = s.len(2) as u8;
        // The other bits of the bytes of the discriminants: constants, as the discriminants are.
        let pad = if if cfg!(feature = "thorough") { s.bool() } else { (d + e) % 2 == 1 } { 0xFF } else { 0 };
        h[1] = pad;
        h[4] = pad;
        set_sel(&mut h, if d == 0 { (-3i8) as u8 } else if d == 1 { (-32i8) as u8 } else { 5 });
        set_num(&mut h, if e == 0 { 0 } else if e == 1 { 4095 } else { 256 });
        let sub = if e == 0 { MSub::nested(s) } else { MSub::none() };
        MUnis { h, d, e, p: any_bytes(), u: any_bytes(), s: sub }
    }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Unis<'a> {
        Unis {
            h: Outer::new(&self.h[..]),
            d: if self.d == 0 { Deep::Neg(Point::new(&self.p[..])) } else if self.d == 1 { Deep::Min } else { Deep::Pos(U24::new(&self.u[..])) },
            e: if self.e == 0 { Num::Small(self.s.value()) } else if self.e == 1 { Num::Large(Point::new(&self.p[..])) } else { Num::Empty }
        }
    }
    fn spec(&self, w: &mut Wire) {
        w.bytes(&self.h); w.end();
        if self.d == 0 { w.bytes(&self.p); }
        if self.d == 2 { w.bytes(&self.u); }
        w.end();
        if self.e == 0 { nested(&self.s, w); }
        if self.e == 1 { w.bytes(&self.p); }
        w.end();
    }
    fn check(&self, m: &Unis<'_>) {
        struct_is!(Outer, &m.h, self.h, 5);
        match (&m.d, self.d) {
            (Deep::Neg(p), 0) => struct_is!(Point, p, self.p, 3),
            (Deep::Min, 1) => (),
            (Deep::Pos(p), 2) => struct_is!(U24, p, self.u, 3),
            _ => panic!("case of a union on a nested signed field")
        }
        match (&m.e, self.e) {
            (Num::Small(s), 0) => self.s.check(s),
            (Num::Large(p), 1) => struct_is!(Point, p, self.p, 3),
            (Num::Empty, 2) => (),
            _ => panic!("case of a union on a number")
        }
    }
}

// ---------------------------------------------------------------- payload

pub struct MPay { a: u16, s: Text<2>, p: [u8; 3], n: usize }
impl Case for MPay {
    const BIG: bool = BIG;
    type Offsets = PayOffsets;
    fn ranges(o: &PayOffsets, r: &mut Ranges) { r.add(&o.a); r.add(&o.s); r.add(&o.p); }
    type Msg<'a> = Pay<'a>;
    type Scratch = ();
    fn any(s: &mut Shape) -> Self { MPay { a: any_u16(), s: Text::any(s), p: any_bytes(), n: s.text(3) } }
    fn scratch() -> () {}
    fn build<'a>(&'a self, _: &'a mut ()) -> Pay<'a> { Pay { a: self.a, s: self.s.as_str(), p: &self.p[..self.n] } }
    fn spec(&self, w: &mut Wire) {
        w.num(self.a as u64, 2); w.end();
        w.num(self.s.n as u64, 2); w.bytes(self.s.as_bytes()); w.end();
        w.bytes(&self.p[..self.n]); w.end();
    }
    fn check(&self, m: &Pay<'_>) {
        assert!(m.a == self.a && self.s.is(m.s) && same(m.p, &self.p[..self.n]), "payload");
    }
    fn payload() -> bool { true }
    fn takes_rest() -> bool { true }
}
