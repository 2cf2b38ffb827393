// Included once per byte order of the imported protocol, with both protocols in scope.
use bp3d_proto::message::{FromSlice, WriteTo};
use crate::oracle::*;

/// The byte order of the protocol which imports.
const USER: bool = !BASE;

fn number(b: &[u8], big: bool) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < b.len() {
        v |= (b[i] as u64) << (8 * if big { b.len() - 1 - i } else { i });
        i += 1;
    }
    v
}

fn bits(b: &[u8; 4], pos: usize, w: usize) -> u128 { if BASE { get_be(b, pos, w) } else { get_le(b, pos, w) } }

fn four(b: &[u8]) -> [u8; 4] { [b[0], b[1], b[2], b[3]] }

/// The fields of an imported structure, from its bytes.
fn pair_is(p: &Pair<&[u8]>, b: [u8; 4]) {
    assert!(p.get_x() as u128 == bits(&b, 0, 16), "number of an imported structure");
    assert!(p.get_y() as i128 == ((bits(&b, 16, 12) << 116) as i128) >> 116, "signed number of an imported structure");
    assert!(p.get_k() as u128 == bits(&b, 28, 4), "small number of an imported structure");
}

fn kind_is(k: Option<Kind>, raw: u64) {
    match k {
        Some(Kind::First) => assert!(raw == 1, "variant of an imported enum"),
        Some(Kind::Second) => assert!(raw == 300, "variant of an imported enum"),
        None => assert!(raw != 1 && raw != 300, "no variant of an imported enum")
    }
}

fn note_is(n: &Note<'_>, v: [u8; 4], s: &[u8]) {
    assert!(n.v as u32 as u64 == number(&v, BASE), "number of an imported message");
    assert!(same(n.s.as_bytes(), s), "string of an imported message");
}

/// The message of these bytes, and these bytes again from the message.
macro_rules! decoded {
    ($t: ident, $w: expr, |$m: ident| $check: block) => {{
        match $t::from_slice($w.as_slice()) {
            Ok(m) => {
                assert!(m.size() == $w.len, "size");
                let $m = m.into_inner();
                $check
                let mut out = Buf::<CAP>::new();
                let res = <$t as WriteTo>::write_to(&$m, &mut out);
                assert!(res.is_ok(), "writing succeeds");
                leak(res);
                leak($m);
                assert!(out.len == $w.len, "encoded length");
                let mut i = 0;
                while i < CAP {
                    assert!(i >= $w.len || out.data[i] == $w.data[i], "encoded byte");
                    i += 1;
                }
            },
            Err(e) => {
                leak(e);
                panic!("the encoding is refused");
            }
        };
        witness!(true);
    }};
}

pub fn mix() {
    let b: [u8; 20] = any_bytes();
    let mut w = Wire::new(USER);
    w.bytes(&b);
    decoded!(Mix, w, |m| {
        assert!(m.o.get_a() as u64 == number(&b[0..2], USER), "number next to an imported structure");
        pair_is(&m.o.get_p(), four(&b[2..6]));
        kind_is(m.o.get_k(), number(&b[6..8], USER));
        assert!(m.v as u32 as u64 == number(&b[8..12], BASE), "imported structure of a single number");
        pair_is(&m.p, four(&b[12..16]));
        let c = m.g.get_c();
        assert!(c.len() == 2 && c.get_raw(0) as u64 == number(&b[16..18], BASE) && c.get_raw(1) as u64 == number(&b[18..20], BASE), "imported array");
    });
    // Setters.
    let mut o = [0u8; 8];
    let (x, y) = (any_u16(), any_i16());
    assume(y >= -2048 && y < 2048);
    {
        let mut own = Own::new(&mut o[..]);
        own.set_a(x).set_k(if y < 0 { Kind::First } else { Kind::Second });
        own.get_p_mut().set_x(x).set_y(y);
    }
    assert!(number(&o[0..2], USER) == x as u64, "set next to an imported structure");
    let p = four(&o[2..6]);
    assert!(bits(&p, 0, 16) == x as u128 && bits(&p, 16, 12) == y as u128 & 0xfff && bits(&p, 28, 4) == 0, "set in an imported structure");
    assert!(number(&o[6..8], USER) == if y < 0 { 1 } else { 300 }, "set an imported enum");
}

fn any_text(n: usize) -> [u8; 2] {
    let t: [u8; 2] = any_bytes();
    assume(valid_utf8(&t[..n]));
    t
}

fn note(w: &mut Wire, v: &[u8; 4], s: &[u8]) {
    // The length is in the order of the imported protocol, whatever the one which imports.
    w.bytes(v);
    let n = s.len() as u8;
    w.bytes(&if BASE { [0, n] } else { [n, 0] });
    w.bytes(s);
}

pub fn notes() {
    let k = shape();
    let (n, items) = (k % 2 * 2, k / 2);
    let (v, v1): ([u8; 4], [u8; 4]) = (any_bytes(), any_bytes());
    let (t, t1) = (any_text(n), any_text(1));
    let mut w = Wire::new(USER);
    note(&mut w, &v, &t[..n]);
    w.num(items as u64, 2);
    if items > 0 { note(&mut w, &v1, &t1[..1]); }
    decoded!(Notes, w, |m| {
        note_is(&m.n, v, &t[..n]);
        assert!(m.ns.len() == items, "number of items");
        let mut it = m.ns.iter();
        if items > 0 {
            match it.next() {
                Some(Ok(i)) => note_is(&i, v1, &t1[..1]),
                _ => panic!("an item is missing")
            }
        }
        assert!(it.next().is_none(), "too many items");
    });
}

pub fn bags() {
    let k = shape();
    let (a, b) = (k % 2, k / 2);
    let (p, q): ([u8; 4], [u8; 4]) = (any_bytes(), any_bytes());
    let mut w = Wire::new(USER);
    w.bytes(&if BASE { [0, a as u8] } else { [a as u8, 0] });
    if a > 0 { w.bytes(&p); }
    w.num(b as u64, 2);
    if b > 0 { w.bytes(&q); }
    decoded!(Bags, w, |m| {
        assert!(m.b.ps.len() == a && m.ps.len() == b, "number of items");
        if a > 0 { pair_is(&m.b.ps.get(0), p); }
        if b > 0 {
            pair_is(&m.ps.get(0), q);
            pair_is(&BagsPs::from_array(m.ps).get(0), q);
        }
    });
}

pub fn unis() {
    let second = shape() == 1;
    let h: [u8; 4] = any_bytes();
    assume(number(&h[0..2], BASE) == if second { 300 } else { 1 });
    let p: [u8; 4] = any_bytes();
    let o: [u8; 8] = any_bytes();
    let v: [u8; 4] = any_bytes();
    let t = any_text(1);
    // The discriminant is a constant.
    let mut w = Wire::new(USER);
    let d: u16 = if second { 300 } else { 1 };
    w.bytes(&if BASE { d.to_be_bytes() } else { d.to_le_bytes() });
    w.bytes(&h[2..4]);
    if second {
        w.bytes(&o);
    } else {
        w.bytes(&p);
        note(&mut w, &v, &t[..1]);
    }
    decoded!(Unis, w, |m| {
        assert!(m.h.get_n() as u64 == number(&h[2..4], BASE), "number of an imported structure");
        match (&m.u, &m.w) {
            (Pick::First(a), Other::First(b)) => {
                assert!(!second, "case");
                pair_is(a, p);
                note_is(b, v, &t[..1]);
            },
            (Pick::Second, Other::Second(b)) => {
                assert!(second, "case");
                assert!(b.get_a() as u64 == number(&o[0..2], USER), "number");
                pair_is(&b.get_p(), four(&o[2..6]));
            },
            _ => panic!("different cases of one discriminant")
        }
    });
}
