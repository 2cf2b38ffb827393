//! C16: arrays and lists hold the items written, in order.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use crate::m_le::{Point, Sub, U24};
use bp3d_proto::message::{FromSlice, WriteTo};
use bp3d_proto::message::util::{Array, List, ValueBE, ValueLE};
use bp3d_proto::util::FixedSize;

bp3d_proto::generate_array_wrapper!(Points, Point, ValueLE<u8>);

pub type A<B> = Array<B, ValueLE<u16>, Point<&'static [u8]>>;
/// 4 items. (CBMC misreads arrays of arrays through slices.)
type Items = [u8; 12];
fn item(items: &[u8], i: usize) -> &[u8] { &items[3 * i..3 * i + 3] }

fn bytes_are(p: &Point<&[u8]>, b: &[u8]) -> bool {
    let mut out = Buf::<3>::new();
    leak(Point::write_to(p, &mut out));
    out.len == 3 && out.data[0] == b[0] && out.data[1] == b[1] && out.data[2] == b[2]
}

fn any_items() -> Items { any_bytes() }

/// n items, one by one or at once.
macro_rules! fill {
    ($a: ident, $items: ident, $n: ident, $bulk: expr) => {{
        let all = [Point::new(item(&$items, 0)), Point::new(item(&$items, 1)), Point::new(item(&$items, 2)), Point::new(item(&$items, 3))];
        if $bulk {
            // The items of two goes are all there.
            let r = $a.write_items(&all[..$n / 2]);
            assert!(r.is_ok());
            leak(r);
            let r = $a.write_items(&all[$n / 2..$n]);
            assert!(r.is_ok());
            leak(r);
        } else {
            let mut i = 0;
            while i < $n {
                let r = $a.write_item(&all[i]);
                assert!(r.is_ok());
                leak(r);
                i += 1;
                assert!($a.len() == i, "one more item");
            }
        }
        assert!($a.len() == $n, "as many items as were written");
    }};
}

macro_rules! read {
    ($a: expr, $get: ident, $iter: ident, $items: ident, $n: ident) => {{
        assert!($a.len() == $n, "count");
        let mut i = 0;
        while i < $n {
            let p: Point<&[u8]> = $a.get(i);
            assert!(bytes_are(&p, item(&$items, i)), "item by index");
            i += 1;
        }
        let mut i = 0;
        let mut it = $iter!($a);
        while i < $n {
            match it.next() {
                Some(p) => assert!(bytes_are(&p, item(&$items, i)), "item by iteration"),
                None => panic!("an item is missing")
            }
            i += 1;
        }
        assert!(it.next().is_none(), "the iteration goes on");
    }};
}
macro_rules! typed { ($a: expr) => { $a.iter::<Point<&[u8]>>() }; }
macro_rules! plain { ($a: expr) => { $a.iter() }; }

/// Shapes: the number of items, and how they are written.
fn written() {
    let (n, bulk) = (shape() / 2, shape() % 2 == 1);
    let items = any_items();
    let mut a = A::<Buf<12>>::new(Buf::new());
    fill!(a, items, n, bulk);
    read!(a, get, typed, items, n);
    let r = a.to_ref::<Point<&[u8]>>();
    read!(r, get, typed, items, n);
    witness!(true);
}

/// The whole encoding.
fn encoded() {
    let n = shape();
    let items = any_items();
    let mut a = A::<Buf<12>>::new(Buf::new());
    fill!(a, items, n, false);
    let mut out = Buf::<16>::new();
    let r = A::write_to(&a, &mut out);
    assert!(r.is_ok());
    leak(r);
    assert!(out.len == 2 + 3 * n && out.data[0] == n as u8 && out.data[1] == 0, "count and items");
    match Array::<&[u8], ValueLE<u16>, Point<&[u8]>>::from_slice(&out.data[..2 + 3 * n]) {
        Ok(m) => {
            assert!(m.size() == 2 + 3 * n, "size");
            let b = m.into_inner();
            read!(b, get, typed, items, n);
        },
        Err(e) => {
            leak(e);
            panic!("what was written does not decode")
        }
    };
    witness!(true);
}

/// Mutation of an item, by index.
fn mutated() {
    let (n, k) = (3, shape());
    let mut items = any_items();
    let mut a = A::<Buf<12>>::new(Buf::new());
    fill!(a, items, n, false);
    let v = any_u8();
    {
        let mut p: Point<&mut [u8]> = a.get_mut(k);
        p.set_raw_y(v);
    }
    items[3 * (k) + 2] = v;
    read!(a, get, typed, items, n);
    witness!(true);
}

/// Mutation of every item, by iteration.
fn mutated_all() {
    let n = shape();
    let mut items = any_items();
    let mut a = A::<Buf<12>>::new(Buf::new());
    fill!(a, items, n, false);
    let v: [u8; 4] = any_bytes();
    let mut i = 0;
    {
        let mut it = a.iter_mut::<Point<&mut [u8]>>();
        while i < n {
            match it.next() {
                Some(mut p) => {
                    p.set_raw_y(v[i]);
                    leak(p);
                },
                None => panic!("an item is missing")
            }
            items[3 * (i) + 2] = v[i];
            i += 1;
        }
        assert!(it.next().is_none(), "the iteration goes on");
    }
    read!(a, get, typed, items, n);
    witness!(true);
}

/// Parts: accepted exactly when the length is that of the number of items.
fn parts() {
    let m = shape();
    let data: [u8; 8] = any_bytes();
    let len = any_usize();
    let fits = len as u128 * 3 == m as u128;
    match Array::<&[u8], ValueLE<u16>, Point<&[u8]>>::from_parts(&data[..m], len) {
        Some(a) => {
            assert!(fits, "the length does not match the number of items");
            assert!(a.len() == len, "count");
            if len > 0 {
                let p: Point<&[u8]> = a.get(len - 1);
                assert!(bytes_are(&p, &[data[m - 3], data[m - 2], data[m - 1]]), "last item");
            }
            witness!(true);
        },
        None => {
            assert!(!fits, "valid parts are refused");
            witness!(true);
        }
    }
}

fn wrapped_parts() {
    let m = shape();
    let data: [u8; 8] = any_bytes();
    let len = any_usize();
    let fits = len as u128 * 3 == m as u128;
    match Points::from_parts(&data[..m], len) {
        Some(a) => {
            assert!(fits, "the length does not match the number of items");
            assert!(a.len() == len, "count");
            witness!(true);
        },
        None => {
            assert!(!fits, "valid parts are refused");
            witness!(true);
        }
    }
}

/// The wrapper of the macro.
fn wrapped() {
    let (n, bulk) = (shape() / 2, shape() % 2 == 1);
    let mut items = any_items();
    let mut a = Points::<Buf<12>>::new(Buf::new());
    fill!(a, items, n, bulk);
    read!(a, get, plain, items, n);
    let r = a.to_ref();
    read!(r, get, typed, items, n);
    if n > 0 {
        let v = any_u8();
        a.get_mut(n - 1).set_raw_y(v);
        items[3 * (n - 1) + 2] = v;
        let w = any_u8();
        match a.iter_mut().next() {
            Some(mut p) => {
                p.set_raw_y(w);
                leak(p);
            },
            None => panic!("an item is missing")
        }
        items[3 * (0) + 2] = w;
        read!(a, get, plain, items, n);
    }
    witness!(true);
}

/// Out of range items.
fn beyond() {
    let n = shape();
    let items = any_items();
    let mut a = A::<Buf<12>>::new(Buf::new());
    fill!(a, items, n, false);
    let i = any_u8() as usize;
    assume(i >= n);
    witness!(true);
    must_panic!(a.get::<Point<&[u8]>>(i));
}
fn beyond_mut() {
    let n = shape();
    let items = any_items();
    let mut a = A::<Buf<12>>::new(Buf::new());
    fill!(a, items, n, false);
    let i = any_u8() as usize;
    assume(i >= n);
    witness!(true);
    must_panic!(a.get_mut::<Point<&mut [u8]>>(i));
}

/// A list of messages.
macro_rules! list {
    ($name: ident, $e: ident, $p: ident) => {
        fn $name() {
            use crate::$p::{Point, Sub};
            let (n, bulk) = (shape() / 2, shape() % 2 == 1);
            let p: [u8; 9] = any_bytes();
            let t: [u8; 6] = any_bytes();
            let l = [1usize, 0, 2];
            let mut i = 0;
            while i < 3 {
                assume(valid_utf8(&t[2 * i..2 * i + l[i]]));
                i += 1;
            }
            let text = |i: usize| unsafe { core::str::from_utf8_unchecked(&t[2 * i..2 * i + l[i]]) };
            let all = [
                Sub { p: Point::new(item(&p, 0)), s: text(0) }, Sub { p: Point::new(item(&p, 1)), s: text(1) }, Sub { p: Point::new(item(&p, 2)), s: text(2) }
            ];
            let mut a = List::<Buf<16>, ValueLE<u8>, Sub>::new(Buf::new());
            if bulk {
                let r = a.write_items(&all[..n / 2]);
                assert!(r.is_ok());
                leak(r);
                let r = a.write_items(&all[n / 2..n]);
                assert!(r.is_ok());
                leak(r);
            } else {
                let mut i = 0;
                while i < n {
                    let r = a.write_item(&all[i]);
                    assert!(r.is_ok());
                    leak(r);
                    i += 1;
                    assert!(a.len() == i, "one more item");
                }
            }
            assert!(a.len() == n, "as many items as were written");
            // The encoding written is that of the items: back to constant lengths.
            let mut spec = [0u8; 16];
            let mut len = 0;
            let mut i = 0;
            while i < n {
                spec[len] = p[3 * i + 0];
                spec[len + 1] = p[3 * i + 1];
                spec[len + 2] = p[3 * i + 2];
                spec[len + 3] = l[i] as u8;
                let mut k = 0;
                while k < l[i] {
                    spec[len + 4 + k] = t[2 * i + k];
                    k += 1;
                }
                len += 4 + l[i];
                i += 1;
            }
            let r = a.to_ref::<Sub>();
            let mut it = r.iter();
            let mut of = r.iter_offsets();
            let mut i = 0;
            while i < n {
                match it.next() {
                    Some(Ok(m)) => {
                        assert!(same(m.s.as_bytes(), &t[2 * i..2 * i + l[i]]), "item");
                        let mut out = Buf::<3>::new();
                        leak(Point::write_to(&m.p, &mut out));
                        assert!(same(&out.data, item(&p, i)), "item");
                    },
                    v => { leak(v); panic!("an item is missing") }
                }
                match of.next() {
                    Some(Ok((m, o))) => {
                        assert!(same(m.s.as_bytes(), &t[2 * i..2 * i + l[i]]), "item with offsets");
                        assert!(o.p.start == 0 && o.p.end == 3 && o.s.start == 3 && o.s.end == 4 + l[i], "offsets of an item");
                    },
                    v => { leak(v); panic!("an item is missing") }
                }
                i += 1;
            }
            let end = it.next();
            assert!(end.is_none(), "the iteration goes on");
            leak(end);
            let end = of.next();
            assert!(end.is_none(), "the iteration with offsets goes on");
            leak(end);
            let mut out = Buf::<20>::new();
            let w = List::write_to(&a, &mut out);
            assert!(w.is_ok());
            leak(w);
            assert!(out.len == 1 + len && out.data[0] == n as u8 && same(&out.data[1..1 + len], &spec[..len]), "count and items");
            witness!(true);
        }
    };
}
list!(list_le, le, m_le);
list!(list_be, be, m_be);

/// Damaged data: any bytes, any count. What follows the first error is nothing.
fn damaged() {
    let n = shape();
    let data: [u8; 10] = any_bytes();
    let count = any_u8() as usize;
    let l = unsafe { List::<&[u8], ValueLE<u8>, Sub>::from_raw_parts(&data[10 - n..], count) };
    let mut it = l.iter();
    let mut ended = false;
    let mut i = 0;
    while i < 4 {
        let v = it.next();
        assert!(!ended || v.is_none(), "the iteration goes on after its end");
        assert!(v.is_some() || i >= count || ended, "the iteration ends before its end");
        if !matches!(v, Some(Ok(_))) { ended = true; }
        leak(v);
        i += 1;
    }
    witness!(ended);
}
fn damaged_offsets() {
    let n = shape();
    let data: [u8; 10] = any_bytes();
    let count = any_u8() as usize;
    let l = unsafe { List::<&[u8], ValueLE<u8>, Sub>::from_raw_parts(&data[10 - n..], count) };
    let mut it = l.iter_offsets();
    let mut ended = false;
    let mut i = 0;
    while i < 4 {
        let v = it.next();
        assert!(!ended || v.is_none(), "the iteration goes on after its end");
        assert!(v.is_some() || i >= count || ended, "the iteration ends before its end");
        if !matches!(v, Some(Ok(_))) { ended = true; }
        leak(v);
        i += 1;
    }
    witness!(ended);
}

harnesses! {
    #[unwind(14)]
    fn c16_written__10() { written() }
    #[unwind(18)]
    fn c16_encoded__5() { encoded() }
    #[unwind(14)]
    fn c16_mutated__3() { mutated() }
    #[unwind(14)]
    fn c16_mutated_all__5() { mutated_all() }
    #[unwind(10)]
    fn c16_parts__9() { parts() }
    #[unwind(10)]
    fn c16_wrapped_parts__9() { wrapped_parts() }
    #[unwind(14)]
    fn c16_wrapped__10() { wrapped() }
    #[unwind(14)]
    fn c16_panics_beyond__5() { beyond() }
    #[unwind(14)]
    fn c16_panics_beyond_mut__5() { beyond_mut() }
    #[unwind(22)]
    #[kani::stub(core::str::from_utf8, crate::sym::from_utf8_valid)]
    fn c16_list_le__8() { list_le() }
    #[unwind(22)]
    #[kani::stub(core::str::from_utf8, crate::sym::from_utf8_valid)]
    fn c16_list_be__8() { list_be() }
    #[unwind(12)]
    #[kani::stub(core::str::from_utf8, crate::sym::from_utf8_any)]
    fn c16_damaged__10() { damaged() }
    #[unwind(12)]
    #[kani::stub(core::str::from_utf8, crate::sym::from_utf8_any)]
    fn c16_damaged_offsets__10() { damaged_offsets() }
}
