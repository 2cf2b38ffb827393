//! C17: data longer than its prefix can count is refused.
use crate::sym::*;
use bp3d_proto::message::{FromSlice, WriteTo};
use bp3d_proto::message::util::{Array, List, ValueBE, ValueLE, VarcharString};

/// Keeps the first bytes, and counts the others.
pub struct Head { data: [u8; 8], kept: usize, total: u128 }
impl Head {
    fn new() -> Self { Head { data: [0; 8], kept: 0, total: 0 } }
    fn take(&mut self, buf: &[u8]) {
        // The prefix comes first, on its own or with what follows.
        let mut i = 0;
        while i < 8 && self.kept < 8 {
            if i < buf.len() {
                self.data[self.kept] = buf[i];
                self.kept += 1;
            }
            i += 1;
        }
        self.total += buf.len() as u128;
    }
}
impl std::io::Write for Head {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.take(buf);
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.take(buf);
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn number(d: &[u8; 8], n: usize, big: bool) -> u64 {
    let mut v = 0;
    let mut i = 0;
    while i < n {
        v |= (d[i] as u64) << (8 * if big { n - 1 - i } else { i });
        i += 1;
    }
    v
}

/// Written exactly when the length fits, with the length as prefix; nothing written otherwise.
fn check(ok: bool, out: &Head, len: usize, size: usize, big: bool, data: usize) {
    let fits = size == 8 || (len as u64) >> (8 * size) == 0;
    assert!(ok == fits, "written exactly when the length fits its prefix");
    if ok {
        assert!(out.total == (size + data) as u128, "prefix and data");
        assert!(number(&out.data, size, big) == len as u64, "the prefix is the length");
    } else {
        assert!(out.total == 0, "a truncated length is written");
    }
    witness!(true);
}

struct Item;

macro_rules! counts {
    ($($array: ident $list: ident $v: ident $t: ty, $size: literal, $big: literal;)*) => {
        $(
            fn $array() {
                let len = any_usize();
                let a = unsafe { Array::<&[u8], $v<$t>, Item>::from_raw_parts(&[], len) };
                let mut out = Head::new();
                let r = Array::write_to(&a, &mut out);
                let ok = r.is_ok();
                leak(r);
                check(ok, &out, len, $size, $big, 0);
            }
            fn $list() {
                let len = any_usize();
                let a = unsafe { List::<&[u8], $v<$t>, Item>::from_raw_parts(&[], len) };
                let mut out = Head::new();
                let r = List::write_to(&a, &mut out);
                let ok = r.is_ok();
                leak(r);
                check(ok, &out, len, $size, $big, 0);
            }
        )*
    };
}

counts! {
    array_le_1 list_le_1 ValueLE u8, 1, false; array_le_2 list_le_2 ValueLE u16, 2, false;
    array_le_4 list_le_4 ValueLE u32, 4, false; array_le_8 list_le_8 ValueLE u64, 8, false;
    array_be_1 list_be_1 ValueBE u8, 1, true; array_be_2 list_be_2 ValueBE u16, 2, true;
    array_be_4 list_be_4 ValueBE u32, 4, true; array_be_8 list_be_8 ValueBE u64, 8, true;
}

static DATA: [u8; 66000] = [b'a'; 66000];

/// A string of any length: over 4 GB only its first bytes exist, which are the only ones ever read.
fn text(len: usize) -> &'static str { unsafe { core::mem::transmute(Fat { data: DATA.as_ptr(), len }) } }
#[repr(C)]
struct Fat { data: *const u8, len: usize }

macro_rules! strings {
    ($($name: ident $v: ident $t: ty, $size: literal, $big: literal, $max: expr;)*) => {
        $(
            fn $name() {
                let len = any_usize();
                assume(len <= $max);
                let s = text(len);
                let mut out = Head::new();
                let r = <VarcharString<$v<$t>> as WriteTo>::write_to(s, &mut out);
                let ok = r.is_ok();
                leak(r);
                check(ok, &out, len, $size, $big, len);
            }
        )*
    };
}

strings! {
    string_le_1 ValueLE u8, 1, false, 66000; string_le_2 ValueLE u16, 2, false, 66000;
    string_le_4 ValueLE u32, 4, false, (usize::MAX >> 1); string_le_8 ValueLE u64, 8, false, (usize::MAX >> 1);
    string_be_1 ValueBE u8, 1, true, 66000; string_be_2 ValueBE u16, 2, true, 66000;
    string_be_4 ValueBE u32, 4, true, (usize::MAX >> 1); string_be_8 ValueBE u64, 8, true, (usize::MAX >> 1);
}

harnesses! {
    #[unwind(10)]
    fn c17_array_le_1() { array_le_1() }
    #[unwind(10)]
    fn c17_array_le_2() { array_le_2() }
    #[unwind(10)]
    fn c17_array_le_4() { array_le_4() }
    #[unwind(10)]
    fn c17_array_le_8() { array_le_8() }
    #[unwind(10)]
    fn c17_array_be_1() { array_be_1() }
    #[unwind(10)]
    fn c17_array_be_2() { array_be_2() }
    #[unwind(10)]
    fn c17_array_be_4() { array_be_4() }
    #[unwind(10)]
    fn c17_array_be_8() { array_be_8() }
    #[unwind(10)]
    fn c17_list_le_1() { list_le_1() }
    #[unwind(10)]
    fn c17_list_le_2() { list_le_2() }
    #[unwind(10)]
    fn c17_list_le_4() { list_le_4() }
    #[unwind(10)]
    fn c17_list_le_8() { list_le_8() }
    #[unwind(10)]
    fn c17_list_be_1() { list_be_1() }
    #[unwind(10)]
    fn c17_list_be_2() { list_be_2() }
    #[unwind(10)]
    fn c17_list_be_4() { list_be_4() }
    #[unwind(10)]
    fn c17_list_be_8() { list_be_8() }
    #[unwind(10)]
    fn c17_string_le_1() { string_le_1() }
    #[unwind(10)]
    fn c17_string_le_2() { string_le_2() }
    #[unwind(10)]
    fn c17_string_le_4() { string_le_4() }
    #[unwind(10)]
    fn c17_string_le_8() { string_le_8() }
    #[unwind(10)]
    fn c17_string_be_1() { string_be_1() }
    #[unwind(10)]
    fn c17_string_be_2() { string_be_2() }
    #[unwind(10)]
    fn c17_string_be_4() { string_be_4() }
    #[unwind(10)]
    fn c17_string_be_8() { string_be_8() }
}
