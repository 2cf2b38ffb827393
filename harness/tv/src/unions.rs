// Included once per byte order, with the generated protocols in scope and BIG set.
use crate::oracle::*;

fn bits<const N: usize>(b: &[u8; N], pos: usize, w: usize) -> u128 { if BIG { get_be(b, pos, w) } else { get_le(b, pos, w) } }
fn rest<const N: usize>(a: &[u8; N], b: &[u8; N], pos: usize, w: usize) -> bool { if BIG { rest_be(a, b, pos, w) } else { rest_le(a, b, pos, w) } }

/// The bytes of the structure are those of the input.
macro_rules! at {
    ($t: ident, $v: expr, $input: expr) => {{
        let mut out = Buf::<3>::new();
        leak($t::write_to($v, &mut out));
        assert!(out.len == 3 && out.data[0] == $input[0] && out.data[1] == $input[1] && out.data[2] == $input[2], "item");
    }};
}

macro_rules! union {
    ($decode: ident, $write: ident, $u: ident, $s: ident, $n: literal, $pos: literal, $w: literal,
     none [$(($nk: literal, $nv: ident, $nr: expr, $ni: ident)),*], fixed [$(($fk: literal, $fv: ident, $fr: expr, $fi: ident, $ft: ident)),*], sub [$(($sk: literal, $sv: ident, $sr: expr, $si: ident)),*]) => {
        /// Any structure, any input.
        pub fn $decode() {
            let h: [u8; $n] = any_bytes();
            let raw = bits(&h, $pos, $w);
            let data: [u8; 8] = any_bytes();
            let n = shape();
            let input = &data[8 - n..];
            match $u::from_slice(input, &$s::new(&h[..])) {
                Ok(m) => {
                    let size = m.size();
                    match m.into_inner() {
                        $($u::$nv => assert!(raw == ($nr & mask($w)) && size == 0, "case"),)*
                        $($u::$fv(p) => {
                            assert!(raw == ($fr & mask($w)), "case");
                            assert!(n >= 3 && size == 3, "size");
                            at!($ft, &p, input);
                        },)*
                        $($u::$sv(m) => {
                            assert!(raw == ($sr & mask($w)), "case");
                            assert!(n >= 4 && size == 4 + input[3] as usize && size <= n, "size");
                            at!(Point, &m.p, input);
                            assert!(same(m.s.as_bytes(), &input[4..size]), "string");
                        },)*
                    };
                    witness!(true);
                },
                Err(e) => {
                    leak(e);
                    $(assert!(raw != ($nr & mask($w)), "a case is refused");)*
                    $(assert!(raw != ($fr & mask($w)) || n < 3, "a case is refused");)*
                    $(assert!(raw != ($sr & mask($w)) || n < 4 || input[3] as usize > n - 4 || !valid_utf8(&input[4..4 + input[3] as usize]), "a case is refused");)*
                    witness!(true);
                }
            };
        }

        /// Any structure, the case of the shape.
        pub fn $write() {
            let h: [u8; $n] = any_bytes();
            let raw = bits(&h, $pos, $w);
            let item: [u8; 3] = any_bytes();
            let text: [u8; 2] = any_bytes();
            assume(valid_utf8(&text));
            let k = shape();
            let v = match k {
                $($nk => $u::$nv,)*
                $($fk => $u::$fv($ft::new(&item[..])),)*
                $($sk => $u::$sv(Sub { p: Point::new(&item[..]), s: unsafe { core::str::from_utf8_unchecked(&text) } }),)*
                _ => unreachable!()
            };
            let (want, len): (u128, usize) = match k {
                $($nk => ($nr & mask($w), 0),)*
                $($fk => ($fr & mask($w), 3),)*
                $($sk => ($sr & mask($w), 6),)*
                _ => unreachable!()
            };
            let spec = [item[0], item[1], item[2], 2, text[0], text[1]];
            let mut out = Buf::<8>::new();
            let res = $u::write_to(&v, &$s::new(&h[..]), &mut out);
            let ok = res.is_ok();
            leak(res);
            assert!(ok == (raw == want), "written exactly when selected");
            assert!(out.len == if ok { len } else { 0 }, "length");
            let mut i = 0;
            while i < 6 {
                assert!(i >= out.len || out.data[i] == spec[i], "item");
                i += 1;
            }
            witness!(ok);
            witness!(!ok);
            let mut g = h;
            v.set_discriminant(&mut $s::new(&mut g[..]));
            assert!(bits(&g, $pos, $w) == want, "set_discriminant selects the case");
            assert!(rest(&h, &g, $pos, $w), "set_discriminant changes nothing else");
            $(assert!(v.$ni() == (k == $nk), "is");)*
            $(assert!(v.$fi().is_some() == (k == $fk), "as");)*
            $(assert!(v.$si().is_some() == (k == $sk), "as");)*
        }
    };
}

union!(value_decode, value_write, Value, Hdr, 3, 16, 8, none [(0, Nothing, 0, is_nothing)], fixed [(1, Spot, 7, as_spot, Point)], sub [(2, Text, 2, as_text)]);
union!(deep_decode, deep_write, Deep, Outer, 5, 10, 6, none [(0, Min, -32i128 as u128, is_min)],
    fixed [(1, Neg, -3i128 as u128, as_neg, Point), (2, Pos, 5, as_pos, U24)], sub []);
union!(num_decode, num_write, Num, Outer, 5, 24, 12, none [(0, Empty, 256, is_empty)], fixed [(1, Large, 4095, as_large, Point)], sub [(2, Small, 0, as_small)]);
union!(wid_decode, wid_write, Wid, Disc, 20, 0, 16, none [(0, Last, 65535, is_last)], fixed [(1, First, 1, as_first, Point)], sub [(2, Mid, 300, as_mid)]);
union!(sig_decode, sig_write, Sig, Disc, 20, 16, 32, none [(0, Lowest, 0x80000000, is_lowest)],
    fixed [(1, Minus, 0xFFFFFFFF, as_minus, Point), (2, Highest, 0x7FFFFFFF, as_highest, U24)], sub []);
union!(lon_decode, lon_write, Lon, Disc, 20, 48, 40, none [(0, Over, 0x100000000, is_over)],
    fixed [(1, High, 0xFFFFFFFFFF, as_high, Point), (2, Zero, 0, as_zero, U24)], sub []);
union!(bit_decode, bit_write, Bit, Disc, 20, 91, 1, none [], fixed [(0, Set, 1, as_set, Point)], sub []);
union!(full_decode, full_write, Full, Disc, 20, 96, 64, none [(0, Minus, u64::MAX as u128, is_minus)],
    fixed [(1, Lowest, 1 << 63, as_lowest, U24), (2, Highest, (1 << 63) - 1, as_highest, Point)], sub []);
union!(twin_decode, twin_write, Twin, Root, 5, 28, 4, none [(0, Top, 15, is_top)], fixed [(1, Low, 3, as_low, Point)], sub []);
