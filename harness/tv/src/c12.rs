//! C12: decoding with offsets.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets};

/// On an encoding: same message, same size, the ranges of the fields.
fn encoded<C: Case>() { any_case(one::<C>) }

fn one<C: Case>(model: C) {
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    match <C::Msg<'_> as FromSliceWithOffsets>::from_slice_with_offsets(&spec.data[..spec.len]) {
        Ok(m) => {
            assert!(m.size() == spec.len, "size");
            let (m, o) = m.into_inner();
            model.check(&m);
            model.check_nested(&m, &o);
            leak(m);
            let mut r = Ranges::new();
            C::ranges(&o, &mut r);
            leak(o);
            assert!(r.n == spec.fields);
            let mut i = 0;
            while i < r.n {
                assert!(r.of[i].start == if i == 0 { 0 } else { spec.ends[i - 1] }, "start of a field");
                assert!(r.of[i].end == spec.ends[i], "end of a field");
                i += 1;
            }
        },
        Err(e) => {
            leak(e);
            panic!("decoding with offsets fails");
        }
    };
}

/// On anything: as plain decoding does, and consecutive ranges.
fn agree<C: Case>(lengths: &[usize]) {
    let data: [u8; 32] = any_bytes();
    let n = lengths[shape()];
    // Up to the end of the array: what follows is out of bounds.
    let input = &data[32 - n..];
    let plain = match <C::Msg<'_> as FromSlice>::from_slice(input) {
        Ok(m) => {
            let size = m.size();
            leak(m);
            Some(size)
        },
        Err(e) => {
            leak(e);
            None
        }
    };
    match <C::Msg<'_> as FromSliceWithOffsets>::from_slice_with_offsets(input) {
        Ok(m) => {
            let size = m.size();
            assert!(plain == Some(size), "plain decoding does not agree");
            let (m, o) = m.into_inner();
            leak(m);
            let mut r = Ranges::new();
            C::ranges(&o, &mut r);
            leak(o);
            assert!(r.consecutive(size), "ranges");
            witness!(true);
        },
        Err(e) => {
            leak(e);
            assert!(plain.is_none(), "plain decoding does not agree");
            witness!(true);
        }
    };
}

include!(concat!(env!("OUT_DIR"), "/c12_gen.rs"));
