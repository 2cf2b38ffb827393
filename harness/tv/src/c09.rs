//! C09: what is written is read back.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use bp3d_proto::message::{FromSlice, WriteTo};

fn full<C: Case>() { any_case(full_one::<C>) }

fn full_one<C: Case>(model: C) {
    let mut scratch = C::scratch();
    let msg = model.build(&mut scratch);
    let mut out = Buf::<CAP>::new();
    let res = C::Msg::write_to(&msg, &mut out);
    assert!(res.is_ok(), "writing succeeds");
    leak(res);
    read_back::<C>(&model, &out.data[..out.len]);
}

fn read_back<C: Case>(model: &C, data: &[u8]) {
    match <C::Msg<'_> as FromSlice>::from_slice(data) {
        Ok(m) => {
            assert!(m.size() == data.len(), "the decoder does not consume exactly the bytes written");
            let m = m.into_inner();
            model.check(&m);
            leak(m);
        },
        Err(e) => {
            leak(e);
            panic!("what was written does not decode");
        }
    };
}

/// In two steps: the bytes written are those of the declared format, and these are read back. The lengths inside
/// the latter are constants, which the solver needs. A writer which does not follow the format, as far as it is read
/// back by the reader, does not break the property: bin/check.py then runs `full`. The replay is always on `full`.
#[cfg(kani)]
fn steps<C: Case>() { any_case(steps_one::<C>) }
#[cfg(not(kani))]
fn steps<C: Case>() { full::<C>() }

#[cfg(kani)]
fn steps_one<C: Case>(model: C) {
    let mut scratch = C::scratch();
    let msg = model.build(&mut scratch);
    let mut out = Buf::<CAP>::new();
    let res = C::Msg::write_to(&msg, &mut out);
    assert!(res.is_ok(), "writing succeeds");
    leak(res);
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    assert!(out.len == spec.len, "encoded length");
    let mut i = 0;
    while i < CAP {
        assert!(i >= spec.len || out.data[i] == spec.data[i], "encoded byte");
        i += 1;
    }
    read_back::<C>(&model, &spec.data[..spec.len]);
}

/// What was decoded is written again as it was.
fn again<C: Case>() { any_case(again_one::<C>) }

fn again_one<C: Case>(model: C) {
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    match <C::Msg<'_> as FromSlice>::from_slice(&spec.data[..spec.len]) {
        Ok(m) => {
            let m = m.into_inner();
            let mut out = Buf::<CAP>::new();
            let res = C::Msg::write_to(&m, &mut out);
            assert!(res.is_ok(), "writing succeeds");
            leak(res);
            leak(m);
            assert!(out.len == spec.len, "length of what is written again");
            let mut i = 0;
            while i < CAP {
                assert!(i >= spec.len || out.data[i] == spec.data[i], "byte written again");
                i += 1;
            }
            witness!(true);
        },
        Err(e) => {
            leak(e);
            panic!("a valid message does not decode");
        }
    };
}

include!(concat!(env!("OUT_DIR"), "/c09_gen.rs"));
