//! C11: truncated encodings are refused, trailing bytes change nothing.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use bp3d_proto::message::FromSlice;

fn cut<C: Case>() { any_case(cut_one::<C>) }
fn more<C: Case>() { any_case(more_one::<C>) }

fn cut_one<C: Case>(model: C) {
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    // A trailing list or payload may take less: its encoding is cut before it.
    let end = if !C::takes_rest() { spec.len } else if spec.fields < 2 { 1 } else { spec.ends[spec.fields - 2] };
    let k = any_u8() as usize;
    assume(k < end);
    match <C::Msg<'_> as FromSlice>::from_slice(&spec.data[..k]) {
        Ok(m) => {
            leak(m);
            panic!("a truncated message decodes");
        },
        Err(e) => leak(e)
    };
}

fn more_one<C: Case>(model: C) {
    more_by::<C>(&model, 0);
    more_by::<C>(&model, 3);
}

fn more_by<C: Case>(model: &C, n: usize) {
    // All that follows a payload is the payload.
    if C::payload() && n != 0 { return; }
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    let len = spec.len;
    let extra: [u8; 3] = any_bytes();
    spec.bytes(&extra[..n]);
    match <C::Msg<'_> as FromSlice>::from_slice(&spec.data[..spec.len]) {
        Ok(m) => {
            assert!(m.size() == if C::takes_rest() { spec.len } else { len }, "trailing bytes change the size");
            let m = m.into_inner();
            model.check(&m);
            leak(m);
        },
        Err(e) => {
            leak(e);
            panic!("trailing bytes make the message invalid");
        }
    };
}

include!(concat!(env!("OUT_DIR"), "/c11_gen.rs"));
