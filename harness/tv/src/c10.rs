//! C10: the bytes written are the declared wire format.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use bp3d_proto::message::WriteTo;

fn wire<C: Case>() { any_case(one::<C>) }

fn one<C: Case>(model: C) {
    let mut scratch = C::scratch();
    let msg = model.build(&mut scratch);
    let mut out = Buf::<CAP>::new();
    let res = C::Msg::write_to(&msg, &mut out);
    assert!(res.is_ok(), "writing succeeds");
    leak(res);
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    assert!(out.len == spec.len, "encoded length");
    let mut i = 0;
    while i < CAP {
        assert!(i >= out.len || out.data[i] == spec.data[i], "encoded byte");
        i += 1;
    }
}

include!(concat!(env!("OUT_DIR"), "/c10_gen.rs"));
