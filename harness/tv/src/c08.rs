//! C08: decoding any bytes terminates with an error, or with a value within the input.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets};

/// Bytes of anything.
fn plain<C: Case>(lengths: &[usize]) {
    let data: [u8; 32] = any_bytes();
    let n = lengths[shape()];
    // Up to the end of the array: what follows is out of bounds.
    let input = &data[32 - n..];
    match <C::Msg<'_> as FromSlice>::from_slice(input) {
        Ok(m) => {
            let size = m.size();
            assert!(size <= n, "decoded more than the input");
            let m = m.into_inner();
            C::walk(&m);
            leak(m);
            witness!(true);
        },
        Err(e) => {
            leak(e);
            witness!(true);
        }
    };
}

include!(concat!(env!("OUT_DIR"), "/c08_gen.rs"));
