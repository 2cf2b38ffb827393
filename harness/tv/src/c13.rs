//! C13: the size computed for a message is the number of bytes written.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use bp3d_proto::message::{FromSlice, WriteTo};
use bp3d_proto::message::util::size_of;

/// Counts.
pub struct Count(usize);
impl std::io::Write for Count {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0 += buf.len();
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.0 += buf.len();
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub fn agree<M: WriteTo<Input = M>>(msg: &M) {
    let mut out = Count(0);
    let written = M::write_to(msg, &mut out);
    match size_of(msg) {
        Ok(n) => {
            assert!(written.is_ok(), "there is a size, but writing fails");
            assert!(n == out.0, "the size is not the number of bytes written");
            witness!(true);
        },
        Err(e) => {
            assert!(written.is_err(), "writing succeeds, but there is no size");
            leak(e);
            witness!(true);
        }
    };
    leak(written);
}

fn sizes<C: Case>() { any_case(sizes_one::<C>) }

fn sizes_one<C: Case>(model: C) {
    let mut scratch = C::scratch();
    let msg = model.build(&mut scratch);
    let mut out = Count(0);
    let written = C::Msg::write_to(&msg, &mut out);
    assert!(written.is_ok());
    leak(written);
    match size_of(&msg) {
        Ok(n) => assert!(n == out.0, "the size is not the number of bytes written"),
        Err(e) => {
            leak(e);
            panic!("no size");
        }
    };
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    match <C::Msg<'_> as FromSlice>::from_slice(&spec.data[..spec.len]) {
        Ok(m) => {
            assert!(m.size() == spec.len, "the size of the decoded message is not that of its encoding");
            leak(m);
        },
        Err(e) => {
            leak(e);
            panic!("decoding fails");
        }
    };
}

include!(concat!(env!("OUT_DIR"), "/c13_gen.rs"));

pub mod more {
    use crate::sym::*;
    use crate::m::{le, be};
    harnesses! {
        #[unwind(5)]
        fn c13_nuls_le__9() { le::nuls() }
        #[unwind(5)]
        fn c13_nuls_be__9() { be::nuls() }
        #[unwind(6)]
        fn c13_uni_le__3() { le::uni() }
        #[unwind(6)]
        fn c13_uni_be__3() { be::uni() }
        #[unwind(6)]
        fn c13_unis_le__9() { le::unis() }
        #[unwind(6)]
        fn c13_unis_be__9() { be::unis() }
        #[unwind(10)]
        fn c13_counts_le__6() { le::counts() }
        #[unwind(10)]
        fn c13_counts_be__6() { be::counts() }
        #[unwind(10)]
        fn c13_lengths_le__3() { le::lengths() }
        #[unwind(10)]
        fn c13_lengths_be__3() { be::lengths() }
        #[unwind(33)]
        fn c13_structs_le__5() { le::structs() }
        #[unwind(33)]
        fn c13_structs_be__5() { be::structs() }
    }
}
