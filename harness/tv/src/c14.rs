//! C14: writers which fail, or take less than they are given.
use crate::sym::*;
use crate::m::{le, be, wire::*};
use bp3d_proto::message::WriteTo;

/// Accepts `step` bytes at a time, and fails once it would have accepted more than `room`. It keeps what it
/// refuses: this way lengths are constants of the formulas, and only the failure depends on `room`.
pub struct Faulty {
    data: [u8; CAP],
    len: usize,
    room: usize,
    step: usize,
    failed: bool
}

impl Faulty {
    fn take(&mut self, buf: &[u8], n: usize) -> std::io::Result<()> {
        let mut i = 0;
        while i < n {
            self.data[self.len + i] = buf[i];
            i += 1;
        }
        self.len += n;
        if n > 0 && self.len > self.room {
            self.failed = true;
            return Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        }
        Ok(())
    }
}

impl std::io::Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = if buf.len() > self.step { self.step } else { buf.len() };
        self.take(buf, n)?;
        Ok(n)
    }
    /// As the provided implementation, whose loop the solver need not unfold.
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> { self.take(buf, buf.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn run<C: Case>(model: C, step: usize) {
    let room = any_u8() as usize;
    let mut scratch = C::scratch();
    let msg = model.build(&mut scratch);
    let mut out = Faulty { data: [0; CAP], len: 0, room, step, failed: false };
    let res = C::Msg::write_to(&msg, &mut out);
    let ok = res.is_ok();
    leak(res);
    let mut spec = Wire::new(C::BIG);
    model.spec(&mut spec);
    assert!(ok == (room >= spec.len), "the failure of the writer is reported");
    assert!(!ok || (!out.failed && out.len == spec.len), "bytes are lost");
    let mut i = 0;
    while i < CAP {
        assert!(i >= out.len || i >= room || out.data[i] == spec.data[i], "bytes are changed");
        i += 1;
    }
    if spec.len > 0 { witness!(!ok); }
    witness!(ok);
}

/// The writer fails at any call.
fn fails<C: Case>() { any_case(fails_one::<C>) }

fn fails_one<C: Case>(model: C) { run::<C>(model, CAP) }

/// The writer takes one byte at a time, and fails at any of them.
fn short<C: Case>() { any_case(short_one::<C>) }

fn short_one<C: Case>(model: C) { run::<C>(model, 1) }

include!(concat!(env!("OUT_DIR"), "/c14_gen.rs"));

pub mod more {
    use super::Faulty;
    use crate::sym::*;
    use crate::m::wire::CAP;
    use crate::m_le::{Point, Sub};
    use bp3d_proto::message::WriteTo;
    use bp3d_proto::message::util::{Array, List, ValueLE};

    bp3d_proto::generate_array_wrapper!(Points, Point, ValueLE<u8>);

    // An item which is not written is not counted.
    macro_rules! counted {
        ($name: ident, $new: expr, $item: expr, $size: literal) => {
            fn $name() {
                let data: [u8; 3] = any_bytes();
                let room = any_u8() as usize;
                let step = if shape() % 2 == 0 { CAP } else { 1 };
                let bulk = shape() / 2 == 1;
                let mut out = Faulty { data: [0; CAP], len: 0, room, step, failed: false };
                let mut a = $new(&mut out);
                let items = [$item(&data), $item(&data), $item(&data)];
                let complete = if room / $size < 3 { room / $size } else { 3 };
                if bulk {
                    let r = a.write_items(&items);
                    assert!(r.is_ok() == (complete == 3), "the failure of the writer is reported");
                    leak(r);
                    assert!(a.len() == complete, "the items written are counted, and no other");
                } else {
                    let mut i = 0;
                    while i < 3 {
                        let r = a.write_item(&items[i]);
                        assert!(r.is_ok() == (i < complete), "the failure of the writer is reported");
                        let ok = r.is_ok();
                        leak(r);
                        i += 1;
                        assert!(a.len() == if ok { i } else { complete }, "the items written are counted, and no other");
                        if !ok { break; }
                    }
                }
                witness!(complete == 3);
                witness!(complete == 1);
            }
        };
    }

    counted!(array, Array::<_, ValueLE<u8>, Point<&[u8]>>::new, point, 3);
    counted!(wrapper, Points::new, point, 3);
    counted!(list, List::<_, ValueLE<u8>, Sub>::new, sub, 6);
    fn point(b: &[u8; 3]) -> Point<&[u8]> { Point::new(&b[..]) }
    fn sub(b: &[u8; 3]) -> Sub<'_> { Sub { p: point(b), s: "ab" } }

    harnesses! {
        #[unwind(20)]
        fn c14_array__4() { array() }
        #[unwind(20)]
        fn c14_wrapper__4() { wrapper() }
        #[unwind(20)]
        fn c14_list__4() { list() }
    }
}
