//! Models of schemas, and what keeps the hash maps of the compiler within reach of the solver.
use crate::sym::*;
pub use bp3d_protoc::compiler::{Error, Protocol};
pub use bp3d_protoc::compiler::structure::Field;
pub use bp3d_protoc::model;
pub use bp3d_protoc::model::protocol::Endianness;
pub use bp3d_protoc::model::structure::{StructField, StructFieldType, StructFieldView, Structure};

/// Values are leaked: what dropping them does is not checked.
#[cfg(kani)]
pub fn no_drop<T: ?Sized, A: std::alloc::Allocator>(_: &mut std::rc::Rc<T, A>) {}

/// The hash maps of the standard library, as association lists: the number of the list is in the hasher.
#[cfg(kani)]
pub mod maps {
    use std::alloc::Allocator;
    use std::borrow::Borrow;
    use std::collections::HashMap;
    use std::collections::hash_map::RandomState;
    use std::hash::{BuildHasher, Hash};

    const MAPS: usize = 48;
    static mut LISTS: [*mut (); MAPS] = [core::ptr::null_mut(); MAPS];
    static mut NEXT: u64 = 0;

    pub fn keys() -> RandomState {
        unsafe {
            let id = NEXT;
            NEXT += 1;
            assert!((id as usize) < MAPS, "too many maps");
            core::mem::transmute([id, 0u64])
        }
    }

    fn id<S>(s: &S) -> usize {
        unsafe { *(s as *const S as *const u64) as usize }
    }

    pub fn insert<K, V, S, A>(m: &mut HashMap<K, V, S, A>, k: K, v: V) -> Option<V> where K: Eq + Hash, S: BuildHasher, A: Allocator {
        unsafe {
            let p = &mut LISTS[id(m.hasher())];
            if p.is_null() {
                *p = Box::into_raw(Box::new(Vec::<(K, V)>::with_capacity(8))) as *mut ();
            }
            let l = &mut *(*p as *mut Vec<(K, V)>);
            let n = l.len();
            let mut i = 0;
            while i < n {
                if l[i].0 == k {
                    core::mem::forget(k);
                    return Some(core::mem::replace(&mut l[i].1, v));
                }
                i += 1;
            }
            assert!(n < 8, "too many entries");
            l.push((k, v));
            None
        }
    }

    pub fn get<'a, K, V, S, A, Q: ?Sized>(m: &'a HashMap<K, V, S, A>, k: &Q) -> Option<&'a V> where K: Borrow<Q> + Eq + Hash, Q: Hash + Eq, S: BuildHasher, A: Allocator {
        unsafe {
            let p = LISTS[id(m.hasher())];
            if p.is_null() {
                return None;
            }
            let l = &*(p as *const Vec<(K, V)>);
            let n = l.len();
            let mut i = 0;
            while i < n {
                if l[i].0.borrow() == k {
                    return Some(&*(&l[i].1 as *const V));
                }
                i += 1;
            }
            None
        }
    }
}

/// The texts of errors are not checked.
#[cfg(kani)]
pub fn no_format(_: core::fmt::Arguments<'_>) -> String { String::new() }
#[cfg(kani)]
pub fn no_print(_: core::fmt::Arguments<'_>) {}

pub fn s(v: &str) -> String { String::from(v) }

pub fn protocol(structs: Vec<Structure>) -> model::Protocol {
    model::Protocol { name: String::new(), endianness: None, imports: None, structs: Some(structs), messages: None, enums: None, unions: None }
}

/// The result, if it is not refused.
pub fn compile(m: model::Protocol) -> Option<Protocol> {
    match Protocol::from_model(m, &()) {
        Ok(v) => Some(v),
        Err(e) => {
            leak(e);
            None
        }
    }
}

/// Harnesses in which the standard library is stubbed as above.
macro_rules! compiler_harnesses {
    ($(#[unwind($u: expr)] fn $name: ident() $body: block)*) => {
        harnesses! {
            $(
                #[unwind($u)]
                #[kani::stub(std::rc::Rc::drop_slow, crate::schema::no_drop)]
                #[kani::stub(std::collections::hash_map::RandomState::new, crate::schema::maps::keys)]
                #[kani::stub(std::collections::HashMap::insert, crate::schema::maps::insert)]
                #[kani::stub(std::fmt::format, crate::schema::no_format)]
                fn $name() $body
            )*
        }
    };
}
pub(crate) use compiler_harnesses;

/// A protocol without any type.
pub fn empty(endianness: Endianness) -> Protocol {
    use std::collections::HashMap;
    Protocol {
        name: String::new(), endianness, type_path_by_name: bp3d_protoc::compiler::util::TypePathMap::new(),
        structs_by_name: HashMap::new(), messages_by_name: HashMap::new(), enums_by_name: HashMap::new(), unions_by_name: HashMap::new(),
        structs: Vec::new(), messages: Vec::new(), enums: Vec::new(), unions: Vec::new()
    }
}
