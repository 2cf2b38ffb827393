#![cfg_attr(kani, feature(allocator_api))]
#![allow(unexpected_cfgs, dead_code, unused_imports, unused_macros)]
#[path = "../../common/sym.rs"]
#[macro_use]
pub mod sym;

macro_rules! modules {
    ($($f: literal $m: ident),*) => {
        $(
            #[cfg(feature = $f)]
            pub mod $m;
        )*
        #[cfg(not(kani))]
        pub fn lookup(name: &str) -> Option<fn()> {
            let name = name.rsplit("::").next().unwrap();
            $(
                #[cfg(feature = $f)]
                if let Some(v) = $m::lookup(name) {
                    return Some(v);
                }
            )*
            None
        }
    };
}

#[macro_use]
pub mod schema;
modules!("c04" c04);
