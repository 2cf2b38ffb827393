#![allow(unexpected_cfgs, dead_code, unused_imports, unused_macros)]
#[path = "../../common/sym.rs"]
#[macro_use]
pub mod sym;

macro_rules! modules {
    ($($f: literal $m: ident),*) => {
        $(
            #[cfg(feature = $f)]
            pub mod $m;
        )*
        #[cfg(not(kani))]
        pub fn lookup(name: &str) -> Option<fn()> {
            let name = name.rsplit("::").next().unwrap();
            $(
                #[cfg(feature = $f)]
                if let Some(v) = $m::lookup(name) {
                    return Some(v);
                }
            )*
            None
        }
    };
}

modules!("c01" c01, "c02" c02, "c03" c03, "c17" c17);
