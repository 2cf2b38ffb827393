#![allow(unexpected_cfgs, dead_code, unused_imports, unused_macros, unused_variables, unused_mut, non_snake_case, unused_unsafe, unused_parens)]
#[path = "../../common/sym.rs"]
#[macro_use]
pub mod sym;
#[macro_use]
pub mod oracle;

macro_rules! protocols {
    ($([$($f: literal),*] $env: literal)*) => { $( #[cfg(any($(feature = $f),*))] include!(env!($env)); )* };
}
protocols! {
    ["c03"] "BP3D_PROTOC_A_LE" ["c03"] "BP3D_PROTOC_A_BE"
    ["c05"] "BP3D_PROTOC_S_LE" ["c05"] "BP3D_PROTOC_S_BE"
    ["c06"] "BP3D_PROTOC_V_LE" ["c06"] "BP3D_PROTOC_V_BE"
    ["c07"] "BP3D_PROTOC_F_LE" ["c07"] "BP3D_PROTOC_F_BE"
    ["c20"] "BP3D_PROTOC_IB_LE" ["c20"] "BP3D_PROTOC_IU_LE"
    ["c20"] "BP3D_PROTOC_IB_BE" ["c20"] "BP3D_PROTOC_IU_BE"
    ["c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16"] "BP3D_PROTOC_M_LE" ["c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16"] "BP3D_PROTOC_U_LE"
    ["c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16"] "BP3D_PROTOC_M_BE" ["c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16"] "BP3D_PROTOC_U_BE"
}
#[cfg(any(feature = "c08", feature = "c09", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c15", feature = "c16"))]
pub mod m;

macro_rules! modules {
    ($($f: literal $m: ident),*) => {
        $(
            #[cfg(feature = $f)]
            pub mod $m;
        )*
        #[cfg(not(kani))]
        pub fn lookup(name: &str) -> Option<fn()> {
            let short = name.rsplit("::").next().unwrap();
            $(
                #[cfg(feature = $f)]
                if let Some(v) = $m::lookup(short) {
                    return Some(v);
                }
            )*
            #[cfg(feature = "c13")]
            if let Some(v) = c13::more::lookup(short) {
                return Some(v);
            }
            #[cfg(feature = "c14")]
            if let Some(v) = c14::more::lookup(short) {
                return Some(v);
            }
            None
        }
    };
}

modules!("c03" c03, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c20" c20);
