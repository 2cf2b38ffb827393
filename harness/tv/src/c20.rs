//! C20: types imported from a protocol of the other byte order.
use crate::sym::*;
#[path = "wire.rs"]
pub mod wire;

pub mod le {
    use crate::sym::*;
    use super::wire::*;
    use crate::ib_le::*;
    use crate::iu_le::*;
    /// The byte order of the imported types.
    const BASE: bool = false;
    include!("imports.rs");
}

pub mod be {
    use crate::sym::*;
    use super::wire::*;
    use crate::ib_be::*;
    use crate::iu_be::*;
    const BASE: bool = true;
    include!("imports.rs");
}

include!(concat!(env!("OUT_DIR"), "/c20_gen.rs"));
