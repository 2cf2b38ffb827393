//! The messages of schemas/m.json5 in both byte orders.
#[path = "wire.rs"]
pub mod wire;

pub mod le {
    use crate::sym::*;
    use super::wire::*;
    use crate::m_le::*;
    use crate::u_le::*;
    use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};
    use bp3d_proto::message::util::{Array, List};
    pub const BIG: bool = false;
    include!("cases.rs");
    #[cfg(feature = "c13")]
    include!("sizes.rs");
    #[cfg(feature = "c15")]
    include!("unions.rs");
}

pub mod be {
    use crate::sym::*;
    use super::wire::*;
    use crate::m_be::*;
    use crate::u_be::*;
    use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};
    use bp3d_proto::message::util::{Array, List};
    pub const BIG: bool = true;
    include!("cases.rs");
    #[cfg(feature = "c13")]
    include!("sizes.rs");
    #[cfg(feature = "c15")]
    include!("unions.rs");
}
