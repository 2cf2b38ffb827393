//! C15: unions, on their own.
use crate::sym::*;
use crate::m::{le, be};

include!(concat!(env!("OUT_DIR"), "/c15_gen.rs"));
