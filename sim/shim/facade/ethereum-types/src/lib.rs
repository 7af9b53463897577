#![allow(clippy::all, unused, deprecated)]
pub use primitive_types::*;
