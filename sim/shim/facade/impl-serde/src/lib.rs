#![allow(clippy::all, unused, deprecated)]
pub use primitive_types::impl_fixed_hash_serde;
