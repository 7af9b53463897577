#![allow(clippy::all, unused, deprecated)]
pub use frame_macros::impl_for_tuples;
