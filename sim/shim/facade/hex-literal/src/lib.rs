#![allow(clippy::all, unused, deprecated)]
pub use frame_macros::hex;
