#![allow(clippy::all, unused, deprecated)]
pub use paste::*;
