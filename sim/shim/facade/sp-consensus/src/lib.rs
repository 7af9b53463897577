#![allow(clippy::all, unused, deprecated)]
pub use node::consensus::*;
