#![allow(clippy::all, unused, deprecated)]
pub use palletshims::self_contained::*;
