#![allow(clippy::all, unused, deprecated)]
pub use palletshims::sudo::*;
