#![allow(clippy::all, unused, deprecated)]
pub use palletshims::fp_evm::*;
