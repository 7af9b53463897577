#![allow(clippy::all, unused, deprecated)]
pub use palletshims::transaction_payment::*;
