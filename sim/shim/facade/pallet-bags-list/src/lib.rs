#![allow(clippy::all, unused, deprecated)]
pub use palletshims::bags_list::*;
