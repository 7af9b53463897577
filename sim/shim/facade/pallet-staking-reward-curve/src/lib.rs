#![allow(clippy::all, unused, deprecated)]
pub use palletshims::reward_curve::*;
