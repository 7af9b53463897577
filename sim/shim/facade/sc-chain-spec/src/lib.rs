#![allow(clippy::all, unused, deprecated)]
pub use node::chain_spec::*;
