#![allow(clippy::all, unused, deprecated)]
pub use wallet::xrpl_binary_codec::*;
