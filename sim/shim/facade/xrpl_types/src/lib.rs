#![allow(clippy::all, unused, deprecated)]
pub use wallet::xrpl_types::*;
