#![allow(clippy::all, unused, deprecated)]
pub use third::xrplc::*;
