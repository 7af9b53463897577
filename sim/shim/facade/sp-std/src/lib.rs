#![allow(clippy::all, unused, deprecated)]
pub use substrate::misc::sp_std::*;
