#![allow(clippy::all, unused, deprecated)]
pub use wallet::pact::*;
