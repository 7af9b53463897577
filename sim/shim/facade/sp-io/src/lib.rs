#![allow(clippy::all, unused, deprecated)]
pub use substrate::io::*;
