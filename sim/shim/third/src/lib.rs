//! Stand-ins for the third-party crates the repository uses and that are not available offline.
#![allow(clippy::all, unused, deprecated)]
pub mod abi;
pub mod libsec;
pub mod ripe;
pub mod xrplc;
