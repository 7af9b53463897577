//! Stand-ins for the crates with which wallets sign: xrpl-sdk-rust (binary codec and types),
//! doughnut-rs and trn-pact. The XRPL format is the real one (for the fields used here), the formats of
//! doughnuts, toppings and pacts are this crate's own, with the same content and interface.
#![allow(clippy::all, unused, deprecated)]
pub mod doughnut;
pub mod pact;
pub mod xrpl_binary_codec;
pub mod xrpl_types;
