#![allow(clippy::all, unused, deprecated)]
pub use substrate::misc::sp_application_crypto::*;
