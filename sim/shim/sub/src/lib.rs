//! A deterministic single-process stand-in for the Substrate (polkadot-v1.1.0) crates that the
//! repository is written against.  The repository's own crates are compiled unmodified on top.
#![allow(clippy::all, deprecated, unused, non_snake_case, dead_code)]
extern crate self as substrate;
extern crate self as frame_support_root;
pub extern crate codec;
pub extern crate scale_info;
pub use serde;
pub mod arith;
pub mod bounded;
pub mod core_;
pub mod io;
pub mod keystore;
pub mod offchain_;
pub mod runtime;
pub mod support;
pub mod misc;

pub use core_ as sp_core;
pub use io as sp_io;
pub use keystore as sp_keystore;
pub use runtime as sp_runtime;
pub use support as frame_support;
pub use arith as sp_arithmetic;
pub use misc::{sp_api, sp_application_crypto, sp_staking, sp_std, sp_session};
pub mod paste_ {
	pub use paste::paste;
}
