//! the `evm` crate's types.
pub use crate::fp_evm::{Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, Transfer};
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Config {
	pub increase_state_access_gas: bool,
	pub gas_account_access_cold: u64,
	pub gas_storage_read_warm: u64,
	pub gas_call: u64,
	pub gas_sload: u64,
	pub empty_considered_exists: bool,
}
impl Config {
	pub const fn london() -> Config {
		Config { increase_state_access_gas: true, gas_account_access_cold: 2600, gas_storage_read_warm: 100, gas_call: 700, gas_sload: 800, empty_considered_exists: false }
	}
	pub const fn shanghai() -> Config {
		Self::london()
	}
	pub const fn istanbul() -> Config {
		Self::london()
	}
}
