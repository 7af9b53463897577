//! fp_evm / evm types.
use codec::{Decode, Encode};
use std::borrow::Cow;
use substrate::core_::{H160, H256, U256};
#[derive(Clone, Copy, Debug, Eq, PartialEq, Encode, Decode)]
pub enum ExitSucceed {
	Stopped,
	Returned,
	Suicided,
}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Encode, Decode)]
pub enum ExitRevert {
	Reverted,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum ExitError {
	StackUnderflow,
	StackOverflow,
	InvalidJump,
	InvalidRange,
	DesignatedInvalid,
	CallTooDeep,
	CreateCollision,
	CreateContractLimit,
	InvalidCode,
	OutOfOffset,
	OutOfGas,
	OutOfFund,
	PCUnderflow,
	CreateEmpty,
	MaxNonce,
	Other(Cow<'static, str>),
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum ExitFatal {
	NotSupported,
	UnhandledInterrupt,
	CallErrorAsFatal(ExitError),
	Other(Cow<'static, str>),
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum ExitReason {
	Succeed(ExitSucceed),
	Error(ExitError),
	Revert(ExitRevert),
	Fatal(ExitFatal),
}
impl ExitReason {
	pub fn is_succeed(&self) -> bool {
		matches!(self, Self::Succeed(_))
	}
	pub fn is_error(&self) -> bool {
		matches!(self, Self::Error(_))
	}
	pub fn is_revert(&self) -> bool {
		matches!(self, Self::Revert(_))
	}
	pub fn is_fatal(&self) -> bool {
		matches!(self, Self::Fatal(_))
	}
}
macro_rules! fr {
	($a:ident, $b:ident) => {
		impl From<$a> for ExitReason {
			fn from(x: $a) -> Self {
				Self::$b(x)
			}
		}
	};
}
fr!(ExitSucceed, Succeed);
fr!(ExitError, Error);
fr!(ExitRevert, Revert);
fr!(ExitFatal, Fatal);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Context {
	pub address: H160,
	pub caller: H160,
	pub apparent_value: U256,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Transfer {
	pub source: H160,
	pub target: H160,
	pub value: U256,
}
#[derive(Clone, Debug, Eq, PartialEq, Encode, Decode, Default)]
pub struct Log {
	pub address: H160,
	pub topics: Vec<H256>,
	pub data: Vec<u8>,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PrecompileOutput {
	pub exit_status: ExitSucceed,
	pub output: Vec<u8>,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum PrecompileFailure {
	Error { exit_status: ExitError },
	Revert { exit_status: ExitRevert, output: Vec<u8> },
	Fatal { exit_status: ExitFatal },
}
impl From<ExitError> for PrecompileFailure {
	fn from(e: ExitError) -> Self {
		Self::Error { exit_status: e }
	}
}
pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum IsPrecompileResult {
	Answer { is_precompile: bool, extra_cost: u64 },
	OutOfGas,
}
pub trait PrecompileHandle {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>);
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
	fn record_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>) -> Result<(), ExitError>;
	fn refund_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>);
	fn remaining_gas(&self) -> u64;
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
	fn code_address(&self) -> H160;
	fn input(&self) -> &[u8];
	fn context(&self) -> &Context;
	fn is_static(&self) -> bool;
	fn gas_limit(&self) -> Option<u64>;
}
pub trait PrecompileSet {
	fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>;
	fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult;
}
impl PrecompileSet for () {
	fn execute(&self, _: &mut impl PrecompileHandle) -> Option<PrecompileResult> {
		None
	}
	fn is_precompile(&self, _: H160, _: u64) -> IsPrecompileResult {
		IsPrecompileResult::Answer { is_precompile: false, extra_cost: 0 }
	}
}
pub trait Precompile {
	fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult;
}
pub trait LinearCostPrecompile {}
pub trait FeeCalculator {
	fn min_gas_price() -> (U256, frame_support::weights::Weight);
}
impl FeeCalculator for () {
	fn min_gas_price() -> (U256, frame_support::weights::Weight) {
		(U256::zero(), frame_support::weights::Weight::zero())
	}
}
#[derive(Clone, Debug, Eq, PartialEq, Default, Encode, Decode)]
pub struct UsedGas {
	pub standard: U256,
	pub effective: U256,
}
#[derive(Clone, Debug, Eq, PartialEq, Default, Encode, Decode)]
pub struct WeightInfo {
	pub ref_time_limit: Option<u64>,
	pub proof_size_limit: Option<u64>,
	pub ref_time_usage: Option<u64>,
	pub proof_size_usage: Option<u64>,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ExecutionInfoV2<T> {
	pub exit_reason: ExitReason,
	pub value: T,
	pub used_gas: UsedGas,
	pub weight_info: Option<WeightInfo>,
	pub logs: Vec<Log>,
}
pub type CallInfo = ExecutionInfoV2<Vec<u8>>;
pub type CreateInfo = ExecutionInfoV2<H160>;
pub enum CallOrCreateInfo {
	Call(CallInfo),
	Create(CreateInfo),
}
#[derive(Clone, Debug, Default)]
pub struct Vicinity {
	pub gas_price: U256,
	pub origin: H160,
}
#[derive(Clone, Debug, Default, Eq, PartialEq, Encode, Decode, serde::Serialize, serde::Deserialize)]
pub struct GenesisAccount {
	pub code: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Account {
	pub nonce: U256,
	pub balance: U256,
}
pub use crate::evm_;

pub fn weight_per_gas(block_gas_limit: u64, txn_ratio: substrate::runtime::Perbill, weight_millisec_per_block: u64) -> u64 {
	let weight_per_block = 1_000_000_000u64.saturating_mul(weight_millisec_per_block);
	let weight_per_gas = (txn_ratio * weight_per_block).saturating_div(block_gas_limit);
	assert!(weight_per_gas >= 1, "WeightPerGas must greater or equal to 1");
	weight_per_gas
}
