//! pallet_evm.  The EVM interpreter itself is a stand-in: `runner::stack::Runner` forwards to a
//! handler the simulator installs (recording every call), and precompiles run for real.
pub use crate::evm_::Config as EvmConfig;
pub use crate::fp_evm::*;
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::{Currency, FindAuthor, Get, Time};
use frame_system::pallet_prelude::*;
use std::marker::PhantomData;
use substrate::core_::{H160, H256, U256};
use substrate::runtime::traits::*;
use substrate::runtime::{AccountId32, DispatchError};
pub use pallet::*;

pub type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub trait AddressMapping<A> {
	fn into_account_id(address: H160) -> A;
}
pub struct IdentityAddressMapping;
impl<T: From<H160>> AddressMapping<T> for IdentityAddressMapping {
	fn into_account_id(address: H160) -> T {
		address.into()
	}
}
pub trait BlockHashMapping {
	fn block_hash(number: u32) -> H256;
}
pub trait GasWeightMapping {
	fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight;
	fn weight_to_gas(weight: Weight) -> u64;
}
pub struct FixedGasWeightMapping<T>(PhantomData<T>);
impl<T> GasWeightMapping for FixedGasWeightMapping<T> {
	fn gas_to_weight(gas: u64, _w: bool) -> Weight {
		Weight::from_parts(gas.saturating_mul(25_000), 0)
	}
	fn weight_to_gas(w: Weight) -> u64 {
		w.ref_time() / 25_000
	}
}
pub trait EnsureAddressOrigin<OuterOrigin> {
	type Success;
	fn ensure_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, DispatchError> {
		Self::try_address_origin(address, origin).map_err(|_| DispatchError::Other("BadOrigin"))
	}
	fn try_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub struct EnsureAddressNever<A>(PhantomData<A>);
impl<O, A> EnsureAddressOrigin<O> for EnsureAddressNever<A> {
	type Success = A;
	fn try_address_origin(_: &H160, o: O) -> Result<A, O> {
		Err(o)
	}
}
pub struct EnsureAddressRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureAddressOrigin<O> for EnsureAddressRoot<A> {
	type Success = ();
	fn try_address_origin(_: &H160, o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureAddressSame;
pub trait OnChargeEVMTransaction<T: Config> {
	type LiquidityInfo: Default;
	fn withdraw_fee(_who: &H160, _fee: U256) -> Result<Self::LiquidityInfo, Error<T>> {
		Ok(Default::default())
	}
	fn correct_and_deposit_fee(_who: &H160, _corrected_fee: U256, _base_fee: U256, already: Self::LiquidityInfo) -> Self::LiquidityInfo {
		already
	}
	fn pay_priority_fee(_tip: Self::LiquidityInfo) {}
}
impl<T: Config> OnChargeEVMTransaction<T> for () {
	type LiquidityInfo = ();
}
pub trait OnCreate<T> {
	fn on_create(_owner: H160, _contract: H160) {}
}
impl<T> OnCreate<T> for () {}
pub struct EVMCurrencyAdapter<C, OU>(PhantomData<(C, OU)>);

#[derive(Debug)]
pub struct RunnerError<E> {
	pub error: E,
	pub weight: Weight,
}
pub trait Runner<T: Config> {
	type Error: Into<DispatchError> + std::fmt::Debug;
	#[allow(clippy::too_many_arguments)]
	fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, evm_config: &EvmConfig) -> Result<(), RunnerError<Self::Error>>;
	fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>>;
	fn create(source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
	fn create2(source: H160, init: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
}

/// What reached the (simulated) interpreter.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct InnerCall {
	pub kind: &'static str,
	pub source: H160,
	pub target: Option<H160>,
	pub input: Vec<u8>,
	pub value: U256,
	pub gas_limit: u64,
	pub max_fee_per_gas: Option<U256>,
	pub max_priority_fee_per_gas: Option<U256>,
	pub nonce: Option<U256>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum InnerOutcome {
	Ok,
	Revert,
	OutOfGas,
	/// The runner rejects the transaction outright (e.g. cannot pay).
	Reject,
}
thread_local! {
	pub static INNER_LOG: std::cell::RefCell<Vec<InnerCall>> = const { std::cell::RefCell::new(Vec::new()) };
	pub static INNER_HANDLER: std::cell::RefCell<Option<Box<dyn FnMut(&InnerCall) -> InnerOutcome>>> = const { std::cell::RefCell::new(None) };
}
pub fn set_inner_handler(f: Option<Box<dyn FnMut(&InnerCall) -> InnerOutcome>>) {
	INNER_HANDLER.with(|h| *h.borrow_mut() = f)
}
pub fn take_inner_log() -> Vec<InnerCall> {
	INNER_LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn inner(c: InnerCall) -> InnerOutcome {
	INNER_LOG.with(|l| l.borrow_mut().push(c.clone()));
	let h = INNER_HANDLER.with(|h| h.borrow_mut().take());
	match h {
		Some(mut f) => {
			let r = f(&c);
			INNER_HANDLER.with(|h| {
				if h.borrow().is_none() {
					*h.borrow_mut() = Some(f)
				}
			});
			r
		},
		None => InnerOutcome::Ok,
	}
}
fn reason(o: &InnerOutcome) -> ExitReason {
	match o {
		InnerOutcome::Ok => ExitReason::Succeed(ExitSucceed::Returned),
		InnerOutcome::Revert => ExitReason::Revert(ExitRevert::Reverted),
		_ => ExitReason::Error(ExitError::OutOfGas),
	}
}
pub mod runner {
	pub mod stack {
		use super::super::*;
		pub struct Runner<T>(PhantomData<T>);
		impl<T: Config> super::super::Runner<T> for Runner<T> {
			type Error = Error<T>;
			fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, _al: Vec<(H160, Vec<H256>)>, _t: bool, _wl: Option<Weight>, _p: Option<u64>, _c: &EvmConfig) -> Result<(), RunnerError<Error<T>>> {
				match inner(InnerCall { kind: "validate", source, target, input, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce }) {
					InnerOutcome::Reject => Err(RunnerError { error: Error::<T>::BalanceLow, weight: Weight::zero() }),
					_ => Ok(()),
				}
			}
			fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, _al: Vec<(H160, Vec<H256>)>, _t: bool, _v: bool, _wl: Option<Weight>, _p: Option<u64>, _c: &EvmConfig) -> Result<CallInfo, RunnerError<Error<T>>> {
				let o = inner(InnerCall { kind: "call", source, target: Some(target), input, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce });
				if o == InnerOutcome::Reject {
					return Err(RunnerError { error: Error::<T>::BalanceLow, weight: Weight::zero() });
				}
				Ok(CallInfo { exit_reason: reason(&o), value: vec![], used_gas: UsedGas::default(), weight_info: None, logs: vec![] })
			}
			fn create(source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, _al: Vec<(H160, Vec<H256>)>, _t: bool, _v: bool, _wl: Option<Weight>, _p: Option<u64>, _c: &EvmConfig) -> Result<CreateInfo, RunnerError<Error<T>>> {
				let o = inner(InnerCall { kind: "create", source, target: None, input: init, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce });
				if o == InnerOutcome::Reject {
					return Err(RunnerError { error: Error::<T>::BalanceLow, weight: Weight::zero() });
				}
				Ok(CreateInfo { exit_reason: reason(&o), value: H160::default(), used_gas: UsedGas::default(), weight_info: None, logs: vec![] })
			}
			fn create2(source: H160, init: Vec<u8>, _salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, _al: Vec<(H160, Vec<H256>)>, _t: bool, _v: bool, _wl: Option<Weight>, _p: Option<u64>, _c: &EvmConfig) -> Result<CreateInfo, RunnerError<Error<T>>> {
				let o = inner(InnerCall { kind: "create2", source, target: None, input: init, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce });
				if o == InnerOutcome::Reject {
					return Err(RunnerError { error: Error::<T>::BalanceLow, weight: Weight::zero() });
				}
				Ok(CreateInfo { exit_reason: reason(&o), value: H160::default(), used_gas: UsedGas::default(), weight_info: None, logs: vec![] })
			}
		}
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type FeeCalculator: FeeCalculator;
		type GasWeightMapping: GasWeightMapping;
		type BlockHashMapping: BlockHashMapping;
		type CallOrigin: EnsureAddressOrigin<Self::RuntimeOrigin>;
		type WithdrawOrigin: EnsureAddressOrigin<Self::RuntimeOrigin>;
		type AddressMapping: AddressMapping<Self::AccountId>;
		type Currency: Currency<Self::AccountId>;
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Runner: super::Runner<Self>;
		type PrecompilesType: PrecompileSet;
		type PrecompilesValue;
		type ChainId;
		type BlockGasLimit;
		type OnChargeTransaction;
		type FindAuthor: FindAuthor<H160>;
		type HandleTxValidation;
		type WeightPerGas;
		type OnCreate;
		type GasLimitPovSizeRatio;
		type Timestamp: Time;
		type WeightInfo;
		fn config() -> &'static EvmConfig {
			static LONDON: EvmConfig = EvmConfig::london();
			&LONDON
		}
	}
	#[pallet::storage]
	pub type AccountCodes<T: Config> = StorageMap<_, Blake2_128Concat, H160, Vec<u8>, ValueQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Log { log: Log },
		Created { address: H160 },
		Executed { address: H160 },
		ExecutedFailed { address: H160 },
		Phantom { _p: PhantomData<T> },
	}
	#[pallet::error]
	pub enum Error<T> {
		BalanceLow,
		FeeOverflow,
		PaymentOverflow,
		WithdrawFailed,
		GasPriceTooLow,
		InvalidNonce,
		GasLimitTooLow,
		GasLimitTooHigh,
		Undefined,
		Reentrancy,
		TransactionMustComeFromEOA,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(1)]
		#[pallet::weight(T::GasWeightMapping::gas_to_weight(*gas_limit, true))]
		pub fn call(origin: OriginFor<T>, source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: U256, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>) -> DispatchResultWithPostInfo {
			T::CallOrigin::ensure_address_origin(&source, origin)?;
			let info = T::Runner::call(source, target, input, value, gas_limit, Some(max_fee_per_gas), max_priority_fee_per_gas, nonce, access_list, true, true, None, None, &EvmConfig::london()).map_err(|e| DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(e.weight), pays_fee: Pays::Yes }, error: e.error.into() })?;
			Self::deposit_event(if info.exit_reason.is_succeed() { Event::Executed { address: target } } else { Event::ExecutedFailed { address: target } });
			Ok(PostDispatchInfo { actual_weight: None, pays_fee: Pays::No })
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn is_account_empty(address: &H160) -> bool {
		AccountCodes::<T>::decode_len(address).unwrap_or(0) == 0
	}
	pub fn create_account(address: H160, code: Vec<u8>) {
		if !code.is_empty() {
			AccountCodes::<T>::insert(address, code);
		}
	}
	pub fn remove_account(address: &H160) {
		AccountCodes::<T>::remove(address);
	}
	pub fn find_author() -> H160 {
		T::FindAuthor::find_author(std::iter::empty::<([u8; 4], &[u8])>()).unwrap_or_default()
	}
	pub fn config() -> EvmConfig {
		EvmConfig::london()
	}
}

pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
