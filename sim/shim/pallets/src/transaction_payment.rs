//! pallet_transaction_payment (polkadot-v1.1.0 semantics; fee multiplier fixed at 1).
use codec::{Decode, Encode};
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::{Currency, ExistenceRequirement, Get, Imbalance, OnUnbalanced, WithdrawReasons};
use frame_support::weights::*;
use frame_system::pallet_prelude::*;
use std::marker::PhantomData;
use substrate::arith::traits::*;
use substrate::arith::FixedPointOperand;
use substrate::runtime::traits::{DispatchInfoOf, PostDispatchInfoOf, SignedExtension, *};
use substrate::runtime::transaction_validity::*;
use substrate::runtime::{DispatchError, DispatchResult};
pub use pallet::*;
pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
pub type LiquidityInfoOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo;
pub trait Balance_: AtLeast32BitUnsigned + codec::FullCodec + Copy + MaybeSerializeDeserialize + std::fmt::Debug + Default {}
impl<T: AtLeast32BitUnsigned + codec::FullCodec + Copy + MaybeSerializeDeserialize + std::fmt::Debug + Default> Balance_ for T {}
pub trait OnChargeTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance;
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(who: &T::AccountId, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, post_info: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already_withdrawn: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T: Config, C: Currency<T::AccountId>, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
	C::Balance: frame_support::traits::tokens::Balance,
	OU: OnUnbalanced<C::NegativeImbalance>,
	C::NegativeImbalance: Imbalance<C::Balance, Opposite = C::PositiveImbalance>,
	C::PositiveImbalance: Imbalance<C::Balance, Opposite = C::NegativeImbalance>,
{
	type LiquidityInfo = Option<C::NegativeImbalance>;
	type Balance = C::Balance;
	fn withdraw_fee(who: &T::AccountId, _call: &T::RuntimeCall, _info: &DispatchInfoOf<T::RuntimeCall>, fee: C::Balance, tip: C::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None);
		}
		let reason = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
		match C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive) {
			Ok(i) => Ok(Some(i)),
			Err(_) => Err(InvalidTransaction::Payment.into()),
		}
	}
	fn correct_and_deposit_fee(who: &T::AccountId, _i: &DispatchInfoOf<T::RuntimeCall>, _p: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: C::Balance, tip: C::Balance, already: Self::LiquidityInfo) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already {
			let refund = paid.peek().saturating_sub(corrected_fee);
			let refund_imb = C::deposit_into_existing(who, refund).unwrap_or_else(|_| C::PositiveImbalance::zero());
			let adjusted = paid.offset(refund_imb).same().map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> },
	}
}
impl<T: Config> Pallet<T>
where
	BalanceOf<T>: FixedPointOperand,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	pub fn compute_fee(len: u32, info: &DispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> {
		Self::raw(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfo, post: &PostDispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> {
		Self::raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class)
	}
	fn raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> BalanceOf<T> {
		if pays == Pays::Yes {
			let wf = Self::weight_to_fee(weight);
			let lf = T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0));
			let base = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
			base.saturating_add(lf).saturating_add(wf).saturating_add(tip)
		} else {
			tip
		}
	}
	pub fn weight_to_fee(w: Weight) -> BalanceOf<T> {
		let capped = w.min(T::BlockWeights::get().max_block);
		T::WeightToFee::weight_to_fee(&capped)
	}
	pub fn length_to_fee(len: u32) -> BalanceOf<T> {
		T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0))
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq)]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] BalanceOf<T>);
impl<T: Config> ChargeTransactionPayment<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	BalanceOf<T>: Send + Sync + FixedPointOperand,
{
	pub fn from(fee: BalanceOf<T>) -> Self {
		Self(fee)
	}
	pub fn tip(&self) -> BalanceOf<T> {
		self.0
	}
	fn withdraw_fee(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(BalanceOf<T>, LiquidityInfoOf<T>), TransactionValidityError> {
		let tip = self.0;
		let fee = Pallet::<T>::compute_fee(len as u32, info, tip);
		T::OnChargeTransaction::withdraw_fee(who, call, info, fee, tip).map(|i| (fee, i))
	}
	pub fn get_priority(info: &DispatchInfoOf<T::RuntimeCall>, len: usize, tip: BalanceOf<T>, _final_fee: BalanceOf<T>) -> TransactionPriority {
		let max = T::BlockWeights::get().max_block;
		let bounded = info.weight.max(Weight::from_parts(1, 1)).min(max);
		let per_block = (max.ref_time() / bounded.ref_time().max(1)).max(1).min(5 * 1024 * 1024 / (len as u64).max(1));
		let t: u128 = tip.saturating_add(One::one()).saturated_into();
		t.saturating_mul(per_block as u128).min(u64::MAX as u128) as u64
	}
}
impl<T: Config> std::fmt::Debug for ChargeTransactionPayment<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "ChargeTransactionPayment<{:?}>", self.0)
	}
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T>
where
	BalanceOf<T>: Send + Sync + From<u64> + FixedPointOperand,
	T: Send + Sync,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, T::AccountId, LiquidityInfoOf<T>);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> TransactionValidity {
		let (final_fee, _) = self.withdraw_fee(who, call, info, len)?;
		Ok(ValidTransaction { priority: Self::get_priority(info, len, self.0, final_fee), ..Default::default() })
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let (_fee, i) = self.withdraw_fee(who, call, info, len)?;
		Ok((self.0, who.clone(), i))
	}
	fn post_dispatch(maybe_pre: Option<Self::Pre>, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imbalance)) = maybe_pre {
			let actual = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, actual, tip, imbalance)?;
			Pallet::<T>::deposit_event(Event::TransactionFeePaid { who, actual_fee: actual, tip });
		}
		Ok(())
	}
}
