//! pallet_balances (polkadot-v1.1.0 semantics).
use frame_support::pallet_prelude::*;
use frame_support::traits::{
	fungible, tokens::{DepositConsequence, Fortitude::{self, *}, Preservation::{self, *}, Provenance::{self, *}, WithdrawConsequence},
	BalanceStatus as Status, Currency, ExistenceRequirement::{self, *}, Get, Imbalance, OnUnbalanced, ReservableCurrency, SignedImbalance, StoredMap, TryDrop, WithdrawReasons, SameOrOther,
};
use frame_support::dispatch::*;
use frame_system::pallet_prelude::*;
use std::marker::PhantomData;
use substrate::arith::traits::*;
use substrate::runtime::traits::{StaticLookup, *};
use substrate::runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
pub use pallet::*;

pub const IS_NEW_LOGIC: u128 = 0x8000_0000_0000_0000_0000_0000_0000_0000;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct ExtraFlags(pub u128);
impl Default for ExtraFlags {
	fn default() -> Self {
		Self(IS_NEW_LOGIC)
	}
}
impl ExtraFlags {
	pub fn old_logic() -> Self { Self(0) }
	pub fn set_new_logic(&mut self) {}
	pub fn is_new_logic(&self) -> bool { true }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: ExtraFlags,
}
impl<B: Saturating + Copy> AccountData<B> {
	pub fn total(&self) -> B {
		Saturating::saturating_add(self.free, self.reserved)
	}
	pub fn usable(&self) -> B { self.free }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen)]
pub struct BalanceLock<Balance> {
	pub id: [u8; 8],
	pub amount: Balance,
}
pub trait WeightInfo {}
impl<T> WeightInfo for T {}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo: WeightInfo;
		type Balance: Parameter + Member + AtLeast32BitUnsigned + codec::Codec + Default + Copy + MaxEncodedLen + substrate::arith::FixedPointOperand + MaybeSerializeDeserialize;
		type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter;
		type RuntimeHoldReason;
		type FreezeIdentifier;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxHolds: Get<u32>;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: Status },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Slashed { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Suspended { who: T::AccountId, amount: T::Balance },
		Restored { who: T::AccountId, amount: T::Balance },
		Upgraded { who: T::AccountId },
		Issued { amount: T::Balance },
		Rescinded { amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
	}
	#[pallet::storage]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type InactiveIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<T::Balance>, ValueQuery>;
	#[pallet::storage]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { balances: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let total = self.balances.iter().fold(T::Balance::zero(), |a, (_, b)| a + *b);
			TotalIssuance::<T>::put(total);
			for (who, free) in self.balances.iter() {
				frame_system::Pallet::<T>::inc_providers(who);
				assert!(T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() }).is_ok());
			}
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(50_000_000, 0))]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(50_000_000, 0))]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let s = T::Lookup::lookup(source)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(50_000_000, 0))]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(50_000_000, 0))]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let k = if keep_alive { Preserve } else { Expendable };
			let r = <Self as fungible::Inspect<_>>::reducible_balance(&s, k, Polite);
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, r, k)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(50_000_000, 0))]
		pub fn force_unreserve(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let w = T::Lookup::lookup(who)?;
			let _ = <Self as ReservableCurrency<_>>::unreserve(&w, amount);
			Ok(())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(50_000_000, 0))]
		pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Expendable)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(50_000_000, 0))]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let ed = T::ExistentialDeposit::get();
			let new_free = if new_free < ed { Zero::zero() } else { new_free };
			let old_free = Self::mutate_account_handling_dust(&who, |a| {
				let o = a.free;
				a.free = new_free;
				o
			})?;
			if new_free > old_free {
				drop(PositiveImbalance::<T>::new(new_free - old_free));
			} else if new_free < old_free {
				drop(NegativeImbalance::<T>::new(old_free - new_free));
			}
			Self::deposit_event(Event::BalanceSet { who, free: new_free });
			Ok(())
		}
	}
}

impl<T: Config> Pallet<T> {
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).free
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Expendable, Polite)
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).reserved
	}
	pub fn ed() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn handle_raw_dust_(amount: T::Balance) {
		T::DustRemoval::on_unbalanced(NegativeImbalance::new(amount));
	}
	pub fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> {
		let (r, dust) = Self::try_mutate_account(who, f)?;
		if let Some(d) = dust {
			Self::handle_raw_dust_(d);
		}
		Ok(r)
	}
	pub fn mutate_account_handling_dust<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_account_handling_dust(who, |a, _| -> Result<R, DispatchError> { Ok(f(a)) })
	}
	pub fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
		let result = T::AccountStore::try_mutate_exists(who, |maybe_account| {
			let is_new = maybe_account.is_none();
			let mut account = maybe_account.take().unwrap_or_default();
			let did_provide = account.free >= Self::ed();
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let result = f(&mut account, is_new)?;
			let does_provide = account.free >= Self::ed();
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			if !did_provide && does_provide {
				frame_system::Pallet::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				frame_system::Pallet::<T>::inc_consumers(who)?;
			}
			if did_provide && !does_provide {
				frame_system::Pallet::<T>::dec_providers(who).map_err(|r| {
					if did_consume && !does_consume {
						let _ = frame_system::Pallet::<T>::inc_consumers(who);
					}
					if !did_consume && does_consume {
						frame_system::Pallet::<T>::dec_consumers(who);
					}
					r
				})?;
			}
			let maybe_endowed = if is_new { Some(account.free) } else { None };
			let ed = Self::ed();
			let maybe_dust = if account.free < ed && account.reserved.is_zero() {
				if account.free.is_zero() {
					None
				} else {
					Some(account.free)
				}
			} else {
				assert!(account.free.is_zero() || account.free >= ed || !account.reserved.is_zero());
				*maybe_account = Some(account);
				None
			};
			Ok((maybe_endowed, maybe_dust, result))
		});
		result.map(|(maybe_endowed, maybe_dust, result): (Option<T::Balance>, Option<T::Balance>, R)| {
			if let Some(endowed) = maybe_endowed {
				Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: endowed });
			}
			if let Some(amount) = maybe_dust {
				Self::deposit_event(Event::DustLost { account: who.clone(), amount });
			}
			(result, maybe_dust)
		})
	}
	fn do_transfer_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, best_effort: bool, status: Status) -> Result<T::Balance, DispatchError> {
		if value.is_zero() {
			return Ok(Zero::zero());
		}
		let max = Self::reserved_balance(slashed);
		let actual = if best_effort { value.min(max) } else { value };
		if actual > max {
			return Err(TokenError::FundsUnavailable.into());
		}
		if slashed == beneficiary {
			return match status {
				Status::Free => Ok(actual.saturating_sub(<Self as ReservableCurrency<_>>::unreserve(slashed, actual))),
				Status::Reserved => Ok(actual),
			};
		}
		let ((_, maybe_dust_1), maybe_dust_2) = Self::try_mutate_account(beneficiary, |to, is_new| -> Result<((), Option<T::Balance>), DispatchError> {
			if is_new {
				return Err(Error::<T>::DeadAccount.into());
			}
			Self::try_mutate_account(slashed, |from, _| -> DispatchResult {
				match status {
					Status::Free => to.free = to.free.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
					Status::Reserved => to.reserved = to.reserved.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
				}
				from.reserved -= actual;
				Ok(())
			})
		})?;
		if let Some(d) = maybe_dust_1 {
			Self::handle_raw_dust_(d);
		}
		if let Some(d) = maybe_dust_2 {
			Self::handle_raw_dust_(d);
		}
		Self::deposit_event(Event::ReserveRepatriated { from: slashed.clone(), to: beneficiary.clone(), amount: actual, destination_status: status });
		Ok(actual)
	}
}
// inherent forwards usable as `Pallet::<T>::total_issuance()` without the trait in scope
impl<T: Config> Pallet<T> {
	pub fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	pub fn active_issuance() -> T::Balance {
		TotalIssuance::<T>::get().saturating_sub(InactiveIssuance::<T>::get())
	}
	pub fn inactive_issuance() -> T::Balance {
		InactiveIssuance::<T>::get()
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).total()
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, preservation: Preservation, force: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut untouchable = Zero::zero();
		if force == Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		let is_provider = !a.free.is_zero();
		let must_remain = !frame_system::Pallet::<T>::can_dec_provider(who) || preservation == Protect;
		let stay_alive = is_provider && must_remain;
		if preservation == Preserve || stay_alive {
			untouchable = untouchable.max(T::ExistentialDeposit::get());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success;
		}
		if provenance == Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		let a = Self::account(who);
		let new_free = match a.free.checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) if x < T::ExistentialDeposit::get() => return DepositConsequence::BelowMinimum,
			Some(x) => x,
		};
		match a.reserved.checked_add(&new_free) {
			Some(_) => {},
			None => return DepositConsequence::Overflow,
		};
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success;
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow;
		}
		let a = Self::account(who);
		let new_free = match a.free.checked_sub(&amount) {
			None => return WithdrawConsequence::BalanceLow,
			Some(x) => x,
		};
		let liquid = <Self as fungible::Inspect<_>>::reducible_balance(who, Expendable, Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen;
		}
		let ed = T::ExistentialDeposit::get();
		let success = if new_free < ed {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				return WithdrawConsequence::WouldDie;
			}
		} else {
			WithdrawConsequence::Success
		};
		let new_total = new_free.saturating_add(a.reserved);
		if new_total < a.frozen {
			return WithdrawConsequence::Frozen;
		}
		success
	}
}
impl<T: Config> Pallet<T> {
	pub fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	pub fn can_deposit(who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
		<Self as fungible::Inspect<T::AccountId>>::can_deposit(who, amount, p)
	}
	pub fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		<Self as fungible::Inspect<T::AccountId>>::can_withdraw(who, amount)
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(dust: fungible::Dust<T::AccountId, Self>) {
		Self::handle_raw_dust_(dust.0)
	}
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Expendable, Force);
		let (result, maybe_dust) = Self::try_mutate_account(who, |account, _| -> DispatchResult {
			let reduction = account.free.saturating_sub(amount);
			ensure!(reduction <= max_reduction, Error::<T>::InsufficientBalance);
			account.free = amount;
			Ok(())
		})?;
		let _ = result;
		Ok(maybe_dust)
	}
	fn set_total_issuance(amount: T::Balance) {
		TotalIssuance::<T>::mutate(|t| *t = amount);
	}
	fn deactivate(amount: T::Balance) {
		InactiveIssuance::<T>::mutate(|b| *b = (*b).saturating_add(amount).min(TotalIssuance::<T>::get()));
	}
	fn reactivate(amount: T::Balance) {
		InactiveIssuance::<T>::mutate(|b| *b = (*b).saturating_sub(amount));
	}
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Minted { who: who.clone(), amount });
	}
	fn done_burn_from(who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Burned { who: who.clone(), amount });
	}
	fn done_shelve(who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Suspended { who: who.clone(), amount });
	}
	fn done_restore(who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Restored { who: who.clone(), amount });
	}
	fn done_transfer(source: &T::AccountId, dest: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Transfer { from: source.clone(), to: dest.clone(), amount });
	}
}

macro_rules! imb {
	($n:ident, $o:ident, $m:ident) => {
		#[must_use]
		pub struct $n<T: Config>(T::Balance);
		impl<T: Config> std::fmt::Debug for $n<T> {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				write!(f, "{}({:?})", stringify!($n), self.0)
			}
		}
		impl<T: Config> PartialEq for $n<T> {
			fn eq(&self, o: &Self) -> bool {
				self.0 == o.0
			}
		}
		impl<T: Config> Eq for $n<T> {}
		impl<T: Config> $n<T> {
			pub fn new(amount: T::Balance) -> Self {
				Self(amount)
			}
		}
		impl<T: Config> TryDrop for $n<T> {
			fn try_drop(self) -> Result<(), Self> {
				self.drop_zero()
			}
		}
		impl<T: Config> Default for $n<T> {
			fn default() -> Self {
				Self::zero()
			}
		}
		impl<T: Config> Imbalance<T::Balance> for $n<T> {
			type Opposite = $o<T>;
			fn zero() -> Self {
				Self(Zero::zero())
			}
			fn drop_zero(self) -> Result<(), Self> {
				if self.0.is_zero() {
					std::mem::forget(self);
					Ok(())
				} else {
					Err(self)
				}
			}
			fn split(self, amount: T::Balance) -> (Self, Self) {
				let first = self.0.min(amount);
				let second = self.0 - first;
				std::mem::forget(self);
				(Self(first), Self(second))
			}
			fn merge(mut self, other: Self) -> Self {
				self.0 = self.0.saturating_add(other.0);
				std::mem::forget(other);
				self
			}
			fn subsume(&mut self, other: Self) {
				self.0 = self.0.saturating_add(other.0);
				std::mem::forget(other);
			}
			fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
				let (a, b) = (self.0, other.0);
				std::mem::forget((self, other));
				if a > b {
					SameOrOther::Same(Self(a - b))
				} else if b > a {
					SameOrOther::Other($o::new(b - a))
				} else {
					SameOrOther::None
				}
			}
			fn peek(&self) -> T::Balance {
				self.0
			}
		}
		impl<T: Config> Drop for $n<T> {
			fn drop(&mut self) {
				TotalIssuance::<T>::mutate(|v| *v = v.$m(self.0));
			}
		}
	};
}
imb!(PositiveImbalance, NegativeImbalance, saturating_add);
imb!(NegativeImbalance, PositiveImbalance, saturating_sub);

impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).total()
	}
	fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
		value.is_zero() || Self::account(who).free >= value
	}
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn active_issuance() -> T::Balance {
		Self::active_issuance()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn burn(mut amount: T::Balance) -> PositiveImbalance<T> {
		if amount.is_zero() {
			return PositiveImbalance::zero();
		}
		TotalIssuance::<T>::mutate(|i| {
			*i = i.checked_sub(&amount).unwrap_or_else(|| {
				amount = *i;
				Zero::zero()
			});
		});
		PositiveImbalance::new(amount)
	}
	fn issue(mut amount: T::Balance) -> NegativeImbalance<T> {
		if amount.is_zero() {
			return NegativeImbalance::zero();
		}
		TotalIssuance::<T>::mutate(|i| {
			*i = i.checked_add(&amount).unwrap_or_else(|| {
				amount = T::Balance::max_value() - *i;
				T::Balance::max_value()
			})
		});
		NegativeImbalance::new(amount)
	}
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn ensure_can_withdraw(who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons, new_balance: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		ensure!(new_balance >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
		Ok(())
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, value: T::Balance, er: ExistenceRequirement) -> DispatchResult {
		if value.is_zero() || s == d {
			return Ok(());
		}
		let keep = match er {
			KeepAlive => Preserve,
			AllowDeath => Expendable,
		};
		<Self as fungible::Mutate<_>>::transfer(s, d, value, keep)?;
		Ok(())
	}
	fn slash(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if value.is_zero() {
			return (NegativeImbalance::zero(), Zero::zero());
		}
		if Self::account(who).total().is_zero() {
			return (NegativeImbalance::zero(), value);
		}
		let r = Self::try_mutate_account_handling_dust(who, |account, _| -> Result<(NegativeImbalance<T>, T::Balance), DispatchError> {
			let ed = T::ExistentialDeposit::get();
			let actual = match frame_system::Pallet::<T>::can_dec_provider(who) {
				true => account.free.min(value),
				false => account.free.min(value).min(account.free.saturating_sub(ed)),
			};
			account.free = account.free.checked_sub(&actual).ok_or(ArithmeticError::Underflow)?;
			Ok((NegativeImbalance::new(actual), value.saturating_sub(actual)))
		});
		match r {
			Ok((i, rem)) => {
				Self::deposit_event(Event::Slashed { who: who.clone(), amount: value.saturating_sub(rem) });
				(i, rem)
			},
			Err(_) => (NegativeImbalance::zero(), value),
		}
	}
	fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<PositiveImbalance<T>, DispatchError> {
		if value.is_zero() {
			return Ok(PositiveImbalance::zero());
		}
		Self::try_mutate_account_handling_dust(who, |account, is_new| -> Result<PositiveImbalance<T>, DispatchError> {
			ensure!(!is_new, Error::<T>::DeadAccount);
			account.free = account.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(PositiveImbalance::new(value))
		})
	}
	fn deposit_creating(who: &T::AccountId, value: T::Balance) -> PositiveImbalance<T> {
		if value.is_zero() {
			return PositiveImbalance::zero();
		}
		Self::try_mutate_account_handling_dust(who, |account, is_new| -> Result<PositiveImbalance<T>, DispatchError> {
			let ed = T::ExistentialDeposit::get();
			ensure!(value >= ed || !is_new, Error::<T>::ExistentialDeposit);
			account.free = match account.free.checked_add(&value) {
				Some(x) => x,
				None => return Ok(PositiveImbalance::zero()),
			};
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(PositiveImbalance::new(value))
		})
		.unwrap_or_else(|_| PositiveImbalance::zero())
	}
	fn withdraw(who: &T::AccountId, value: T::Balance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<NegativeImbalance<T>, DispatchError> {
		if value.is_zero() {
			return Ok(NegativeImbalance::zero());
		}
		Self::try_mutate_account_handling_dust(who, |account, _| -> Result<NegativeImbalance<T>, DispatchError> {
			let new_free = account.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			let ed = T::ExistentialDeposit::get();
			let would_be_dead = new_free < ed;
			let would_kill = would_be_dead && account.free >= ed;
			ensure!(liveness == AllowDeath || !would_kill, Error::<T>::Expendability);
			<Self as Currency<_>>::ensure_can_withdraw(who, value, reasons, new_free)?;
			account.free = new_free;
			Self::deposit_event(Event::Withdraw { who: who.clone(), amount: value });
			Ok(NegativeImbalance::new(value))
		})
	}
	fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, PositiveImbalance<T>> {
		Self::try_mutate_account_handling_dust(who, |account, is_new| -> Result<SignedImbalance<T::Balance, PositiveImbalance<T>>, DispatchError> {
			let ed = T::ExistentialDeposit::get();
			ensure!(value >= ed || !is_new, Error::<T>::ExistentialDeposit);
			let i = if account.free <= value { SignedImbalance::Positive(PositiveImbalance::new(value - account.free)) } else { SignedImbalance::Negative(NegativeImbalance::new(account.free - value)) };
			account.free = value;
			Ok(i)
		})
		.unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
		if value.is_zero() {
			return true;
		}
		Self::account(who).free.checked_sub(&value).map_or(false, |new| new >= T::ExistentialDeposit::get() && <Self as Currency<_>>::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, new).is_ok())
	}
	fn slash_reserved(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if value.is_zero() {
			return (NegativeImbalance::zero(), Zero::zero());
		}
		if Self::account(who).total().is_zero() {
			return (NegativeImbalance::zero(), value);
		}
		match Self::mutate_account_handling_dust(who, |a| {
			let actual = value.min(a.reserved);
			a.reserved = a.reserved.saturating_sub(actual);
			(NegativeImbalance::new(actual), value.saturating_sub(actual))
		}) {
			Ok((i, rem)) => {
				Self::deposit_event(Event::Slashed { who: who.clone(), amount: value.saturating_sub(rem) });
				(i, rem)
			},
			Err(_) => (NegativeImbalance::zero(), value),
		}
	}
	fn reserved_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).reserved
	}
	fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
		if value.is_zero() {
			return Ok(());
		}
		Self::try_mutate_account_handling_dust(who, |account, _| -> DispatchResult {
			account.free = account.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			account.reserved = account.reserved.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			<Self as Currency<_>>::ensure_can_withdraw(who, value, WithdrawReasons::RESERVE, account.free)
		})?;
		Self::deposit_event(Event::Reserved { who: who.clone(), amount: value });
		Ok(())
	}
	fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
		if value.is_zero() {
			return Zero::zero();
		}
		if Self::account(who).total().is_zero() {
			return value;
		}
		let actual = match Self::mutate_account_handling_dust(who, |account| {
			let actual = account.reserved.min(value);
			account.reserved -= actual;
			account.free = account.free.saturating_add(actual);
			actual
		}) {
			Ok(x) => x,
			Err(_) => return value,
		};
		Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
		value - actual
	}
	fn repatriate_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, status: Status) -> Result<T::Balance, DispatchError> {
		let actual = Self::do_transfer_reserved(slashed, beneficiary, value, true, status)?;
		Ok(value.saturating_sub(actual))
	}
}
