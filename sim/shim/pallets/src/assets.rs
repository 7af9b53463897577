//! pallet_assets (polkadot-v1.1.0 semantics for the surface used here).
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::{
	fungibles, tokens::{DepositConsequence, Fortitude::{self, *}, Precision::{self, *}, Preservation::{self, *}, Provenance::{self, *}, WithdrawConsequence},
	BalanceStatus, Currency, EnsureOrigin, EnsureOriginWithArg, Get, ReservableCurrency,
};
use frame_system::pallet_prelude::*;
use std::marker::PhantomData;
use substrate::arith::traits::*;
use substrate::runtime::traits::{StaticLookup, *};
use substrate::runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
pub use pallet::*;

#[macro_export]
macro_rules! runtime_benchmarks_enabled {
	($($t:tt)*) => {};
}
pub use crate::runtime_benchmarks_enabled;

macro_rules! weights {
	($($n:ident),*) => {
		pub trait WeightInfo { $( fn $n() -> Weight { Weight::from_parts(30_000_000, 3000) } )* }
		impl WeightInfo for () {}
	};
}
weights!(create, force_create, start_destroy, finish_destroy, mint, burn, transfer, transfer_keep_alive, force_transfer, freeze, thaw, freeze_asset, thaw_asset, transfer_ownership, set_team, clear_metadata, force_clear_metadata, force_asset_status, approve_transfer, transfer_approved, cancel_approval, force_cancel_approval, set_min_balance, touch, touch_other, refund, refund_other, block);

pub trait FrozenBalance<AssetId, AccountId, Balance> {
	fn frozen_balance(asset: AssetId, who: &AccountId) -> Option<Balance>;
	fn died(asset: AssetId, who: &AccountId);
}
impl<A, B, C> FrozenBalance<A, B, C> for () {
	fn frozen_balance(_: A, _: &B) -> Option<C> {
		None
	}
	fn died(_: A, _: &B) {}
}
pub trait AssetsCallback<AssetId, AccountId> {
	fn created(_id: &AssetId, _owner: &AccountId) -> Result<(), ()> {
		Ok(())
	}
	fn destroyed(_id: &AssetId) -> Result<(), ()> {
		Ok(())
	}
}
impl<A, B> AssetsCallback<A, B> for () {}

#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum AssetStatus {
	Live,
	Frozen,
	Destroying,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub struct AssetDetails<Balance, AccountId, DepositBalance> {
	pub owner: AccountId,
	pub issuer: AccountId,
	pub admin: AccountId,
	pub freezer: AccountId,
	pub supply: Balance,
	pub deposit: DepositBalance,
	pub min_balance: Balance,
	pub is_sufficient: bool,
	pub accounts: u32,
	pub sufficients: u32,
	pub approvals: u32,
	pub status: AssetStatus,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, Default, MaxEncodedLen)]
pub struct Approval<Balance, DepositBalance> {
	pub amount: Balance,
	pub deposit: DepositBalance,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum ExistenceReason<Balance> {
	Consumer,
	Sufficient,
	DepositHeld(Balance),
	DepositRefunded,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub enum AccountStatus {
	Liquid,
	Frozen,
	Blocked,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, MaxEncodedLen)]
pub struct AssetAccount<Balance, DepositBalance, Extra> {
	pub balance: Balance,
	pub status: AccountStatus,
	pub reason: ExistenceReason<DepositBalance>,
	pub extra: Extra,
}
#[derive(Clone, Encode, Decode, Eq, PartialEq, Default, Debug, MaxEncodedLen)]
pub struct AssetMetadata<DepositBalance, BoundedString> {
	pub deposit: DepositBalance,
	pub name: BoundedString,
	pub symbol: BoundedString,
	pub decimals: u8,
	pub is_frozen: bool,
}
#[derive(Copy, Clone)]
pub struct DebitFlags {
	pub keep_alive: bool,
	pub best_effort: bool,
}
#[derive(Copy, Clone)]
pub struct TransferFlags {
	pub keep_alive: bool,
	pub best_effort: bool,
	pub burn_dust: bool,
}
pub type DepositBalanceOf<T, I> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub type AssetAccountOf<T, I> = AssetAccount<<T as Config<I>>::Balance, DepositBalanceOf<T, I>, <T as Config<I>>::Extra>;
type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: Member + Parameter + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
		type RemoveItemsLimit: Get<u32>;
		type AssetId: Member + Parameter + Clone + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
		type AssetIdParameter: Parameter + Copy + From<Self::AssetId> + Into<Self::AssetId> + MaxEncodedLen;
		type Currency: ReservableCurrency<Self::AccountId>;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::AssetId, Success = Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type AssetDeposit: Get<DepositBalanceOf<Self, I>>;
		type AssetAccountDeposit: Get<DepositBalanceOf<Self, I>>;
		type MetadataDepositBase: Get<DepositBalanceOf<Self, I>>;
		type MetadataDepositPerByte: Get<DepositBalanceOf<Self, I>>;
		type ApprovalDeposit: Get<DepositBalanceOf<Self, I>>;
		type StringLimit: Get<u32>;
		type Freezer: FrozenBalance<Self::AssetId, Self::AccountId, Self::Balance>;
		type Extra: Member + Parameter + Default + MaxEncodedLen;
		type CallbackHandle: AssetsCallback<Self::AssetId, Self::AccountId>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::storage]
	pub type Asset<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AssetId, AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T, I>>>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> = StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, AssetAccountOf<T, I>>;
	#[pallet::storage]
	pub type Metadata<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AssetId, AssetMetadata<DepositBalanceOf<T, I>, BoundedVec<u8, T::StringLimit>>, ValueQuery>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub assets: Vec<(T::AssetId, T::AccountId, bool, T::Balance)>,
		pub metadata: Vec<(T::AssetId, Vec<u8>, Vec<u8>, u8)>,
		pub accounts: Vec<(T::AssetId, T::AccountId, T::Balance)>,
	}
	impl<T: Config<I>, I: 'static> Default for GenesisConfig<T, I> {
		fn default() -> Self {
			Self { assets: vec![], metadata: vec![], accounts: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			for (id, owner, is_sufficient, min_balance) in &self.assets {
				assert!(!Asset::<T, I>::contains_key(id), "Asset id already in use");
				assert!(!min_balance.is_zero(), "Min balance should not be zero");
				Asset::<T, I>::insert(
					id,
					AssetDetails {
						owner: owner.clone(),
						issuer: owner.clone(),
						admin: owner.clone(),
						freezer: owner.clone(),
						supply: Zero::zero(),
						deposit: Zero::zero(),
						min_balance: *min_balance,
						is_sufficient: *is_sufficient,
						accounts: 0,
						sufficients: 0,
						approvals: 0,
						status: AssetStatus::Live,
					},
				);
			}
			for (id, name, symbol, decimals) in &self.metadata {
				assert!(Asset::<T, I>::contains_key(id), "Asset does not exist");
				let bn: BoundedVec<u8, T::StringLimit> = name.clone().try_into().expect("asset name is too long");
				let bs: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().expect("asset symbol is too long");
				Metadata::<T, I>::insert(id, AssetMetadata { deposit: Zero::zero(), name: bn, symbol: bs, decimals: *decimals, is_frozen: false });
			}
			for (id, account_id, amount) in &self.accounts {
				Pallet::<T, I>::increase_balance_(*id, account_id, *amount, |details| {
					details.supply = details.supply.saturating_add(*amount);
					Ok(())
				})
				.expect("genesis asset balance");
			}
		}
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { asset_id: T::AssetId, creator: T::AccountId, owner: T::AccountId },
		Issued { asset_id: T::AssetId, owner: T::AccountId, amount: T::Balance },
		Transferred { asset_id: T::AssetId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Burned { asset_id: T::AssetId, owner: T::AccountId, balance: T::Balance },
		TeamChanged { asset_id: T::AssetId, issuer: T::AccountId, admin: T::AccountId, freezer: T::AccountId },
		OwnerChanged { asset_id: T::AssetId, owner: T::AccountId },
		Frozen { asset_id: T::AssetId, who: T::AccountId },
		Thawed { asset_id: T::AssetId, who: T::AccountId },
		AssetFrozen { asset_id: T::AssetId },
		AssetThawed { asset_id: T::AssetId },
		ForceCreated { asset_id: T::AssetId, owner: T::AccountId },
		MetadataSet { asset_id: T::AssetId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool },
		MetadataCleared { asset_id: T::AssetId },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		BalanceLow,
		NoAccount,
		NoPermission,
		Unknown,
		Frozen,
		InUse,
		BadWitness,
		MinBalanceZero,
		UnavailableConsumer,
		BadMetadata,
		Unapproved,
		WouldDie,
		AlreadyExists,
		NoDeposit,
		WouldBurn,
		LiveAsset,
		AssetNotLive,
		IncorrectStatus,
		NotFrozen,
		CallbackFailed,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(30_000_000, 3000))]
		pub fn create(origin: OriginFor<T>, id: T::AssetIdParameter, admin: LookupOf<T>, min_balance: T::Balance) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let _ = T::Lookup::lookup(admin)?;
			Self::do_force_create(id.into(), who, false, min_balance)
		}
		#[pallet::call_index(1)]
		#[pallet::weight(T::WeightInfo::force_create())]
		pub fn force_create(origin: OriginFor<T>, id: T::AssetIdParameter, owner: LookupOf<T>, is_sufficient: bool, #[pallet::compact] min_balance: T::Balance) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			Self::do_force_create(id.into(), owner, is_sufficient, min_balance)
		}
		#[pallet::call_index(6)]
		#[pallet::weight(T::WeightInfo::mint())]
		pub fn mint(origin: OriginFor<T>, id: T::AssetIdParameter, beneficiary: LookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let beneficiary = T::Lookup::lookup(beneficiary)?;
			let id: T::AssetId = id.into();
			Self::do_mint(id, &beneficiary, amount, Some(origin))
		}
		#[pallet::call_index(7)]
		#[pallet::weight(T::WeightInfo::burn())]
		pub fn burn(origin: OriginFor<T>, id: T::AssetIdParameter, who: LookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let who = T::Lookup::lookup(who)?;
			let id: T::AssetId = id.into();
			Self::do_burn(id, &who, amount, Some(origin), DebitFlags { keep_alive: false, best_effort: true })?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn transfer(origin: OriginFor<T>, id: T::AssetIdParameter, target: LookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(target)?;
			let f = TransferFlags { keep_alive: false, best_effort: false, burn_dust: false };
			Self::do_transfer(id.into(), &origin, &dest, amount, None, f).map(|_| ())
		}
		#[pallet::call_index(9)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, id: T::AssetIdParameter, target: LookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(target)?;
			let f = TransferFlags { keep_alive: true, best_effort: false, burn_dust: false };
			Self::do_transfer(id.into(), &source, &dest, amount, None, f).map(|_| ())
		}
		#[pallet::call_index(10)]
		#[pallet::weight(T::WeightInfo::force_transfer())]
		pub fn force_transfer(origin: OriginFor<T>, id: T::AssetIdParameter, source: LookupOf<T>, dest: LookupOf<T>, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let source = T::Lookup::lookup(source)?;
			let dest = T::Lookup::lookup(dest)?;
			let f = TransferFlags { keep_alive: false, best_effort: false, burn_dust: false };
			Self::do_transfer(id.into(), &source, &dest, amount, Some(origin), f).map(|_| ())
		}
		#[pallet::call_index(11)]
		#[pallet::weight(T::WeightInfo::freeze())]
		pub fn freeze(origin: OriginFor<T>, id: T::AssetIdParameter, who: LookupOf<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let d = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
			ensure!(d.status == AssetStatus::Live || d.status == AssetStatus::Frozen, Error::<T, I>::AssetNotLive);
			ensure!(origin == d.freezer, Error::<T, I>::NoPermission);
			let who = T::Lookup::lookup(who)?;
			Account::<T, I>::try_mutate(id, &who, |m| -> DispatchResult {
				m.as_mut().ok_or(Error::<T, I>::NoAccount)?.status = AccountStatus::Frozen;
				Ok(())
			})?;
			Self::deposit_event(Event::Frozen { asset_id: id, who });
			Ok(())
		}
		#[pallet::call_index(12)]
		#[pallet::weight(T::WeightInfo::thaw())]
		pub fn thaw(origin: OriginFor<T>, id: T::AssetIdParameter, who: LookupOf<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			let d = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
			ensure!(d.status == AssetStatus::Live || d.status == AssetStatus::Frozen, Error::<T, I>::AssetNotLive);
			ensure!(origin == d.admin, Error::<T, I>::NoPermission);
			let who = T::Lookup::lookup(who)?;
			Account::<T, I>::try_mutate(id, &who, |m| -> DispatchResult {
				m.as_mut().ok_or(Error::<T, I>::NoAccount)?.status = AccountStatus::Liquid;
				Ok(())
			})?;
			Self::deposit_event(Event::Thawed { asset_id: id, who });
			Ok(())
		}
		#[pallet::call_index(13)]
		#[pallet::weight(T::WeightInfo::freeze_asset())]
		pub fn freeze_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			Asset::<T, I>::try_mutate(id, |m| {
				let d = m.as_mut().ok_or(Error::<T, I>::Unknown)?;
				ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
				ensure!(origin == d.freezer, Error::<T, I>::NoPermission);
				d.status = AssetStatus::Frozen;
				Self::deposit_event(Event::AssetFrozen { asset_id: id });
				Ok(())
			})
		}
		#[pallet::call_index(14)]
		#[pallet::weight(T::WeightInfo::thaw_asset())]
		pub fn thaw_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let id: T::AssetId = id.into();
			Asset::<T, I>::try_mutate(id, |m| {
				let d = m.as_mut().ok_or(Error::<T, I>::Unknown)?;
				ensure!(origin == d.admin, Error::<T, I>::NoPermission);
				ensure!(d.status == AssetStatus::Frozen, Error::<T, I>::NotFrozen);
				d.status = AssetStatus::Live;
				Self::deposit_event(Event::AssetThawed { asset_id: id });
				Ok(())
			})
		}
		#[pallet::call_index(15)]
		#[pallet::weight(T::WeightInfo::transfer_ownership())]
		pub fn transfer_ownership(origin: OriginFor<T>, id: T::AssetIdParameter, owner: LookupOf<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let owner = T::Lookup::lookup(owner)?;
			let id: T::AssetId = id.into();
			Asset::<T, I>::try_mutate(id, |m| {
				let d = m.as_mut().ok_or(Error::<T, I>::Unknown)?;
				ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
				ensure!(origin == d.owner, Error::<T, I>::NoPermission);
				if d.owner == owner {
					return Ok(());
				}
				let metadata_deposit = Metadata::<T, I>::get(id).deposit;
				let deposit = d.deposit + metadata_deposit;
				T::Currency::repatriate_reserved(&d.owner, &owner, deposit, BalanceStatus::Reserved)?;
				d.owner = owner.clone();
				Self::deposit_event(Event::OwnerChanged { asset_id: id, owner });
				Ok(())
			})
		}
		#[pallet::call_index(16)]
		#[pallet::weight(T::WeightInfo::set_team())]
		pub fn set_team(origin: OriginFor<T>, id: T::AssetIdParameter, issuer: LookupOf<T>, admin: LookupOf<T>, freezer: LookupOf<T>) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			let issuer = T::Lookup::lookup(issuer)?;
			let admin = T::Lookup::lookup(admin)?;
			let freezer = T::Lookup::lookup(freezer)?;
			let id: T::AssetId = id.into();
			Asset::<T, I>::try_mutate(id, |m| {
				let d = m.as_mut().ok_or(Error::<T, I>::Unknown)?;
				ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
				ensure!(origin == d.owner, Error::<T, I>::NoPermission);
				d.issuer = issuer.clone();
				d.admin = admin.clone();
				d.freezer = freezer.clone();
				Self::deposit_event(Event::TeamChanged { asset_id: id, issuer, admin, freezer });
				Ok(())
			})
		}
		#[pallet::call_index(17)]
		#[pallet::weight(T::WeightInfo::set_team())]
		pub fn set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
			let origin = ensure_signed(origin)?;
			Self::do_set_metadata(id.into(), &origin, name, symbol, decimals)
		}
		#[pallet::call_index(18)]
		#[pallet::weight(T::WeightInfo::set_team())]
		pub fn force_set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			let id: T::AssetId = id.into();
			let bounded_name: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T, I>::BadMetadata)?;
			let bounded_symbol: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T, I>::BadMetadata)?;
			ensure!(Asset::<T, I>::contains_key(id), Error::<T, I>::Unknown);
			Metadata::<T, I>::try_mutate_exists(id, |metadata| -> DispatchResult {
				let deposit = metadata.take().map_or(Zero::zero(), |m| m.deposit);
				*metadata = Some(AssetMetadata { deposit, name: bounded_name, symbol: bounded_symbol, decimals, is_frozen });
				Self::deposit_event(Event::MetadataSet { asset_id: id, name, symbol, decimals, is_frozen });
				Ok(())
			})
		}
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn maybe_balance(id: T::AssetId, who: impl std::borrow::Borrow<T::AccountId>) -> Option<T::Balance> {
		Account::<T, I>::get(id, who.borrow()).map(|a| a.balance)
	}
	pub fn maybe_total_supply(id: T::AssetId) -> Option<T::Balance> {
		Asset::<T, I>::get(id).map(|x| x.supply)
	}
	pub fn total_supply(id: T::AssetId) -> T::Balance {
		Self::maybe_total_supply(id).unwrap_or_default()
	}
	fn new_account(who: &T::AccountId, d: &mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T, I>>) -> Result<ExistenceReason<DepositBalanceOf<T, I>>, DispatchError> {
		let accounts = d.accounts.checked_add(1).ok_or(ArithmeticError::Overflow)?;
		let reason = if d.is_sufficient {
			frame_system::Pallet::<T>::inc_sufficients(who);
			d.sufficients += 1;
			ExistenceReason::Sufficient
		} else {
			frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T, I>::UnavailableConsumer)?;
			// one consumer reference must remain available
			if !frame_system::Pallet::<T>::can_accrue_consumers(who, 1) {
				frame_system::Pallet::<T>::dec_consumers(who);
				return Err(Error::<T, I>::UnavailableConsumer.into());
			}
			ExistenceReason::Consumer
		};
		d.accounts = accounts;
		Ok(reason)
	}
	fn dead_account(who: &T::AccountId, d: &mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T, I>>, reason: &ExistenceReason<DepositBalanceOf<T, I>>, force: bool) -> bool {
		match *reason {
			ExistenceReason::Consumer => frame_system::Pallet::<T>::dec_consumers(who),
			ExistenceReason::Sufficient => {
				d.sufficients = d.sufficients.saturating_sub(1);
				frame_system::Pallet::<T>::dec_sufficients(who);
			},
			ExistenceReason::DepositRefunded => {},
			ExistenceReason::DepositHeld(_) if !force => return false,
			ExistenceReason::DepositHeld(_) => {},
		}
		d.accounts = d.accounts.saturating_sub(1);
		true
	}
	fn can_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance, increase_supply: bool) -> DepositConsequence {
		let d = match Asset::<T, I>::get(id) {
			Some(d) => d,
			None => return DepositConsequence::UnknownAsset,
		};
		if d.status == AssetStatus::Destroying {
			return DepositConsequence::UnknownAsset;
		}
		if increase_supply && d.supply.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		if let Some(a) = Account::<T, I>::get(id, who) {
			if a.status == AccountStatus::Blocked {
				return DepositConsequence::Blocked;
			}
			if a.balance.checked_add(&amount).is_none() {
				return DepositConsequence::Overflow;
			}
		} else {
			if amount < d.min_balance {
				return DepositConsequence::BelowMinimum;
			}
			if !d.is_sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
				return DepositConsequence::CannotCreate;
			}
			if d.is_sufficient && d.sufficients.checked_add(1).is_none() {
				return DepositConsequence::Overflow;
			}
		}
		DepositConsequence::Success
	}
	fn can_decrease(id: T::AssetId, who: &T::AccountId, amount: T::Balance, keep_alive: bool) -> WithdrawConsequence<T::Balance> {
		use WithdrawConsequence::*;
		let d = match Asset::<T, I>::get(id) {
			Some(d) => d,
			None => return UnknownAsset,
		};
		if d.supply.checked_sub(&amount).is_none() {
			return Underflow;
		}
		if d.status == AssetStatus::Frozen {
			return Frozen;
		}
		if d.status == AssetStatus::Destroying {
			return UnknownAsset;
		}
		if amount.is_zero() {
			return Success;
		}
		let account = match Account::<T, I>::get(id, who) {
			Some(a) => a,
			None => return BalanceLow,
		};
		if account.status != AccountStatus::Liquid {
			return Frozen;
		}
		if let Some(rest) = account.balance.checked_sub(&amount) {
			if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
				match frozen.checked_add(&d.min_balance) {
					Some(required) if rest < required => return Frozen,
					None => return Overflow,
					_ => {},
				}
			}
			if rest < d.min_balance {
				if keep_alive {
					WouldDie
				} else {
					ReducedToZero(rest)
				}
			} else {
				Success
			}
		} else {
			BalanceLow
		}
	}
	fn reducible_balance_(id: T::AssetId, who: &T::AccountId, keep_alive: bool) -> Result<T::Balance, DispatchError> {
		let d = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		let account = Account::<T, I>::get(id, who).ok_or(Error::<T, I>::NoAccount)?;
		ensure!(account.status == AccountStatus::Liquid, Error::<T, I>::Frozen);
		let amount = if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			let required = frozen.checked_add(&d.min_balance).ok_or(ArithmeticError::Overflow)?;
			account.balance.saturating_sub(required)
		} else if keep_alive {
			account.balance.saturating_sub(d.min_balance)
		} else {
			account.balance
		};
		Ok(amount.min(d.supply))
	}
	fn prep_debit(id: T::AssetId, target: &T::AccountId, amount: T::Balance, f: DebitFlags) -> Result<T::Balance, DispatchError> {
		let actual = Self::reducible_balance_(id, target, f.keep_alive)?.min(amount);
		ensure!(f.best_effort || actual >= amount, Error::<T, I>::BalanceLow);
		let conseq = Self::can_decrease(id, target, actual, f.keep_alive);
		let actual = match conseq.into_result(f.keep_alive) {
			Ok(dust) => actual.saturating_add(dust),
			Err(e) => return Err(e),
		};
		Ok(actual)
	}
	fn prep_credit(id: T::AssetId, dest: &T::AccountId, amount: T::Balance, debit: T::Balance, burn_dust: bool) -> Result<(T::Balance, Option<T::Balance>), DispatchError> {
		let (credit, maybe_burn) = match (burn_dust, debit.checked_sub(&amount)) {
			(true, Some(dust)) => (amount, Some(dust)),
			_ => (debit, None),
		};
		Self::can_increase(id, dest, credit, false).into_result()?;
		Ok((credit, maybe_burn))
	}
	pub fn do_mint(id: T::AssetId, beneficiary: &T::AccountId, amount: T::Balance, maybe_check_issuer: Option<T::AccountId>) -> DispatchResult {
		Self::increase_balance_(id, beneficiary, amount, |details| -> DispatchResult {
			if let Some(c) = maybe_check_issuer {
				ensure!(c == details.issuer, Error::<T, I>::NoPermission);
			}
			details.supply = details.supply.saturating_add(amount);
			Ok(())
		})?;
		Self::deposit_event(Event::Issued { asset_id: id, owner: beneficiary.clone(), amount });
		Ok(())
	}
	pub(crate) fn increase_balance_(id: T::AssetId, beneficiary: &T::AccountId, amount: T::Balance, check: impl FnOnce(&mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T, I>>) -> DispatchResult) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		Self::can_increase(id, beneficiary, amount, true).into_result()?;
		Asset::<T, I>::try_mutate(id, |maybe| -> DispatchResult {
			let details = maybe.as_mut().ok_or(Error::<T, I>::Unknown)?;
			ensure!(details.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
			check(details)?;
			Account::<T, I>::try_mutate(id, beneficiary, |maybe_account| -> DispatchResult {
				match maybe_account {
					Some(ref mut account) => account.balance = account.balance.saturating_add(amount),
					m @ None => {
						ensure!(amount >= details.min_balance, TokenError::BelowMinimum);
						*m = Some(AssetAccount { balance: amount, reason: Self::new_account(beneficiary, details)?, status: AccountStatus::Liquid, extra: T::Extra::default() });
					},
				}
				Ok(())
			})?;
			Ok(())
		})
	}
	pub fn do_burn(id: T::AssetId, target: &T::AccountId, amount: T::Balance, maybe_check_admin: Option<T::AccountId>, f: DebitFlags) -> Result<T::Balance, DispatchError> {
		let d = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(d.status == AssetStatus::Live || d.status == AssetStatus::Frozen, Error::<T, I>::AssetNotLive);
		let actual = Self::decrease_balance_(id, target, amount, f, |actual, details| {
			if let Some(c) = maybe_check_admin {
				ensure!(c == details.admin, Error::<T, I>::NoPermission);
			}
			details.supply = details.supply.saturating_sub(actual);
			Ok(())
		})?;
		Self::deposit_event(Event::Burned { asset_id: id, owner: target.clone(), balance: actual });
		Ok(actual)
	}
	pub(crate) fn decrease_balance_(id: T::AssetId, target: &T::AccountId, amount: T::Balance, f: DebitFlags, check: impl FnOnce(T::Balance, &mut AssetDetails<T::Balance, T::AccountId, DepositBalanceOf<T, I>>) -> DispatchResult) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() {
			return Ok(amount);
		}
		let d = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		let actual = Self::prep_debit(id, target, amount, f)?;
		let mut died = false;
		Asset::<T, I>::try_mutate(id, |maybe| -> DispatchResult {
			let details = maybe.as_mut().ok_or(Error::<T, I>::Unknown)?;
			check(actual, details)?;
			Account::<T, I>::try_mutate(id, target, |maybe_account| -> DispatchResult {
				let mut account = maybe_account.take().ok_or(Error::<T, I>::NoAccount)?;
				account.balance = account.balance.saturating_sub(actual);
				if account.balance < details.min_balance {
					if Self::dead_account(target, details, &account.reason, false) {
						died = true;
						return Ok(());
					}
				}
				*maybe_account = Some(account);
				Ok(())
			})?;
			Ok(())
		})?;
		if died {
			T::Freezer::died(id, target);
		}
		Ok(actual)
	}
	pub fn do_transfer(id: T::AssetId, source: &T::AccountId, dest: &T::AccountId, amount: T::Balance, maybe_need_admin: Option<T::AccountId>, f: TransferFlags) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() {
			return Ok(amount);
		}
		let d = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		let debit = Self::prep_debit(id, source, amount, DebitFlags { keep_alive: f.keep_alive, best_effort: f.best_effort })?;
		let (credit, maybe_burn) = Self::prep_credit(id, dest, amount, debit, f.burn_dust)?;
		let mut source_died = false;
		Asset::<T, I>::try_mutate(id, |maybe| -> DispatchResult {
			let details = maybe.as_mut().ok_or(Error::<T, I>::Unknown)?;
			if let Some(n) = maybe_need_admin {
				ensure!(n == details.admin, Error::<T, I>::NoPermission);
			}
			if source == dest {
				return Ok(());
			}
			if let Some(burn) = maybe_burn {
				details.supply = details.supply.saturating_sub(burn);
			}
			let mut source_account = Account::<T, I>::get(id, source).ok_or(Error::<T, I>::NoAccount)?;
			source_account.balance = source_account.balance.saturating_sub(debit);
			Account::<T, I>::try_mutate(id, dest, |a| -> DispatchResult {
				match a {
					Some(ref mut account) => account.balance = account.balance.saturating_add(credit),
					m @ None => {
						*m = Some(AssetAccount { balance: credit, status: AccountStatus::Liquid, reason: Self::new_account(dest, details)?, extra: T::Extra::default() });
					},
				}
				Ok(())
			})?;
			if source_account.balance < details.min_balance {
				if Self::dead_account(source, details, &source_account.reason, false) {
					source_died = true;
					Account::<T, I>::remove(id, source);
					return Ok(());
				}
			}
			Account::<T, I>::insert(id, source, &source_account);
			Ok(())
		})?;
		if source_died {
			T::Freezer::died(id, source);
		}
		Self::deposit_event(Event::Transferred { asset_id: id, from: source.clone(), to: dest.clone(), amount: credit });
		Ok(credit)
	}
	pub fn do_force_create(id: T::AssetId, owner: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
		ensure!(!Asset::<T, I>::contains_key(id), Error::<T, I>::InUse);
		ensure!(!min_balance.is_zero(), Error::<T, I>::MinBalanceZero);
		Asset::<T, I>::insert(
			id,
			AssetDetails { owner: owner.clone(), issuer: owner.clone(), admin: owner.clone(), freezer: owner.clone(), supply: Zero::zero(), deposit: Zero::zero(), min_balance, is_sufficient, accounts: 0, sufficients: 0, approvals: 0, status: AssetStatus::Live },
		);
		ensure!(T::CallbackHandle::created(&id, &owner).is_ok(), Error::<T, I>::CallbackFailed);
		Self::deposit_event(Event::ForceCreated { asset_id: id, owner });
		Ok(())
	}
	pub fn do_set_metadata(id: T::AssetId, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		let bn: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T, I>::BadMetadata)?;
		let bs: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T, I>::BadMetadata)?;
		let d = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		ensure!(from == &d.owner, Error::<T, I>::NoPermission);
		Metadata::<T, I>::try_mutate_exists(id, |metadata| -> DispatchResult {
			ensure!(metadata.as_ref().map_or(true, |m| !m.is_frozen), Error::<T, I>::NoPermission);
			let old = metadata.take().map_or(Zero::zero(), |m| m.deposit);
			let n: DepositBalanceOf<T, I> = ((name.len() + symbol.len()) as u32).into();
			let new = T::MetadataDepositPerByte::get().saturating_mul(n).saturating_add(T::MetadataDepositBase::get());
			if new > old {
				T::Currency::reserve(from, new - old)?;
			} else {
				T::Currency::unreserve(from, old - new);
			}
			*metadata = Some(AssetMetadata { deposit: new, name: bn, symbol: bs, decimals, is_frozen: false });
			Self::deposit_event(Event::MetadataSet { asset_id: id, name, symbol, decimals, is_frozen: false });
			Ok(())
		})
	}
	pub fn balance(id: T::AssetId, who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::maybe_balance(id, who).unwrap_or_default()
	}
}
impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn total_issuance(asset: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(asset).map(|x| x.supply).unwrap_or_else(Zero::zero)
	}
	fn minimum_balance(asset: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(asset).map(|x| x.min_balance).unwrap_or_else(Zero::zero)
	}
	fn total_balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Self::balance(asset, who)
	}
	fn balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Self::maybe_balance(asset, who).unwrap_or_default()
	}
	fn reducible_balance(asset: T::AssetId, who: &T::AccountId, preservation: Preservation, _f: Fortitude) -> T::Balance {
		Self::reducible_balance_(asset, who, !matches!(preservation, Expendable)).unwrap_or(Zero::zero())
	}
	fn can_deposit(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		Self::can_increase(asset, who, amount, provenance == Minted)
	}
	fn can_withdraw(asset: T::AssetId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		Self::can_decrease(asset, who, amount, false)
	}
	fn asset_exists(asset: T::AssetId) -> bool {
		Asset::<T, I>::contains_key(asset)
	}
}
impl<T: Config<I>, I: 'static> fungibles::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn handle_raw_dust(_: T::AssetId, _: T::Balance) {}
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {}
	fn write_balance(_: T::AssetId, _: &T::AccountId, _: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		unreachable!("write_balance is not used if other functions are impl'd")
	}
	fn set_total_issuance(id: T::AssetId, amount: T::Balance) {
		Asset::<T, I>::mutate_exists(id, |m| {
			if let Some(a) = m {
				a.supply = amount
			}
		});
	}
	fn decrease_balance(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, precision: Precision, preservation: Preservation, _: Fortitude) -> Result<T::Balance, DispatchError> {
		let f = DebitFlags { keep_alive: preservation != Expendable, best_effort: precision == BestEffort };
		Self::decrease_balance_(asset, who, amount, f, |_, _| Ok(()))
	}
	fn increase_balance(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, _: Precision) -> Result<T::Balance, DispatchError> {
		Self::increase_balance_(asset, who, amount, |_| Ok(()))?;
		Ok(amount)
	}
}
impl<T: Config<I>, I: 'static> fungibles::Mutate<T::AccountId> for Pallet<T, I> {
	fn done_mint_into(asset_id: T::AssetId, who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Issued { asset_id, owner: who.clone(), amount })
	}
	fn done_burn_from(asset_id: T::AssetId, who: &T::AccountId, balance: T::Balance) {
		Self::deposit_event(Event::Burned { asset_id, owner: who.clone(), balance });
	}
	fn done_transfer(asset_id: T::AssetId, source: &T::AccountId, dest: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Transferred { asset_id, from: source.clone(), to: dest.clone(), amount });
	}
}
impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
	fn create(id: T::AssetId, admin: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
		Self::do_force_create(id, admin, is_sufficient, min_balance)
	}
}
impl<T: Config<I>, I: 'static> fungibles::metadata::Inspect<T::AccountId> for Pallet<T, I> {
	fn name(asset: T::AssetId) -> Vec<u8> {
		Metadata::<T, I>::get(asset).name.to_vec()
	}
	fn symbol(asset: T::AssetId) -> Vec<u8> {
		Metadata::<T, I>::get(asset).symbol.to_vec()
	}
	fn decimals(asset: T::AssetId) -> u8 {
		Metadata::<T, I>::get(asset).decimals
	}
}
impl<T: Config<I>, I: 'static> fungibles::metadata::Mutate<T::AccountId> for Pallet<T, I> {
	fn set(id: T::AssetId, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		Self::do_set_metadata(id, from, name, symbol, decimals)
	}
}
impl<T: Config<I>, I: 'static> fungibles::roles::Inspect<T::AccountId> for Pallet<T, I> {
	fn owner(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(a).map(|x| x.owner)
	}
	fn issuer(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(a).map(|x| x.issuer)
	}
	fn admin(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(a).map(|x| x.admin)
	}
	fn freezer(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(a).map(|x| x.freezer)
	}
}
