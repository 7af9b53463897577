//! pallet_staking: configuration surface only. Elections, sessions and slashing are not modelled.
use frame_support::pallet_prelude::*;
use frame_support::traits::{Currency, LockableCurrency, EnsureOrigin, Get, IsType};
use frame_system::pallet_prelude::*;
use substrate::arith::traits::*;
use substrate::runtime::traits::*;
pub use pallet::*;
pub type RewardPoint = u32;
pub type BalanceOf<T> = <T as Config>::CurrencyBalance;
pub type PositiveImbalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::PositiveImbalance;
pub type NegativeImbalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::NegativeImbalance;
pub trait EraPayout<Balance> {
	fn era_payout(total_staked: Balance, total_issuance: Balance, era_duration_millis: u64) -> (Balance, Balance);
}
impl<Balance: Default> EraPayout<Balance> for () {
	fn era_payout(_: Balance, _: Balance, _: u64) -> (Balance, Balance) {
		(Default::default(), Default::default())
	}
}
pub struct ConvertCurve<T>(PhantomData<T>);
impl<Balance: Default, T> EraPayout<Balance> for ConvertCurve<T> {
	fn era_payout(_: Balance, _: Balance, _: u64) -> (Balance, Balance) {
		(Default::default(), Default::default())
	}
}
pub struct UseNominatorsAndValidatorsMap<T>(PhantomData<T>);
pub struct UseValidatorsMap<T>(PhantomData<T>);
pub struct TestBenchmarkingConfig;
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum RewardDestination<A> {
	Staked,
	Stash,
	Controller,
	Account(A),
}
pub trait WeightInfo {}
impl<T> WeightInfo for T {}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Currency: Currency<Self::AccountId, Balance = Self::CurrencyBalance>;
		type CurrencyBalance: AtLeast32BitUnsigned + codec::FullCodec + Copy + MaybeSerializeDeserialize + std::fmt::Debug + Default + From<u64> + TypeInfo + MaxEncodedLen + codec::EncodeLike + frame_support::traits::tokens::Balance;
		type MaxNominations: Get<u32>;
		type UnixTime;
		type CurrencyToVote;
		type RewardRemainder;
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Slash;
		type Reward;
		type SessionsPerEra;
		type SlashDeferDuration;
		type BondingDuration: Get<u32>;
		type SessionInterface;
		type EraPayout: EraPayout<BalanceOf<Self>>;
		type NextNewSession;
		type MaxNominatorRewardedPerValidator;
		type OffendingValidatorsThreshold;
		type ElectionProvider;
		type GenesisElectionProvider;
		type VoterList;
		type TargetList;
		type MaxUnlockingChunks;
		type HistoryDepth: Get<u32>;
		type BenchmarkingConfig;
		type WeightInfo;
		type AdminOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type EventListeners;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		EraPaid { era_index: u32, validator_payout: BalanceOf<T>, remainder: BalanceOf<T> },
	}
	#[pallet::storage]
	pub type CurrentEra<T: Config> = StorageValue<_, u32>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn bond(origin: OriginFor<T>, #[pallet::compact] value: BalanceOf<T>, payee: RewardDestination<T::AccountId>) -> DispatchResult {
			let _ = ensure_signed(origin)?;
			Ok(())
		}
		#[pallet::call_index(18)]
		#[pallet::weight(Weight::zero())]
		pub fn payout_stakers(origin: OriginFor<T>, validator_stash: T::AccountId, era: u32) -> DispatchResult {
			let _ = ensure_signed(origin)?;
			Ok(())
		}
	}
}
