//! frame_system (polkadot-v1.1.0 behaviour for what the repository and the simulator use).
#![allow(clippy::all, unused, deprecated)]
extern crate self as frame_system;
use codec::{Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::*;
use frame_support::weights::*;
use std::fmt::Debug;
use std::marker::PhantomData;
use substrate::runtime::traits::{self, *};
use substrate::runtime::{generic, DispatchError, DispatchResult};

pub use frame_support::dispatch::RawOrigin;
pub use pallet::*;
pub type RefCount = u32;
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
pub type Key = Vec<u8>;
pub type KeyValue = (Vec<u8>, Vec<u8>);
pub use generic::{Digest, DigestItem};

pub mod limits {
	use super::*;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct BlockWeights {
		pub base_block: Weight,
		pub max_block: Weight,
		pub per_class: (WeightsPerClass, WeightsPerClass, WeightsPerClass),
	}
	impl BlockWeights {
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
			match c {
				DispatchClass::Normal => &self.per_class.0,
				DispatchClass::Operational => &self.per_class.1,
				DispatchClass::Mandatory => &self.per_class.2,
			}
		}
	}
	impl Default for BlockWeights {
		fn default() -> Self {
			let max = Weight::from_parts(constants::WEIGHT_REF_TIME_PER_SECOND, u64::MAX);
			let base = constants::ExtrinsicBaseWeight::get();
			let mk = |t: Option<Weight>, r: Option<Weight>| WeightsPerClass { base_extrinsic: base, max_extrinsic: t, max_total: t, reserved: r };
			let n = Weight::from_parts(max.ref_time() / 4 * 3, u64::MAX);
			Self {
				base_block: constants::BlockExecutionWeight::get(),
				max_block: max,
				per_class: (
					mk(Some(n), None),
					mk(Some(max), Some(max.saturating_sub(n))),
					WeightsPerClass { base_extrinsic: base, max_extrinsic: None, max_total: None, reserved: None },
				),
			}
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq, Default)]
	pub struct BlockLength;
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Encode, Decode)]
pub struct RuntimeVersion {
	pub spec_version: u32,
	pub transaction_version: u32,
}
pub trait WeightInfo {}
impl<T> WeightInfo for T {}
pub trait ConsumerLimits {
	fn max_consumers() -> RefCount;
	fn max_overflow() -> RefCount;
}
impl<Z: Get<u32>> ConsumerLimits for Z {
	fn max_consumers() -> u32 {
		Z::get()
	}
	fn max_overflow() -> u32 {
		Z::get()
	}
}
pub trait SetCode<T> {
	fn set_code(_c: Vec<u8>) -> DispatchResult {
		Ok(())
	}
}
impl<T> SetCode<T> for () {}
pub trait Account_ {}

pub mod pallet_prelude {
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = <<T as crate::Config>::Block as substrate::runtime::traits::Block>::Header;
	pub type BlockNumberFor<T> = <HeaderFor<T> as substrate::runtime::traits::Header>::Number;
	pub type ExtrinsicFor<T> = <<T as crate::Config>::Block as substrate::runtime::traits::Block>::Extrinsic;
	pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
}
use pallet_prelude::*;

#[derive(Encode, Decode, Debug, Clone, PartialEq, Eq)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
impl Default for Phase {
	fn default() -> Self {
		Self::Initialization
	}
}
#[derive(Encode, Decode, Debug, Clone, PartialEq, Eq)]
pub struct EventRecord<E: Clone + Eq + Debug + Codec2, H: Clone + Eq + Debug + Codec2> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<H>,
}
pub trait Codec2: codec::Codec {}
impl<T: codec::Codec> Codec2 for T {}
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
#[derive(Eq, PartialEq, Debug, Clone, Copy)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Eq, PartialEq, Debug, Clone, Copy)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>>;
		type Nonce: Parameter + Member + MaybeSerializeDeserialize + Debug + Default + AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + MaybeSerializeDeserialize + Debug + SimpleBitOps + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
		type Hashing: Hash<Output = Self::Hash>;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + Ord + MaxEncodedLen;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		type Block: Parameter + Member + traits::Block<Hash = Self::Hash>;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type DbWeight: Get<RuntimeDbWeight>;
		type Version: Get<RuntimeVersion>;
		type PalletInfo: PalletInfo;
		type AccountData: Member + FullCodec + Clone + Default + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo: WeightInfo;
		type SS58Prefix: Get<u16>;
		type OnSetCode: SetCode<Self>;
		type MaxConsumers: ConsumerLimits;
	}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn remark(_origin: OriginFor<T>, _remark: Vec<u8>) -> DispatchResultWithPostInfo {
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			frame_support::storage::unhashed::put_raw(b":heappages", &pages.encode());
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			T::OnSetCode::set_code(code)?;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_code_without_checks(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			T::OnSetCode::set_code(code)?;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<KeyValue>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for (k, v) in &items {
				frame_support::storage::unhashed::put_raw(k, v);
			}
			Ok(().into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn kill_storage(origin: OriginFor<T>, keys: Vec<Key>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for k in &keys {
				frame_support::storage::unhashed::kill(k);
			}
			Ok(().into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn kill_prefix(origin: OriginFor<T>, prefix: Key, subkeys: u32) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = frame_support::storage::unhashed::clear_prefix(&prefix, Some(subkeys), None);
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::zero())]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let hash = T::Hashing::hash(&remark[..]);
			Self::deposit_event(Event::Remarked { sender: who, hash });
			Ok(().into())
		}
	}

	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}

	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
	}

	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, PerDispatchClass<Weight>, ValueQuery>;
	#[pallet::storage]
	pub type AllExtrinsicsLen<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicData<T: Config> = StorageMap<_, Twox64Concat, u32, Vec<u8>, ValueQuery>;
	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::storage_prefix = "Digest"]
	pub type DigestStorage<T: Config> = StorageValue<_, generic::Digest, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<Box<EventRecord<T::RuntimeEvent, T::Hash>>>, ValueQuery>;
	#[pallet::storage]
	pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	pub type ExecutionPhase<T: Config> = StorageValue<_, Phase>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub _config: PhantomData<T>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { _config: PhantomData }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			<BlockHash<T>>::insert(BlockNumberFor::<T>::zero(), T::Hash::default());
			<ParentHash<T>>::put(T::Hash::default());
		}
	}
}
impl<T: Config> GenesisConfig<T> {
	pub fn build_storage(&self) -> Result<substrate::runtime::Storage, String> {
		substrate::runtime::BuildStorage::build_storage(self)
	}
	pub fn assimilate_storage(&self, s: &mut substrate::runtime::Storage) -> Result<(), String> {
		substrate::runtime::BuildStorage::assimilate_storage(self, s)
	}
}

pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(a) => Ok(a),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: Ord + Clone> EnsureOrigin<O> for EnsureSignedBy<W, A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(ref a) if W::contains(a) => Ok(a.clone()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
impl<O, S, A> EnsureOriginWithArg<O, A> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O, _: &A) -> Result<S, O> {
		Err(o)
	}
}
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}

impl<T: Config> Pallet<T> {
	pub fn block_number() -> BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn account(who: impl EncodeLike<T::AccountId>) -> AccountInfo<T::Nonce, T::AccountData> {
		Account::<T>::get(who)
	}
	pub fn parent_hash() -> T::Hash {
		ParentHash::<T>::get()
	}
	pub fn set_parent_hash(h: T::Hash) {
		ParentHash::<T>::put(h)
	}
	pub fn block_hash(n: impl EncodeLike<BlockNumberFor<T>>) -> T::Hash {
		BlockHash::<T>::get(n)
	}
	pub fn digest() -> generic::Digest {
		DigestStorage::<T>::get()
	}
	pub fn deposit_log(i: generic::DigestItem) {
		DigestStorage::<T>::append(i)
	}
	pub fn extrinsic_index() -> Option<u32> {
		frame_support::storage::unhashed::get(b":extrinsic_index")
	}
	pub fn set_extrinsic_index(i: u32) {
		frame_support::storage::unhashed::put(b":extrinsic_index", &i)
	}
	pub fn extrinsic_count() -> u32 {
		ExtrinsicCount::<T>::get().unwrap_or_default()
	}
	pub fn block_weight() -> PerDispatchClass<Weight> {
		BlockWeight::<T>::get()
	}
	pub fn all_extrinsics_len() -> u32 {
		AllExtrinsicsLen::<T>::get().unwrap_or_default()
	}
	pub fn register_extra_weight_unchecked(w: Weight, c: DispatchClass) {
		BlockWeight::<T>::mutate(|b| {
			let v = b.get_mut(c);
			*v = v.saturating_add(w);
		})
	}
	pub fn set_block_consumed_resources(w: Weight, l: usize) {
		BlockWeight::<T>::mutate(|b| *b.get_mut(DispatchClass::Normal) = w);
		AllExtrinsicsLen::<T>::put(l as u32);
	}
	pub fn event_count() -> u32 {
		EventCount::<T>::get()
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		Self::read_events_no_consensus().map(|e| *e).collect()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Events::<T>::get().into_iter()
	}
	pub fn reset_events() {
		Events::<T>::kill();
		EventCount::<T>::kill();
	}
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		Self::deposit_event_indexed(&[], event.into());
	}
	pub fn deposit_event_indexed(topics: &[T::Hash], event: T::RuntimeEvent) {
		if Self::block_number().is_zero() {
			return
		}
		let phase = ExecutionPhase::<T>::get().unwrap_or_default();
		let rec = EventRecord { phase, event, topics: topics.to_vec() };
		let n = EventCount::<T>::get();
		let new = match n.checked_add(1) {
			None => return,
			Some(n) => n,
		};
		EventCount::<T>::put(new);
		Events::<T>::append(Box::new(rec));
	}
	pub fn assert_has_event(e: T::RuntimeEvent) {
		let ev = Self::events();
		assert!(ev.iter().any(|r| r.event == e), "expected event {e:?} not found in events {ev:?}");
	}
	pub fn assert_last_event(e: T::RuntimeEvent) {
		let last = Self::events().last().expect("events expected").event.clone();
		assert_eq!(last, e);
	}
	pub fn account_nonce(who: impl EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	pub fn inc_account_nonce(who: impl EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one());
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	pub fn providers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).providers
	}
	pub fn sufficients(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).sufficients
	}
	pub fn consumers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).consumers
	}
	pub fn reference_count(who: &T::AccountId) -> RefCount {
		let a = Account::<T>::get(who);
		a.providers + a.sufficients
	}
	pub fn is_provider_required(who: &T::AccountId) -> bool {
		Account::<T>::get(who).consumers != 0
	}
	pub fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.consumers == 0 || a.providers > 1
	}
	pub fn can_accrue_consumers(who: &T::AccountId, amount: u32) -> bool {
		let a = Account::<T>::get(who);
		match a.consumers.checked_add(amount) {
			Some(c) => a.providers > 0 && c <= T::MaxConsumers::max_consumers(),
			None => false,
		}
	}
	pub fn can_inc_consumer(who: &T::AccountId) -> bool {
		Self::can_accrue_consumers(who, 1)
	}
	fn on_created_account(who: T::AccountId) {
		T::OnNewAccount::on_new_account(&who);
		Self::deposit_event(Event::NewAccount { account: who });
	}
	fn on_killed_account(who: T::AccountId) {
		T::OnKilledAccount::on_killed_account(&who);
		Self::deposit_event(Event::KilledAccount { account: who });
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 {
				a.providers = 1;
				Self::on_created_account(who.clone());
				IncRefStatus::Created
			} else {
				a.providers = a.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |maybe| {
			if let Some(mut account) = maybe.take() {
				if account.providers == 0 {
					account.providers = 1;
				}
				match (account.providers, account.consumers, account.sufficients) {
					(1, 0, 0) => {
						Self::on_killed_account(who.clone());
						Ok(DecRefStatus::Reaped)
					},
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => {
						account.providers = x - 1;
						*maybe = Some(account);
						Ok(DecRefStatus::Exists)
					},
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 {
				a.sufficients = 1;
				Self::on_created_account(who.clone());
				IncRefStatus::Created
			} else {
				a.sufficients = a.sufficients.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(who, |maybe| {
			if let Some(mut account) = maybe.take() {
				if account.sufficients == 0 {
					account.sufficients = 1;
				}
				match (account.sufficients, account.providers) {
					(1, 0) => {
						Self::on_killed_account(who.clone());
						DecRefStatus::Reaped
					},
					(x, _) => {
						account.sufficients = x - 1;
						*maybe = Some(account);
						DecRefStatus::Exists
					},
				}
			} else {
				DecRefStatus::Reaped
			}
		})
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				if a.consumers < T::MaxConsumers::max_consumers() {
					a.consumers = a.consumers.saturating_add(1);
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				a.consumers = a.consumers.saturating_add(1);
				Ok(())
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| {
			if a.consumers > 0 {
				a.consumers -= 1;
			}
		})
	}
	pub fn initialize(number: &BlockNumberFor<T>, parent_hash: &T::Hash, digest: &generic::Digest) {
		ExecutionPhase::<T>::put(Phase::Initialization);
		frame_support::storage::unhashed::put(b":extrinsic_index", &0u32);
		Number::<T>::put(*number);
		DigestStorage::<T>::put(digest.clone());
		ParentHash::<T>::put(*parent_hash);
		BlockHash::<T>::insert(*number - One::one(), *parent_hash);
		BlockWeight::<T>::kill();
	}
	pub fn note_finished_initialize() {
		ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(0));
	}
	pub fn note_extrinsic(x: Vec<u8>) {
		ExtrinsicData::<T>::insert(Self::extrinsic_index().unwrap_or_default(), x);
	}
	pub fn note_applied_extrinsic(r: &DispatchResultWithPostInfo, mut info: DispatchInfo) {
		info.weight = extract_actual_weight(r, &info).saturating_add(T::BlockWeights::get().get(info.class).base_extrinsic);
		info.pays_fee = extract_actual_pays_fee(r, &info);
		Self::deposit_event(match r {
			Ok(_) => Event::ExtrinsicSuccess { dispatch_info: info },
			Err(e) => Event::ExtrinsicFailed { dispatch_error: e.error, dispatch_info: info },
		});
		let next = Self::extrinsic_index().unwrap_or_default() + 1;
		frame_support::storage::unhashed::put(b":extrinsic_index", &next);
		ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(next));
	}
	pub fn note_finished_extrinsics() {
		let n: u32 = frame_support::storage::unhashed::take(b":extrinsic_index").unwrap_or_default();
		ExtrinsicCount::<T>::put(n);
		ExecutionPhase::<T>::put(Phase::Finalization);
	}
	pub fn finalize() -> HeaderFor<T> {
		ExecutionPhase::<T>::kill();
		AllExtrinsicsLen::<T>::kill();
		let number = Number::<T>::get();
		let parent_hash = ParentHash::<T>::get();
		let digest = DigestStorage::<T>::get();
		let count = ExtrinsicCount::<T>::take().unwrap_or_default();
		let mut all = vec![];
		for i in 0..count {
			all.extend(ExtrinsicData::<T>::take(i));
		}
		let root = T::Hashing::hash(&all);
		let block_hash_count = T::BlockHashCount::get();
		let to_remove = number.saturating_sub(block_hash_count).saturating_sub(One::one());
		if !to_remove.is_zero() {
			BlockHash::<T>::remove(to_remove);
		}
		let state = T::Hashing::hash(&substrate::io::current_state_hash().to_le_bytes());
		let c = |h: T::Hash| Decode::decode(&mut &h.encode()[..]).expect("hash");
		<HeaderFor<T> as traits::Header>::new(number, c(root), c(state), c(parent_hash), digest)
	}
	pub fn runtime_block_length() {}
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some_data = if is_default { None } else { Some(account.data) };
		let result = f(&mut some_data)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
			Account::<T>::mutate(k, |a| a.data = some_data.unwrap_or_default());
		} else {
			Account::<T>::remove(k)
		}
		Ok(result)
	}
}
impl<T: Config> BlockNumberProvider for Pallet<T> {
	type BlockNumber = BlockNumberFor<T>;
	fn current_block_number() -> BlockNumberFor<T> {
		Pallet::<T>::block_number()
	}
}
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> {
	fn created(t: &T::AccountId) -> Result<(), DispatchError> {
		Pallet::<T>::inc_providers(t);
		Ok(())
	}
	fn killed(t: &T::AccountId) -> Result<(), DispatchError> {
		Pallet::<T>::dec_providers(t).map(|_| ())
	}
}
pub struct ChainContext<T>(PhantomData<T>);
impl<T> Default for ChainContext<T> {
	fn default() -> Self {
		ChainContext(PhantomData)
	}
}
impl<T: Config> Lookup for ChainContext<T> {
	type Source = <T::Lookup as StaticLookup>::Source;
	type Target = <T::Lookup as StaticLookup>::Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError> {
		<T::Lookup as StaticLookup>::lookup(s)
	}
}

pub mod mocking {
	use super::*;
	pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> =
		generic::UncheckedExtrinsic<<T as Config>::AccountId, <T as Config>::RuntimeCall, Signature, Extra>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}

// ------------------------------------------------------------------ signed extensions
use substrate::runtime::transaction_validity::*;
macro_rules! ext {
	($n:ident, $id:literal) => {
		#[derive(Encode, Decode, Clone, Eq, PartialEq)]
		#[codec(encode_bound())]
		#[codec(decode_bound())]
		pub struct $n<T>(PhantomData<T>);
		impl<T> $n<T> {
			pub fn new() -> Self {
				Self(PhantomData)
			}
		}
		impl<T> Debug for $n<T> {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				f.write_str($id)
			}
		}
	};
}
ext!(CheckNonZeroSender, "CheckNonZeroSender");
ext!(CheckSpecVersion, "CheckSpecVersion");
ext!(CheckTxVersion, "CheckTxVersion");
ext!(CheckGenesis, "CheckGenesis");
ext!(CheckWeight, "CheckWeight");
macro_rules! trivial_ext {
	($n:ident, $id:literal, $add:ty, |$t:ident| $e:expr) => {
		impl<T: Config + Send + Sync> SignedExtension for $n<T> {
			const IDENTIFIER: &'static str = $id;
			type AccountId = T::AccountId;
			type Call = T::RuntimeCall;
			type AdditionalSigned = $add;
			type Pre = ();
			fn additional_signed(&self) -> Result<$add, TransactionValidityError> {
				Ok($e)
			}
			fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(), TransactionValidityError> {
				self.validate(who, call, info, len).map(|_| ())
			}
		}
	};
}
trivial_ext!(CheckSpecVersion, "CheckSpecVersion", u32, |t| T::Version::get().spec_version);
trivial_ext!(CheckTxVersion, "CheckTxVersion", u32, |t| T::Version::get().transaction_version);
trivial_ext!(CheckGenesis, "CheckGenesis", T::Hash, |t| Pallet::<T>::block_hash(BlockNumberFor::<T>::zero()));
impl<T: Config + Send + Sync> SignedExtension for CheckNonZeroSender<T> {
	const IDENTIFIER: &'static str = "CheckNonZeroSender";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		if who.using_encoded(|d| d.iter().all(|x| *x == 0)) {
			return Err(InvalidTransaction::BadSigner.into())
		}
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(), TransactionValidityError> {
		self.validate(who, call, info, len).map(|_| ())
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckWeight<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "CheckWeight";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, _w: &T::AccountId, _c: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		Self::check(info)
	}
	fn pre_dispatch(self, _w: &T::AccountId, _c: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> {
		Self::check(info)?;
		Pallet::<T>::register_extra_weight_unchecked(info.weight, info.class);
		Ok(())
	}
	fn validate_unsigned(_c: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		Self::check(info)
	}
	fn pre_dispatch_unsigned(_c: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> {
		Self::check(info).map(|_| ())
	}
}
impl<T: Config> CheckWeight<T> {
	fn check(info: &DispatchInfo) -> TransactionValidity {
		let m = T::BlockWeights::get();
		match m.get(info.class).max_extrinsic {
			Some(m) if info.weight.any_gt(m) => Err(InvalidTransaction::ExhaustsResources.into()),
			_ => Ok(ValidTransaction::default()),
		}
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq)]
pub struct CheckEra<T>(pub generic::Era, PhantomData<T>);
impl<T> CheckEra<T> {
	pub fn from(e: generic::Era) -> Self {
		Self(e, PhantomData)
	}
}
impl<T> Debug for CheckEra<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "CheckEra({:?})", self.0)
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq)]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub struct CheckNonce<T: Config>(#[codec(compact)] pub T::Nonce)
where
	T::Nonce: codec::HasCompact;
impl<T: Config> CheckNonce<T>
where
	T::Nonce: codec::HasCompact,
{
	pub fn from(n: T::Nonce) -> Self {
		Self(n)
	}
}
impl<T: Config> Debug for CheckNonce<T>
where
	T::Nonce: codec::HasCompact,
{
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "CheckNonce({:?})", self.0)
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckNonce<T>
where
	T::Nonce: codec::HasCompact,
{
	const IDENTIFIER: &'static str = "CheckNonce";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn pre_dispatch(self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> {
		let mut account = Account::<T>::get(who);
		if self.0 != account.nonce {
			return Err(if self.0 < account.nonce { InvalidTransaction::Stale } else { InvalidTransaction::Future }.into())
		}
		account.nonce += T::Nonce::one();
		Account::<T>::insert(who, account);
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		let account = Account::<T>::get(who);
		if self.0 < account.nonce {
			return InvalidTransaction::Stale.into()
		}
		let provides = vec![Encode::encode(&(who, self.0))];
		let requires = if account.nonce < self.0 { vec![Encode::encode(&(who, self.0 - One::one()))] } else { vec![] };
		Ok(ValidTransaction { priority: 0, requires, provides, longevity: u64::MAX, propagate: true })
	}
}

pub mod offchain {
	use super::*;
	use substrate::runtime::traits::{Extrinsic as ExtrinsicT, IdentifyAccount};
	pub trait SigningTypes: crate::Config {
		type Public: Clone + PartialEq + IdentifyAccount<AccountId = Self::AccountId> + Debug + codec::Codec + Ord + Into2;
		type Signature: Clone + PartialEq + Debug + codec::Codec;
	}
	pub trait Into2 {}
	impl<T> Into2 for T {}
	pub trait AppCrypto<Public, Signature> {
		type RuntimeAppPublic;
		type GenericPublic;
		type GenericSignature;
	}
	pub trait SendTransactionTypes<LocalCall> {
		type Extrinsic: ExtrinsicT<Call = Self::OverarchingCall> + codec::Encode;
		type OverarchingCall: From<LocalCall> + codec::Encode;
	}
	pub trait CreateSignedTransaction<LocalCall>: SendTransactionTypes<LocalCall> + SigningTypes {
		fn create_transaction<C: AppCrypto<Self::Public, Self::Signature>>(
			call: Self::OverarchingCall,
			public: Self::Public,
			account: Self::AccountId,
			nonce: Self::Nonce,
		) -> Option<(Self::OverarchingCall, <Self::Extrinsic as ExtrinsicT>::SignaturePayload)>;
	}
	pub struct SubmitTransaction<T: SendTransactionTypes<C>, C>(PhantomData<(T, C)>);
	impl<T: SendTransactionTypes<C>, C> SubmitTransaction<T, C> {
		pub fn submit_transaction(call: T::OverarchingCall, sig: Option<<T::Extrinsic as ExtrinsicT>::SignaturePayload>) -> Result<(), ()> {
			let xt = T::Extrinsic::new(call, sig).ok_or(())?;
			substrate::io::offchain::submit_transaction(xt.encode())
		}
		pub fn submit_unsigned_transaction(call: T::OverarchingCall) -> Result<(), ()> {
			let xt = T::Extrinsic::new(call, None).ok_or(())?;
			substrate::io::offchain::submit_transaction(xt.encode())
		}
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckEra<T> {
	const IDENTIFIER: &'static str = "CheckEra";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = T::Hash;
	type Pre = ();
	fn additional_signed(&self) -> Result<T::Hash, TransactionValidityError> {
		let now: u64 = Pallet::<T>::block_number().unique_saturated_into();
		let n: BlockNumberFor<T> = self.0.birth(now).saturated_into();
		if BlockHash::<T>::contains_key(n) {
			Ok(Pallet::<T>::block_hash(n))
		} else {
			Err(InvalidTransaction::AncientBirthBlock.into())
		}
	}
	fn validate(&self, _who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		let now: u64 = Pallet::<T>::block_number().unique_saturated_into();
		Ok(ValidTransaction { longevity: self.0.death(now).saturating_sub(now), ..Default::default() })
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(), TransactionValidityError> {
		self.validate(who, call, info, len).map(|_| ())
	}
}
