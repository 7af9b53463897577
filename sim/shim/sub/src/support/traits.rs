//! frame_support::traits
pub use super::dispatch::{PostDispatchInfo as _PDI, RawOrigin as _RO};
use super::dispatch::{DispatchInfo, DispatchResultWithPostInfo, RawOrigin};
use super::weights::Weight;
use crate::runtime::traits::*;
use crate::runtime::{DispatchError, DispatchResult};
use codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use std::fmt::Debug;

pub use crate::bounded::{
	ConstBool, ConstI128, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TryCollect, TypedGet,
};
pub use crate::{parameter_types, ensure};
pub use crate::support::storage::StorageMap as _SM;

pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	fn prefix_hash() -> [u8; 32] {
		super::storage::storage_prefix(Self::pallet_prefix().as_bytes(), Self::STORAGE_PREFIX.as_bytes())
	}
	const STORAGE_PREFIX: &'static str;
}
pub trait StorageInfoTrait {}
pub trait PartialStorageInfoTrait {}
pub trait Instance: 'static {
	const PREFIX: &'static str;
	const INDEX: u8;
}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
	fn name_hash<P: 'static>() -> Option<[u8; 16]>;
	fn module_name<P: 'static>() -> Option<&'static str>;
	fn crate_version<P: 'static>() -> Option<CrateVersion>;
}
impl PalletInfo for () {
	fn index<P: 'static>() -> Option<usize> {
		Some(0)
	}
	fn name<P: 'static>() -> Option<&'static str> {
		Some("test")
	}
	fn name_hash<P: 'static>() -> Option<[u8; 16]> {
		Some(crate::io::hashing::twox_128(b"test"))
	}
	fn module_name<P: 'static>() -> Option<&'static str> {
		Some("test")
	}
	fn crate_version<P: 'static>() -> Option<CrateVersion> {
		None
	}
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn name_hash() -> [u8; 16];
	fn module_name() -> &'static str;
	fn crate_version() -> CrateVersion;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Encode, Decode)]
pub struct CrateVersion {
	pub major: u16,
	pub minor: u8,
	pub patch: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord, Encode, Decode)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
	fn key<P: PalletInfoAccess>() -> [u8; 32] {
		super::storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:")
	}
	pub fn storage_key<P: PalletInfoAccess>() -> [u8; 32] {
		Self::key::<P>()
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		super::storage::unhashed::put(&Self::key::<P>(), self)
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		super::storage::unhashed::get_or_default(&Self::key::<P>())
	}
	pub fn exists<P: PalletInfoAccess>() -> bool {
		super::storage::unhashed::exists(&Self::key::<P>())
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		Some(self.0.cmp(o))
	}
}
pub trait GetStorageVersion {
	type CurrentStorageVersion;
	fn current_storage_version() -> Self::CurrentStorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}

macro_rules! all_tuples {
	($m:ident $i:ident) => { $m!($i); };
	($m:ident $i:ident $($r:ident)+) => { $m!($i $($r)+); all_tuples!($m $($r)+); };
}
macro_rules! hook_tuple { ($($t:ident)+) => {
	impl<N: Clone, $($t: OnInitialize<N>),+> OnInitialize<N> for ($($t,)+) {
		fn on_initialize(n: N) -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($t::on_initialize(n.clone())); )+ w }
	}
	impl<N: Clone, $($t: OnFinalize<N>),+> OnFinalize<N> for ($($t,)+) { fn on_finalize(n: N) { $( $t::on_finalize(n.clone()); )+ } }
	impl<N: Clone + AtLeast32BitUnsigned, $($t: OnIdle<N>),+> OnIdle<N> for ($($t,)+) {
		fn on_idle(n: N, remaining: Weight) -> Weight {
			let fns: &[fn(N, Weight) -> Weight] = &[$($t::on_idle),+];
			let mut w = Weight::zero();
			let len = fns.len();
			let start = (n.clone() % (len as u32).into()).try_into().ok().expect("fits");
			for f in fns.iter().cycle().skip(start).take(len) {
				let adj = remaining.saturating_sub(w);
				w = w.saturating_add(f(n.clone(), adj));
			}
			w
		}
	}
	impl<N: Clone, $($t: OffchainWorker<N>),+> OffchainWorker<N> for ($($t,)+) { fn offchain_worker(n: N) { $( $t::offchain_worker(n.clone()); )+ } }
	impl<$($t: OnRuntimeUpgrade),+> OnRuntimeUpgrade for ($($t,)+) { fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($t::on_runtime_upgrade()); )+ w } }
	impl<$($t: IntegrityTest),+> IntegrityTest for ($($t,)+) { fn integrity_test() { $( $t::integrity_test(); )+ } }
	impl<$($t: OnGenesis),+> OnGenesis for ($($t,)+) { fn on_genesis() { $( $t::on_genesis(); )+ } }
} }
pub trait OnInitialize<N> {
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<N> {
	fn on_finalize(_n: N) {}
}
pub trait OnIdle<N> {
	fn on_idle(_n: N, _w: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OffchainWorker<N> {
	fn offchain_worker(_n: N) {}
}
pub trait OnGenesis {
	fn on_genesis() {}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	#[cfg(feature = "try-runtime")]
	fn pre_upgrade() -> Result<Vec<u8>, DispatchError> {
		Ok(Vec::new())
	}
	#[cfg(feature = "try-runtime")]
	fn post_upgrade(_s: Vec<u8>) -> Result<(), DispatchError> {
		Ok(())
	}
}
pub trait IntegrityTest {
	fn integrity_test() {}
}
impl OnRuntimeUpgrade for () {}
impl OnGenesis for () {}
impl<N> OnInitialize<N> for () {}
impl<N> OnFinalize<N> for () {}
impl<N> OnIdle<N> for () {}
impl<N> OffchainWorker<N> for () {}
impl IntegrityTest for () {}
all_tuples!(hook_tuple A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6 B7 B8 B9 C0 C1 C2 C3 C4 C5 C6 C7 C8 C9 D0 D1 D2 D3 D4 D5 D6 D7 D8 D9 E0 E1 E2 E3 E4 E5 E6 E7 E8 E9 F0 F1 F2 F3);

pub trait Hooks<BlockNumber> {
	fn on_finalize(_n: BlockNumber) {}
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: BlockNumber) {}
	fn integrity_test() {}
}
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
impl BuildGenesisConfig for () {
	fn build(&self) {}
}
pub use BuildGenesisConfig as GenesisBuild_;

#[derive(Clone, Copy, Eq, PartialEq, Debug)]
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
pub trait GetCallIndex {
	fn get_call_indices() -> &'static [u8];
	fn get_call_index(&self) -> u8;
}
pub trait GetCallMetadata {
	fn get_module_names() -> &'static [&'static str];
	fn get_call_names(module: &str) -> &'static [&'static str];
	fn get_call_metadata(&self) -> CallMetadata;
}
pub trait Callable<T> {
	type RuntimeCall: UnfilteredDispatchable + Codec + Clone + PartialEq + Eq;
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait CallerTrait<AccountId>: Parameter2 + From<RawOrigin<AccountId>> {
	fn into_system(self) -> Option<RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		self.as_system_ref().and_then(RawOrigin::as_signed)
	}
	fn is_root(&self) -> bool {
		self.as_system_ref().map_or(false, |x| matches!(x, RawOrigin::Root))
	}
	fn is_none(&self) -> bool {
		self.as_system_ref().map_or(false, |x| matches!(x, RawOrigin::None))
	}
}
pub trait Parameter2: Codec + EncodeLike + Clone + Eq + Debug {}
impl<T: Codec + EncodeLike + Clone + Eq + Debug> Parameter2 for T {}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId>;
	fn into_signer(self) -> Option<Self::AccountId> {
		self.as_signed()
	}
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
pub struct InsideBoth<A, B>(std::marker::PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub trait SortedMembers<T: Ord> {
	fn sorted_members() -> Vec<T>;
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, _: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _o: &Self) -> bool {
		true
	}
}
pub trait EnsureOrigin<O> {
	type Success;
	fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn try_origin(o: O) -> Result<Self::Success, O>;
	fn ensure_origin_or_root(o: O) -> Result<Option<Self::Success>, BadOrigin>
	where
		O: OriginTrait,
	{
		match o.as_system_ref() {
			Some(RawOrigin::Root) => Ok(None),
			_ => Self::ensure_origin(o).map(Some),
		}
	}
}
pub trait EnsureOriginWithArg<O, A> {
	type Success;
	fn ensure_origin(o: O, a: &A) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O>;
}
pub struct AsEnsureOriginWithArg<E>(std::marker::PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> {
	type Success = E::Success;
	fn try_origin(o: O, _: &A) -> Result<Self::Success, O> {
		E::try_origin(o)
	}
}
pub struct EitherOf<L, R>(std::marker::PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).or_else(|o| R::try_origin(o))
	}
}
pub struct NeverEnsureOrigin<S>(std::marker::PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub trait PrivilegeCmp<O> {
	fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
	fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> {
		(l == r).then_some(std::cmp::Ordering::Equal)
	}
}
pub trait FindAuthor<A> {
	fn find_author<'a, I>(d: I) -> Option<A>
	where
		I: 'a + IntoIterator<Item = (crate::runtime::ConsensusEngineId, &'a [u8])>;
}
impl<A> FindAuthor<A> for () {
	fn find_author<'a, I>(_: I) -> Option<A>
	where
		I: 'a + IntoIterator<Item = (crate::runtime::ConsensusEngineId, &'a [u8])>,
	{
		None
	}
}
pub trait UnixTime {
	fn now() -> core::time::Duration;
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait Randomness<O, N> {
	fn random(s: &[u8]) -> (O, N);
}
pub trait ValidatorSet<AccountId> {
	type ValidatorId: super::Parameter + MaxEncodedLen;
	type ValidatorIdOf: Convert<AccountId, Option<Self::ValidatorId>>;
	fn session_index() -> u32;
	fn validators() -> Vec<Self::ValidatorId>;
}
pub trait ValidatorRegistration<V> {
	fn is_registered(id: &V) -> bool;
}
pub trait OneSessionHandler<V>: crate::runtime::BoundToRuntimeAppPublic {
	type Key: Decode + crate::runtime::RuntimeAppPublic;
	fn on_genesis_session<'a, I: 'a>(_: I)
	where
		I: Iterator<Item = (&'a V, Self::Key)>,
		V: 'a;
	fn on_new_session<'a, I: 'a>(changed: bool, validators: I, queued: I)
	where
		I: Iterator<Item = (&'a V, Self::Key)>,
		V: 'a;
	fn on_before_session_ending() {}
	fn on_disabled(i: u32);
}
pub trait EstimateNextSessionRotation<N> {
	fn average_session_length() -> N;
}
pub trait OnUnbalanced<I: TryDrop> {
	fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>)
	where
		I: Imbalance<B>,
	{
		Self::on_unbalanced(amounts.fold(I::zero(), |i, x| x.merge(i)))
	}
	fn on_unbalanced(amount: I) {
		amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced)
	}
	fn on_nonzero_unbalanced(amount: I) {
		drop(amount)
	}
}
impl<I: TryDrop> OnUnbalanced<I> for () {}
pub struct ResolveTo;
pub trait OnKilledAccount<A> {
	fn on_killed_account(_: &A) {}
}
impl<A> OnKilledAccount<A> for () {}
pub trait OnNewAccount<A> {
	fn on_new_account(_: &A) {}
}
impl<A> OnNewAccount<A> for () {}
pub trait HandleLifetime<T> {
	fn created(_t: &T) -> Result<(), DispatchError> {
		Ok(())
	}
	fn killed(_t: &T) -> Result<(), DispatchError> {
		Ok(())
	}
}
impl<T> HandleLifetime<T> for () {}
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
		Self::mutate_exists(k, |m| {
			let mut t = m.take().unwrap_or_default();
			let r = f(&mut t);
			*m = Some(t);
			r
		})
	}
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) })
	}
	fn insert(k: &K, t: T) -> Result<(), DispatchError> {
		Self::mutate(k, |i| *i = t)
	}
	fn remove(k: &K) -> Result<(), DispatchError> {
		Self::mutate_exists(k, |x| *x = None)
	}
}
pub trait OnTimestampSet<M> {
	fn on_timestamp_set(m: M);
}
impl<M> OnTimestampSet<M> for () {
	fn on_timestamp_set(_: M) {}
}
pub trait SignedTransactionBuilder {}
pub trait ExtrinsicCall {}
pub trait DefensiveSaturating {}
pub trait Defensive<T> {
	fn defensive(self) -> Self;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive(self) -> Self {
		self
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
}
impl<T, E: Debug> Defensive<T> for Result<T, E> {
	fn defensive(self) -> Self {
		self
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
}
pub trait Len {
	fn len(&self) -> usize;
}
pub trait WrapperOpaqueLike {}
pub trait AccountTouch<A, B> {}
pub trait TransformOrigin {}

// ---------------------------------------------------------------- currency (legacy)
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, MaxEncodedLen)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, MaxEncodedLen)]
pub struct WithdrawReasons(u8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = Self(1);
	pub const TRANSFER: Self = Self(2);
	pub const RESERVE: Self = Self(4);
	pub const FEE: Self = Self(8);
	pub const TIP: Self = Self(16);
	pub fn except(one: WithdrawReasons) -> Self {
		Self(Self::all().0 & !one.0)
	}
	pub const fn all() -> Self {
		Self(31)
	}
	pub const fn empty() -> Self {
		Self(0)
	}
	pub fn intersects(self, o: Self) -> bool {
		self.0 & o.0 != 0
	}
	pub fn contains(self, o: Self) -> bool {
		self.0 & o.0 == o.0
	}
	pub fn is_empty(self) -> bool {
		self.0 == 0
	}
}
impl std::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		Self(self.0 | o.0)
	}
}
impl std::ops::BitOrAssign for WithdrawReasons {
	fn bitor_assign(&mut self, o: Self) {
		self.0 |= o.0
	}
}
pub trait TryDrop: Sized {
	fn try_drop(self) -> Result<(), Self>;
}
impl TryDrop for () {
	fn try_drop(self) -> Result<(), ()> {
		Ok(())
	}
}
pub enum SameOrOther<A, B> {
	None,
	Same(A),
	Other(B),
}
impl<A: TryDrop, B: TryDrop> TryDrop for SameOrOther<A, B> {
	fn try_drop(self) -> Result<(), Self> {
		match self {
			SameOrOther::None => Ok(()),
			SameOrOther::Same(x) => x.try_drop().map_err(SameOrOther::Same),
			SameOrOther::Other(x) => x.try_drop().map_err(SameOrOther::Other),
		}
	}
}
impl<A, B> SameOrOther<A, B> {
	pub fn same(self) -> Result<A, B>
	where
		A: Default,
	{
		match self {
			SameOrOther::Same(a) => Ok(a),
			SameOrOther::None => Ok(A::default()),
			SameOrOther::Other(b) => Err(b),
		}
	}
	pub fn other(self) -> Result<B, A>
	where
		B: Default,
	{
		match self {
			SameOrOther::Same(a) => Err(a),
			SameOrOther::None => Ok(B::default()),
			SameOrOther::Other(b) => Ok(b),
		}
	}
}
pub trait Imbalance<Balance>: Sized + TryDrop + Default {
	type Opposite: Imbalance<Balance>;
	fn zero() -> Self;
	fn drop_zero(self) -> Result<(), Self>;
	fn split(self, amount: Balance) -> (Self, Self);
	fn ration(self, first: u32, second: u32) -> (Self, Self)
	where
		Balance: From<u32> + crate::arith::traits::Saturating + std::ops::Div<Output = Balance>,
	{
		let total: u32 = first.saturating_add(second);
		if total == 0 {
			return (Self::zero(), Self::zero())
		}
		let amount1 = crate::arith::traits::Saturating::saturating_mul(self.peek(), first.into()) / total.into();
		self.split(amount1)
	}
	fn merge(self, other: Self) -> Self;
	fn subsume(&mut self, other: Self);
	fn maybe_merge(self, other: Option<Self>) -> Self {
		if let Some(o) = other {
			self.merge(o)
		} else {
			self
		}
	}
	fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
	fn peek(&self) -> Balance;
}
impl<Balance: Default> Imbalance<Balance> for () {
	type Opposite = ();
	fn zero() {}
	fn drop_zero(self) -> Result<(), ()> {
		Ok(())
	}
	fn split(self, _: Balance) -> ((), ()) {
		((), ())
	}
	fn merge(self, _: ()) {}
	fn subsume(&mut self, _: ()) {}
	fn offset(self, _: ()) -> SameOrOther<(), ()> {
		SameOrOther::None
	}
	fn peek(&self) -> Balance {
		Default::default()
	}
}
pub enum SignedImbalance<B, PositiveImbalance: Imbalance<B>> {
	Positive(PositiveImbalance),
	Negative(PositiveImbalance::Opposite),
}
impl<P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>, B> SignedImbalance<B, P> {
	pub fn zero() -> Self {
		SignedImbalance::Positive(P::zero())
	}
	pub fn drop_zero(self) -> Result<(), Self> {
		match self {
			SignedImbalance::Positive(x) => x.drop_zero().map_err(SignedImbalance::Positive),
			SignedImbalance::Negative(x) => x.drop_zero().map_err(SignedImbalance::Negative),
		}
	}
	pub fn merge(self, other: Self) -> Self {
		match (self, other) {
			(SignedImbalance::Positive(a), SignedImbalance::Positive(b)) => SignedImbalance::Positive(a.merge(b)),
			(SignedImbalance::Negative(a), SignedImbalance::Negative(b)) => SignedImbalance::Negative(a.merge(b)),
			(SignedImbalance::Positive(p), SignedImbalance::Negative(n)) | (SignedImbalance::Negative(n), SignedImbalance::Positive(p)) => match p.offset(n) {
				SameOrOther::Same(p) => SignedImbalance::Positive(p),
				SameOrOther::Other(n) => SignedImbalance::Negative(n),
				SameOrOther::None => SignedImbalance::Positive(P::zero()),
			},
		}
	}
}
pub trait Currency<AccountId> {
	type Balance: tokens::Balance;
	type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
	type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
	fn total_issuance() -> Self::Balance;
	fn active_issuance() -> Self::Balance {
		Self::total_issuance()
	}
	fn deactivate(_: Self::Balance) {}
	fn reactivate(_: Self::Balance) {}
	fn minimum_balance() -> Self::Balance;
	fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
	fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
	fn pair(amount: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) {
		(Self::burn(amount), Self::issue(amount))
	}
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
	fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, er: ExistenceRequirement) -> DispatchResult;
	fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
	fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
	fn resolve_into_existing(who: &AccountId, value: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> {
		let v = value.peek();
		match Self::deposit_into_existing(who, v) {
			Ok(opp) => Ok(drop(value.offset(opp))),
			_ => Err(value),
		}
	}
	fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
	fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) {
		let v = value.peek();
		drop(value.offset(Self::deposit_creating(who, v)));
	}
	fn withdraw(who: &AccountId, value: Self::Balance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
	fn settle(
		who: &AccountId,
		value: Self::PositiveImbalance,
		reasons: WithdrawReasons,
		liveness: ExistenceRequirement,
	) -> Result<(), Self::PositiveImbalance> {
		let v = value.peek();
		match Self::withdraw(who, v, reasons, liveness) {
			Ok(opp) => Ok(drop(value.offset(opp))),
			_ => Err(value),
		}
	}
	fn make_free_balance_be(who: &AccountId, balance: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
	fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
	fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
	fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
	fn repatriate_reserved(slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedReservableCurrency<AccountId>: ReservableCurrency<AccountId> {}
pub type LockIdentifier = [u8; 8];
pub trait LockableCurrency<AccountId>: Currency<AccountId> {}

pub mod tokens {
	use super::*;
	use crate::runtime::{ArithmeticError, TokenError};
	pub use super::{BalanceStatus, ExistenceRequirement, WithdrawReasons, fungible, fungibles};
	pub use super::{Currency as currency_like, Imbalance as imbalance_like};
	pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + MaxEncodedLen + Send + Sync + 'static {}
	impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + MaxEncodedLen + Send + Sync + 'static> Balance for T {}
	pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + MaxEncodedLen {}
	impl<T: FullCodec + Clone + Eq + PartialEq + Debug + MaxEncodedLen> AssetId for T {}
	#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, MaxEncodedLen)]
	pub enum Preservation {
		Expendable,
		Protect,
		Preserve,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, MaxEncodedLen)]
	pub enum Fortitude {
		Polite,
		Force,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, MaxEncodedLen)]
	pub enum Precision {
		Exact,
		BestEffort,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Provenance {
		Minted,
		Extant,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Restriction {
		Free,
		OnHold,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum WithdrawConsequence<Balance> {
		BalanceLow,
		WouldDie,
		UnknownAsset,
		Underflow,
		Overflow,
		Frozen,
		ReducedToZero(Balance),
		Success,
	}
	impl<B: Zero> WithdrawConsequence<B> {
		pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
			use WithdrawConsequence::*;
			match self {
				BalanceLow => Err(TokenError::FundsUnavailable.into()),
				WouldDie => Err(TokenError::OnlyProvider.into()),
				UnknownAsset => Err(TokenError::UnknownAsset.into()),
				Underflow => Err(ArithmeticError::Underflow.into()),
				Overflow => Err(ArithmeticError::Overflow.into()),
				Frozen => Err(TokenError::Frozen.into()),
				ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
				ReducedToZero(r) => Ok(r),
				Success => Ok(Zero::zero()),
			}
		}
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum DepositConsequence {
		BelowMinimum,
		CannotCreate,
		UnknownAsset,
		Overflow,
		Success,
		Blocked,
	}
	impl DepositConsequence {
		pub fn into_result(self) -> Result<(), DispatchError> {
			use DepositConsequence::*;
			Err(match self {
				BelowMinimum => TokenError::BelowMinimum.into(),
				CannotCreate => TokenError::CannotCreate.into(),
				UnknownAsset => TokenError::UnknownAsset.into(),
				Overflow => ArithmeticError::Overflow.into(),
				Blocked => TokenError::Blocked.into(),
				Success => return Ok(()),
			})
		}
	}
	pub use DepositConsequence as DepositConsequence_;
	pub mod currency {
		pub use super::super::{Currency, ReservableCurrency};
	}
	pub mod imbalance {
		pub use super::super::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance, TryDrop};
	}
	pub mod nonfungibles {}
}

macro_rules! fung {
	($modname:ident; [$($ag:tt)*] [$($ap:tt)*] [$($aa:tt)*] [$($dust:tt)*] [$($assoc:tt)*] [$($extra:tt)*]) => {
		pub mod $modname {
			use super::tokens::{self, Fortitude::{self, *}, Precision::{self, *}, Preservation::{self, *}, Provenance::{self, *}, DepositConsequence, WithdrawConsequence, AssetId};
			use super::*;
			use crate::runtime::{ArithmeticError, TokenError};
			use crate::arith::traits::*;
			pub trait Inspect<AccountId>: Sized {
				$($assoc)*
				type Balance: tokens::Balance;
				fn total_issuance($($ap)*) -> Self::Balance;
				fn active_issuance($($ap)*) -> Self::Balance { Self::total_issuance($($aa)*) }
				fn minimum_balance($($ap)*) -> Self::Balance;
				fn total_balance($($ap)* who: &AccountId) -> Self::Balance;
				fn balance($($ap)* who: &AccountId) -> Self::Balance;
				fn reducible_balance($($ap)* who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
				fn can_deposit($($ap)* who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
				fn can_withdraw($($ap)* who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
				$($extra)*
			}
			pub trait Unbalanced<AccountId>: Inspect<AccountId> {
				fn handle_raw_dust($($ap)* amount: Self::Balance) { Self::handle_dust(Dust($($aa)* amount)) }
				fn handle_dust(dust: Dust<AccountId, Self>);
				fn write_balance($($ap)* who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
				fn set_total_issuance($($ap)* amount: Self::Balance);
				fn decrease_balance($($ap)* who: &AccountId, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
					let old_balance = Self::balance($($aa)* who);
					let free = Self::reducible_balance($($aa)* who, preservation, force);
					if let BestEffort = precision { amount = amount.min(free); }
					let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
					if let Some(dust) = Self::write_balance($($aa)* who, new_balance)? { Self::handle_dust(Dust($($aa)* dust)); }
					Ok(Saturating::saturating_sub(old_balance, new_balance))
				}
				fn increase_balance($($ap)* who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
					let old_balance = Self::balance($($aa)* who);
					let new_balance = if let BestEffort = precision { Saturating::saturating_add(old_balance, amount) } else { old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
					if new_balance < Self::minimum_balance($($aa)*) {
						if let BestEffort = precision { Ok(Default::default()) } else { Err(TokenError::BelowMinimum.into()) }
					} else if new_balance == old_balance {
						Ok(Default::default())
					} else {
						if let Some(dust) = Self::write_balance($($aa)* who, new_balance)? { Self::handle_dust(Dust($($aa)* dust)); }
						Ok(Saturating::saturating_sub(new_balance, old_balance))
					}
				}
				#[allow(unused_variables)]
				fn deactivate($($ap)* amount: Self::Balance) {}
				#[allow(unused_variables)]
				fn reactivate($($ap)* amount: Self::Balance) {}
			}
			#[allow(unused_variables)]
			pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
				fn mint_into($($ap)* who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					Self::total_issuance($($aa)*).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
					let actual = Self::increase_balance($($aa)* who, amount, Exact)?;
					let ti = Saturating::saturating_add(Self::total_issuance($($aa)*), actual);
					Self::set_total_issuance($($aa)* ti);
					Self::done_mint_into($($aa)* who, amount);
					Ok(actual)
				}
				fn burn_from($($ap)* who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
					let actual = Self::reducible_balance($($aa)* who, Expendable, force).min(amount);
					if !(actual == amount || precision == BestEffort) { return Err(TokenError::FundsUnavailable.into()); }
					Self::total_issuance($($aa)*).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
					let actual = Self::decrease_balance($($aa)* who, actual, BestEffort, Expendable, force)?;
					let ti = Saturating::saturating_sub(Self::total_issuance($($aa)*), actual);
					Self::set_total_issuance($($aa)* ti);
					Self::done_burn_from($($aa)* who, actual);
					Ok(actual)
				}
				fn shelve($($ap)* who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					let actual = Self::reducible_balance($($aa)* who, Expendable, Polite).min(amount);
					if actual != amount { return Err(TokenError::FundsUnavailable.into()); }
					Self::total_issuance($($aa)*).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
					let actual = Self::decrease_balance($($aa)* who, actual, BestEffort, Expendable, Polite)?;
					let ti = Saturating::saturating_sub(Self::total_issuance($($aa)*), actual);
					Self::set_total_issuance($($aa)* ti);
					Self::done_shelve($($aa)* who, actual);
					Ok(actual)
				}
				fn restore($($ap)* who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
					Self::total_issuance($($aa)*).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
					let actual = Self::increase_balance($($aa)* who, amount, Exact)?;
					let ti = Saturating::saturating_add(Self::total_issuance($($aa)*), actual);
					Self::set_total_issuance($($aa)* ti);
					Self::done_restore($($aa)* who, amount);
					Ok(actual)
				}
				fn transfer($($ap)* source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
					let _extra = Self::can_withdraw($($aa)* source, amount).into_result(preservation != Expendable)?;
					Self::can_deposit($($aa)* dest, amount, Extant).into_result()?;
					Self::decrease_balance($($aa)* source, amount, BestEffort, preservation, Polite)?;
					let _ = Self::increase_balance($($aa)* dest, amount, BestEffort);
					Self::done_transfer($($aa)* source, dest, amount);
					Ok(amount)
				}
				fn set_balance($($ap)* who: &AccountId, amount: Self::Balance) -> Self::Balance {
					let b = Self::balance($($aa)* who);
					if b > amount {
						Self::burn_from($($aa)* who, b - amount, BestEffort, Force).map(|d| Saturating::saturating_sub(b, d)).unwrap_or(b)
					} else {
						Self::mint_into($($aa)* who, amount - b).map(|d| Saturating::saturating_add(b, d)).unwrap_or(b)
					}
				}
				fn done_mint_into($($ap)* who: &AccountId, amount: Self::Balance) {}
				fn done_burn_from($($ap)* who: &AccountId, amount: Self::Balance) {}
				fn done_shelve($($ap)* who: &AccountId, amount: Self::Balance) {}
				fn done_restore($($ap)* who: &AccountId, amount: Self::Balance) {}
				fn done_transfer($($ap)* source: &AccountId, dest: &AccountId, amount: Self::Balance) {}
			}
			$($dust)*
		}
	};
}
fung!(fungible; [] [] [] [
	pub struct Dust<A, T: Inspect<A>>(pub T::Balance);
	pub trait Balanced<A>: Inspect<A> {}
] [] []);
fung!(fungibles; [] [asset: Self::AssetId,] [asset.clone(),] [
	pub struct Dust<A, T: Inspect<A>>(pub T::AssetId, pub T::Balance);
	pub trait Balanced<A>: Inspect<A> {}
	pub trait Create<AccountId>: Inspect<AccountId> {
		fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
	}
	pub trait Destroy<AccountId>: Inspect<AccountId> {
		fn start_destroy(id: Self::AssetId, maybe_check_owner: Option<AccountId>) -> DispatchResult;
		fn destroy_accounts(id: Self::AssetId, max: u32) -> Result<u32, DispatchError>;
		fn destroy_approvals(id: Self::AssetId, max: u32) -> Result<u32, DispatchError>;
		fn finish_destroy(id: Self::AssetId) -> DispatchResult;
	}
	pub mod metadata {
		use super::super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn name(asset: Self::AssetId) -> Vec<u8>;
			fn symbol(asset: Self::AssetId) -> Vec<u8>;
			fn decimals(asset: Self::AssetId) -> u8;
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn set(asset: Self::AssetId, from: &AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult;
		}
	}
	pub mod roles {
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn owner(asset: Self::AssetId) -> Option<AccountId>;
			fn issuer(asset: Self::AssetId) -> Option<AccountId>;
			fn admin(asset: Self::AssetId) -> Option<AccountId>;
			fn freezer(asset: Self::AssetId) -> Option<AccountId>;
		}
	}
	pub mod approvals {
		use super::super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn allowance(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId) -> Self::Balance;
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn approve(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn transfer_from(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId, dest: &AccountId, amount: Self::Balance) -> DispatchResult;
		}
	}
	pub use Inspect as InspectFungibles;
] [type AssetId: AssetId;] [fn asset_exists(asset: Self::AssetId) -> bool;]);

pub mod schedule {
	use super::*;
	pub type Period<N> = (N, u32);
	pub type Priority = u8;
	#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen)]
	pub enum DispatchTime<N> {
		At(N),
		After(N),
	}
	pub const HIGHEST_PRIORITY: Priority = 0;
	pub const HARD_DEADLINE: Priority = 63;
	pub const LOWEST_PRIORITY: Priority = 255;
	pub mod v1 {
		use super::*;
		pub trait Anon<N, Call, Origin> {
			type Address: Codec + MaxEncodedLen + Clone + Eq + EncodeLike + Debug;
			fn schedule(when: DispatchTime<N>, p: Option<Period<N>>, pr: Priority, o: Origin, c: Call) -> Result<Self::Address, DispatchError>;
			fn cancel(a: Self::Address) -> Result<(), ()>;
			fn reschedule(a: Self::Address, when: DispatchTime<N>) -> Result<Self::Address, DispatchError>;
			fn next_dispatch_time(a: Self::Address) -> Result<N, ()>;
		}
		pub trait Named<N, Call, Origin> {
			type Address: Codec + MaxEncodedLen + Clone + Eq + EncodeLike + Debug;
			fn schedule_named(id: Vec<u8>, when: DispatchTime<N>, p: Option<Period<N>>, pr: Priority, o: Origin, c: Call) -> Result<Self::Address, ()>;
			fn cancel_named(id: Vec<u8>) -> Result<(), ()>;
		}
	}
	pub use v1::*;
}
pub mod misc_like {}
