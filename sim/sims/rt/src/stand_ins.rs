//! What the simulated chain needs from components that are not simulated (sessions, staking,
//! block authoring). Their state lives in chain storage so that it is part of every snapshot.
use frame_support::traits::{FindAuthor, ValidatorSet as ValidatorSetT};
use frame_support::weights::Weight;
use seed_primitives::AccountId;
use codec::{Decode, Encode};
use std::marker::PhantomData;
fn get<T: codec::Decode>(k: &[u8]) -> Option<T> {
	sp_io::storage::get(k).and_then(|v| T::decode(&mut &v[..]).ok())
}
fn put<T: codec::Encode>(k: &[u8], v: &T) {
	sp_io::storage::set(k, &v.encode())
}
pub struct Historical;
pub struct ValIdent;
impl sp_runtime::traits::Convert<AccountId, Option<AccountId>> for ValIdent {
	fn convert(a: AccountId) -> Option<AccountId> {
		Some(a)
	}
}
impl ValidatorSetT<AccountId> for Historical {
	type ValidatorId = AccountId;
	type ValidatorIdOf = ValIdent;
	fn session_index() -> u32 {
		get(b":sim:session").unwrap_or(0)
	}
	fn validators() -> Vec<AccountId> {
		get(b":sim:validators").unwrap_or_default()
	}
}
pub fn set_validators(v: &Vec<AccountId>) {
	put(b":sim:validators", v)
}
pub fn set_session(i: u32) {
	put(b":sim:session", &i)
}
pub fn set_final_session(f: bool) {
	put(b":sim:final", &f)
}
pub struct Session;
impl Session {
	pub fn validators() -> Vec<AccountId> {
		Historical::validators()
	}
}
pub struct StakingSessionTracker;
impl seed_pallet_common::FinalSessionTracker for StakingSessionTracker {
	fn is_active_session_final() -> bool {
		get(b":sim:final").unwrap_or(false)
	}
}
pub struct Babe;
impl FindAuthor<u32> for Babe {
	fn find_author<'a, I>(_d: I) -> Option<u32>
	where
		I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>,
	{
		Some(0)
	}
}
pub struct EthereumBlockHash;
pub mod pallet_ethereum {
	pub struct EthereumBlockHashMapping<T>(std::marker::PhantomData<T>);
	impl<T> pallet_evm::BlockHashMapping for EthereumBlockHashMapping<T> {
		fn block_hash(_n: u32) -> sp_core::H256 {
			Default::default()
		}
	}
}
pub struct HandleTxValidation<E>(PhantomData<E>);
pub struct SlowAdjustingFeeUpdate<R>(PhantomData<R>);
pub struct Preimage;
pub struct BlockExecutionWeight;
impl BlockExecutionWeight {
	pub fn get() -> Weight {
		Weight::from_parts(5_000_000, 0)
	}
}
pub struct Version;
impl frame_support::traits::Get<frame_system::RuntimeVersion> for Version {
	fn get() -> frame_system::RuntimeVersion {
		frame_system::RuntimeVersion { spec_version: 63, transaction_version: 13 }
	}
}
impl frame_support::traits::OnTimestampSet<u64> for Babe {
	fn on_timestamp_set(_m: u64) {}
}
frame_support::parameter_types! {
	pub RuntimeBlockWeights: frame_system::limits::BlockWeights = Default::default();
	pub RuntimeBlockLength: frame_system::limits::BlockLength = Default::default();
	pub PrecompilesValue: crate::precompiles::FutureversePrecompiles<crate::Runtime> = crate::precompiles::FutureversePrecompiles::<_>::new();
}
pub use crate::precompiles::FutureversePrecompiles;

pub struct RecordingRouter<R>(PhantomData<R>);
pub type Routed = (sp_core::H160, sp_core::H160, Vec<u8>, u32, bool);
pub fn take_routed() -> Vec<Routed> {
	let v = get(b":sim:routed").unwrap_or_default();
	sp_io::storage::clear(b":sim:routed");
	v
}
impl<R: seed_pallet_common::EthereumEventRouter> seed_pallet_common::EthereumEventRouter for RecordingRouter<R> {
	fn route(s: &sp_core::H160, d: &sp_core::H160, data: &[u8]) -> seed_pallet_common::EventRouterResult {
		let r = R::route(s, d, data);
		let mut v: Vec<Routed> = get(b":sim:routed").unwrap_or_default();
		v.push((*s, *d, data.to_vec(), crate::System::block_number(), r.is_ok()));
		put(b":sim:routed", &v);
		r
	}
}
pub struct RecordingCaller<R>(PhantomData<R>);
/// call id and the answer: return data with Ethereum block and time, or none for a failure
pub type Answer = (u64, Option<([u8; 32], u64, u64)>);
pub fn take_answers() -> Vec<Answer> {
	let v = get(b":sim:answers").unwrap_or_default();
	sp_io::storage::clear(b":sim:answers");
	v
}
impl<R: seed_pallet_common::EthCallOracleSubscriber<CallId = u64>> seed_pallet_common::EthCallOracleSubscriber for RecordingCaller<R> {
	type CallId = u64;
	fn on_eth_call_complete(id: u64, data: &[u8; 32], n: u64, t: u64) {
		R::on_eth_call_complete(id, data, n, t);
		let mut v: Vec<Answer> = get(b":sim:answers").unwrap_or_default();
		v.push((id, Some((*data, n, t))));
		put(b":sim:answers", &v);
	}
	fn on_eth_call_failed(id: u64, reason: seed_pallet_common::EthCallFailure) {
		R::on_eth_call_failed(id, reason);
		let mut v: Vec<Answer> = get(b":sim:answers").unwrap_or_default();
		v.push((id, None));
		put(b":sim:answers", &v);
	}
}
/// The migration of the runtime: nothing, unless a simulation has set one up.
/// Entries live under `:simmig:` as (times converted, value).
pub struct NoopMigration;
#[derive(Clone, Copy, Encode, Decode, Debug, PartialEq)]
pub struct MigrationPlan {
	pub target: u16,
	pub max: Weight,
	/// a step uses 1/`div`th of the weight for keys with an odd last byte
	pub div: u64,
	/// the step that converts the last entry is also the final one
	pub early: bool,
}
pub const MIGRATION_PREFIX: &[u8] = b":simmig:";
pub fn plan_migration(p: &Option<MigrationPlan>) {
	put(b":sim:mig:plan", p)
}
pub fn migration_plan() -> Option<MigrationPlan> {
	get(b":sim:mig:plan").flatten()
}
/// (version the data has, completions reported to the migration, steps made)
pub fn migration_counts() -> (u16, u32, u32) {
	get(b":sim:mig:counts").unwrap_or_default()
}
pub fn migration_entry(key: &[u8], v: &(u32, u64)) {
	put(&[MIGRATION_PREFIX, key].concat(), v)
}
fn migration_next(after: &[u8]) -> Option<Vec<u8>> {
	sp_io::storage::next_key(after).filter(|k| k.starts_with(MIGRATION_PREFIX))
}
pub fn migration_entries() -> Vec<(Vec<u8>, (u32, u64))> {
	let mut v = vec![];
	let mut at = MIGRATION_PREFIX.to_vec();
	while let Some(k) = migration_next(&at) {
		v.push((k[MIGRATION_PREFIX.len()..].to_vec(), get(&k).unwrap()));
		at = k;
	}
	v
}
impl seed_primitives::migration::MigrationStep for NoopMigration {
	const TARGET_VERSION: u16 = 0;
	fn version_check() -> bool {
		match migration_plan() {
			None => seed_primitives::migration::NoopMigration::version_check(),
			Some(p) => migration_counts().0 == p.target,
		}
	}
	fn on_complete() {
		let Some(p) = migration_plan() else { return seed_primitives::migration::NoopMigration::on_complete() };
		let (_, n, s) = migration_counts();
		put(b":sim:mig:counts", &(p.target, n + 1, s));
	}
	fn max_step_weight() -> Weight {
		migration_plan().map_or_else(seed_primitives::migration::NoopMigration::max_step_weight, |p| p.max)
	}
	fn step(last: Option<Vec<u8>>) -> seed_primitives::migration::MigrationStepResult {
		use seed_primitives::migration::MigrationStepResult as R;
		let Some(p) = migration_plan() else { return seed_primitives::migration::NoopMigration::step(last) };
		let (v, n, s) = migration_counts();
		put(b":sim:mig:counts", &(v, n, s + 1));
		match migration_next(last.as_deref().unwrap_or(MIGRATION_PREFIX)) {
			None => R::finish_step(p.max),
			Some(k) => {
				let (times, x): (u32, u64) = get(&k).unwrap();
				put(&k, &(times + 1, x.rotate_left(7) ^ p.target as u64));
				let w = if k.last().unwrap() % 2 == 1 { p.max / p.div } else { p.max };
				if p.early && migration_next(&k).is_none() {
					return R::finish_step(w);
				}
				R::continue_step(w, k)
			},
		}
	}
}
pub fn set_migration_version(v: u16) {
	put(b":sim:mig:counts", &(v, 0u32, 0u32))
}
