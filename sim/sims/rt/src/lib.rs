//! The simulated chain: the real runtime configuration over the stand-in substrate.
#![allow(clippy::all, unused, deprecated, non_upper_case_globals)]
#![recursion_limit = "512"]
pub mod chain;
pub mod im_online;
pub mod kit;
pub mod prelude_;
pub mod stand_ins;
pub mod constants {
	include!("/repo/runtime/src/constants.rs");
}
mod weights {
	include!(concat!(env!("OUT_DIR"), "/weights.rs"));
}
pub mod impls {
	use crate::stand_ins::*;
	use crate::*;
	include!(concat!(env!("OUT_DIR"), "/impls.rs"));
}
pub mod eth_precompiles;
pub mod evm;
pub mod precompiles {
	use crate::eth_precompiles::*;
	include!(concat!(env!("OUT_DIR"), "/precompiles.rs"));
}
pub use runtime::*;
pub mod runtime {
	use crate::prelude_::*;
	use crate::stand_ins::*;
	use crate::impls::*;
	use crate::constants::{deposit, RootAssetId, XrpAssetId, DAYS, EPOCH_DURATION_IN_SLOTS, MILLISECS_PER_BLOCK, MINUTES, ONE_ROOT, ONE_XRP, SESSIONS_PER_ERA, SLOT_DURATION, VTX_ASSET_ID};
	use crate::{constants, im_online, impls, weights};
	include!(concat!(env!("OUT_DIR"), "/real.rs"));
	impl crate::im_online::Config for Runtime {}
	parameter_types! {
		pub const MaxNominations: u32 = 16;
	}
	impl pallet_staking::Config for Runtime {
		type Currency = Balances;
		type CurrencyBalance = Balance;
		type MaxNominations = MaxNominations;
		type UnixTime = ();
		type CurrencyToVote = ();
		type RewardRemainder = ();
		type RuntimeEvent = RuntimeEvent;
		type Slash = ();
		type Reward = ();
		type SessionsPerEra = ();
		type SlashDeferDuration = ();
		type BondingDuration = BondingDuration;
		type SessionInterface = ();
		type EraPayout = ();
		type NextNewSession = ();
		type MaxNominatorRewardedPerValidator = ();
		type OffendingValidatorsThreshold = ();
		type ElectionProvider = ();
		type GenesisElectionProvider = ();
		type VoterList = ();
		type TargetList = ();
		type MaxUnlockingChunks = ();
		type HistoryDepth = HistoryDepth;
		type BenchmarkingConfig = ();
		type WeightInfo = ();
		type AdminOrigin = EnsureRoot<AccountId>;
		type EventListeners = ();
	}
	impl<LocalCall> frame_system::offchain::CreateSignedTransaction<LocalCall> for Runtime
	where
		RuntimeCall: From<LocalCall>,
	{
		fn create_transaction<C: frame_system::offchain::AppCrypto<Self::Public, Self::Signature>>(_call: RuntimeCall, _public: <Signature as Verify>::Signer, _account: AccountId, _nonce: Nonce) -> Option<(RuntimeCall, <UncheckedExtrinsic as sp_runtime::traits::Extrinsic>::SignaturePayload)> {
			None
		}
	}
}
