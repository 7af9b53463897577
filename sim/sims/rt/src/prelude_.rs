pub use codec::{Decode, Encode, MaxEncodedLen};
pub use fp_evm::*;
pub use frame_support::{
	construct_runtime,
	dispatch::{DispatchClass, GetDispatchInfo},
	ensure,
	pallet_prelude::Hooks,
	parameter_types,
	traits::{
		fungibles::{metadata::Inspect as InspectMetadata, Inspect},
		tokens::{Fortitude, Preservation},
		AsEnsureOriginWithArg, ConstU128, ConstU32, Everything, Get, Randomness,
	},
	weights::{
		constants::{ExtrinsicBaseWeight, RocksDbWeight, WEIGHT_REF_TIME_PER_MILLIS, WEIGHT_REF_TIME_PER_SECOND},
		ConstantMultiplier, IdentityFee, Weight,
	},
	PalletId, StorageValue,
};
pub use frame_system::{
	EnsureRoot, EnsureSigned,
};
pub use pallet_dex::TradingPairStatus;
pub use pallet_evm::{Account as EVMAccount, EnsureAddressNever, FeeCalculator, GasWeightMapping, Runner as RunnerT};
pub use pallet_fee_proxy::{get_fee_preferences_data, FeePreferencesData, FeePreferencesRunner};
pub use pallet_staking::RewardDestination;
pub use precompile_utils::constants::FEE_PROXY_ADDRESS;
pub use seed_pallet_common::{FeeConfig, MaintenanceCheck};
pub use crate::stand_ins::NoopMigration;
pub use seed_primitives::{
	ethy::{crypto::AuthorityId as EthBridgeId, ValidatorSet},
	AccountId, Address, AssetId, Balance, BlakeTwo256Hash, BlockNumber, CollectionUuid, Hash, Nonce, SerialNumber, Signature, TokenCount, TokenId,
};
pub use sp_core::{crypto::KeyTypeId, H160, H256, U256};
pub use sp_runtime::{
	generic,
	traits::{Block as BlockT, Bounded, DispatchInfoOf, Dispatchable, IdentityLookup, PostDispatchInfoOf, Verify},
	transaction_validity::{InvalidTransaction, TransactionPriority, TransactionSource, TransactionValidity, TransactionValidityError},
	ApplyExtrinsicResult, FixedPointNumber, Perbill, Percent, Permill, Perquintill,
};
pub use sp_std::prelude::*;
