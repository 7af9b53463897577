//! Stand-ins for the Substrate / Frontier pallets the repository depends on.
#![allow(clippy::all, unused, deprecated, private_interfaces)]
pub mod balances;
pub mod assets;
pub mod timestamp;
pub mod evm;
pub mod evm_;
pub mod fp_evm;
pub mod transaction_payment;
pub mod proxy;
pub mod utility;
pub mod scheduler;
pub mod session;
pub mod sudo;
pub mod bags_list;
pub mod self_contained;
pub mod executive;
pub mod staking;
pub mod election;
pub mod reward_curve;
