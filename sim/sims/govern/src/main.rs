//! Who may change the parameters of the chain (G02).
use frame_system::RawOrigin;
use rt::chain::*;
use rt::{stand_ins, Runtime, RuntimeCall};
use seed_primitives::ethy::crypto::AuthorityId;
use seed_primitives::AccountId;
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{Pair, H160, H256, U256};
simkit::interpose!();

const USERS: u64 = 8;
const KINDS: u8 = 74;
const A: u32 = 5000;
const B: u32 = 5001;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Try { k: u8, a: u64, by: u8, via: u8 },
	Govern { k: u8, a: u64 },
	Block { fork: bool },
	Crash,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Auth {
	Root,
	/// root or the administrator of the reward distribution
	Vortex,
	NfiRelayer,
	Xls20Relayer,
	XrplRelayer,
	EthRelayer,
	/// only the chain itself
	Nobody,
}
struct World {
	c: Chain,
	names: Vec<AccountId>,
	vortex: Option<usize>,
	nfi: Option<usize>,
	xls20: Option<usize>,
	xrpl: Vec<usize>,
	eth: Option<usize>,
	coll: Vec<u32>,
	pass: AccountId,
	/// when the delayed withdrawals made at the start are due
	due: u32,
	fees: (U256, sp_runtime::Perbill, u128),
}
fn door(r: &mut Rng) -> pallet_xrpl_bridge::types::XRPLDoorAccount {
	if r.chance(1, 2) { pallet_xrpl_bridge::types::XRPLDoorAccount::Main } else { pallet_xrpl_bridge::types::XRPLDoorAccount::NFT }
}
fn bounded<S: frame_support::traits::Get<u32>>(s: &str) -> frame_support::BoundedVec<u8, S> {
	frame_support::BoundedVec::truncate_from(s.as_bytes().to_vec())
}
fn token(id: u128) -> Vec<u8> {
	id.to_be_bytes().to_vec()
}
impl World {
	fn call(&self, k: u8, a: u64) -> (Auth, &'static str, RuntimeCall) {
		use Auth::*;
		let mut r = Rng::new(a);
		let r = &mut r;
		let who = self.names[r.idx(self.names.len())].clone();
		let some = if r.chance(1, 4) { None } else { Some(who.clone()) };
		let n = *r.pick(&[0u64, 1, 2, 5, 60, 75, 10_000]);
		let on = r.chance(1, 2);
		let asset = *r.pick(&[XRP, ROOT, A, B]);
		let h = H160::repeat_byte(r.below(256) as u8);
		let amount = r.below(1 << 40) as u128;
		let id = r.below(3) as u32;
		let coll = *r.pick(&self.coll);
		use pallet_dex::Call as Dex;
		use pallet_erc20_peg::Call as Peg;
		use pallet_ethy::Call as Eth;
		use pallet_fee_control::Call as Fee;
		use pallet_maintenance_mode::Call as Mm;
		use pallet_migration::Call as Mig;
		use pallet_nfi::Call as Nfi;
		use pallet_token_approvals::Call as Ta;
		use pallet_vortex_distribution::Call as Vx;
		use pallet_xls20::Call as Xls;
		use pallet_xrpl_bridge::Call as Xb;
		match k {
			0 => (Root, "assets-ext.set_asset_deposit", pallet_assets_ext::Call::<Runtime>::set_asset_deposit { asset_deposit: amount }.into()),
			1 => (Root, "dex.set_fee_to", Dex::<Runtime>::set_fee_to { fee_to: some }.into()),
			2 => (Root, "dex.disable_trading_pair", Dex::<Runtime>::disable_trading_pair { token_a: A, token_b: B }.into()),
			3 => (Root, "dex.reenable_trading_pair", Dex::<Runtime>::reenable_trading_pair { token_a: A, token_b: B }.into()),
			4 => (Root, "doughnut.update_whitelisted_holders", pallet_doughnut::Call::<Runtime>::update_whitelisted_holders { holder: who, add: on }.into()),
			5 => (Root, "erc20-peg.activate_deposits", Peg::<Runtime>::activate_deposits { activate: on }.into()),
			6 => (Root, "erc20-peg.activate_withdrawals", Peg::<Runtime>::activate_withdrawals { activate: on }.into()),
			7 => (Root, "erc20-peg.activate_deposits_delay", Peg::<Runtime>::activate_deposits_delay { activate: on }.into()),
			8 => (Root, "erc20-peg.activate_withdrawals_delay", Peg::<Runtime>::activate_withdrawals_delay { activate: on }.into()),
			9 => (Root, "erc20-peg.set_erc20_peg_address", Peg::<Runtime>::set_erc20_peg_address { eth_address: h }.into()),
			10 => (Root, "erc20-peg.set_root_peg_address", Peg::<Runtime>::set_root_peg_address { eth_address: h }.into()),
			11 => (Root, "erc20-peg.set_erc20_meta", Peg::<Runtime>::set_erc20_meta { details: vec![(h, bounded("TKN"), 6)] }.into()),
			12 => (Root, "erc20-peg.set_erc20_asset_map", Peg::<Runtime>::set_erc20_asset_map { asset_id: asset, eth_address: h }.into()),
			13 => (Root, "erc20-peg.set_payment_delay", Peg::<Runtime>::set_payment_delay { asset_id: asset, min_balance: amount, delay: n as u32 }.into()),
			14 => (Root, "ethy.set_xrpl_door_signers", Eth::<Runtime>::set_xrpl_door_signers { new_signers: vec![(AuthorityId::from(sp_core::ecdsa::Pair::from_seed(&[1 + r.below(4) as u8; 32]).public()), on)] }.into()),
			15 => (Root, "ethy.set_relayer", Eth::<Runtime>::set_relayer { relayer: self.names[2 + r.idx(2)].clone() }.into()),
			16 => (Root, "ethy.set_event_block_confirmations", Eth::<Runtime>::set_event_block_confirmations { confirmations: n }.into()),
			17 => (Root, "ethy.set_delayed_event_proofs_per_block", Eth::<Runtime>::set_delayed_event_proofs_per_block { count: n as u8 }.into()),
			18 => (Root, "ethy.set_challenge_period", Eth::<Runtime>::set_challenge_period { blocks: n as u32 }.into()),
			19 => (Root, "ethy.set_contract_address", Eth::<Runtime>::set_contract_address { contract_address: h }.into()),
			20 => (Root, "ethy.set_bridge_paused", Eth::<Runtime>::set_bridge_paused { paused: on }.into()),
			21 => (Nobody, "ethy.finalise_authorities_change", Eth::<Runtime>::finalise_authorities_change { next_notary_keys: frame_support::WeakBoundedVec::force_from(vec![], None) }.into()),
			22 => (Root, "ethy.remove_missing_event_id", Eth::<Runtime>::remove_missing_event_id { event_id_range: (n, n + 5) }.into()),
			23 => (EthRelayer, "ethy.submit_event", Eth::<Runtime>::submit_event { tx_hash: H256::repeat_byte(n as u8), event: rt::kit::eth_event(r.below(50), H160::repeat_byte(7), h, &[1, 2, 3]) }.into()),
			24 => (EthRelayer, "ethy.submit_missing_event", Eth::<Runtime>::submit_missing_event { tx_hash: H256::repeat_byte(n as u8), event: rt::kit::eth_event(r.below(5), H160::repeat_byte(7), h, &[1, 2, 3]) }.into()),
			25 => (Root, "evm-chain-id.set_chain_id", pallet_evm_chain_id::Call::<Runtime>::set_chain_id { chain_id: n }.into()),
			26 => (Root, "fee-control.set_evm_base_fee", Fee::<Runtime>::set_evm_base_fee { value: U256::from(amount) }.into()),
			27 => (Root, "fee-control.set_weight_multiplier", Fee::<Runtime>::set_weight_multiplier { value: sp_runtime::Perbill::from_parts(n as u32) }.into()),
			28 => (Root, "fee-control.set_length_multiplier", Fee::<Runtime>::set_length_multiplier { value: n as u128 }.into()),
			29 => (Root, "maintenance-mode.enable_maintenance_mode", Mm::<Runtime>::enable_maintenance_mode { enabled: r.chance(1, 6) }.into()),
			30 => (Root, "maintenance-mode.block_account", Mm::<Runtime>::block_account { account: who, blocked: r.chance(1, 4) }.into()),
			31 => (Root, "maintenance-mode.block_evm_target", Mm::<Runtime>::block_evm_target { target_address: h, blocked: on }.into()),
			32 => (Root, "maintenance-mode.block_call", Mm::<Runtime>::block_call { pallet_name: bounded("nft"), call_name: bounded("mint"), blocked: on }.into()),
			33 => (Root, "maintenance-mode.block_pallet", Mm::<Runtime>::block_pallet { pallet_name: bounded("sft"), blocked: on }.into()),
			34 => (Root, "marketplace.set_fee_to", pallet_marketplace::Call::<Runtime>::set_fee_to { fee_to: some }.into()),
			35 => (Root, "migration.enable_migration", Mig::<Runtime>::enable_migration { enabled: on }.into()),
			36 => (Root, "migration.set_block_delay", Mig::<Runtime>::set_block_delay { block_delay: if on { Some(n as u32) } else { None } }.into()),
			37 => (Root, "migration.set_block_limit", Mig::<Runtime>::set_block_limit { block_limit: n as u32 }.into()),
			38 => (Root, "nfi.set_relayer", Nfi::<Runtime>::set_relayer { relayer: who }.into()),
			39 => (Root, "nfi.set_fee_to", Nfi::<Runtime>::set_fee_to { fee_to: some }.into()),
			40 => (Root, "nfi.set_fee_details", Nfi::<Runtime>::set_fee_details { sub_type: pallet_nfi::types::NFISubType::NFI, fee_details: some.map(|receiver| pallet_nfi::types::FeeDetails { asset_id: asset, amount: amount + 1, receiver }) }.into()),
			41 => (Root, "nft-peg.set_contract_address", pallet_nft_peg::Call::<Runtime>::set_contract_address { contract: h }.into()),
			42 => (Root, "nft.claim_unowned_collection", pallet_nft::Call::<Runtime>::claim_unowned_collection { collection_id: coll, new_owner: who }.into()),
			43 => (Root, "vortex.set_admin", Vx::<Runtime>::set_admin { new: who }.into()),
			44 => (Vortex, "vortex.create_vtx_dist", Vx::<Runtime>::create_vtx_dist {}.into()),
			45 => (Vortex, "vortex.disable_vtx_dist", Vx::<Runtime>::disable_vtx_dist { id }.into()),
			46 => (Vortex, "vortex.start_vtx_dist", Vx::<Runtime>::start_vtx_dist { id }.into()),
			47 => (Vortex, "vortex.set_vtx_dist_eras", Vx::<Runtime>::set_vtx_dist_eras { id, start_era: 1, end_era: 1 + n as u32 }.into()),
			48 => (Vortex, "vortex.set_asset_prices", Vx::<Runtime>::set_asset_prices { asset_prices: frame_support::BoundedVec::truncate_from(vec![(asset, 1 + amount)]), id }.into()),
			49 => (Vortex, "vortex.register_rewards", Vx::<Runtime>::register_rewards { id, rewards: frame_support::BoundedVec::truncate_from(vec![(who, 1 + amount)]) }.into()),
			50 => (Vortex, "vortex.trigger_vtx_distribution", Vx::<Runtime>::trigger_vtx_distribution { id }.into()),
			51 => (Root, "xls20.set_relayer", Xls::<Runtime>::set_relayer { relayer: who }.into()),
			52 => (Root, "xls20.set_xls20_fee", Xls::<Runtime>::set_xls20_fee { new_fee: amount }.into()),
			53 => (Xls20Relayer, "xls20.fulfill_xls20_mint", Xls::<Runtime>::fulfill_xls20_mint { collection_id: self.coll[1], token_mappings: frame_support::BoundedVec::truncate_from(vec![(r.below(3) as u32, [n as u8 + 1; 32])]) }.into()),
			54 => (Root, "xls20.set_collection_mappings", Xls::<Runtime>::set_collection_mappings { mappings: vec![] }.into()),
			55 => (XrplRelayer, "xrpl-bridge.submit_transaction", Xb::<Runtime>::submit_transaction { ledger_index: 100 + n, transaction_hash: H512(n, r), transaction: pallet_xrpl_bridge::types::XrplTxData::Payment { amount, address: h }, timestamp: 1 }.into()),
			56 => (Root, "xrpl-bridge.set_payment_delay", Xb::<Runtime>::set_payment_delay { asset_id: asset, payment_delay: if on { Some((amount, n as u32)) } else { None } }.into()),
			57 => (Root, "xrpl-bridge.add_relayer", Xb::<Runtime>::add_relayer { relayer: who }.into()),
			58 => (Root, "xrpl-bridge.remove_relayer", Xb::<Runtime>::remove_relayer { relayer: self.xrpl.first().map(|i| self.names[*i].clone()).unwrap_or(who) }.into()),
			59 => (Root, "xrpl-bridge.set_door_tx_fee", Xb::<Runtime>::set_door_tx_fee { door_type: door(r), fee: n }.into()),
			60 => (Root, "xrpl-bridge.set_xrp_source_tag", Xb::<Runtime>::set_xrp_source_tag { source_tag: n as u32 }.into()),
			61 => (Root, "xrpl-bridge.set_door_address", Xb::<Runtime>::set_door_address { door_account: door(r), door_address: Some([n as u8 + 1; 20].into()) }.into()),
			62 => {
				let s = self.c_ticket();
				(XrplRelayer, "xrpl-bridge.set_ticket_sequence_next_allocation", Xb::<Runtime>::set_ticket_sequence_next_allocation { door_account: pallet_xrpl_bridge::types::XRPLDoorAccount::Main, start_ticket_sequence: s + 1000 + n as u32, ticket_bucket_size: 200 }.into())
			},
			63 => {
				let s = self.c_ticket();
				(Root, "xrpl-bridge.set_ticket_sequence_current_allocation", Xb::<Runtime>::set_ticket_sequence_current_allocation { door_account: pallet_xrpl_bridge::types::XRPLDoorAccount::Main, ticket_sequence: s + n as u32 + 1, start_ticket_sequence: s + n as u32 + 1, ticket_bucket_size: 200 }.into())
			},
			64 => (Root, "xrpl-bridge.reset_settled_xrpl_tx_data", Xb::<Runtime>::reset_settled_xrpl_tx_data { highest_settled_ledger_index: 500 + n as u32, submission_window_width: 100, highest_pruned_ledger_index: None, settled_tx_data: on.then(|| vec![(H512(n, r), 7, pallet_xrpl_bridge::types::XrpTransaction { transaction_hash: H512(n, r), transaction: pallet_xrpl_bridge::types::XrplTxData::Payment { amount, address: h }, timestamp: 1 }, who)]) }.into()),
			65 => (Root, "xrpl-bridge.prune_settled_ledger_index", Xb::<Runtime>::prune_settled_ledger_index { ledger_index: 7 }.into()),
			66 => (Root, "xrpl-bridge.set_xrpl_asset_map", Xb::<Runtime>::set_xrpl_asset_map { asset_id: asset, xrpl_currency: if on { Some(pallet_xrpl_bridge::types::XRPLCurrency { symbol: pallet_xrpl_bridge::types::XRPLCurrencyType::Standard(*b"ABC"), issuer: [3; 20].into() }) } else { None } }.into()),
			67 => (XrplRelayer, "xrpl-bridge.generate_nft_accept_offer", Xb::<Runtime>::generate_nft_accept_offer { nftoken_sell_offer: [n as u8; 32] }.into()),
			68 => (Nobody, "token-approvals.erc721_approval", Ta::<Runtime>::erc721_approval { caller: self.names[0].clone(), operator_account: who, token_id: (self.coll[1], 0) }.into()),
			69 => (Nobody, "token-approvals.erc20_approval", Ta::<Runtime>::erc20_approval { caller: self.names[0].clone(), spender: who, asset_id: asset, amount }.into()),
			70 => (Nobody, "token-approvals.erc20_update_approval", Ta::<Runtime>::erc20_update_approval { caller: self.names[0].clone(), spender: who, asset_id: asset, amount: 0 }.into()),
			71 => (Nobody, "token-approvals.erc721_approval_for_all", Ta::<Runtime>::erc721_approval_for_all { caller: self.names[0].clone(), operator_account: who, collection_uuid: coll, approved: true }.into()),
			73 => (Root, "erc20-peg.claim_delayed_payment", Peg::<Runtime>::claim_delayed_payment { block_number: self.due, payment_id: r.below(6) }.into()),
			_ => (Nobody, "token-approvals.erc1155_approval_for_all", Ta::<Runtime>::erc1155_approval_for_all { caller: self.names[0].clone(), operator_account: who, collection_uuid: coll, approved: true }.into()),
		}
	}
	fn c_ticket(&self) -> u32 {
		// far beyond anything handed out
		self.c.n * 10_000
	}
	fn holders(&self, a: Auth) -> Vec<usize> {
		match a {
			Auth::Root | Auth::Nobody => vec![],
			Auth::Vortex => self.vortex.into_iter().collect(),
			Auth::NfiRelayer => self.nfi.into_iter().collect(),
			Auth::Xls20Relayer => self.xls20.into_iter().collect(),
			Auth::XrplRelayer => self.xrpl.clone(),
			Auth::EthRelayer => self.eth.into_iter().collect(),
		}
	}
	/// the origin that has the right
	fn rightful(&self, a: Auth) -> Option<RawOrigin<AccountId>> {
		match a {
			Auth::Root => Some(RawOrigin::Root),
			Auth::Nobody => None,
			Auth::Vortex => Some(self.vortex.map(|i| RawOrigin::Signed(self.names[i].clone())).unwrap_or(RawOrigin::Root)),
			a => self.holders(a).first().map(|i| RawOrigin::Signed(self.names[*i].clone())),
		}
	}
	/// whether the call would do something, were the right one asking
	fn works(&mut self, a: Auth, call: &RuntimeCall) -> bool {
		use frame_support::traits::UnfilteredDispatchable;
		match self.rightful(a) {
			None => a == Auth::Nobody,
			Some(o) => self.c.peek(|| call.clone().dispatch_bypass_filter(o.into()).is_ok()),
		}
	}
	/// for calls that set one thing: where it is kept, and whether it now is what was asked
	fn effect(&mut self, call: &RuntimeCall) -> Option<(Vec<Vec<u8>>, bool)> {
		use pallet_dex::{Call as Dex, TradingPairStatuses};
		use pallet_erc20_peg::Call as Peg;
		use pallet_ethy::Call as Eth;
		use pallet_fee_control::{Call as Fee, Data};
		use pallet_maintenance_mode::Call as Mm;
		use pallet_migration::Call as Mig;
		use pallet_nfi::Call as Nfi;
		use pallet_vortex_distribution::Call as Vx;
		use pallet_xls20::Call as Xls;
		use pallet_xrpl_bridge::Call as Xb;
		type R = Runtime;
		macro_rules! one {
			($store:path, $want:expr) => {{
				use $store as S;
				(vec![S::<R>::hashed_key().to_vec()], S::<R>::get() == $want)
			}};
			($store:path, $key:expr, $want:expr) => {{
				use $store as S;
				(vec![S::<R>::hashed_key_for($key)], S::<R>::get($key) == $want)
			}};
		}
		let fees = self.fees;
		self.c.peek(|| {
			Some(match call.clone() {
				RuntimeCall::AssetsExt(pallet_assets_ext::Call::set_asset_deposit { asset_deposit }) => one!(pallet_assets_ext::AssetDeposit, asset_deposit),
				RuntimeCall::Dex(Dex::set_fee_to { fee_to }) => one!(pallet_dex::FeeTo, fee_to),
				RuntimeCall::Dex(Dex::disable_trading_pair { token_a, token_b }) => {
					let p = pallet_dex::types::TradingPair::new(token_a, token_b);
					(vec![TradingPairStatuses::<R>::hashed_key_for(p)], TradingPairStatuses::<R>::get(p) == pallet_dex::TradingPairStatus::NotEnabled)
				},
				RuntimeCall::Dex(Dex::reenable_trading_pair { token_a, token_b }) => {
					let p = pallet_dex::types::TradingPair::new(token_a, token_b);
					(vec![TradingPairStatuses::<R>::hashed_key_for(p)], TradingPairStatuses::<R>::get(p) == pallet_dex::TradingPairStatus::Enabled)
				},
				RuntimeCall::Doughnut(pallet_doughnut::Call::update_whitelisted_holders { holder, add }) => one!(pallet_doughnut::WhitelistedHolders, holder, add),
				RuntimeCall::Erc20Peg(Peg::activate_deposits { activate }) => one!(pallet_erc20_peg::DepositsActive, activate),
				RuntimeCall::Erc20Peg(Peg::activate_withdrawals { activate }) => one!(pallet_erc20_peg::WithdrawalsActive, activate),
				RuntimeCall::Erc20Peg(Peg::activate_deposits_delay { activate }) => one!(pallet_erc20_peg::DepositsDelayActive, activate),
				RuntimeCall::Erc20Peg(Peg::activate_withdrawals_delay { activate }) => one!(pallet_erc20_peg::WithdrawalsDelayActive, activate),
				RuntimeCall::Erc20Peg(Peg::set_erc20_peg_address { eth_address }) => one!(pallet_erc20_peg::ContractAddress, eth_address),
				RuntimeCall::Erc20Peg(Peg::set_root_peg_address { eth_address }) => one!(pallet_erc20_peg::RootPegContractAddress, eth_address),
				RuntimeCall::Erc20Peg(Peg::set_erc20_meta { details }) => {
					let (a, s, d) = details[0].clone();
					one!(pallet_erc20_peg::Erc20Meta, a, Some((s.clone(), d)))
				},
				RuntimeCall::Erc20Peg(Peg::set_erc20_asset_map { asset_id, eth_address }) => {
					let (mut k, x) = one!(pallet_erc20_peg::Erc20ToAssetId, eth_address, Some(asset_id));
					let (l, y) = one!(pallet_erc20_peg::AssetIdToErc20, asset_id, Some(eth_address));
					k.extend(l);
					(k, x && y)
				},
				RuntimeCall::Erc20Peg(Peg::set_payment_delay { asset_id, min_balance, delay }) => one!(pallet_erc20_peg::PaymentDelay, asset_id, Some((min_balance, delay))),
				RuntimeCall::EthBridge(Eth::set_relayer { relayer }) => one!(pallet_ethy::Relayer, Some(relayer.clone())),
				RuntimeCall::EthBridge(Eth::set_event_block_confirmations { confirmations }) => one!(pallet_ethy::EventBlockConfirmations, confirmations),
				RuntimeCall::EthBridge(Eth::set_delayed_event_proofs_per_block { count }) => one!(pallet_ethy::DelayedEventProofsPerBlock, count),
				RuntimeCall::EthBridge(Eth::set_challenge_period { blocks }) => one!(pallet_ethy::ChallengePeriod, blocks),
				RuntimeCall::EthBridge(Eth::set_contract_address { contract_address }) => one!(pallet_ethy::ContractAddress, contract_address),
				RuntimeCall::EthBridge(Eth::set_bridge_paused { paused }) => {
					(vec![pallet_ethy::BridgePaused::<R>::hashed_key().to_vec()], pallet_ethy::BridgePaused::<R>::get().manual_pause == paused)
				},
				RuntimeCall::EVMChainId(pallet_evm_chain_id::Call::set_chain_id { chain_id }) => one!(pallet_evm_chain_id::ChainId, chain_id),
				RuntimeCall::FeeControl(Fee::set_evm_base_fee { value }) => {
					let d = Data::<R>::get();
					(vec![Data::<R>::hashed_key().to_vec()], (d.evm_base_fee_per_gas, d.weight_multiplier, d.length_multiplier) == (value, fees.1, fees.2))
				},
				RuntimeCall::FeeControl(Fee::set_weight_multiplier { value }) => {
					let d = Data::<R>::get();
					(vec![Data::<R>::hashed_key().to_vec()], (d.evm_base_fee_per_gas, d.weight_multiplier, d.length_multiplier) == (fees.0, value, fees.2))
				},
				RuntimeCall::FeeControl(Fee::set_length_multiplier { value }) => {
					let d = Data::<R>::get();
					(vec![Data::<R>::hashed_key().to_vec()], (d.evm_base_fee_per_gas, d.weight_multiplier, d.length_multiplier) == (fees.0, fees.1, value))
				},
				RuntimeCall::MaintenanceMode(Mm::enable_maintenance_mode { enabled }) => one!(pallet_maintenance_mode::MaintenanceModeActive, enabled),
				RuntimeCall::MaintenanceMode(Mm::block_account { account, blocked }) => one!(pallet_maintenance_mode::BlockedAccounts, account, blocked),
				RuntimeCall::MaintenanceMode(Mm::block_evm_target { target_address, blocked }) => one!(pallet_maintenance_mode::BlockedEVMAddresses, target_address, blocked),
				RuntimeCall::MaintenanceMode(Mm::block_pallet { pallet_name, blocked }) => one!(pallet_maintenance_mode::BlockedPallets, pallet_name.clone(), blocked),
				RuntimeCall::MaintenanceMode(Mm::block_call { pallet_name, call_name, blocked }) => {
					use pallet_maintenance_mode::BlockedCalls as S;
					(vec![S::<R>::hashed_key_for((pallet_name.clone(), call_name.clone()))], S::<R>::get((pallet_name.clone(), call_name.clone())) == blocked)
				},
				RuntimeCall::Marketplace(pallet_marketplace::Call::set_fee_to { fee_to }) => one!(pallet_marketplace::FeeTo, fee_to),
				RuntimeCall::Migration(Mig::enable_migration { enabled }) => one!(pallet_migration::MigrationEnabled, enabled),
				RuntimeCall::Migration(Mig::set_block_delay { block_delay }) => one!(pallet_migration::BlockDelay, block_delay),
				RuntimeCall::Migration(Mig::set_block_limit { block_limit }) => one!(pallet_migration::BlockLimit, block_limit),
				RuntimeCall::Nfi(Nfi::set_relayer { relayer }) => one!(pallet_nfi::Relayer, Some(relayer.clone())),
				RuntimeCall::Nfi(Nfi::set_fee_to { fee_to }) => one!(pallet_nfi::FeeTo, fee_to),
				RuntimeCall::Nfi(Nfi::set_fee_details { sub_type, fee_details }) => one!(pallet_nfi::MintFee, sub_type, fee_details.clone()),
				RuntimeCall::NftPeg(pallet_nft_peg::Call::set_contract_address { contract }) => one!(pallet_nft_peg::ContractAddress, contract),
				RuntimeCall::Nft(pallet_nft::Call::claim_unowned_collection { collection_id, new_owner }) => {
					use pallet_nft::CollectionInfo as S;
					(vec![S::<R>::hashed_key_for(collection_id)], S::<R>::get(collection_id).map(|c| c.owner) == Some(new_owner))
				},
				RuntimeCall::VortexDistribution(Vx::set_admin { new }) => {
					let mut k = substrate::io::hashing::twox_128(b"VortexDistribution").to_vec();
					k.extend(substrate::io::hashing::twox_128(b"AdminAccount"));
					let got = sp_io::storage::get(&k);
					(vec![k], got.map(|g| g.to_vec()) == Some(codec::Encode::encode(&new)))
				},
				RuntimeCall::Xls20(Xls::set_relayer { relayer }) => one!(pallet_xls20::Relayer, Some(relayer.clone())),
				RuntimeCall::Xls20(Xls::set_xls20_fee { new_fee }) => one!(pallet_xls20::Xls20MintFee, new_fee),
				RuntimeCall::XRPLBridge(Xb::set_payment_delay { asset_id, payment_delay }) => one!(pallet_xrpl_bridge::PaymentDelay, asset_id, payment_delay),
				RuntimeCall::XRPLBridge(Xb::add_relayer { relayer }) => one!(pallet_xrpl_bridge::Relayer, &relayer, Some(true)),
				RuntimeCall::XRPLBridge(Xb::remove_relayer { relayer }) => one!(pallet_xrpl_bridge::Relayer, &relayer, None),
				RuntimeCall::XRPLBridge(Xb::set_door_tx_fee { door_type, fee }) => one!(pallet_xrpl_bridge::DoorTxFee, door_type, fee),
				RuntimeCall::XRPLBridge(Xb::set_xrp_source_tag { source_tag }) => one!(pallet_xrpl_bridge::SourceTag, source_tag),
				RuntimeCall::XRPLBridge(Xb::set_door_address { door_account, door_address }) => one!(pallet_xrpl_bridge::DoorAddress, door_account, door_address),
				_ => return None,
			})
		})
	}
	fn offices(&mut self, call: &RuntimeCall) {
		let pos = |a: &AccountId| self.names.iter().position(|x| x == a);
		match call {
			RuntimeCall::VortexDistribution(pallet_vortex_distribution::Call::set_admin { new }) => self.vortex = pos(new),
			RuntimeCall::Nfi(pallet_nfi::Call::set_relayer { relayer }) => self.nfi = pos(relayer),
			RuntimeCall::Xls20(pallet_xls20::Call::set_relayer { relayer }) => self.xls20 = pos(relayer),
			RuntimeCall::EthBridge(pallet_ethy::Call::set_relayer { relayer }) => self.eth = pos(relayer),
			RuntimeCall::XRPLBridge(pallet_xrpl_bridge::Call::add_relayer { relayer }) => {
				let p = pos(relayer);
				self.xrpl.extend(p)
			},
			RuntimeCall::XRPLBridge(pallet_xrpl_bridge::Call::remove_relayer { relayer }) => {
				let p = pos(relayer);
				self.xrpl.retain(|i| Some(*i) != p)
			},
			_ => {},
		}
	}
}
#[allow(non_snake_case)]
fn H512(n: u64, r: &mut Rng) -> seed_primitives::xrpl::XrplTxHash {
	let mut b = [n as u8; 64];
	b[0] = r.below(200) as u8;
	b.into()
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "govern";
	const PROPS: &'static [&'static str] = &["G02", "R01"];
	const REAL: &'static [&'static str] = &["the calls of all pallets that set parameters or belong to an office", "pallet-futurepass, pallet-fee-proxy (as wrappers)", "runtime call filter and configuration"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, utility, proxy, sudo, assets)"];
	fn rule() -> &'static str {
		"an evaluation counts when an unauthorised attempt was made on a call that would have succeeded for the one entitled to it"
	}
	fn panic_prop(&self) -> String {
		"G02|R01".into()
	}
	fn quick_runs() -> u64 {
		2500
	}
	fn thorough_runs() -> u64 {
		80_000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 1 << 50, xrp_each: 1 << 50 });
		c.reexec = prop == "R01" || r.chance(1, 8);
		for a in [A, B] {
			c.asset(a, 6);
			c.give(a, acc(1), 1 << 60);
		}
		let mut names: Vec<AccountId> = (1..=USERS).map(acc).collect();
		let pass;
		{
			use sp_runtime::traits::AccountIdConversion;
			names.push(<Runtime as pallet_ethy::Config>::BridgePalletId::get().into_account_truncating());
			names.push(<Runtime as pallet_erc20_peg::Config>::PegPalletId::get().into_account_truncating());
			names.push(AccountId::from([0; 20]));
			pass = c.exec(|| {
				rt::Futurepass::create(RawOrigin::Signed(acc(1)).into(), acc(2)).unwrap();
				pallet_futurepass::Holders::<Runtime>::get(acc(2)).unwrap()
			});
			names.push(pass.clone());
		}
		let coll = c.exec(|| {
			let mut v = vec![];
			for (o, x) in [(rt::Nft::account_id(), false), (acc(1), true)] {
				let id = rt::Nft::do_create_collection(o, bounded("c"), 0, None, None, seed_primitives::MetadataScheme::try_from(&b"https://a.b/"[..]).unwrap(), None, seed_primitives::OriginChain::Root, seed_primitives::CrossChainCompatibility { xrpl: x }).unwrap();
				v.push(id);
			}
			rt::Nft::mint(RawOrigin::Signed(acc(1)).into(), v[1], 3, None).unwrap();
			rt::Dex::add_liquidity(RawOrigin::Signed(acc(1)).into(), A, B, 1 << 40, 1 << 40, 1, 1, None, None).unwrap();
			for k in [3, 4] {
				rt::EthBridge::deposit_relayer_bond(RawOrigin::Signed(acc(k)).into()).unwrap();
			}
			for k in [pallet_xrpl_bridge::types::XRPLDoorAccount::Main, pallet_xrpl_bridge::types::XRPLDoorAccount::NFT] {
				pallet_xrpl_bridge::DoorAddress::<Runtime>::insert(k, seed_primitives::xrpl::XrplAccountId::from([9; 20]));
				rt::XRPLBridge::set_ticket_sequence_current_allocation(RawOrigin::Root.into(), k, 1, 1, 100_000).unwrap();
			}
			rt::Erc20Peg::set_erc20_asset_map(RawOrigin::Root.into(), A, H160::repeat_byte(1)).unwrap();
			rt::Erc20Peg::set_erc20_peg_address(RawOrigin::Root.into(), H160::repeat_byte(2)).unwrap();
			rt::Erc20Peg::activate_withdrawals(RawOrigin::Root.into(), true).unwrap();
			rt::Erc20Peg::set_payment_delay(RawOrigin::Root.into(), A, 1, 100_000).unwrap();
			for _ in 0..6 {
				rt::Erc20Peg::withdraw(RawOrigin::Signed(acc(1)).into(), A, 1000, H160::repeat_byte(3)).unwrap();
			}
			stand_ins::set_validators(&vec![acc(500)]);
			v
		});
		let due = c.peek(|| pallet_erc20_peg::ReadyBlocks::<Runtime>::get().first().copied().unwrap_or_else(|| frame_system::Pallet::<Runtime>::block_number() + 100_000));
		let mut w = World { c, names, vortex: None, nfi: None, xls20: None, xrpl: vec![], eth: None, coll, pass, due, fees: Default::default() };
		w.c.begin(1_700_000_000_000);
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 120) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		match r.weighted(&[60, 25, 5, 1]) {
			0 => Op::Try { k: r.below(KINDS as u64) as u8, a: r.next(), by: r.idx(self.names.len()) as u8, via: r.below(11) as u8 },
			1 => {
				// the offices change hands more often than the rest
				let k = if r.chance(1, 3) { *r.pick(&[15u8, 38, 43, 44, 51, 57, 58]) } else { r.below(KINDS as u64) as u8 };
				Op::Govern { k, a: r.next() }
			},
			2 => Op::Block { fork: r.chance(1, 6) },
			_ => Op::Crash,
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		match op.clone() {
			Op::Try { k, a, by, via } => {
				let (auth, name, call) = self.call(k, a);
				let by = by as usize % self.names.len();
				if self.holders(auth).contains(&by) {
					return Ok(());
				}
				let who = self.names[by].clone();
				let works = self.works(auth, &call);
				let before = state_no_meta(&self.c.ext);
				let signed = RawOrigin::Signed(who.clone());
				let mut direct = true;
				let inner = Box::new(call.clone());
				let r: Out = match via % 11 {
					0 | 1 => self.c.step(Step::Call(signed, call.clone())),
					2 => self.c.step(Step::Bypass(signed, call.clone())),
					3 => self.c.step(Step::Unsigned(call.clone())),
					4 => {
						// a whole transaction: its fee and nonce are not in question
						let r = self.c.signed(who, call.clone(), 0);
						check!("G02", "unauthorised", r.is_err(), "account {by} ran {name} ({call:?}) in a transaction of its own; entitled: {auth:?}, holding it: {:?}", self.holders(auth));
						st.op("transaction", r.is_ok());
						if works {
							st.hit("G02");
							st.count(name);
						}
						return Ok(());
					},
					5 => {
						direct = false;
						self.c.call(who, pallet_utility::Call::<Runtime>::batch { calls: vec![call.clone()] }).map_err(Some)
					},
					6 => {
						direct = false;
						self.c.call(who, pallet_utility::Call::<Runtime>::batch_all { calls: vec![call.clone()] }).map_err(Some)
					},
					7 => {
						direct = false;
												if self.holders(auth).contains(&self.names.iter().position(|x| *x == self.pass).unwrap()) {
							return Ok(());
						}
						self.c.call(acc(2), pallet_futurepass::Call::<Runtime>::proxy_extrinsic { futurepass: self.pass.clone(), call: inner }).map_err(Some)
					},
					8 => {
						direct = false;
						self.c.call(who, pallet_fee_proxy::Call::<Runtime>::call_with_fee_preferences { payment_asset: A, max_payment: 1_000_000, call: inner }).map_err(Some)
					},
					9 => {
						direct = false;
						self.c.call(who, pallet_sudo::Call::<Runtime>::sudo { call: inner }).map_err(Some)
					},
					_ => {
						direct = false;
						self.c.call(who, pallet_sudo::Call::<Runtime>::sudo_as { who: acc(3).into(), call: inner }).map_err(Some)
					},
				};
				st.op(["direct", "direct", "unfiltered", "unsigned", "", "batch", "batch_all", "futurepass", "fee-proxy", "sudo", "sudo_as"][via as usize % 11], r.is_ok());
				check!("G02", "unauthorised", !direct || r.is_err(), "account {by} ran {name} ({call:?}, way {via}); entitled: {auth:?}, holding it: {:?}", self.holders(auth));
				let after = state_no_meta(&self.c.ext);
				check!("G02", "unauthorised", before == after, "account {by} changed the state through {name} ({call:?}, way {via}): {:?}; entitled: {auth:?}, holding it: {:?}", diff(&before, &after), self.holders(auth));
				if works {
					st.hit("G02");
					st.count(name);
				}
			},
			Op::Govern { k, a } => {
				let (auth, name, call) = self.call(k, a);
				let Some(o) = self.rightful(auth) else { return Ok(()) };
				self.fees = self.c.peek(|| {
					let d = pallet_fee_control::Data::<Runtime>::get();
					(d.evm_base_fee_per_gas, d.weight_multiplier, d.length_multiplier)
				});
				let before = state_no_meta(&self.c.ext);
				let o = if auth == Auth::Vortex && a % 3 == 0 { RawOrigin::Root } else { o };
				let r = self.c.atomic("G02", "refusal-left-traces", Step::Bypass(o, call.clone()))?;
				st.op(name, r.is_ok());
				if r.is_ok() {
					if let Some((keys, done)) = self.effect(&call) {
						check!("G02", "not-as-asked", done, "{call:?} was accepted, but what it set reads differently now");
						let (mut x, mut y) = (before, state_no_meta(&self.c.ext));
						for k in &keys {
							x.remove(k);
							y.remove(k);
						}
						check!("G02", "sets-more", x == y, "{call:?} changed something else as well: {:?}", diff(&x, &y));
						st.hit("G02");
					}
					self.offices(&call);
				}
			},
			Op::Block { fork } => {
				self.c.end(None)?;
				st.time(4000);
				if fork {
					st.fault("abandoned fork");
					self.c.abandoned_fork(|c| {
						let _ = c.root(pallet_ethy::Call::<Runtime>::set_bridge_paused { paused: true });
						let _ = c.root(pallet_vortex_distribution::Call::<Runtime>::set_admin { new: acc(7) });
					});
				}
				self.c.begin(4000);
			},
			Op::Crash => {
				if self.c.reexec {
					st.fault("crash inside a block");
				}
				self.c.crash_and_redo()?;
			},
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, _st: &mut Stats) -> Res {
		Ok(())
	}
}
fn main() {
	simkit::main::<World>()
}
