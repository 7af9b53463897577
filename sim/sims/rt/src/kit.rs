//! Helpers shared by the simulations of the real runtime.
use crate::chain::*;
use crate::*;
use codec::{Decode, Encode};
use seed_primitives::ethy::{ConsensusLog, EthyChainId, ValidatorSet};
use seed_primitives::{AccountId, AssetId, Balance};
use sp_runtime::generic::DigestItem;

/// ethy consensus logs of a block
#[derive(Clone, Debug, PartialEq)]
pub enum Log {
	Authorities(ValidatorSet<AccountId>),
	Sign { eth: bool, id: u64, data: Vec<u8> },
	Other,
}
pub fn logs(d: &[DigestItem]) -> Vec<Log> {
	d.iter()
		.filter_map(|l| match l {
			DigestItem::Consensus(e, b) if *e == seed_primitives::ethy::ETHY_ENGINE_ID => Some(b),
			_ => None,
		})
		.map(|b| match ConsensusLog::<AccountId>::decode(&mut &b[..]) {
			Ok(ConsensusLog::OpaqueSigningRequest { chain_id, event_proof_id, data }) => Log::Sign { eth: chain_id == EthyChainId::Ethereum, id: event_proof_id, data },
			_ => Log::Other,
		})
		.collect()
}
impl Chain {
	/// consensus logs so far in the open block
	pub fn logs(&mut self) -> Vec<Log> {
		let d = self.exec(|| System::digest().logs);
		logs(&d)
	}
	/// jump ahead so that the next block begun is number `n`
	pub fn skip_to(&mut self, n: u32) {
		assert!(!self.open);
		if n > self.n + 1 {
			let k = n - 1 - self.n;
			self.n += k;
			self.now += 4000 * k as u64;
		}
	}
	/// create an asset with the given decimals, owned by account 1000
	pub fn asset(&mut self, id: AssetId, decimals: u8) {
		self.exec(|| {
			pallet_assets::Pallet::<Runtime>::force_create(RuntimeOrigin::root(), id, acc(1000), true, 1).unwrap();
			pallet_assets::Pallet::<Runtime>::force_set_metadata(RuntimeOrigin::root(), id, b"t".to_vec(), b"T".to_vec(), decimals, false).unwrap();
		})
	}
	pub fn give(&mut self, id: AssetId, who: AccountId, amount: Balance) {
		use frame_support::traits::fungibles::Mutate;
		self.exec(|| AssetsExt::mint_into(id, &who, amount).unwrap());
	}
	/// balance including what is held
	pub fn total(&mut self, a: AssetId, w: AccountId) -> Balance {
		self.exec(|| pallet_assets::Pallet::<Runtime>::balance(a, w))
	}
}
/// big-endian field of an XRPL transaction
pub fn be(b: &[u8]) -> u64 {
	b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
/// a 32-byte ABI word
pub fn word(v: u128) -> [u8; 32] {
	let mut w = [0; 32];
	w[16..].copy_from_slice(&v.to_be_bytes());
	w
}
pub fn aword(a: sp_core::H160) -> [u8; 32] {
	let mut w = [0; 32];
	w[12..].copy_from_slice(a.as_bytes());
	w
}
pub fn abi_bytes(b: &[u8]) -> Vec<u8> {
	let mut v = word(b.len() as u128).to_vec();
	v.extend(b);
	v.resize((v.len() + 31) / 32 * 32, 0);
	v
}
/// a message as the Ethereum contract emits it: id, source, destination, data, fee
pub fn eth_event(id: u64, src: sp_core::H160, dst: sp_core::H160, data: &[u8]) -> Vec<u8> {
	let mut v = vec![];
	v.extend(word(id as u128));
	v.extend(aword(src));
	v.extend(aword(dst));
	v.extend(word(160));
	v.extend(word(7));
	v.extend(abi_bytes(data));
	v
}
/// what the validators must sign for an outgoing message
pub fn eth_digest(src: sp_core::H160, dst: sp_core::H160, msg: &[u8], set: u64, id: u64) -> Vec<u8> {
	let mut v = vec![];
	v.extend(aword(src));
	v.extend(aword(dst));
	v.extend(word(160));
	v.extend(word(set as u128));
	v.extend(word(id as u128));
	v.extend(abi_bytes(msg));
	sp_io::hashing::keccak_256(&v).to_vec()
}
/// address of a pallet account
pub fn pallet_h160(id: &[u8; 8]) -> sp_core::H160 {
	use sp_runtime::traits::AccountIdConversion;
	let a: AccountId = frame_support::PalletId(*id).into_account_truncating();
	h160(a)
}
impl Chain {
	/// bridge with a bonded relayer (account 2000), messages valid `period` blocks after submission
	pub fn bridge(&mut self, period: u32) {
		let b = pallet_xrp(self, 2000);
		self.exec(|| {
			pallet_ethy::ChallengePeriod::<Runtime>::put(period);
			pallet_ethy::ContractAddress::<Runtime>::put(sp_core::H160::repeat_byte(0xe7));
			EthBridge::deposit_relayer_bond(RuntimeOrigin::signed(b)).unwrap();
			EthBridge::set_relayer(RuntimeOrigin::root(), b).unwrap();
		});
	}
	/// the relayer reports a message
	pub fn message(&mut self, id: u64, src: sp_core::H160, dst: sp_core::H160, data: &[u8]) -> Out {
		let call = pallet_ethy::Call::<Runtime>::submit_event { tx_hash: sp_core::H256::repeat_byte(id as u8), event: eth_event(id, src, dst, data) };
		self.step(Step::Call(frame_system::RawOrigin::Signed(acc(2000)), call.into()))
	}
}
fn pallet_xrp(c: &mut Chain, n: u64) -> AccountId {
	c.give(XRP, acc(n), 1_000_000_000);
	acc(n)
}
