//! The upgrade the shipped runtime performs (U01): what it has to convert is converted once, and nothing else is touched.
mod migrations {
	include!(concat!(env!("OUT_DIR"), "/migrations.rs"));
}
use codec::{Decode, Encode};
pub use frame_support::weights::Weight;
use frame_support::{
	storage::storage_prefix,
	traits::{Get, OnRuntimeUpgrade, StorageVersion},
	BoundedVec, StorageHasher, Twox64Concat,
};
use frame_system::RawOrigin;
use pallet_nfi::types::{GenericCollectionId, GenericSerialNumber, MultiChainTokenId, NFIDataType, NFIMatrix, NFISubType};
use pallet_nfi::{NfiData, NfiEnabled};
use rt::chain::*;
pub use rt::{Nfi, Runtime};
use seed_primitives::{CrossChainCompatibility, MetadataScheme};
use serde::{Deserialize, Serialize};
use simkit::*;
use std::collections::BTreeMap;
simkit::interpose!();

const RELAYER: u64 = 2000;
const SUB: NFISubType = NFISubType::NFI;
type Limit = <Runtime as pallet_nfi::Config>::MaxByteLength;
type Data = NFIDataType<<Runtime as pallet_nfi::Config>::MaxDataLength>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block,
	/// records of the former version
	Token { col: u32, serial: u32, link: u8, hash: u8 },
	Enabled { col: u32, on: bool },
	Many { col: u32, n: u16 },
	Upgrade,
	/// new records
	Enable { by: u64, col: u8 },
	Submit { col: u32, serial: u32, link: u8 },
	Send { from: u64, to: u64, drops: u128 },
	Crash,
	Fork { upgrade: bool },
}
struct World {
	c: Chain,
	chain_id: u64,
	cols: Vec<u32>,
	old: bool,
	data: BTreeMap<(u32, u32), Vec<u8>>,
	enabled: BTreeMap<u32, bool>,
}
fn old_key(item: &[u8], id: &[u8]) -> Vec<u8> {
	let mut k = storage_prefix(b"Nfi", item).to_vec();
	k.extend(Twox64Concat::hash(id));
	k.extend(Twox64Concat::hash(&SUB.encode()));
	k
}
fn token(chain_id: u64, col: u32, serial: u32) -> MultiChainTokenId<Limit> {
	MultiChainTokenId { chain_id, collection_id: GenericCollectionId::U32(col), serial_number: GenericSerialNumber::U32(serial) }
}
/// as the records are kept now: the hash of (chain, 0, collection[, 0, serial]) and that itself
fn new_key(item: &[u8], chain_id: u64, col: u32, serial: Option<u32>) -> Vec<u8> {
	let mut id = (chain_id, 0u8, col).encode();
	if let Some(s) = serial {
		id.extend((0u8, s).encode());
	}
	old_key(item, &id)
}
fn datum(link: u8, hash: u8) -> Data {
	NFIDataType::NFI(NFIMatrix { metadata_link: BoundedVec::truncate_from(vec![link; 1 + link as usize % 40]), verification_hash: sp_core::H256([hash; 32]) })
}
impl World {
	/// what the records are stored as
	fn records(&self, old: bool) -> Map {
		let mut m = Map::new();
		for ((c, s), v) in &self.data {
			m.insert(if old { old_key(b"NfiData", &(*c, *s).encode()) } else { new_key(b"NfiData", self.chain_id, *c, Some(*s)) }, v.clone());
		}
		for (c, on) in &self.enabled {
			m.insert(if old { old_key(b"NfiEnabled", &c.encode()) } else { new_key(b"NfiEnabled", self.chain_id, *c, None) }, on.encode());
		}
		m
	}
	fn verify(&mut self) -> Res {
		let want = self.records(self.old);
		let (pd, pe) = (storage_prefix(b"Nfi", b"NfiData"), storage_prefix(b"Nfi", b"NfiEnabled"));
		let got: Map = state_no_meta(&self.c.ext).into_iter().filter(|(k, _)| k.starts_with(&pd) || k.starts_with(&pe)).collect();
		for (k, v) in &want {
			check_eq!("U01", "record", got.get(k), Some(v), "the record at {}, upgraded: {}", hex(k), !self.old);
		}
		for (k, v) in &got {
			check!("U01", "stray", want.contains_key(k), "nobody made the record {} = {}; upgraded: {}", hex(k), hex(v), !self.old);
		}
		if !self.old {
			let (id, data, enabled) = (self.chain_id, self.data.clone(), self.enabled.clone());
			let r = self.c.peek(move || {
				for ((c, s), v) in &data {
					let got = NfiData::<Runtime>::get(token(id, *c, *s), SUB).map(|x| x.encode());
					if got.as_ref() != Some(v) {
						return Some(format!("data of token ({c}, {s}): {got:?}"));
					}
				}
				for (c, on) in &enabled {
					let got = NfiEnabled::<Runtime>::get((id, GenericCollectionId::U32(*c)), SUB);
					if got != *on {
						return Some(format!("collection {c} enabled: {got}"));
					}
				}
				None
			});
			check!("U01", "unreadable", r.is_none(), "{}", r.unwrap());
		}
		Ok(())
	}
	fn upgrade(&mut self, st: &mut Stats) -> Res {
		let before = state_no_meta(&self.c.ext);
		let out = std::rc::Rc::new(std::cell::Cell::new(Weight::zero()));
		let o = out.clone();
		let (n, version) = ((self.data.len() + self.enabled.len()) as u64, StorageVersion::storage_key::<Nfi>().to_vec());
		self.c
			.run(move || {
				o.set(<migrations::AllMigrations as OnRuntimeUpgrade>::on_runtime_upgrade());
				Ok(())
			})
			.unwrap();
		let mut want = before;
		if self.old {
			for k in self.records(true).keys() {
				want.remove(k);
			}
			want.extend(self.records(false));
			want.insert(version, 1u16.encode());
			let db = <Runtime as frame_system::Config>::DbWeight::get().reads_writes(n, n);
			check!("U01", "weight", out.get().ref_time() >= db.ref_time(), "{n} records were converted, the weight is {:?}", out.get());
			st.hit("U01");
			st.count("upgrades");
			st.mix(n.min(20));
		} else {
			st.count("upgrades again");
		}
		self.old = false;
		let got = state_no_meta(&self.c.ext);
		self.verify()?;
		for (k, v) in &want {
			check_eq!("U01", "touched", got.get(k), Some(v), "after the upgrade, storage at {}", hex(k));
		}
		for k in got.keys() {
			check!("U01", "touched", want.contains_key(k), "the upgrade made {}", hex(k));
		}
		Ok(())
	}
}
fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "upgrade";
	const PROPS: &'static [&'static str] = &["U01", "R01"];
	const REAL: &'static [&'static str] = &["the runtime's migrations (runtime/src/migrations)", "pallet-nfi, pallet-evm-chain-id, pallet-nft"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive)", "the former runtime (its records are written as it encoded them)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: 6, root_each: 1_000_000_000, xrp_each: 1_000_000_000 });
		c.reexec = prop == "R01" || r.chance(1, 3);
		let x = r.next();
		let chain_id = *r.pick(&[7668, 7672, 3999, 0, 1, 255, 65_536, 1 << 32, u32::MAX as u64, u64::MAX, x]);
		let old = r.chance(5, 6);
		let cols = c.exec(move || {
			pallet_evm_chain_id::ChainId::<Runtime>::put(chain_id);
			pallet_nfi::Relayer::<Runtime>::put(acc(RELAYER));
			for who in 1..3 {
				rt::Nft::create_collection(RawOrigin::Signed(acc(who)).into(), BoundedVec::truncate_from(b"own".to_vec()), 4, None, None, MetadataScheme::try_from(b"https://e/".as_slice()).unwrap(), None, CrossChainCompatibility { xrpl: false }).unwrap();
			}
			StorageVersion::new(!old as u16).put::<Nfi>();
			let mut v: Vec<u32> = pallet_nft::CollectionInfo::<Runtime>::iter().map(|x| x.0).collect();
			v.sort();
			v
		});
		c.begin(4000);
		World { c, chain_id, cols, old, data: Default::default(), enabled: Default::default() }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(5, 60) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let x = r.next() as u32;
		let (low, high) = (self.chain_id as u32, (self.chain_id >> 32) as u32);
		let own = *r.pick(&self.cols);
		let col = *r.pick(&[own, own, low, high, 0, 255, 1 << 16, 1 << 24, u32::MAX, x]);
		let y = r.below(5) as u32;
		let serial = *r.pick(&[0, y, y, y, high, 65_535, 65_536, 1 << 24, u32::MAX, x]);
		let o = self.old as u32;
		if self.old && r.chance(1, 200) {
			return Op::Many { col, n: r.range(100, 1200) as u16 };
		}
		match r.weighted(&[8, 30 * o, 16 * o, 2 + 2 * (1 - o), 6 * (1 - o), 8 * (1 - o), 3, 2, 3]) {
			0 => Op::Block,
			1 => Op::Token { col, serial, link: r.next() as u8, hash: r.next() as u8 },
			2 => Op::Enabled { col, on: r.chance(3, 4) },
			3 => Op::Upgrade,
			4 => Op::Enable { by: r.range(1, 3), col: r.below(2) as u8 },
			5 => Op::Submit { col, serial, link: r.next() as u8 },
			6 => Op::Send { from: r.range(1, 5), to: r.range(1, 5), drops: r.range(1, 1000) as u128 },
			7 => Op::Crash,
			_ => Op::Fork { upgrade: r.chance(2, 3) },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		match op.clone() {
			Op::Block => {
				self.c.end(None)?;
				st.time(4000);
				self.c.begin(4000);
			},
			Op::Token { col, serial, link, hash } => {
				if !self.old {
					return Ok(());
				}
				let v = datum(link, hash);
				self.data.insert((col, serial), v.encode());
				self.c
					.run(move || {
						frame_support::storage::unhashed::put(&old_key(b"NfiData", &(col, serial).encode()), &v);
						Ok(())
					})
					.unwrap();
			},
			Op::Enabled { col, on } => {
				if !self.old {
					return Ok(());
				}
				self.enabled.insert(col, on);
				self.c
					.run(move || {
						frame_support::storage::unhashed::put(&old_key(b"NfiEnabled", &col.encode()), &on);
						Ok(())
					})
					.unwrap();
			},
			Op::Many { col, n } => {
				if !self.old {
					return Ok(());
				}
				let v = datum(n as u8, 3);
				for s in 0..n as u32 {
					self.data.insert((col, s), v.encode());
					self.enabled.insert(s << 10 | 100, s % 3 > 0);
				}
				self.c
					.run(move || {
						for s in 0..n as u32 {
							frame_support::storage::unhashed::put(&old_key(b"NfiData", &(col, s).encode()), &v);
							frame_support::storage::unhashed::put(&old_key(b"NfiEnabled", &(s << 10 | 100).encode()), &(s % 3 > 0));
						}
						Ok(())
					})
					.unwrap();
				st.count("hundreds of records");
			},
			Op::Upgrade => {
				// at the start of a block
				self.c.end(None)?;
				self.c.begin(4000);
				self.upgrade(st)?;
			},
			Op::Enable { by, col } => {
				if self.old {
					return Ok(());
				}
				let col = self.cols[col as usize];
				if self.c.call(acc(by), pallet_nfi::Call::enable_nfi_for_trn_collection { collection_id: col, sub_type: SUB }).is_ok() {
					self.enabled.insert(col, true);
				}
			},
			Op::Submit { col, serial, link } => {
				if self.old {
					return Ok(());
				}
				let d = datum(link, 1);
				let id = token(self.chain_id, col, serial);
				let on = self.enabled.get(&col).copied().unwrap_or(false);
				let v = d.encode();
				let out = self.c.call(acc(RELAYER), pallet_nfi::Call::submit_nfi_data { token_id: id, data_item: d });
				check!("U01", "flag-lost", out.is_ok() || !on || !self.cols.contains(&col) || serial >= 4, "data for token ({col}, {serial}) of an enabled collection: {out:?}");
				if out.is_ok() {
					self.data.insert((col, serial), v);
				}
			},
			Op::Send { from, to, drops } => {
				let _ = self.c.call(acc(from), pallet_assets_ext::Call::transfer { asset_id: XRP, destination: acc(to), amount: drops, keep_alive: false });
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Fork { upgrade } => {
				self.c.end(None)?;
				self.c.abandoned_fork(|c| {
					if upgrade {
						let _ = c.run(|| {
							<migrations::AllMigrations as OnRuntimeUpgrade>::on_runtime_upgrade();
							Ok(())
						});
					}
				});
				st.fault("abandoned fork");
				self.c.begin(4000);
			},
		}
		self.verify()?;
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		self.c.end(None)?;
		self.c.begin(4000);
		self.upgrade(st)?;
		self.upgrade(st)?;
		self.c.end(None)?;
		Ok(())
	}
	fn panic_prop(&self) -> String {
		"U01|R01".into()
	}
	fn quick_runs() -> u64 {
		4000
	}
	fn thorough_runs() -> u64 {
		120_000
	}
	fn rule() -> &'static str {
		"an evaluation counts when an upgrade from the former version was carried out"
	}
}
fn main() {
	simkit::main::<World>()
}
