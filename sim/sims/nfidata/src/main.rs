//! External NFT data (I01): NFI data and XLS-20 token ids, their requests, fees and answers.
use frame_support::BoundedVec;
use frame_system::RawOrigin;
use codec::{Decode, Encode};
use rt::chain::*;
use rt::{Runtime, RuntimeEvent};
use seed_primitives::{AssetId, CrossChainCompatibility, OriginChain, MetadataScheme, SerialNumber};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::H160;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
simkit::interpose!();

const USERS: u64 = 4;
/// relayers and receivers besides the users
const SIDE: [u64; 5] = [2000, 2001, 2002, 2003, 2004];
const PAY: [AssetId; 2] = [XRP, 100];
const NFTS: u8 = 4;
/// the collection bridged from Ethereum
const ETH: u8 = 3;
const COLS: u8 = 6;
/// the pallet's types as they are encoded
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
enum GC {
	U32(u32),
	U64(u64),
	U128(u128),
	H160([u8; 20]),
	H256([u8; 32]),
	Bytes(Vec<u8>),
	Empty,
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
enum GS {
	U32(u32),
	U64(u64),
	U128(u128),
	Bytes(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
struct Tok {
	chain_id: u64,
	collection_id: GC,
	serial_number: GS,
}
fn same<T: Decode, U: Encode>(u: U) -> T {
	T::decode(&mut &u.encode()[..]).unwrap()
}
const NFI: u8 = 0;

/// which token a request or an answer names
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Name {
	Trn(u8, u32),
	/// on TRN, but not written as a TRN token id
	Odd(u8, u32, u8),
	/// of another chain, same numbers
	Other(u8, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block,
	Crash,
	Mint { by: u64, col: u8, n: u32, to: u64 },
	SftToken { by: u64, col: u8 },
	SftBurn { by: u64, col: u8, serial: u32 },
	Public { by: u64, col: u8, on: bool, price: Option<(u8, u128)> },
	Burn { by: u64, col: u8, serial: u32 },
	Move { by: u64, col: u8, serial: u32, to: u64 },
	Owner { by: u64, col: u8, to: u64 },
	Enable { by: u64, col: u8 },
	EnableX { by: u64, col: u8 },
	NfiFee { fee: Option<(u8, u128, u64)>, root: bool },
	FeeTo { to: Option<u64>, root: bool },
	NfiRelayer { who: u64, root: bool },
	XFee { fee: u128, root: bool },
	XRelayer { who: u64, root: bool },
	Manual { by: u64, tok: Name },
	Submit { by: u64, tok: Name, data: u8 },
	ReReq { by: u64, col: u8, serials: Vec<u32> },
	Fulfil { by: u64, col: u8, serials: Vec<(u32, u8)> },
	Bridge { to: u64, serial: u32 },
	Leave { by: u64, serials: Vec<u32> },
	Take { who: u64, asset: u8, leave: u128 },
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
	Asked(bool, u64, Tok),
	Set(Tok, u8),
	Removed(Tok),
	Paid(u64, AssetId, u128),
	XAsked(u32, Vec<u32>, Vec<Vec<u8>>),
	XPaid(u64, u128),
	XSet(u32, Vec<(u32, u8)>),
}
#[derive(Clone, Default, Debug)]
struct Col {
	id: u32,
	owner: u64,
	xrpl: bool,
	nfi: bool,
	next: u32,
	toks: BTreeMap<u32, u64>,
	public: bool,
	price: Option<(AssetId, u128)>,
}
struct World {
	c: Chain,
	cols: Vec<Col>,
	bal: BTreeMap<(AssetId, u64), u128>,
	data: BTreeMap<String, u8>,
	xid: BTreeMap<(u32, u32), u8>,
	nfi_fee: Option<(AssetId, u128, u64)>,
	fee_to: Option<u64>,
	nfi_rel: Option<u64>,
	x_fee: u128,
	x_rel: Option<u64>,
	mark: usize,
	chain: u64,
	paid_requests: u64,
	loose: Cell<bool>,
}
fn item(d: u8) -> (u8, Vec<u8>, [u8; 32]) {
	(NFI, vec![d; 1 + d as usize % 90], [d; 32])
}
/// which item it is; 0 with a wrong body for anything else
fn data<E: Encode>(e: E) -> u8 {
	let (k, v, h): (u8, Vec<u8>, [u8; 32]) = same(e);
	if (k, v.clone(), h) == item(h[0]) { h[0] } else { panic!("NFI data altered: {v:?}") }
}
fn scheme(col: usize) -> Vec<u8> {
	format!("https://c{col}/").into_bytes()
}
impl World {
	fn who(&self, a: &seed_primitives::AccountId) -> u64 {
		(0..=USERS).chain(SIDE).find(|n| acc(*n) == *a).unwrap_or(999)
	}
	fn trn(&self, id: u32, serial: u32) -> Tok {
		Tok { chain_id: self.chain, collection_id: GC::U32(id), serial_number: GS::U32(serial) }
	}
	fn name(&self, n: Name) -> Tok {
		match n {
			Name::Trn(c, s) => self.trn(self.cols[c as usize].id, s),
			Name::Odd(c, s, k) => {
				let mut t = self.trn(self.cols[c as usize].id, s);
				match k {
					0 => t.serial_number = GS::U64(s as u64),
					1 => t.serial_number = GS::Bytes(vec![s as u8]),
					2 => t.collection_id = GC::U64(self.cols[c as usize].id as u64),
					_ => t.collection_id = GC::Empty,
				}
				t
			},
			Name::Other(c, s) => Tok { chain_id: 1, collection_id: GC::U32(self.cols[c as usize].id), serial_number: GS::U32(s) },
		}
	}
	/// pay in the model; false leaves the caller to throw the scratch copy away
	fn pay(&self, b: &mut BTreeMap<(AssetId, u64), u128>, a: AssetId, from: u64, to: u64, amount: u128) -> bool {
		let f = b.entry((a, from)).or_default();
		if *f < amount {
			return false;
		}
		*f -= amount;
		if amount == 0 && b.get(&(a, to)).copied().unwrap_or(0) == 0 {
			// whether nothing can be sent to an account without the asset is the asset pallet's business
			self.loose.set(true);
		}
		*b.entry((a, to)).or_default() += amount;
		true
	}
	fn nfi_pay(&self, b: &mut BTreeMap<(AssetId, u64), u128>, who: u64, n: u32, ev: &mut Vec<Ev>) -> bool {
		let Some((a, each, to)) = self.nfi_fee else { return true };
		let total = (n as u128).saturating_mul(each);
		let mut rest = total;
		if let Some(pot) = self.fee_to {
			// half a percent, to the nearest unit, ties down
			let cut = total / 200 + if total % 200 > 100 { 1 } else { 0 };
			rest -= cut;
			if !self.pay(b, a, who, pot, cut) {
				return false;
			}
		}
		ev.push(Ev::Paid(who, a, total));
		self.pay(b, a, who, to, rest)
	}
	fn x_pay(&self, b: &mut BTreeMap<(AssetId, u64), u128>, who: u64, n: u32, ev: &mut Vec<Ev>) -> bool {
		let Some(r) = self.x_rel.filter(|_| self.x_fee > 0) else { return true };
		let total = (n as u128).saturating_mul(self.x_fee);
		ev.push(Ev::XPaid(who, total));
		self.pay(b, XRP, who, r, total)
	}
	fn ask(&self, who: u64, t: Tok, ev: &mut Vec<Ev>) {
		ev.push(Ev::Asked(!self.data.contains_key(&format!("{t:?}")), who, t));
	}
	fn x_ask(&self, col: usize, serials: &[u32], ev: &mut Vec<Ev>) {
		let uris = serials.iter().map(|s| [scheme(col), s.to_string().into_bytes()].concat()).collect();
		ev.push(Ev::XAsked(self.cols[col].id, serials.to_vec(), uris));
	}
	fn events(&mut self) -> Vec<Ev> {
		let all = self.c.events_since(self.mark);
		self.mark = self.c.event_count();
		all.into_iter()
			.filter_map(|e| match e {
				RuntimeEvent::Nfi(e) => {
					use pallet_nfi::Event::*;
					match e {
						DataRequestNew { caller, token_id, .. } => Some(Ev::Asked(true, self.who(&caller), same(token_id))),
						DataRequestExisting { caller, token_id, .. } => Some(Ev::Asked(false, self.who(&caller), same(token_id))),
						DataSet { token_id, data_item, .. } => Some(Ev::Set(same(token_id), data(data_item))),
						DataRemoved { token_id } => Some(Ev::Removed(same(token_id))),
						MintFeePaid { who, asset_id, total_fee, .. } => Some(Ev::Paid(self.who(&who), asset_id, total_fee)),
						_ => None,
					}
				},
				RuntimeEvent::Xls20(e) => {
					use pallet_xls20::Event::*;
					match e {
						Xls20MintRequest { collection_id, serial_numbers, token_uris } => Some(Ev::XAsked(collection_id, serial_numbers, token_uris)),
						Xls20MintFeePaid { collection_owner, total_fee } => Some(Ev::XPaid(self.who(&collection_owner), total_fee)),
						Xls20MappingSet { collection_id, mappings } => Some(Ev::XSet(collection_id, mappings.into_iter().map(|m| (m.0, m.1[0])).collect())),
						_ => None,
					}
				},
				_ => None,
			})
			.collect()
	}
	fn verify(&mut self) -> Res {
		let got: BTreeMap<String, u8> = self.c.exec(|| {
			pallet_nfi::NfiData::<Runtime>::iter()
				.map(|(t, _, d)| (format!("{:?}", same::<Tok, _>(t)), data(d)))
				.collect()
		});
		check!("I01", "data", got == self.data, "NFI data stored {got:?}, expected {:?}", self.data);
		let got: BTreeMap<(u32, u32), u8> = self.c.exec(|| pallet_xls20::Xls20TokenMap::<Runtime>::iter().map(|(c, s, i)| ((c, s), i[0])).collect());
		check!("I01", "xrpl-ids", got == self.xid, "XRPL token ids stored {got:?}, expected {:?}", self.xid);
		for ((a, u), b) in self.bal.clone() {
			let g = self.c.bal(a, &acc(u));
			check!("I01", "balance", g == b, "account {u} has {g} of asset {a}, expected {b}");
		}
		Ok(())
	}
	/// run a call; `ok` is what the reference expects of it, with the balances and events it leads to
	fn run<C: Into<rt::RuntimeCall>>(&mut self, st: &mut Stats, what: &'static str, by: Option<u64>, call: C, ok: bool, bal: BTreeMap<(AssetId, u64), u128>, ev: Vec<Ev>) -> Result<bool, Violation> {
		let call: rt::RuntimeCall = call.into();
		let step = match by {
			Some(u) => Step::Call(RawOrigin::Signed(acc(u)), call),
			None => Step::Call(RawOrigin::Root, call),
		};
		let out = self.c.atomic("I01", "refusal-left-traces", step)?;
		st.op(what, out.is_ok());
		let ok = if self.loose.take() { ok && out.is_ok() } else { ok };
		check!("I01", "outcome", out.is_ok() == ok, "{what} by {by:?}: {out:?}, expected it to be {}", if ok { "accepted" } else { "refused" });
		if ok {
			self.bal = bal;
		}
		let got = self.events();
		let want = if ok { ev } else { vec![] };
		check!("I01", "events", got == want, "{what} by {by:?}: reported {got:?}, expected {want:?}");
		if ok && !want.is_empty() {
			st.hit("I01");
		}
		Ok(ok)
	}
	fn admin<C: Into<rt::RuntimeCall>>(&mut self, st: &mut Stats, what: &'static str, root: bool, call: C, ok: bool) -> Result<bool, Violation> {
		let b = self.bal.clone();
		self.run(st, what, if root { None } else { Some(1) }, call, root && ok, b, vec![])
	}
	fn some_tok(&self, r: &mut Rng, col: u8) -> u32 {
		let k: Vec<u32> = self.cols[col as usize].toks.keys().copied().collect();
		if k.is_empty() || r.chance(1, 12) {
			r.below(8) as u32
		} else {
			*r.pick(&k)
		}
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "nfidata";
	const PROPS: &'static [&'static str] = &["I01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-nfi", "pallet-xls20", "pallet-nft", "pallet-sft", "pallet-nft-peg", "pallet-assets-ext"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets)", "relayers and the chains they serve"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 1_000_000_000, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 4);
		c.asset(100, 18);
		let mut bal = BTreeMap::new();
		for a in PAY {
			for u in (1..=USERS).chain(SIDE) {
				let x = if u <= USERS { *r.pick(&[0u128, 50, 100_000, 10_000_000_000_000, u128::MAX >> 8]) } else { 0 };
				if x > 0 {
					c.give(a, acc(u), x);
				}
				bal.insert((a, u), x);
			}
		}
		let mut cols = vec![];
		for k in 0..COLS {
			let owner = r.range(1, USERS);
			let xrpl = k < ETH && r.chance(1, 2);
			let s = MetadataScheme::try_from(scheme(k as usize).as_slice()).unwrap();
			let name = BoundedVec::truncate_from(b"n".to_vec());
			let o = RawOrigin::Signed(acc(owner));
			let id = c.exec(|| {
				if k == ETH {
					let id = rt::Nft::do_create_collection(acc(owner), name, 0, None, None, s, None, OriginChain::Ethereum, Default::default()).unwrap();
					pallet_nft_peg::EthToRootNft::<Runtime>::insert(H160::repeat_byte(5), id);
					pallet_nft_peg::RootNftToErc721::<Runtime>::insert(id, H160::repeat_byte(5));
					id
				} else if k < NFTS {
					let id = rt::Nft::next_collection_uuid().unwrap();
					rt::Nft::create_collection(o.into(), name, 0, None, None, s, None, CrossChainCompatibility { xrpl }).unwrap();
					id
				} else {
					let id = rt::Nft::next_collection_uuid().unwrap();
					rt::Sft::create_collection(o.into(), BoundedVec::truncate_from(b"s".to_vec()), None, s, None).unwrap();
					id
				}
			});
			cols.push(Col { id, owner, xrpl, ..Default::default() });
		}
		let chain = c.exec(|| pallet_evm_chain_id::ChainId::<Runtime>::get());
		c.begin(4000);
		let mark = c.event_count();
		World { c, cols, bal, data: Default::default(), xid: Default::default(), nfi_fee: None, fee_to: None, nfi_rel: None, x_fee: 0, x_rel: None, mark, chain, paid_requests: 0, loose: Default::default() }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 140) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let any = |r: &mut Rng| r.range(1, USERS);
		let col = r.below(NFTS as u64) as u8;
		let all = r.below(COLS as u64) as u8;
		let owner = |w: &Self, r: &mut Rng, c: u8| if r.chance(6, 7) { w.cols[c as usize].owner } else { r.range(1, USERS) };
		let side = |r: &mut Rng| if r.chance(1, 4) { r.range(1, USERS) } else { *r.pick(&SIDE) };
		let root = r.chance(14, 15);
		let fees = [1, 200, 300, 1u128 << 32, (1 << 32) + 7, 1 << 40, 4_294_967_295_000_000];
		match r.weighted(&[6, 3, 24, 7, 3, 5, 9, 5, 3, 6, 2, 5, 4, 5, 5, 5, 12, 16, 8, 16, 6, 4, 3]) {
			0 => Op::Block,
			1 => Op::Crash,
			2 => {
				let n = if r.chance(1, 20) { r.range(999, 1001) as u32 } else { r.below(5) as u32 };
				Op::Mint { by: owner(self, r, col), col, n, to: any(r) }
			},
			3 => Op::SftToken { by: owner(self, r, NFTS), col: NFTS + r.below(2) as u8 },
			4 => Op::SftBurn { by: any(r), col: NFTS, serial: self.some_tok(r, NFTS) },
			5 => Op::Public { by: owner(self, r, col), col, on: r.chance(3, 4), price: if r.chance(1, 3) { None } else { Some((r.below(2) as u8, r.amount(&fees))) } },
			6 => {
				let serial = self.some_tok(r, col);
				let by = self.cols[col as usize].toks.get(&serial).copied().filter(|_| r.chance(8, 9)).unwrap_or(any(r));
				Op::Burn { by, col, serial }
			},
			7 => {
				let serial = self.some_tok(r, col);
				let by = self.cols[col as usize].toks.get(&serial).copied().filter(|_| r.chance(8, 9)).unwrap_or(any(r));
				Op::Move { by, col, serial, to: any(r) }
			},
			8 => Op::Owner { by: owner(self, r, all), col: all, to: any(r) },
			9 => Op::Enable { by: owner(self, r, all), col: all },
			10 => Op::EnableX { by: owner(self, r, col), col },
			11 => Op::NfiFee { fee: if r.chance(1, 5) { None } else { Some((r.below(2) as u8, r.amount(&fees), side(r))) }, root },
			12 => Op::FeeTo { to: if r.chance(1, 4) { None } else { Some(side(r)) }, root },
			13 => Op::NfiRelayer { who: side(r), root },
			14 => Op::XFee { fee: if r.chance(1, 6) { 0 } else { r.amount(&fees) }, root },
			15 => Op::XRelayer { who: side(r), root },
			16 | 17 => {
				let serial = self.some_tok(r, all);
				let tok = match r.below(12) {
					0 => Name::Odd(all, serial, r.below(4) as u8),
					1 => Name::Other(all, serial),
					_ => Name::Trn(all, serial),
				};
				if r.chance(12, 28) {
					let c = &self.cols[all as usize];
					let by = if r.chance(1, 2) { c.owner } else { c.toks.get(&serial).copied().unwrap_or(any(r)) };
					Op::Manual { by: if r.chance(1, 8) { any(r) } else { by }, tok }
				} else {
					let by = self.nfi_rel.filter(|_| r.chance(10, 11)).unwrap_or(side(r));
					Op::Submit { by, tok, data: r.below(256) as u8 }
				}
			},
			18 => {
				let n = if r.chance(1, 10) { 0 } else { r.range(1, 4) };
				let mut serials = vec![];
				for _ in 0..n {
					let s = self.some_tok(r, col);
					if !self.xid.contains_key(&(self.cols[col as usize].id, s)) || r.chance(1, 8) {
						serials.push(s);
					}
				}
				Op::ReReq { by: owner(self, r, col), col, serials }
			},
			19 => {
				let n = if r.chance(1, 12) { 0 } else { r.range(1, 4) };
				let mut serials = vec![];
				for _ in 0..n {
					let s = self.some_tok(r, col);
					if (!self.xid.contains_key(&(self.cols[col as usize].id, s)) && !serials.iter().any(|x: &(u32, u8)| x.0 == s)) || r.chance(1, 8) {
						serials.push((s, r.below(256) as u8));
					}
				}
				Op::Fulfil { by: self.x_rel.filter(|_| r.chance(10, 11)).unwrap_or(side(r)), col, serials }
			},
			20 => Op::Bridge { to: any(r), serial: r.below(8) as u32 },
			21 => {
				let by = any(r);
				let serials = self.cols[ETH as usize].toks.iter().filter(|t| (*t.1 == by || r.chance(1, 20)) && r.chance(1, 2)).map(|t| *t.0).take(3).collect();
				Op::Leave { by, serials }
			},
			_ => Op::Take { who: any(r), asset: r.below(2) as u8, leave: r.amount(&fees) },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let n = self.c.n;
		st.note(|| format!("block {n}: {op:?}"));
		let mut b = self.bal.clone();
		let mut ev = vec![];
		match op.clone() {
			Op::Block => {
				self.c.end(None)?;
				st.time(4000);
				self.c.begin(4000);
				self.mark = 0;
				let e = self.events();
				check!("I01", "events", e.is_empty(), "a block start reported {e:?}");
				st.op("block", true);
			},
			Op::Crash => {
				st.fault("crash inside a block");
				self.c.crash_and_redo()?;
			},
			Op::Mint { by, col, n, to } => {
				let k = &self.cols[col as usize];
				let mut ok = col != ETH && n > 0 && n <= 1000 && (k.owner == by || k.public) && k.next + n <= 1_000_000;
				let serials: Vec<u32> = (k.next..k.next + n).collect();
				if let Some((a, p)) = k.price.filter(|_| ok && k.public && k.owner != by) {
					ok &= self.pay(&mut b, a, by, k.owner, p.saturating_mul(n as u128));
				}
				if ok && k.xrpl {
					ok &= self.x_pay(&mut b, by, n, &mut ev);
					self.x_ask(col as usize, &serials, &mut ev);
				}
				if ok && k.nfi {
					ok &= self.nfi_pay(&mut b, by, n, &mut ev);
					for s in &serials {
						self.ask(by, self.trn(k.id, *s), &mut ev);
					}
				}
				let call = pallet_nft::Call::mint { collection_id: k.id, quantity: n, token_owner: Some(acc(to)) };
				if self.run(st, "mint", Some(by), call, ok, b, ev)? {
					let k = &mut self.cols[col as usize];
					k.next += n;
					k.toks.extend(serials.into_iter().map(|s| (s, to)));
				}
			},
			Op::SftToken { by, col } => {
				let k = &self.cols[col as usize];
				let mut ok = k.owner == by;
				if ok && k.nfi {
					ok &= self.nfi_pay(&mut b, by, 1, &mut ev);
					self.ask(by, self.trn(k.id, k.next), &mut ev);
				}
				let call = pallet_sft::Call::create_token { collection_id: k.id, token_name: BoundedVec::truncate_from(b"t".to_vec()), initial_issuance: 5, max_issuance: None, token_owner: None };
				if self.run(st, "create SFT token", Some(by), call, ok, b, ev)? {
					let k = &mut self.cols[col as usize];
					k.toks.insert(k.next, by);
					k.next += 1;
				}
			},
			Op::SftBurn { by, col, serial } => {
				let id = self.cols[col as usize].id;
				let out = self.c.call(acc(by), pallet_sft::Call::burn { collection_id: id, serial_numbers: BoundedVec::truncate_from(vec![(serial, 1)]) });
				st.op("burn SFT", out.is_ok());
				let e = self.events();
				check!("I01", "events", e.is_empty(), "burning part of an SFT reported {e:?}");
			},
			Op::Public { by, col, on, price } => {
				let k = &self.cols[col as usize];
				let (id, ok) = (k.id, k.owner == by);
				let p = price.map(|(a, x)| (PAY[a as usize], x));
				let o1 = self.c.call(acc(by), pallet_nft::Call::toggle_public_mint { collection_id: id, enabled: on });
				let o2 = self.c.call(acc(by), pallet_nft::Call::set_mint_fee { collection_id: id, pricing_details: p });
				st.op("public mint", o1.is_ok());
				if o1.is_ok() {
					self.cols[col as usize].public = on;
				}
				if o2.is_ok() {
					self.cols[col as usize].price = p;
				}
				check!("I01", "outcome", ok || (o1.is_err() && o2.is_err()), "account {by} changed the public mint of a collection it does not own");
				self.mark = self.c.event_count();
			},
			Op::Burn { by, col, serial } => {
				let k = &self.cols[col as usize];
				let ok = k.toks.get(&serial) == Some(&by);
				let t = self.trn(k.id, serial);
				ev.push(Ev::Removed(t.clone()));
				if self.run(st, "burn", Some(by), pallet_nft::Call::burn { token_id: (k.id, serial) }, ok, b, ev)? {
					self.cols[col as usize].toks.remove(&serial);
					self.data.remove(&format!("{t:?}"));
				}
			},
			Op::Move { by, col, serial, to } => {
				let k = &self.cols[col as usize];
				let ok = k.toks.get(&serial) == Some(&by) && by != to;
				let call = pallet_nft::Call::transfer { collection_id: k.id, serial_numbers: BoundedVec::truncate_from(vec![serial]), new_owner: acc(to) };
				if self.run(st, "transfer", Some(by), call, ok, b, ev)? {
					self.cols[col as usize].toks.insert(serial, to);
				}
			},
			Op::Owner { by, col, to } => {
				let k = &self.cols[col as usize];
				let ok = k.owner == by;
				let call: rt::RuntimeCall = if col < NFTS { pallet_nft::Call::set_owner { collection_id: k.id, new_owner: acc(to) }.into() } else { pallet_sft::Call::set_owner { collection_id: k.id, new_owner: acc(to) }.into() };
				if self.run(st, "collection owner", Some(by), call, ok, b, ev)? {
					self.cols[col as usize].owner = to;
				}
			},
			Op::Enable { by, col } => {
				let k = &self.cols[col as usize];
				let ok = k.owner == by;
				let call = pallet_nfi::Call::enable_nfi_for_trn_collection { collection_id: k.id, sub_type: same(NFI) };
				if self.run(st, "enable NFI", Some(by), call, ok, b, ev)? {
					self.cols[col as usize].nfi = true;
				}
			},
			Op::EnableX { by, col } => {
				let k = &self.cols[col as usize];
				let ok = k.owner == by && k.toks.is_empty();
				if self.run(st, "enable XLS-20", Some(by), pallet_xls20::Call::enable_xls20_compatibility { collection_id: k.id }, ok, b, ev)? {
					self.cols[col as usize].xrpl = true;
				}
			},
			Op::NfiFee { fee, root } => {
				let f = fee.map(|(a, x, to)| (PAY[a as usize], x, to));
				let call = pallet_nfi::Call::set_fee_details { sub_type: same(NFI), fee_details: same(f.map(|(a, x, to)| (a, x, acc(to)))) };
				if self.admin(st, "set NFI fee", root, call, f.map_or(true, |f| f.1 > 0))? {
					self.nfi_fee = f;
				}
			},
			Op::FeeTo { to, root } => {
				if self.admin(st, "set fee pot", root, pallet_nfi::Call::set_fee_to { fee_to: to.map(acc) }, true)? {
					self.fee_to = to;
				}
			},
			Op::NfiRelayer { who, root } => {
				if self.admin(st, "set NFI relayer", root, pallet_nfi::Call::set_relayer { relayer: acc(who) }, true)? {
					self.nfi_rel = Some(who);
				}
			},
			Op::XFee { fee, root } => {
				if self.admin(st, "set XLS-20 fee", root, pallet_xls20::Call::set_xls20_fee { new_fee: fee }, true)? {
					self.x_fee = fee;
				}
			},
			Op::XRelayer { who, root } => {
				if self.admin(st, "set XLS-20 relayer", root, pallet_xls20::Call::set_relayer { relayer: acc(who) }, true)? {
					self.x_rel = Some(who);
				}
			},
			Op::Manual { by, tok } => {
				let t = self.name(tok);
				let mut ok = match tok {
					Name::Trn(c, s) => {
						let k = &self.cols[c as usize];
						let mine = if c < NFTS { k.toks.get(&s).map_or(false, |o| *o == by || k.owner == by) } else { k.owner == by };
						k.nfi && mine
					},
					Name::Odd(..) => false,
					Name::Other(..) => true,
				};
				ok = ok && self.nfi_pay(&mut b, by, 1, &mut ev);
				self.ask(by, t.clone(), &mut ev);
				if self.run(st, "manual request", Some(by), pallet_nfi::Call::manual_data_request { token_id: same(t), sub_type: same(NFI) }, ok, b, ev)? {
					self.paid_requests += 1;
				}
			},
			Op::Submit { by, tok, data } => {
				let t = self.name(tok);
				let ok = self.nfi_rel == Some(by)
					&& match tok {
						Name::Trn(c, s) => self.cols[c as usize].nfi && self.cols[c as usize].toks.contains_key(&s),
						Name::Odd(..) => false,
						Name::Other(..) => true,
					};
				ev.push(Ev::Set(t.clone(), data));
				if self.run(st, "submit data", Some(by), pallet_nfi::Call::submit_nfi_data { token_id: same(t.clone()), data_item: same(item(data)) }, ok, b, ev)? {
					self.data.insert(format!("{t:?}"), data);
				}
			},
			Op::ReReq { by, col, serials } => {
				let k = &self.cols[col as usize];
				let mut ok = !serials.is_empty() && k.owner == by && k.xrpl && serials.iter().all(|s| k.toks.contains_key(s) && !self.xid.contains_key(&(k.id, *s)));
				ok = ok && self.x_pay(&mut b, by, serials.len() as u32, &mut ev);
				self.x_ask(col as usize, &serials, &mut ev);
				let call = pallet_xls20::Call::re_request_xls20_mint { collection_id: k.id, serial_numbers: BoundedVec::truncate_from(serials.clone()) };
				self.run(st, "request XLS-20 again", Some(by), call, ok, b, ev)?;
			},
			Op::Fulfil { by, col, serials } => {
				let k = &self.cols[col as usize];
				let id = k.id;
				let distinct: BTreeSet<u32> = serials.iter().map(|s| s.0).collect();
				let ok = !serials.is_empty() && self.x_rel == Some(by) && distinct.len() == serials.len() && serials.iter().all(|s| k.toks.contains_key(&s.0) && !self.xid.contains_key(&(id, s.0)));
				ev.push(Ev::XSet(id, serials.clone()));
				let m: Vec<(SerialNumber, [u8; 32])> = serials.iter().map(|s| (s.0, [s.1; 32])).collect();
				let call = pallet_xls20::Call::fulfill_xls20_mint { collection_id: id, token_mappings: BoundedVec::truncate_from(m) };
				if self.run(st, "fulfil XLS-20", Some(by), call, ok, b, ev)? {
					for (s, x) in serials {
						self.xid.insert((id, s), x);
					}
				}
			},
			Op::Bridge { to, serial } => {
				let id = self.cols[ETH as usize].id;
				let out = self.c.run(move || rt::Nft::mint_bridged_token(&acc(to), id, vec![serial]).map(|_| ()).map_err(|e| e.1));
				check!("I01", "outcome", out.is_ok(), "a bridged token could not be minted: {out:?}");
				self.cols[ETH as usize].toks.entry(serial).or_insert(to);
				let e = self.events();
				check!("I01", "events", e.is_empty(), "a bridged token asked for {e:?}");
			},
			Op::Leave { by, serials } => {
				let k = &self.cols[ETH as usize];
				let id = k.id;
				if serials.is_empty() {
					return Ok(());
				}
				let ok = serials.iter().all(|s| k.toks.get(s) == Some(&by));
				for s in &serials {
					ev.push(Ev::Removed(self.trn(id, *s)));
				}
				let call = pallet_nft_peg::Call::withdraw { collection_ids: BoundedVec::truncate_from(vec![id]), serial_numbers: BoundedVec::truncate_from(vec![BoundedVec::truncate_from(serials.clone())]), destination: H160::repeat_byte(1) };
				if self.run(st, "withdraw to Ethereum", Some(by), call, ok, b, ev)? {
					for s in serials {
						self.cols[ETH as usize].toks.remove(&s);
						self.data.remove(&format!("{:?}", self.trn(id, s)));
					}
				}
			},
			Op::Take { who, asset, leave } => {
				// an account runs low
				let a = PAY[asset as usize];
				let x = self.bal[&(a, who)];
				if x > leave {
					self.c
						.run(move || {
							use frame_support::traits::{fungibles::Mutate, tokens::Preservation};
							<rt::AssetsExt as Mutate<_>>::transfer(a, &acc(who), &acc(2004), x - leave, Preservation::Expendable).map(|_| ())
						})
						.map_err(|e| viol("I01", "transfer", format!("{e:?}")))?;
					self.bal.insert((a, who), leave);
					*self.bal.get_mut(&(a, 2004)).unwrap() += x - leave;
				}
				self.mark = self.c.event_count();
			},
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		self.verify()
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		self.apply(&Op::Block, st)
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn rule() -> &'static str {
		"an evaluation counts when a request was charged and announced, or an answer recorded or removed"
	}
}
fn main() {
	simkit::main::<World>()
}
