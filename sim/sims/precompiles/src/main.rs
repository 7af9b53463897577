//! Precompiles (H01, A02): every function of the token, exchange, marketplace, peg and collection precompiles, called by
//! accounts and contracts in every way the EVM has, must do exactly what the pallet's own call does - or nothing - and
//! approvals let exactly the approved move exactly what they were approved for.
use codec::Encode;
use frame_support::BoundedVec;
use frame_system::RawOrigin;
use rt::chain::*;
use rt::evm::{self, abi, low, n as num, nums, Act, Code, Done, Kind, Tok};
use rt::{Runtime, RuntimeCall, RuntimeEvent, System};
use seed_primitives::{AccountId, MetadataScheme, OriginChain};
use serde::{Deserialize, Serialize};
use simkit::chain::{restore, snapshot, Snapshot};
use simkit::*;
use sp_core::{H160, H256, U256};
use std::collections::{BTreeMap, BTreeSet};
mod f;
use f::{native, Fc, Gen, On, Want, V};
simkit::interpose!();

pub const USERS: u64 = 5;
pub const RECEIVERS: u64 = 8;
pub const REENTERS: u64 = 5;
pub const FIRST: u32 = 100;
pub const ASSETS: &[u32] = &[ROOT, XRP, 50, 51];
const WEI: u128 = 1_000_000_000_000;
const FUEL: u64 = 1 << 40;

pub fn u(n: u64) -> H160 {
	h160(acc(n))
}
pub fn contract(k: u64) -> H160 {
	let mut a = [0x77; 20];
	a[12..].copy_from_slice(&k.to_be_bytes());
	H160(a)
}
pub fn receiver(k: u64) -> H160 {
	let mut a = [0x55; 20];
	a[12..].copy_from_slice(&k.to_be_bytes());
	H160(a)
}
/// what is known about the chain's state: approvals from the calls made, the rest read back
#[derive(Clone, Default)]
pub struct Cx {
	pub appr20: BTreeMap<(H160, u32, H160), u128>,
	pub appr721: BTreeMap<(u32, u32), H160>,
	pub once: BTreeMap<(u32, u32), H160>,
	pub all721: BTreeSet<(H160, u32, H160)>,
	pub all1155: BTreeSet<(H160, u32, H160)>,
	pub owners: BTreeMap<(u32, u32), H160>,
	pub nfts: Vec<u32>,
	pub sfts: Vec<u32>,
	pub bridged: u32,
	pub coll_owner: BTreeMap<u32, H160>,
	pub listings: u128,
	pub offers: u64,
	pub offered: BTreeMap<u64, (u32, u32)>,
	pub sellers: BTreeMap<u128, H160>,
	pub some_bal: u128,
	/// reserves and shares
	pub pools: BTreeMap<(u32, u32), (u128, u128, u128)>,
	/// by listing: price or least bid, who it is for, fixed
	pub prices: BTreeMap<u128, (u128, Option<H160>, bool)>,
	/// by offer
	pub buyers: BTreeMap<u64, H160>,
}
pub struct World {
	pub c: Chain,
	pub x: Cx,
	prop: String,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via {
	Direct,
	/// through a contract
	By(u64, Kind),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
	Block(u8),
	Crash,
	Fork,
	/// cut: how much of the arguments is missing
	Call { from: u64, via: Via, c: Fc, value: u128, gas: Option<u64>, cut: u8 },
	/// no function of that precompile
	Junk { from: u64, on: On, data: Vec<u8> },
	/// the pallet's call
	Native { from: u64, c: Fc },
	Unapprove { from: u64, token: (u32, u32) },
	/// tokens come (back) from Ethereum
	Arrive { to: u64, serials: Vec<u32> },
	/// somebody tries the calls only the precompiles may make
	NewAsset { by: u64 },
	Forge { k: u8, from: Option<u64>, caller: u64, spender: u64, id: u32, serial: u32 },
}
type Logs = Vec<f::L>;
fn events(from: usize) -> Vec<RuntimeEvent> {
	System::events().into_iter().skip(from).map(|e| e.event).filter(|e| !matches!(e, RuntimeEvent::EVM(_))).collect()
}
fn approvals() -> (BTreeMap<(H160, u32, H160), u128>, BTreeMap<(u32, u32), H160>, BTreeSet<(H160, u32, H160)>, BTreeSet<(H160, u32, H160)>) {
	use pallet_token_approvals::*;
	(
		ERC20Approvals::<Runtime>::iter().map(|((o, a), s, x)| ((o.into(), a, s.into()), x)).collect(),
		ERC721Approvals::<Runtime>::iter().map(|(t, s)| (t, s.into())).collect(),
		ERC721ApprovalsForAll::<Runtime>::iter().filter(|x| x.2).map(|(o, (c, s), _)| (o.into(), c, s.into())).collect(),
		ERC1155ApprovalsForAll::<Runtime>::iter().filter(|x| x.2).map(|(o, (c, s), _)| (o.into(), c, s.into())).collect(),
	)
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
	format!("{x:?}").chars().take(600).collect()
}
struct Side {
	ok: bool,
	map: BTreeMap<Vec<u8>, Vec<u8>>,
	ev: Vec<RuntimeEvent>,
	want: Option<Want>,
	x: Cx,
}
impl World {
	/// what the chain says about tokens and listings
	fn sync(&mut self) {
		let mut x = std::mem::take(&mut self.x);
		let x2 = self.c.peek(move || {
			let old = std::mem::take(&mut x.owners);
			x.nfts.clear();
			x.sfts.clear();
			x.coll_owner.clear();
			for (c, i) in pallet_nft::CollectionInfo::<Runtime>::iter() {
				x.nfts.push(c);
				x.coll_owner.insert(c, i.owner.into());
				for o in i.owned_tokens.iter() {
					for s in o.owned_serials.iter() {
						x.owners.insert((c, *s), o.owner.into());
					}
				}
			}
			for (c, i) in pallet_sft::SftCollectionInfo::<Runtime>::iter() {
				x.sfts.push(c);
				x.coll_owner.insert(c, i.collection_owner.into());
			}
			x.nfts.sort();
			x.sfts.sort();
			x.listings = pallet_marketplace::NextListingId::<Runtime>::get();
			x.offers = pallet_marketplace::NextOfferId::<Runtime>::get();
			x.offered = pallet_marketplace::Offers::<Runtime>::iter()
				.map(|(i, o)| {
					let pallet_marketplace::types::OfferType::Simple(o) = o;
					(i, o.token_id)
				})
				.collect();
			x.sellers = pallet_marketplace::Listings::<Runtime>::iter()
				.map(|(i, l)| {
					(
						i,
						match l {
							pallet_marketplace::types::Listing::FixedPrice(l) => l.seller.into(),
							pallet_marketplace::types::Listing::Auction(l) => l.seller.into(),
						},
					)
				})
				.collect();
			x.buyers = pallet_marketplace::Offers::<Runtime>::iter()
				.map(|(i, o)| {
					let pallet_marketplace::types::OfferType::Simple(o) = o;
					(i, o.buyer.into())
				})
				.collect();
			x.prices = pallet_marketplace::Listings::<Runtime>::iter()
				.map(|(i, l)| {
					(
						i,
						match l {
							pallet_marketplace::types::Listing::FixedPrice(l) => (l.fixed_price, l.buyer.map(|b| b.into()), true),
							pallet_marketplace::types::Listing::Auction(l) => (pallet_marketplace::ListingWinningBid::<Runtime>::get(i).map_or(l.reserve_price, |b| b.1), None, false),
						},
					)
				})
				.collect();
			x.some_bal = free(50, &acc(1));
			x.pools = pallet_dex::LiquidityPool::<Runtime>::iter()
				.map(|(p, r)| {
					use frame_support::traits::fungibles::Inspect;
					let lp = pallet_dex::TradingPairLPToken::<Runtime>::get(p).map_or(0, rt::AssetsExt::total_issuance);
					((p.0, p.1), (r.0, r.1, lp))
				})
				.collect();
			// a token that changed hands is no longer approved for anybody
			let Cx { appr721, owners, .. } = &mut x;
			appr721.retain(|k, _| owners.get(k).is_some() && owners.get(k) == old.get(k));
			x
		});
		self.x = x2;
	}
	/// transfers to oneself too
	fn moved(&mut self, mark: usize) {
		let v = self.c.events_since(mark);
		for e in v {
			if let RuntimeEvent::Nft(pallet_nft::Event::Transfer { collection_id, serial_numbers, .. }) = e {
				for s in serial_numbers {
					self.x.appr721.remove(&(collection_id, s));
				}
			}
		}
	}
	fn side(&mut self, s: &Snapshot, src: H160, to: H160, value: u128, f: impl FnOnce(&mut Cx) -> Option<Want>) -> Side {
		restore(&mut self.c.ext, s);
		let mut x = self.x.clone();
		let (want, ev) = self.c.exec(|| {
			let mark = System::events().len();
			System::inc_account_nonce(&AccountId::from(src));
			let w = frame_support::storage::with_storage_layer::<Want, sp_runtime::DispatchError>(|| {
				if value > 0 {
					use frame_support::traits::{Currency, ExistenceRequirement};
					<<Runtime as pallet_evm::Config>::Currency as Currency<_>>::transfer(&src.into(), &to.into(), value.into(), ExistenceRequirement::AllowDeath)?;
				}
				f(&mut x).ok_or("refused".into())
			});
			(w.ok(), events(mark))
		});
		let map = state_no_meta(&self.c.ext);
		restore(&mut self.c.ext, s);
		let ok = want.is_some();
		if !ok {
			x = self.x.clone();
		}
		Side { ok, map, ev, want, x }
	}
	/// does the EVM's outcome agree?
	fn differ(&self, d: &Done, map: &BTreeMap<Vec<u8>, Vec<u8>>, ev: &[RuntimeEvent], s: &Side, on: On, direct: bool) -> Option<(&'static str, String)> {
		if d.ok() != s.ok {
			return Some((if s.ok { "refused" } else { "accepted" }, format!("the contract call {}, the pallet's call {}", if d.ok() { "went through".into() } else { format!("failed ({:?} {})", d.reason, String::from_utf8_lossy(&d.output).chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(120).collect::<String>()) }, if s.ok { "is accepted" } else { "is refused" })));
		}
		if map != &s.map {
			return Some(("state", format!("the state differs: {}", short(&diff(map, &s.map)))));
		}
		if !d.ok() {
			if !d.logs.is_empty() || !ev.is_empty() {
				return Some(("failed-with-events", format!("a failed call reported {} {}", short(&d.logs), short(&ev))));
			}
			return None;
		}
		if ev != s.ev {
			return Some(("events", format!("events {} instead of {}", short(&ev), short(&s.ev))));
		}
		let w = s.want.as_ref().unwrap();
		if let (true, Some(o)) = (direct, &w.out) {
			if &d.output != o {
				return Some(("output", format!("returned {} instead of {}", short(&d.output), short(o))));
			}
		}
		let logs: Logs = d.logs.iter().map(|l| (l.address, l.topics.clone(), l.data.clone())).collect();
		match &w.logs {
			Some(l) if &logs != l => Some(("logs", format!("logged {logs:?} instead of {l:?}"))),
			None if logs.is_empty() || logs.iter().any(|l| l.0 != on.at() || l.1.is_empty()) => Some(("logs", format!("logged {logs:?}"))),
			_ => None,
		}
	}
	fn call(&mut self, op: &Op, st: &mut Stats) -> Res {
		let Op::Call { from, via, c, value, gas, cut } = op else { return Ok(()) };
		let (from, value, gas_) = (u(*from), *value, gas.unwrap_or(FUEL));
		let mut data = c.data();
		let heads = c.a.len() * 32;
		let cut_ = (*cut as usize).min(heads);
		if cut_ > 0 {
			data.truncate(4 + heads - cut_);
		}
		let (who, direct) = match via {
			Via::Direct => (from, true),
			Via::By(k, _) => (contract(*k), false),
		};
		let kind = if let Via::By(_, k) = via { *k } else { Kind::Call };
		let at = c.on.at();
		let (target, input) = match via {
			Via::Direct => (at, data),
			Via::By(k, kind) => (contract(*k), vec![Act::Call { kind: *kind, to: at.0, value: if matches!(kind, Kind::Call) { value } else { 0 }, input: data, must: true }].encode()),
		};
		let s0 = snapshot(&self.c.ext);
		let (t2, i2) = (target, input.clone());
		let (d, ev) = self.c.exec(move || {
			let mark = System::events().len();
			let d = evm::transact(from, t2, i2, value.into(), gas_);
			let ev = events(mark);
			(d, ev)
		});
		let map = state_no_meta(&self.c.ext);
		// what it must be
		let refused = cut_ > 0 || matches!(kind, Kind::Delegate | Kind::CallCode) || (kind == Kind::Static && !c.view()) || (value > 0 && kind == Kind::Call && !c.payable());
		let to = if direct || kind != Kind::Call { target } else { at };
		let wei = kind == Kind::Call && value > 0 && c.payable();
		let sides = match refused {
			true => vec![self.side(&s0, from, to, 0, |_| None)],
			false if wei => {
				// the value arrives as drops, once
				let drops = value / WEI;
				let starts = match c.a.iter().find_map(|v| if let V::As(v) = v { Some(v.first().copied()) } else { None }) {
					Some(first) => first == Some(f::asset_at(XRP).0),
					None => true,
				};
				let proper = if value % WEI == 0 && starts { self.side(&s0, from, to, 0, |_| f::dex(c.name(), &c.a, who, drops)) } else { self.side(&s0, from, to, 0, |_| None) };
				let known = self.side(&s0, from, to, 0, |_| {
					let ok = |a: H160, b: H160| {
						use frame_support::traits::{Currency, ExistenceRequirement};
						<<Runtime as pallet_evm::Config>::Currency as Currency<_>>::transfer(&a.into(), &b.into(), value.into(), ExistenceRequirement::AllowDeath).ok()
					};
					if !direct {
						ok(from, who)?;
					}
					ok(who, at)?;
					f::dex(c.name(), &c.a, who, value)
				});
				vec![proper, known]
			},
			// a contract may be paid for making a call that takes nothing
			false => {
				let x = if kind == Kind::Call { 0 } else { value };
				vec![self.side(&s0, from, target, x, |x| native(c, who, x))]
			},
		};
		let mut res = self.differ(&d, &map, &ev, &sides[0], c.on, direct);
		let mut took = 0;
		if res.is_some() && wei && self.differ(&d, &map, &ev, &sides[1], c.on, direct).is_none() {
			took = 1;
			st.soft(viol_("H01", "eth-value", format!("{op:?}: the XRP that came with the call stays with the precompile and the same number of drops is taken again")));
			res = None;
		}
		let out_of_gas = gas.is_some() && !d.ok();
		if out_of_gas {
			// nothing at all happens then
			let none = self.side(&s0, from, to, 0, |_| None);
			res = self.differ(&d, &map, &ev, &none, c.on, direct);
			st.fault("low gas");
		}
		if let Some((k, m)) = res {
			let theirs = c.name().contains("ransferFrom") || c.name().starts_with("burn") || c.name().contains("approv") || c.name().contains("Approv");
			let p = if theirs && self.prop == "A02" { "A02" } else { "H01" };
			return Err(viol_(p, &format!("{}-{}-{k}", on_name(c.on), c.name()), format!("{op:?}: {m}")));
		}
		if d.ok() {
			self.x = sides.into_iter().nth(took).unwrap().x;
			st.hit("H01");
			if c.name().contains("ransferFrom") || c.name().starts_with("burn") {
				st.hit("A02");
			}
		}
		st.op(&format!("{} {}", on_name(c.on), c.name()), d.ok());
		match via {
			Via::Direct => {},
			Via::By(..) => st.count(match kind {
				Kind::Call => "through a contract",
				Kind::Static => "static call",
				Kind::Delegate => "delegate call",
				Kind::CallCode => "callcode",
			}),
		}
		let _ = self.c.run(move || {
			evm::transact(from, target, input.clone(), value.into(), gas_);
			Ok(())
		});
		Ok(())
	}
}
fn viol_(p: &str, k: &str, m: String) -> Violation {
	viol(p, k, m)
}
fn on_name(o: On) -> &'static str {
	match o {
		On::Erc20(_) => "erc20",
		On::Nft(_) => "erc721",
		On::Sft(_) => "erc1155",
		On::MakeNft => "nft",
		On::MakeSft => "sft",
		On::Peg => "peg",
		On::Dex => "dex",
		On::Market => "marketplace",
	}
}
fn magic(sig: &str) -> Vec<u8> {
	let mut v = evm::selector(sig).to_vec();
	v.resize(32, 0);
	v
}
fn deploy_receivers() {
	let sigs = ["onERC721Received(address,address,uint256,bytes)", "onERC1155Received(address,address,uint256,uint256,bytes)", "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)"];
	let has = |f: &dyn Fn(&str) -> Vec<Act>| Code::Has(sigs.iter().map(|s| (evm::selector(s), f(s))).collect());
	let back = |s: &str| Act::Return(magic(s));
	let call = |to: H160, input: Vec<u8>| Act::Call { kind: Kind::Call, to: to.0, value: 0, input, must: true };
	let codes: Vec<Code> = vec![
		has(&|s| vec![back(s)]),
		has(&|_| vec![Act::Return(magic("onERC721Received()"))]),
		has(&|s| vec![Act::Return(magic(s)[..2].to_vec())]),
		Code::Has(vec![]),
		has(&|s| vec![back(if s == sigs[2] { sigs[1] } else { s })]),
		has(&|s| vec![call(On::Nft(FIRST).at(), abi("totalSupply()", &[])), back(s)]),
		has(&|s| vec![call(f::asset_at(50), abi("transfer(address,uint256)", &[Tok::A(u(1)), num(3)])), back(s)]),
		has(&|s| vec![Act::Burn(u64::MAX), back(s)]),
	];
	for (k, c) in codes.into_iter().enumerate() {
		evm::deploy(receiver(k as u64), c);
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "precompiles";
	const PROPS: &'static [&'static str] = &["H01", "A02", "R01"];
	const REAL: &'static [&'static str] = &["evm-precompiles erc20, erc721, erc1155, nft, sft, dex, marketplace, peg; precompile-utils", "runtime precompile set, EVM currency scaling, token gateways", "pallet-token-approvals, pallet-assets-ext, pallet-nft, pallet-sft, pallet-dex, pallet-marketplace, pallet-erc20-peg, pallet-nft-peg, pallet-xls20, pallet-ethy"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets)", "EVM interpreter (frames, static, delegate and callcode calls, gas, contracts as scripts)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 10_000_000, xrp_each: 100_000_000_000 });
		c.reexec = prop == "R01" || r.chance(1, 8);
		c.bridge(10);
		for a in [50, 51] {
			c.asset(a, 6);
			for n in 1..=USERS {
				c.give(a, acc(n), 1_000_000_000);
			}
			for k in 0..2 {
				c.give(a, contract(k).into(), 1_000_000);
			}
			c.give(a, receiver(6).into(), 1000);
		}
		for k in 0..2 {
			c.give(XRP, contract(k).into(), 1_000_000_000);
			c.give(ROOT, contract(k).into(), 1_000_000);
			c.exec(|| evm::deploy(contract(k), Code::Eval));
		}
		c.exec(deploy_receivers);
		let mut x = Cx::default();
		let name = |s: &[u8]| BoundedVec::truncate_from(s.to_vec());
		let scheme = MetadataScheme::try_from(&b"https://a.b/c/"[..]).unwrap();
		let owners = [u(1), contract(0), u(2), u(3), contract(1)];
		let (s2, max) = (scheme.clone(), if r.chance(1, 2) { Some(60) } else { None });
		let ids = c.exec(move || {
			use pallet_nft_peg::*;
			let mut ids = vec![];
			for (i, o) in owners[..3].iter().enumerate() {
				let chain = if i == 2 { OriginChain::Ethereum } else { OriginChain::Root };
				ids.push(rt::Nft::do_create_collection((*o).into(), name(b"n"), if i == 0 { 8 } else { 0 }, max, None, s2.clone(), None, chain, seed_primitives::CrossChainCompatibility { xrpl: i == 1 }).unwrap());
			}
			assert_eq!(ids[0], FIRST);
			rt::Xls20::set_relayer(RawOrigin::Root.into(), acc(1)).unwrap();
			rt::Xls20::set_xls20_fee(RawOrigin::Root.into(), 5).unwrap();
			rt::Nft::mint(RawOrigin::Signed(contract(0).into()).into(), ids[1], 8, None).unwrap();
			rt::Nft::mint_bridged_token(&acc(1), ids[2], (0..8).collect()).map_err(|e| e.1).unwrap();
			rt::Nft::mint_bridged_token(&acc(2), ids[2], (20..24).collect()).map_err(|e| e.1).unwrap();
			rt::NftPeg::set_contract_address(RawOrigin::Root.into(), low(0x9999)).unwrap();
			RootNftToErc721::<Runtime>::insert(ids[2], low(0x8888));
			for (i, o) in owners[3..].iter().enumerate() {
				rt::Sft::create_collection(RawOrigin::Signed((*o).into()).into(), name(b"s"), None, s2.clone(), None).unwrap();
				let id = (3 + i as u32) << 10 | 100;
				for t in 0..3u128 {
					rt::Sft::create_token(RawOrigin::Signed((*o).into()).into(), id, name(b"t"), 500, (t == 1).then_some(600), None).unwrap();
					for k in 1..=USERS {
						if acc(k) != AccountId::from(*o) {
							rt::Sft::mint(RawOrigin::Signed((*o).into()).into(), id, BoundedVec::truncate_from(vec![(t as u32, 15)]), Some(acc(k))).unwrap();
						}
					}
				}
				ids.push(id);
			}
			rt::Erc20Peg::set_erc20_peg_address(RawOrigin::Root.into(), low(0x7777)).unwrap();
			rt::Erc20Peg::set_root_peg_address(RawOrigin::Root.into(), low(0x7778)).unwrap();
			rt::Erc20Peg::activate_withdrawals(RawOrigin::Root.into(), true).unwrap();
			rt::Erc20Peg::set_erc20_asset_map(RawOrigin::Root.into(), 50, low(0x7770)).unwrap();
			for (a, b) in [(50, 51), (50, XRP), (51, XRP), (ROOT, XRP)] {
				rt::Dex::add_liquidity(RawOrigin::Signed(acc(1)).into(), a, b, 100_000, 200_000, 1, 1, None, None).unwrap();
			}
			let reg = |e| rt::Marketplace::register_marketplace(RawOrigin::Signed(acc(4)).into(), None, sp_runtime::Permill::from_parts(e)).unwrap();
			reg(10_000);
			reg(0);
			ids
		});
		x.bridged = ids[2];
		c.begin(4000);
		let mut w = World { c, x, prop: prop.into() };
		w.sync();
		w.x.once.clear();
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(30, 120) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		match r.weighted(&[5, 1, 1, 70, 3, 4, 2, 2, 1, 2]) {
			0 => Op::Block(1 + r.below(3) as u8),
			1 => Op::Crash,
			2 => Op::Fork,
			3 => {
				let focus = self.prop == "A02" && r.chance(2, 3);
				let (c, who) = loop {
					let mut g = Gen { w: self, r };
					let c = if focus {
						let on = match g.r.below(3) {
							0 => On::Erc20(*g.r.pick(ASSETS)),
							1 => On::Nft(*g.r.pick(&g.w.x.nfts)),
							_ => On::Sft(*g.r.pick(&g.w.x.sfts)),
						};
						g.call_on(on)
					} else {
						g.call()
					};
					let who = g.caller(&c);
					break (c, who);
				};
				let user = (1..=USERS).find(|k| u(*k) == who);
				let by = (0..2).find(|k| contract(*k) == who);
				let from = user.unwrap_or(1 + r.below(USERS));
				let mut via = by.map_or(Via::Direct, |k| Via::By(k, Kind::Call));
				if r.chance(1, 10) {
					let k = by.unwrap_or(r.below(2));
					via = Via::By(k, *r.pick(&[Kind::Static, Kind::Static, Kind::Delegate, Kind::CallCode]));
				}
				let value = if c.payable() && r.chance(4, 5) {
					match r.below(3) {
						0 => 1 + r.below(20_000) as u128,
						_ => (1 + r.below(20_000) as u128) * WEI,
					}
				} else if r.chance(1, 40) {
					*r.pick(&[1, WEI, 5 * WEI])
				} else {
					0
				};
				Op::Call { from, via, c, value, gas: r.chance(1, 20).then(|| r.below(400_000)), cut: if r.chance(1, 40) { 1 + r.below(64) as u8 } else { 0 } }
			},
			4 => {
				let on = Gen { w: self, r }.call().on;
				let n = r.below(9);
				Op::Junk { from: 1 + r.below(USERS), on, data: (0..n).map(|_| r.next() as u8).collect() }
			},
			5 => {
				let c = Gen { w: self, r }.call();
				let who = Gen { w: self, r }.caller(&c);
				Op::Native { from: (1..=USERS).find(|k| u(*k) == who).unwrap_or(1), c }
			},
			6 => {
				let v: Vec<_> = self.x.appr721.keys().copied().collect();
				let t = if v.is_empty() { (FIRST, r.below(8) as u32) } else { *r.pick(&v) };
				let o = self.x.owners.get(&t).and_then(|o| (1..=USERS).find(|k| u(*k) == *o));
				Op::Unapprove { from: if r.chance(1, 4) { 1 + r.below(USERS) } else { o.unwrap_or(1) }, token: t }
			},
			7 => {
				let n = 1 + r.below(3);
				let gone: Vec<u32> = self.x.once.keys().filter(|k| k.0 == self.x.bridged && !self.x.owners.contains_key(k)).map(|k| k.1).collect();
				Op::Arrive { to: 1 + r.below(USERS), serials: (0..n).map(|_| if !gone.is_empty() && r.chance(2, 3) { *r.pick(&gone) } else { r.below(40) as u32 }).collect() }
			},
			8 => Op::NewAsset { by: 1 + r.below(USERS) },
			_ => Op::Forge { k: r.below(5) as u8, from: r.chance(1, 2).then(|| 1 + r.below(USERS)), caller: 1 + r.below(USERS), spender: 1 + r.below(USERS), id: *r.pick(&[50, FIRST]), serial: r.below(8) as u32 },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let mark = self.c.event_count();
		match op {
			Op::Block(n) => {
				for _ in 0..*n {
					self.c.end(None)?;
					self.c.begin(4000);
					self.moved(0);
					st.time(4000);
				}
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Fork => {
				self.c.end(None)?;
				let (a, b) = (u(1), contract(0));
				self.c.abandoned_fork(|c| {
					c.exec(|| evm::transact(a, f::asset_at(50), abi("transfer(address,uint256)", &[Tok::A(b), num(5)]), 0.into(), FUEL));
				});
				self.c.begin(4000);
				self.moved(0);
				st.time(4000);
				st.fault("abandoned fork");
			},
			Op::Call { .. } => {
				self.call(op, st)?;
			},
			Op::Junk { from, on, data } => {
				let (from, at, d) = (u(*from), on.at(), data.clone());
				let s0 = snapshot(&self.c.ext);
				let r = self.c.exec(|| evm::transact(from, at, d, 0.into(), FUEL));
				let map = state_no_meta(&self.c.ext);
				restore(&mut self.c.ext, &s0);
				check!("H01", "unknown-function", !r.ok(), "{op:?}: accepted");
				let none = self.side(&s0, from, at, 0, |_| None);
				check!("H01", "unknown-function", map == none.map, "{op:?}: changed the state: {:?}", diff(&map, &none.map));
				st.op("unknown function", false);
			},
			Op::Native { from, c } => {
				let (who, c2, x) = (u(*from), c.clone(), self.x.clone());
				if c.view() || c.payable() {
					return Ok(());
				}
				// once for the record, once to learn what it did to approvals
				let mut y = self.x.clone();
				let s0 = snapshot(&self.c.ext);
				let ok = self.c.exec(|| frame_support::storage::with_storage_layer::<(), sp_runtime::DispatchError>(|| native(c, who, &mut y).map(|_| ()).ok_or("refused".into()))).is_ok();
				restore(&mut self.c.ext, &s0);
				let got = self.c.run(move || native(&c2, who, &mut x.clone()).map(|_| ()).ok_or("refused".into())).is_ok();
				check!("H01", "harness", ok == got, "{op:?}: {ok} {got}");
				if ok {
					self.x = y;
				}
				st.op("pallet call", ok);
			},
			Op::Unapprove { from, token } => {
				let may = self.x.owners.get(token) == Some(&u(*from)) && self.x.appr721.contains_key(token);
				let s = Step::Call(RawOrigin::Signed(acc(*from)), pallet_token_approvals::Call::<Runtime>::erc721_remove_approval { token_id: *token }.into());
				let r = self.c.atomic("A02", "refusal-left-traces", s)?;
				check!("A02", "unapprove", r.is_ok() == may, "{op:?}: {r:?}, should be {may}");
				if may {
					self.x.appr721.remove(token);
				}
				st.op("unapprove", may);
			},
			Op::Arrive { to, serials } => {
				let (to, v, b) = (*to, serials.clone(), self.x.bridged);
				let step = Step::Fn(std::rc::Rc::new(move || rt::Nft::mint_bridged_token(&acc(to), b, v.clone()).map(|_| ()).map_err(|e| e.1)));
				let r = self.c.step(step);
				st.op("tokens arrive from Ethereum", r.is_ok());
			},
			Op::NewAsset { by } => {
				let by = *by;
				let o = self.c.call(acc(by), pallet_assets_ext::Call::create_asset { name: b"n".to_vec(), symbol: b"s".to_vec(), decimals: 6, min_balance: None, owner: None });
				st.op("new asset", o.is_ok());
			},
			Op::Forge { k, from, caller, spender, id, serial } => {
				use pallet_token_approvals::Call as T;
				let (o, s) = (acc(*caller), acc(*spender));
				let call: RuntimeCall = match k {
					0 => T::<Runtime>::erc721_approval { caller: o, operator_account: s, token_id: (*id, *serial) }.into(),
					1 => T::<Runtime>::erc20_approval { caller: o, spender: s, asset_id: *id, amount: 5 }.into(),
					2 => T::<Runtime>::erc20_update_approval { caller: o, spender: s, asset_id: *id, amount: 0 }.into(),
					3 => T::<Runtime>::erc721_approval_for_all { caller: o, operator_account: s, collection_uuid: *id, approved: true }.into(),
					_ => T::<Runtime>::erc1155_approval_for_all { caller: o, operator_account: s, collection_uuid: *id, approved: true }.into(),
				};
				let step = match from {
					Some(n) => Step::Call(RawOrigin::Signed(acc(*n)), call),
					None => Step::Unsigned(call),
				};
				let r = self.c.atomic("A02", "refusal-left-traces", step)?;
				check!("A02", "forged", r.is_err(), "{op:?}: an approval was made by somebody else");
				st.op("forged approval", false);
			},
		}
		let mut gone: Vec<(u32, u32)> = vec![];
		if !matches!(op, Op::Block(_) | Op::Crash | Op::Fork) {
			let before = self.x.appr721.clone();
			self.moved(mark);
			self.sync();
			gone.extend(before.keys().filter(|k| !self.x.appr721.contains_key(k)));
		} else {
			// auctions close
			self.sync();
		}
		let (a, b, c, d) = self.c.peek(approvals);
		let nz = |m: &BTreeMap<(H160, u32, H160), u128>| -> BTreeMap<(H160, u32, H160), u128> { m.iter().filter(|x| *x.1 > 0).map(|(k, v)| (*k, *v)).collect() };
		let bare = self.c.peek(|| {
			let code = |p: u8, i: u32| pallet_evm::AccountCodes::<Runtime>::get(evm::prefixed(&[p; 4], i)).is_empty().then(|| evm::prefixed(&[p; 4], i));
			let nft = pallet_nft::CollectionInfo::<Runtime>::iter_keys().find_map(|i| code(0xaa, i));
			let sft = pallet_sft::SftCollectionInfo::<Runtime>::iter_keys().find_map(|i| code(0xbb, i));
			nft.or(sft).or_else(|| pallet_assets::Asset::<Runtime>::iter_keys().filter(|i| *i >= 1 << 10).find_map(|i| code(0xcc, i)))
		});
		check!("H01", "no-code", bare.is_none(), "the token contract {bare:?} exists but contracts see no code there");
		check!("A02", "allowances", nz(&a) == nz(&self.x.appr20), "after {op:?}: allowances {}, expected {}", short(&nz(&a)), short(&nz(&self.x.appr20)));
		check!("A02", "token-approvals", b == self.x.appr721, "after {op:?}: tokens approved {}, expected {} (gone: {gone:?})", short(&b), short(&self.x.appr721));
		check!("A02", "operators", c == self.x.all721 && d == self.x.all1155, "after {op:?}: operators {} {}, expected {} {}", short(&c), short(&d), short(&self.x.all721), short(&self.x.all1155));
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, _st: &mut Stats) -> Res {
		self.c.end(None)?;
		Ok(())
	}
	fn panic_prop(&self) -> String {
		"H01".into()
	}
	fn quick_runs() -> u64 {
		6000
	}
	fn thorough_runs() -> u64 {
		50_000
	}
	fn rule() -> &'static str {
		"storage root after every step"
	}
}
fn main() {
	simkit::main::<World>()
}
