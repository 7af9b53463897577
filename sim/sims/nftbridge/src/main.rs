//! NFT bridges (P02): ERC721 tokens through the Ethereum bridge, XLS-20 tokens through the XRPL
//! bridge.
use frame_support::BoundedVec;
use frame_system::RawOrigin;
use codec::Encode;
use pallet_nft::CollectionInfo;
use rt::chain::*;
use rt::kit::*;
use rt::{Nft, Runtime, XRPLBridge};
use seed_pallet_common::utils::CollectionUtilityFlags;
use seed_primitives::{CrossChainCompatibility, OriginChain};
use seed_primitives::xrpl::XrplAccountId;
use seed_primitives::{AccountId, CollectionUuid, MetadataScheme, SerialNumber};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{H160, H512};
use std::collections::{BTreeMap, BTreeSet};
use third::xrplc::parse;
simkit::interpose!();

const USERS: u64 = 4;
const CAP: u32 = 1_000_000;
const XPERIOD: u32 = 150;
const BASE: u32 = 5_000_000;

/// which collection
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
enum Col {
	/// of an Ethereum contract
	Eth(u8),
	/// of an XRPL issuer and taxon
	Xrp(u8),
	/// created on TRN, XLS-20 compatible
	Root,
}
type Tok = (Col, u32);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block { fork: u8 },
	Skip,
	Crash,
	/// deposit of ERC721 tokens
	Dep { parts: Vec<(u8, Vec<u32>)>, to: u64, bad: u8 },
	/// withdrawal of ERC721 tokens
	Wd { by: u64, parts: Vec<(Col, Vec<u32>)>, to: u8, short: bool },
	Reclaim { by: u64, id: u32, to: u8 },
	XDep { tok: (u8, u32), burnable: bool, to: u64, from_root: Option<u32> },
	XWd { by: u64, tok: Tok, to: u8 },
	Move { by: u64, col: Col, serials: Vec<u32>, to: u64 },
	Burn { by: u64, tok: Tok },
	Mint { by: u64, col: Col, count: u32 },
	Lock { tok: Tok, on: bool },
	Flags { col: Col, burnable: bool },
	Fill { col: Col, room: u32 },
	ClaimCol { col: Col, to: u64 },
	Approve { tok: Tok, to: u64 },
	Contract(u8),
}
#[derive(Clone, Debug)]
struct In {
	parts: Vec<(u8, Vec<u32>)>,
	to: u64,
	bad: u8,
	src: u8,
}
#[derive(Clone, Debug)]
struct XIn {
	id: [u8; 32],
	col: u8,
	seq: u32,
	burnable: bool,
	to: u64,
	hash: H512,
}
#[derive(Clone, Debug, PartialEq)]
enum OutMsg {
	Eth { dst: H160, parts: Vec<(u8, Vec<u32>)>, to: u8 },
	Xrp { id: [u8; 32], to: u8 },
}
struct World {
	c: Chain,
	prop: String,
	cols: BTreeMap<Col, CollectionUuid>,
	owner: BTreeMap<Col, Option<u64>>,
	own: BTreeMap<Tok, u64>,
	issued: BTreeMap<Col, u32>,
	xid: BTreeMap<Tok, [u8; 32]>,
	locked: BTreeSet<Tok>,
	noburn: BTreeSet<Col>,
	blocked: BTreeMap<u32, (u8, Vec<u32>, u64)>,
	next_blocked: u32,
	/// Ethereum tokens that are not on Ethereum
	away: BTreeSet<(u8, u32)>,
	/// XRPL tokens that are not on XRPL
	xaway: BTreeSet<[u8; 32]>,
	next_root: u32,
	msgs: BTreeMap<u32, Vec<In>>,
	xmsgs: BTreeMap<u32, Vec<XIn>>,
	period: u32,
	next_msg: u64,
	next_x: u64,
	contract: u8,
	out: Vec<OutMsg>,
	log_ids: BTreeSet<u64>,
	seen_logs: usize,
	faults: bool,
}
fn erc721(k: u8) -> H160 {
	H160::repeat_byte(0x40 + k)
}
fn contract(k: u8) -> H160 {
	H160::repeat_byte(0xa0 + k)
}
fn peg() -> H160 {
	pallet_h160(b"rn/nftpg")
}
fn dest(k: u8) -> H160 {
	H160::repeat_byte(0x70 + k)
}
fn door() -> [u8; 20] {
	[0xd1; 20]
}
fn issuer(k: u8) -> H160 {
	H160::repeat_byte(0x20 + k / 2)
}
fn taxon(k: u8) -> u32 {
	1000 + k as u32
}
/// XLS-20 token id as XRPL builds it
fn xls20(k: u8, seq: u32, burnable: bool) -> [u8; 32] {
	let mut v = [0; 32];
	v[..2].copy_from_slice(&(8u16 + burnable as u16).to_be_bytes());
	v[2..4].copy_from_slice(&314u16.to_be_bytes());
	v[4..24].copy_from_slice(issuer(k).as_bytes());
	let s = (384160001u64 * seq as u64 + 2459) % (1 << 32);
	v[24..28].copy_from_slice(&(taxon(k) ^ s as u32).to_be_bytes());
	v[28..].copy_from_slice(&seq.to_be_bytes());
	v
}
/// ABI encoding of a list of 32-byte words
fn abi_list(v: &[[u8; 32]]) -> Vec<u8> {
	let mut o = word(v.len() as u128).to_vec();
	for x in v {
		o.extend(x);
	}
	o
}
fn abi_lists(v: &[Vec<u32>]) -> Vec<u8> {
	let mut o = word(v.len() as u128).to_vec();
	let parts: Vec<Vec<u8>> = v.iter().map(|l| abi_list(&l.iter().map(|x| word(*x as u128)).collect::<Vec<_>>())).collect();
	let mut at = 32 * v.len();
	for p in &parts {
		o.extend(word(at as u128));
		at += p.len();
	}
	for p in parts {
		o.extend(p);
	}
	o
}
fn deposit_data(m: &In) -> Vec<u8> {
	let addrs = abi_list(&m.parts.iter().map(|p| aword(erc721(p.0))).collect::<Vec<_>>());
	let mut ids: Vec<Vec<u32>> = m.parts.iter().map(|p| p.1.clone()).collect();
	if m.bad == 1 {
		ids.pop();
	}
	let ids = abi_lists(&ids);
	let mut v = word(match m.bad {
		2 => 2,
		3 => 7,
		_ => 1,
	})
	.to_vec();
	v.extend(word(128));
	v.extend(word(128 + addrs.len() as u128));
	v.extend(aword(h160(acc(m.to))));
	v.extend(addrs);
	v.extend(ids);
	match m.bad {
		4 => v.truncate(20),
		5 => v.clear(),
		6 => v.truncate(130),
		_ => {},
	}
	v
}
fn withdraw_data(parts: &[(u8, Vec<u32>)], to: u8) -> Vec<u8> {
	let addrs = abi_list(&parts.iter().map(|p| aword(erc721(p.0))).collect::<Vec<_>>());
	let ids = abi_lists(&parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>());
	let mut v = word(96).to_vec();
	v.extend(word(96 + addrs.len() as u128));
	v.extend(aword(dest(to)));
	v.extend(addrs);
	v.extend(ids);
	v
}
fn nft_pallet() -> AccountId {
	pallet_h160(b"nftokens").into()
}
fn xls_pallet() -> AccountId {
	pallet_h160(b"xls20nft").into()
}
impl World {
	fn col_owner(&self, c: Col) -> AccountId {
		match self.owner.get(&c).copied().flatten() {
			Some(u) => acc(u),
			None => match c {
				Col::Xrp(_) => xls_pallet(),
				_ => nft_pallet(),
			},
		}
	}
	fn learn(&mut self, c: Col, origin: OriginChain) -> Res {
		let id = self.c.exec(|| match c {
			Col::Eth(k) => pallet_nft_peg::EthToRootNft::<Runtime>::get(erc721(k)),
			Col::Xrp(k) => pallet_xls20::CollectionMapping::<Runtime>::iter().find(|x| x.0.encode() == (issuer(k), taxon(k)).encode()).map(|x| x.1),
			Col::Root => None,
		});
		check!("P02", "no-collection", id.is_some(), "a deposit for {c:?} created no collection");
		let id = id.unwrap();
		check!("P02", "collection-reused", !self.cols.values().any(|x| *x == id), "a deposit for {c:?} was given the existing collection {id}");
		let info = self.c.exec(|| CollectionInfo::<Runtime>::get(id));
		check!("P02", "collection-origin", info.map_or(false, |i| i.origin_chain == origin), "collection of {c:?} has another origin");
		self.cols.insert(c, id);
		self.owner.insert(c, None);
		self.issued.insert(c, 0);
		Ok(())
	}
	fn mint(&mut self, c: Col, serials: &[u32], to: u64) -> bool {
		let i = self.issued.get_mut(&c).unwrap();
		if *i + serials.len() as u32 > CAP {
			return false;
		}
		*i += serials.len() as u32;
		for s in serials {
			self.own.insert((c, *s), to);
		}
		true
	}
	fn deliver(&mut self, m: &In, st: &mut Stats) -> Res {
		if m.bad > 0 || m.src != self.contract || m.parts.len() > 10 || m.parts.iter().any(|p| p.1.len() > 50) {
			st.count("message refused: malformed, too long or not from the contract");
			// the Ethereum side still holds them; the bridge cannot represent them
			return Ok(());
		}
		for (k, serials) in &m.parts {
			let c = Col::Eth(*k);
			if !self.cols.contains_key(&c) {
				self.learn(c, OriginChain::Ethereum)?;
			}
			st.hit("P02");
			if !self.mint(c, serials, m.to) {
				st.count("deposit blocked: collection full");
				self.blocked.insert(self.next_blocked, (*k, serials.clone(), m.to));
				self.next_blocked += 1;
			}
		}
		Ok(())
	}
	fn deliver_x(&mut self, m: &XIn, st: &mut Stats) -> Res {
		let ok = self.c.events_since(0).into_iter().find_map(|e| match e {
			rt::RuntimeEvent::XRPLBridge(pallet_xrpl_bridge::Event::ProcessingOk(_, h)) if h == m.hash => Some(true),
			rt::RuntimeEvent::XRPLBridge(pallet_xrpl_bridge::Event::ProcessingFailed(_, h, _)) if h == m.hash => Some(false),
			_ => None,
		});
		check!("P02", "no-verdict", ok.is_some(), "XLS-20 deposit {m:?} came due and was neither processed nor reported as failed");
		let mut good = !m.burnable;
		if good {
			let c = Col::Xrp(m.col);
			if !self.cols.contains_key(&c) {
				self.learn(c, OriginChain::XRPL)?;
			}
			good = self.mint(c, &[m.seq], m.to);
			if good {
				self.xid.insert((c, m.seq), m.id);
				st.hit("P02");
			}
		}
		if !good {
			st.count("XLS-20 deposit refused");
		}
		check!("P02", "wrong-verdict", ok == Some(good), "XLS-20 deposit {m:?}: reported as {}, expected {good}", ok.unwrap());
		Ok(())
	}
	fn begin(&mut self, st: &mut Stats) -> Res {
		self.c.begin(4000);
		st.time(4000);
		let n = self.c.n;
		for m in self.xmsgs.remove(&n).unwrap_or_default() {
			self.deliver_x(&m, st)?;
		}
		for m in self.msgs.remove(&n).unwrap_or_default() {
			self.deliver(&m, st)?;
		}
		self.verify()
	}
	fn end(&mut self) -> Res {
		self.c.end(None)?;
		let l = logs(&self.c.last_digest.clone());
		self.take_logs(l)?;
		self.seen_logs = 0;
		check!("P02", "message-lost", self.out.is_empty(), "withdrawals without an outgoing message: {:?}", self.out);
		self.verify()
	}
	fn take_logs(&mut self, l: Vec<Log>) -> Res {
		for x in &l[self.seen_logs.min(l.len())..] {
			if let Log::Sign { eth, id, data } = x {
				check!("P02", "proof-id-reused", self.log_ids.insert(*id), "proof id {id} used twice");
				let p = self.out.iter().position(|o| match o {
					OutMsg::Eth { dst, parts, to } => *eth && eth_digest(peg(), *dst, &withdraw_data(parts, *to), 0, *id) == *data,
					OutMsg::Xrp { id, to } => !*eth && parse(data).map_or(false, |f| f.0.get(&(5, 10)).map(|v| &v[..]) == Some(&id[..]) && f.0.get(&(8, 3)).map(|v| &v[..]) == Some(dest(*to).as_bytes()) && f.0.get(&(8, 1)).map(|v| &v[..]) == Some(&door()[..])),
				});
				check!("P02", "unexpected-message", p.is_some(), "outgoing message {id} matches no withdrawal; outstanding: {:?}", self.out);
				self.out.remove(p.unwrap());
			}
		}
		self.seen_logs = l.len();
		Ok(())
	}
	fn verify(&mut self) -> Res {
		if self.c.open {
			let l = self.c.logs();
			self.take_logs(l)?;
			check!("P02", "message-lost", self.out.is_empty(), "withdrawals without an outgoing message: {:?}", self.out);
		}
		for (c, id) in self.cols.clone() {
			let info = self.c.exec(|| CollectionInfo::<Runtime>::get(id));
			check!("P02", "collection-gone", info.is_some(), "collection {c:?} is gone");
			let info = info.unwrap();
			let mut got: BTreeMap<u32, AccountId> = Default::default();
			for o in info.owned_tokens.iter() {
				for s in o.owned_serials.iter() {
					check!("P02", "two-owners", got.insert(*s, o.owner).is_none(), "token {s} of {c:?} is listed twice");
				}
			}
			let want: BTreeMap<u32, AccountId> = self.own.range((c, 0)..=(c, u32::MAX)).map(|(t, u)| (t.1, acc(*u))).collect();
			check!("P02", "owners", got == want, "{c:?}: tokens {got:?}, expected {want:?}");
			check!("P02", "issuance", info.collection_issuance == self.issued[&c], "{c:?}: issuance {}, expected {}", info.collection_issuance, self.issued[&c]);
			let want: Vec<(u32, [u8; 32])> = self.xid.range((c, 0)..=(c, u32::MAX)).filter(|(t, _)| self.own.contains_key(t)).map(|(t, i)| (t.1, *i)).collect();
			for (s, i) in want {
				let got = self.c.exec(|| pallet_xls20::Xls20TokenMap::<Runtime>::get(id, s));
				check!("P02", "xrpl-id", got == Some(i), "token {s} of {c:?} stands for XRPL token {got:?}, expected {i:?}");
			}
		}
		let got: BTreeMap<u32, (CollectionUuid, Vec<u32>, AccountId)> = self.c.exec(|| pallet_nft_peg::BlockedTokens::<Runtime>::iter().map(|(i, b)| (i, (b.collection_id, b.serial_numbers.into_inner(), b.destination_address))).collect());
		let want: BTreeMap<u32, (CollectionUuid, Vec<u32>, AccountId)> = self.blocked.iter().map(|(i, b)| (*i, (self.cols[&Col::Eth(b.0)], b.1.clone(), acc(b.2)))).collect();
		check!("P02", "claimable", got == want, "claimable tokens {got:?}, expected {want:?}");
		Ok(())
	}
	fn remove(&mut self, t: Tok) {
		self.own.remove(&t);
		let i = self.issued.get_mut(&t.0).unwrap();
		*i = i.saturating_sub(1);
	}
	/// why the owner could not burn this token
	fn burnable(&self, by: u64, t: Tok) -> bool {
		self.own.get(&t) == Some(&by) && !self.locked.contains(&t) && !self.noburn.contains(&t.0)
	}
	fn any_tok(&self, r: &mut Rng, eth: Option<bool>) -> Tok {
		let v: Vec<Tok> = self.own.keys().filter(|t| eth.map_or(true, |e| matches!(t.0, Col::Eth(_)) == e)).copied().collect();
		if v.is_empty() || r.chance(1, 12) {
			return (self.any_col(r), r.below(12) as u32);
		}
		*r.pick(&v)
	}
	fn any_col(&self, r: &mut Rng) -> Col {
		let v: Vec<Col> = self.cols.keys().copied().collect();
		*r.pick(&v)
	}
	fn due(&self) -> Option<u32> {
		self.msgs.keys().chain(self.xmsgs.keys()).filter(|d| **d > self.c.n).min().copied()
	}
	fn fresh(&self, r: &mut Rng, k: u8) -> Vec<u32> {
		let count = if r.chance(1, 14) { r.range(40, 52) } else { r.below(5) };
		let mut v = vec![];
		for _ in 0..count {
			let s = if r.chance(1, 20) { u32::MAX - r.below(3) as u32 } else { r.below(if count > 10 { 200 } else { 25 }) as u32 };
			if !self.away.contains(&(k, s)) && !v.contains(&s) {
				v.push(s);
			}
		}
		v.sort();
		v
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "nftbridge";
	const PROPS: &'static [&'static str] = &["P02", "R01"];
	const REAL: &'static [&'static str] = &["pallet-nft-peg", "pallet-nft", "pallet-xls20", "pallet-ethy and pallet-xrpl-bridge (messages in, signing requests out)", "the runtime's event router and configuration"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive)", "ethabi", "xrpl-codec", "Ethereum, XRPL and their contracts", "validators (nobody signs)"];
	fn rule() -> &'static str {
		"an evaluation counts when deposited tokens were delivered or recorded as claimable, or a withdrawal was accepted"
	}
	fn panic_prop(&self) -> String {
		self.prop.clone()
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn thorough_runs() -> u64 {
		60_000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 1_000_000, xrp_each: 1_000_000_000 });
		c.reexec = prop == "R01" || r.chance(1, 4);
		let period = r.range(1, 3) as u32;
		c.bridge(period);
		let root_tokens = r.range(0, 6) as u32;
		c.exec(|| {
			pallet_nft_peg::ContractAddress::<Runtime>::put(contract(0));
			use pallet_xrpl_bridge::types::XRPLDoorAccount;
			use pallet_xrpl_bridge::*;
			HighestSettledLedgerIndex::<Runtime>::put(BASE);
			SubmissionWindowWidth::<Runtime>::put(100_000);
			HighestPrunedLedgerIndex::<Runtime>::put(BASE - 200_000);
			DoorAddress::<Runtime>::insert(XRPLDoorAccount::NFT, XrplAccountId::from(door()));
			XRPLBridge::set_ticket_sequence_current_allocation(RawOrigin::Root.into(), XRPLDoorAccount::NFT, 1, 1, 1_000_000).unwrap();
			XRPLBridge::add_relayer(RawOrigin::Root.into(), acc(2000)).unwrap();
			pallet_xls20::Relayer::<Runtime>::put(acc(2000));
			Nft::create_collection(RawOrigin::Signed(acc(1)).into(), BoundedVec::truncate_from(b"own".to_vec()), 0, None, None, MetadataScheme::try_from(b"https://e/".as_slice()).unwrap(), None, CrossChainCompatibility { xrpl: true }).unwrap();
		});
		let root = c.exec(|| CollectionInfo::<Runtime>::iter().next().unwrap().0);
		if root_tokens > 0 {
			c.exec(|| {
				Nft::mint(RawOrigin::Signed(acc(1)).into(), root, root_tokens, None).unwrap();
				let m: Vec<(SerialNumber, [u8; 32])> = (0..root_tokens).map(|s| (s, xls20(9, s + 3, false))).collect();
				rt::Xls20::fulfill_xls20_mint(RawOrigin::Signed(acc(2000)).into(), root, BoundedVec::truncate_from(m)).unwrap();
			});
		}
		let mut w = World {
			c,
			prop: prop.into(),
			cols: [(Col::Root, root)].into(),
			owner: [(Col::Root, Some(1))].into(),
			own: (0..root_tokens).map(|s| ((Col::Root, s), 1)).collect(),
			issued: [(Col::Root, root_tokens)].into(),
			xid: (0..root_tokens).map(|s| ((Col::Root, s), xls20(9, s + 3, false))).collect(),
			locked: Default::default(),
			noburn: Default::default(),
			blocked: Default::default(),
			next_blocked: 0,
			away: Default::default(),
			xaway: (0..root_tokens).map(|s| xls20(9, s + 3, false)).collect(),
			next_root: root_tokens,
			msgs: Default::default(),
			xmsgs: Default::default(),
			period,
			next_msg: 1,
			next_x: 1,
			contract: 0,
			out: vec![],
			log_ids: Default::default(),
			seen_logs: 0,
			faults: !r.chance(1, 6),
		};
		w.c.begin(4000);
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 110) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let f = self.faults as u32;
		match r.weighted(&[10, 14, 2 * f, 14, 12, 3, 6, 5, 4, 2, 2, 2, 1, 2, 1, 2, 1]) {
			0 => Op::Block { fork: if f > 0 && r.chance(1, 8) { r.range(1, 200) as u8 } else { 0 } },
			1 => Op::Skip,
			2 => Op::Crash,
			3 => {
				let mut parts: Vec<(u8, Vec<u32>)> = vec![];
				let n = if r.chance(1, 12) { r.range(9, 11) } else { r.range(1, 4) };
				for _ in 0..n {
					let k = r.below(5) as u8;
					let mut v = self.fresh(r, k);
					v.retain(|s| !parts.iter().any(|p| p.0 == k && p.1.contains(s)));
					parts.push((k, v));
				}
				Op::Dep { parts, to: r.range(1, USERS), bad: if f > 0 && r.chance(1, 12) { r.range(1, 7) as u8 } else { 0 } }
			},
			4 => {
				let by = r.range(1, USERS);
				let n = if r.chance(1, 10) { r.range(0, 10) } else { r.range(1, 3) };
				let mut parts: Vec<(Col, Vec<u32>)> = vec![];
				for _ in 0..n {
					let e = if r.chance(1, 15) { None } else { Some(true) };
					let t = self.any_tok(r, e);
					let mine: Vec<u32> = self.own.range((t.0, 0)..=(t.0, u32::MAX)).filter(|x| *x.1 == by || r.chance(1, 25)).map(|x| x.0 .1).collect::<Vec<_>>().into_iter().filter(|_| r.chance(1, 2)).take(50).collect();
					if !parts.iter().any(|p| p.0 == t.0) || r.chance(1, 12) {
						parts.push((t.0, mine));
					}
				}
				if r.chance(1, 10) && !parts.is_empty() {
					let k = r.idx(parts.len());
					if let (Some(s), l) = (parts[k].1.first().copied(), parts.len()) {
						parts[if r.chance(2, 3) { k } else { (k + 1) % l }].1.push(s);
					}
				}
				Op::Wd { by, parts, to: r.below(4) as u8, short: r.chance(1, 20) }
			},
			5 => {
				let ids: Vec<u32> = self.blocked.keys().copied().collect();
				let id = if !ids.is_empty() && r.chance(8, 10) { *r.pick(&ids) } else { r.below(4) as u32 };
				let by = self.blocked.get(&id).map(|b| b.2).filter(|_| r.chance(3, 4)).unwrap_or(r.range(1, USERS));
				Op::Reclaim { by, id, to: r.below(4) as u8 }
			},
			6 => Op::XDep { tok: (r.below(4) as u8, r.below(12) as u32), burnable: r.chance(1, 10), to: r.range(1, USERS), from_root: r.chance(1, 4).then(|| r.below(6) as u32) },
			7 => {
				let e = if r.chance(1, 10) { None } else { Some(false) };
				let t = self.any_tok(r, e);
				Op::XWd { by: self.own.get(&t).copied().filter(|_| r.chance(5, 6)).unwrap_or(r.range(1, USERS)), tok: t, to: r.below(4) as u8 }
			},
			8 => {
				let t = self.any_tok(r, None);
				let by = self.own.get(&t).copied().filter(|_| r.chance(5, 6)).unwrap_or(r.range(1, USERS));
				let mut serials = vec![t.1];
				serials.extend(self.own.range((t.0, 0)..=(t.0, u32::MAX)).filter(|x| *x.1 == by && x.0 .1 != t.1).map(|x| x.0 .1).filter(|_| r.chance(1, 3)).take(20));
				Op::Move { by, col: t.0, serials, to: r.range(1, USERS) }
			},
			9 => {
				let t = self.any_tok(r, None);
				Op::Burn { by: self.own.get(&t).copied().filter(|_| r.chance(5, 6)).unwrap_or(r.range(1, USERS)), tok: t }
			},
			10 => Op::Mint { by: r.range(1, USERS), col: if r.chance(1, 2) { Col::Root } else { self.any_col(r) }, count: r.range(1, 3) as u32 },
			11 => Op::Lock { tok: self.any_tok(r, None), on: r.chance(1, 2) },
			12 => Op::Flags { col: self.any_col(r), burnable: r.chance(2, 3) },
			13 => Op::Fill { col: self.any_col(r), room: r.below(5) as u32 },
			14 => Op::ClaimCol { col: self.any_col(r), to: r.range(1, USERS) },
			15 => Op::Approve { tok: self.any_tok(r, None), to: r.range(1, USERS) },
			_ => Op::Contract(r.below(3) as u8),
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let n = self.c.n;
		st.note(|| format!("block {n}: {op:?}"));
		match op.clone() {
			Op::Block { fork } => {
				self.end()?;
				if fork > 0 {
					st.fault("abandoned fork");
					let m = In { parts: vec![(fork % 5, vec![fork as u32])], to: 1, bad: 0, src: self.contract };
					let blocked = self.blocked.keys().next().copied();
					self.c.abandoned_fork(|c| {
						let _ = c.message(1_000_000, contract(m.src), peg(), &deposit_data(&m));
						if let Some(b) = blocked {
							for u in 1..=USERS {
								let _ = c.call(acc(u), pallet_nft_peg::Call::reclaim_blocked_nfts { blocked_mint_id: b, destination: dest(9) });
							}
						}
					});
				}
				self.begin(st)?;
				st.op("block", true);
			},
			Op::Skip => {
				self.end()?;
				if let Some(d) = self.due() {
					st.time(4000 * (d - n - 1) as u64);
					self.c.skip_to(d);
				}
				self.begin(st)?;
				st.op("skip", true);
			},
			Op::Crash => {
				st.fault("crash inside a block");
				self.c.crash_and_redo()?;
			},
			Op::Dep { mut parts, to, bad } => {
				// Ethereum can only deposit what it still has
				for (k, v) in parts.iter_mut() {
					v.retain(|s| !self.away.contains(&(*k, *s)));
				}
				let src = if bad == 7 { self.contract + 32 } else { self.contract };
				let m = In { parts, to, bad: if bad == 7 { 0 } else { bad }, src };
				if bad > 0 {
					st.fault("malformed message or foreign contract");
				}
				let d = deposit_data(&m);
				let out = self.c.message(self.next_msg, contract(src), peg(), &d);
				st.op("message", out.is_ok());
				if out.is_ok() {
					if bad == 0 {
						for (k, v) in &m.parts {
							for s in v {
								self.away.insert((*k, *s));
							}
						}
					}
					self.msgs.entry(n + self.period).or_default().push(m);
					self.next_msg += 1;
				}
			},
			Op::Wd { by, parts, to, short } => {
				let parts: Vec<(Col, Vec<u32>)> = parts.into_iter().filter(|p| self.cols.contains_key(&p.0)).take(10).collect();
				let cols: Vec<u32> = parts.iter().map(|p| self.cols[&p.0]).collect();
				let mut serials: Vec<BoundedVec<u32, _>> = parts.iter().map(|p| BoundedVec::truncate_from(p.1.clone())).collect();
				let short = short && !serials.is_empty();
				if short {
					serials.pop();
				}
				let mut may = !short;
				let mut seen = BTreeSet::new();
				for (c, v) in &parts {
					may &= matches!(c, Col::Eth(_));
					for s in v {
						may &= self.burnable(by, (*c, *s)) && seen.insert((*c, *s));
					}
				}
				let call = pallet_nft_peg::Call::withdraw { collection_ids: BoundedVec::truncate_from(cols), serial_numbers: BoundedVec::truncate_from(serials), destination: dest(to) };
				let out = self.c.atomic("P02", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), call.into()))?;
				st.op("withdraw", out.is_ok());
				check!("P02", "withdrawal-outcome", out.is_ok() == may || seen.is_empty(), "withdrawal of {parts:?} by account {by}: {out:?}, expected it to be {}", if may { "accepted" } else { "refused" });
				if out.is_ok() {
					st.hit("P02");
					let mut o = vec![];
					for (c, v) in parts {
						for s in &v {
							self.remove((c, *s));
						}
						if let Col::Eth(k) = c {
							for s in &v {
								self.away.remove(&(k, *s));
							}
							o.push((k, v));
						}
					}
					self.out.push(OutMsg::Eth { dst: contract(self.contract), parts: o, to });
				}
			},
			Op::Reclaim { by, id, to } => {
				let b = self.blocked.get(&id).cloned();
				let may = b.as_ref().map_or(false, |b| b.2 == by);
				let call = pallet_nft_peg::Call::reclaim_blocked_nfts { blocked_mint_id: id, destination: dest(to) };
				let out = self.c.atomic("P02", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), call.into()))?;
				st.op("reclaim", out.is_ok());
				check!("P02", "reclaim-outcome", out.is_ok() == may, "claim of {b:?} by account {by}: {out:?}");
				if let (true, Some((k, v, _))) = (out.is_ok(), b) {
					st.hit("P02");
					self.blocked.remove(&id);
					for s in &v {
						self.away.remove(&(k, *s));
					}
					self.out.push(OutMsg::Eth { dst: contract(self.contract), parts: vec![(k, v)], to });
				}
			},
			Op::XDep { tok, burnable, to, from_root } => {
				let (k, seq, burnable) = match from_root {
					Some(s) => (9, s + 3, false),
					None => (tok.0, tok.1, burnable),
				};
				let id = xls20(k, seq, burnable);
				if self.xaway.contains(&id) || self.xaway.contains(&xls20(k, seq, !burnable)) {
					return Ok(());
				}
				let hash = H512::from_low_u64_be(self.next_x);
				let ledger = BASE as u64 + self.next_x;
				self.next_x += 1;
				let call = pallet_xrpl_bridge::Call::submit_transaction { ledger_index: ledger, transaction_hash: hash, transaction: pallet_xrpl_bridge::types::XrplTxData::Xls20 { token_id: id, address: h160(acc(to)) }, timestamp: 1 };
				let out = self.c.step(Step::Call(RawOrigin::Signed(acc(2000)), call.into()));
				st.op("XLS-20 deposit", out.is_ok());
				if out.is_ok() {
					self.xaway.insert(id);
					self.xmsgs.entry(n + XPERIOD).or_default().push(XIn { id, col: k, seq, burnable, to, hash });
				}
			},
			Op::XWd { by, tok, to } => {
				let Some(c) = self.cols.get(&tok.0).copied() else { return Ok(()) };
				let id = self.xid.get(&tok).copied();
				let may = !matches!(tok.0, Col::Eth(_)) && self.burnable(by, tok) && id.is_some();
				let call = pallet_xrpl_bridge::Call::withdraw_nft { token_id: (c, tok.1), destination: XrplAccountId::from(dest(to).0) };
				let out = self.c.atomic("P02", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), call.into()))?;
				st.op("XLS-20 withdrawal", out.is_ok());
				check!("P02", "withdrawal-outcome", out.is_ok() == may, "withdrawal of {tok:?} by account {by} to XRPL: {out:?}, expected it to be {}", if may { "accepted" } else { "refused" });
				if out.is_ok() {
					st.hit("P02");
					let id = id.unwrap();
					self.remove(tok);
					self.xaway.remove(&id);
					self.out.push(OutMsg::Xrp { id, to });
				}
			},
			Op::Move { by, col, serials, to } => {
				let Some(c) = self.cols.get(&col).copied() else { return Ok(()) };
				let out = self.c.call(acc(by), pallet_nft::Call::transfer { collection_id: c, serial_numbers: BoundedVec::truncate_from(serials.clone()), new_owner: acc(to) });
				st.op("transfer", out.is_ok());
				if out.is_ok() {
					for s in serials {
						self.own.insert((col, s), to);
					}
				}
			},
			Op::Burn { by, tok } => {
				let Some(c) = self.cols.get(&tok.0).copied() else { return Ok(()) };
				let out = self.c.call(acc(by), pallet_nft::Call::burn { token_id: (c, tok.1) });
				st.op("burn", out.is_ok());
				if out.is_ok() {
					self.remove(tok);
				}
			},
			Op::Mint { by, col, count } => {
				let Some(c) = self.cols.get(&col).copied() else { return Ok(()) };
				let who = if by == 4 { self.col_owner(col) } else { acc(by) };
				let out = self.c.call(who, pallet_nft::Call::mint { collection_id: c, quantity: count, token_owner: Some(acc(by)) });
				st.op("mint", out.is_ok());
				check!("P02", "minted-bridged", out.is_err() || col == Col::Root, "{count} tokens of the bridged collection {col:?} were minted on TRN");
				if out.is_ok() {
					for s in 0..count {
						self.own.insert((col, self.next_root + s), by);
					}
					self.next_root += count;
					*self.issued.get_mut(&col).unwrap() += count;
				}
			},
			Op::Lock { tok, on } => {
				let Some(c) = self.cols.get(&tok.0).copied() else { return Ok(()) };
				if !self.own.contains_key(&tok) {
					return Ok(());
				}
				let _ = self.c.run(move || {
					if on {
						pallet_nft::TokenLocks::<Runtime>::insert((c, tok.1), seed_primitives::nft::TokenLockReason::Listed(7));
					} else {
						pallet_nft::TokenLocks::<Runtime>::remove((c, tok.1));
					}
					Ok(())
				});
				if on {
					self.locked.insert(tok);
				} else {
					self.locked.remove(&tok);
				}
			},
			Op::Flags { col, burnable } => {
				let Some(c) = self.cols.get(&col).copied() else { return Ok(()) };
				let who = self.col_owner(col);
				let out = self.c.call(who, pallet_nft::Call::set_utility_flags { collection_id: c, utility_flags: CollectionUtilityFlags { transferable: true, burnable, mintable: true } });
				st.op("flags", out.is_ok());
				if out.is_ok() {
					if burnable {
						self.noburn.remove(&col);
					} else {
						self.noburn.insert(col);
					}
				}
			},
			Op::Fill { col, room } => {
				// as if the rest of the collection belonged to somebody else
				let Some(c) = self.cols.get(&col).copied() else { return Ok(()) };
				if col == Col::Root {
					return Ok(());
				}
				st.fault("collection nearly full");
				let _ = self.c.run(move || {
					CollectionInfo::<Runtime>::mutate(c, |i| i.as_mut().unwrap().collection_issuance = CAP - room);
					Ok(())
				});
				self.issued.insert(col, CAP - room);
			},
			Op::ClaimCol { col, to } => {
				let Some(c) = self.cols.get(&col).copied() else { return Ok(()) };
				if self.c.root(pallet_nft::Call::claim_unowned_collection { collection_id: c, new_owner: acc(to) }).is_ok() {
					self.owner.insert(col, Some(to));
				}
			},
			Op::Approve { tok, to } => {
				// an approved spender is not an owner: it must not be able to withdraw
				let (Some(c), Some(u)) = (self.cols.get(&tok.0).copied(), self.own.get(&tok).copied()) else { return Ok(()) };
				let _ = self.c.call(acc(u), pallet_token_approvals::Call::erc721_approval { caller: acc(u), operator_account: acc(to), token_id: (c, tok.1) });
			},
			Op::Contract(k) => {
				if self.c.root(pallet_nft_peg::Call::set_contract_address { contract: contract(k) }).is_ok() {
					self.contract = k;
				}
			},
		}
		self.verify()?;
		st.mix(fnv(format!("{:?}{:?}{:?}", std::mem::discriminant(op), self.own.len(), self.blocked.len()).as_bytes()));
		st.state(self.c.hash());
		st.digest(self.c.hash());
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		for _ in 0..400 {
			if self.due().is_none() {
				break;
			}
			self.apply(&Op::Skip, st)?;
		}
		// every Ethereum token that left Ethereum is owned, claimable or was burned by its owner
		for (id, b) in self.blocked.clone() {
			self.apply(&Op::Reclaim { by: b.2, id, to: 1 }, st)?;
		}
		self.apply(&Op::Block { fork: 0 }, st)
	}
}
fn main() {
	simkit::main::<World>()
}
