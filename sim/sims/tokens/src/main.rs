//! NFTs, SFTs and the marketplace (N01, N02, M01) against one executable reference.
use codec::{Decode, Encode};
use frame_support::BoundedVec;
use frame_system::RawOrigin;
use rt::chain::*;
use rt::{Runtime, RuntimeCall, RuntimeEvent};
use seed_pallet_common::utils::CollectionUtilityFlags;
use seed_primitives::{AccountId, AssetId, MetadataScheme, OriginChain, RoyaltiesSchedule};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_runtime::Permill;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
simkit::interpose!();

const USERS: u64 = 5;
/// royalty and fee receivers besides the users
const SIDE: [u64; 4] = [2000, 2001, 2002, 2003];
const PAY: [AssetId; 2] = [XRP, 100];
const NFTS: usize = 4;
/// the collection bridged from Ethereum
const ETH: usize = 3;
const MAX_NFTS: usize = 7;
const SFTS: usize = 2;
const CAP: u32 = 1_000_000;
const LIMIT: u32 = 1000;
type Roy = Vec<(u64, u32)>;

fn same<T: Decode, U: Encode>(u: U) -> T {
	T::decode(&mut &u.encode()[..]).unwrap()
}
fn roy(r: &Roy) -> RoyaltiesSchedule<AccountId> {
	RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(r.iter().map(|(w, p)| (addr(*w), Permill::from_parts(*p))).collect()) }
}
fn flags(f: [bool; 3]) -> CollectionUtilityFlags {
	CollectionUtilityFlags { transferable: f[0], burnable: f[1], mintable: f[2] }
}
/// a share of an amount to the nearest unit, ties down
fn share(p: u32, x: u128) -> u128 {
	let (q, r) = (x / 1_000_000, x % 1_000_000 * p as u128);
	q * p as u128 + r / 1_000_000 + (r % 1_000_000 > 500_000) as u128
}

/// which collection: an NFT one or an SFT one
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum C {
	N(usize),
	S(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sale {
	col: C,
	toks: Vec<(u32, u128)>,
	asset: u8,
	price: u128,
	dur: Option<u32>,
	mp: Option<u32>,
	/// the call made only for NFTs
	old: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block,
	Far { back: u32 },
	Crash,
	NewNft { by: u64, init: u32, max: Option<u32>, to: Option<u64>, roy: Option<Roy> },
	MintN { by: u64, col: usize, n: u32, to: Option<u64> },
	Bridged { to: u64, serials: Vec<u32> },
	MoveN { by: u64, col: usize, serials: Vec<u32>, to: u64 },
	BurnN { by: u64, col: usize, serial: u32 },
	MaxN { by: u64, col: usize, max: u32 },
	Claim { col: usize, to: u64, root: bool },
	NewTok { by: u64, col: usize, init: u128, max: Option<u128>, to: Option<u64> },
	MintS { by: u64, col: usize, toks: Vec<(u32, u128)>, to: Option<u64> },
	MoveS { by: u64, col: usize, toks: Vec<(u32, u128)>, to: u64 },
	BurnS { by: u64, col: usize, toks: Vec<(u32, u128)> },
	MaxS { by: u64, col: usize, serial: u32, max: u128 },
	Public { by: u64, col: C, serial: u32, on: bool },
	Fee { by: u64, col: C, serial: u32, price: Option<(u8, u128)> },
	Owner { by: u64, col: C, to: u64 },
	Flags { by: u64, col: C, f: [bool; 3] },
	Royal { by: u64, col: C, roy: Roy },
	Sell { by: u64, sale: Sale, buyer: Option<u64> },
	Auction { by: u64, sale: Sale },
	Price { by: u64, id: u128, price: u128 },
	Buy { by: u64, ids: Vec<u128>, multi: bool },
	Bid { by: u64, id: u128, amount: u128 },
	Cancel { by: u64, id: u128 },
	Offer { by: u64, col: usize, serial: u32, amount: u128, asset: u8, mp: Option<u32> },
	CancelOffer { by: u64, id: u64 },
	Accept { by: u64, id: u64 },
	Market { by: u64, to: Option<u64>, cut: u32 },
	FeeTo { to: Option<u64>, root: bool },
	Take { who: u64, asset: u8, leave: u128 },
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
	Mint(u32, u32, u32, u64),
	Bridged(u32, Vec<u32>, u64),
	Move(u64, u32, Vec<u32>, u64),
	Burn(u32, u32),
	SMint(u32, Vec<(u32, u128)>, u64),
	SMove(u64, u32, Vec<(u32, u128)>, u64),
	SBurn(u32, Vec<(u32, u128)>, u64),
	Paid(u64, AssetId, u128),
	Sold(u128, u128, AssetId, u64, u64),
	/// listing closed without a sale: 0 cancelled, 1 expired, 2 settlement failed, 3 offer accepted
	Closed(u128, u8),
	Bid(u128, u128, u64),
	Accepted(u64, u128),
	Withdrawn(u64),
}
#[derive(Clone, Default, Debug)]
struct Nft {
	id: u32,
	owner: u64,
	max: Option<u32>,
	next: u32,
	toks: BTreeMap<u32, u64>,
	public: bool,
	price: Option<(AssetId, u128)>,
	flags: [bool; 3],
	roy: Option<Roy>,
	eth: bool,
}
#[derive(Clone, Default, Debug)]
struct STok {
	max: Option<u128>,
	issued: u128,
	bal: BTreeMap<u64, (u128, u128)>,
	public: bool,
	price: Option<(AssetId, u128)>,
}
#[derive(Clone, Default, Debug)]
struct Sft {
	id: u32,
	owner: u64,
	toks: Vec<STok>,
	flags: [bool; 3],
	roy: Option<Roy>,
}
#[derive(Clone, Debug)]
struct Listing {
	auction: bool,
	asset: AssetId,
	price: u128,
	close: u32,
	seller: u64,
	col: C,
	toks: Vec<(u32, u128)>,
	buyer: Option<u64>,
	roy: Roy,
	bid: Option<(u64, u128)>,
}
#[derive(Clone, Debug)]
struct Offer {
	col: usize,
	serial: u32,
	asset: AssetId,
	amount: u128,
	by: u64,
	mp: Option<u32>,
}
/// the reference
#[derive(Clone, Default)]
struct M {
	nfts: Vec<Nft>,
	sfts: Vec<Sft>,
	list: BTreeMap<u128, Listing>,
	next_list: u128,
	offers: BTreeMap<u64, Offer>,
	next_offer: u64,
	mps: Vec<(u64, u32)>,
	fee_to: Option<u64>,
	bal: BTreeMap<(AssetId, u64), u128>,
	held: BTreeMap<(AssetId, u64), u128>,
	ev: Vec<Ev>,
	now: u32,
	loose: Cell<bool>,
}
/// `None` refuses; the caller throws the copy away
type Ok_ = Option<()>;
fn ok(b: bool) -> Ok_ {
	b.then_some(())
}
impl M {
	fn pay(&mut self, a: AssetId, from: u64, to: u64, x: u128) -> Ok_ {
		let f = self.bal.entry((a, from)).or_default();
		*f = f.checked_sub(x)?;
		if x == 0 {
			// whether nothing can be sent to an account without the asset is the asset pallet's business
			self.loose.set(true);
		}
		*self.bal.entry((a, to)).or_default() += x;
		Some(())
	}
	fn hold(&mut self, a: AssetId, who: u64, x: u128) -> Ok_ {
		let f = self.bal.entry((a, who)).or_default();
		*f = f.checked_sub(x)?;
		*self.held.entry((a, who)).or_default() += x;
		Some(())
	}
	fn free(&mut self, a: AssetId, who: u64, x: u128) {
		*self.held.get_mut(&(a, who)).unwrap() -= x;
		*self.bal.entry((a, who)).or_default() += x;
	}
	fn split(r: &Roy, seller: u64, x: u128) -> Vec<(u64, u128)> {
		let mut rest = x;
		let mut v = vec![];
		for (w, p) in r {
			let s = share(*p, x).min(rest);
			rest -= s;
			v.push((*w, s));
		}
		v.push((seller, rest));
		v
	}
	fn locked(&self, col: usize, serial: u32) -> Option<u128> {
		self.list.iter().find(|(_, l)| l.col == C::N(col) && l.toks.iter().any(|t| t.0 == serial)).map(|l| *l.0)
	}
	fn owner(&self, c: C) -> u64 {
		match c {
			C::N(i) => self.nfts[i].owner,
			C::S(i) => self.sfts[i].owner,
		}
	}
	fn id(&self, c: C) -> u32 {
		match c {
			C::N(i) => self.nfts[i].id,
			C::S(i) => self.sfts[i].id,
		}
	}
	fn move_n(&mut self, by: u64, col: usize, serials: &[u32], to: u64) -> Ok_ {
		ok(by != to && self.nfts[col].flags[0])?;
		for s in serials {
			ok(self.locked(col, *s).is_none())?;
			ok(self.nfts[col].toks.get(s) == Some(&by))?;
			self.nfts[col].toks.insert(*s, to);
		}
		self.ev.push(Ev::Move(by, self.nfts[col].id, serials.to_vec(), to));
		Some(())
	}
	fn move_s(&mut self, by: u64, col: usize, toks: &[(u32, u128)], to: u64) -> Ok_ {
		ok(!toks.is_empty() && by != to && self.sfts[col].flags[0])?;
		for (s, q) in toks {
			ok(*q > 0)?;
			let t = self.sfts[col].toks.get_mut(*s as usize)?;
			let b = t.bal.get_mut(&by)?;
			b.0 = b.0.checked_sub(*q)?;
			if *b == (0, 0) {
				t.bal.remove(&by);
			}
			t.bal.entry(to).or_default().0 += q;
		}
		self.ev.push(Ev::SMove(by, self.sfts[col].id, toks.to_vec(), to));
		Some(())
	}
	fn reserve(&mut self, who: u64, col: usize, toks: &[(u32, u128)]) -> Ok_ {
		for (s, q) in toks {
			let b = self.sfts[col].toks.get_mut(*s as usize)?.bal.get_mut(&who)?;
			b.0 = b.0.checked_sub(*q)?;
			b.1 += q;
		}
		Some(())
	}
	fn unreserve(&mut self, who: u64, col: usize, toks: &[(u32, u128)]) {
		for (s, q) in toks {
			let b = self.sfts[col].toks[*s as usize].bal.get_mut(&who).unwrap();
			b.1 -= q;
			b.0 += q;
		}
	}
	fn royalties(&self, c: C, mp: Option<u32>) -> Option<Roy> {
		let mut r = match c {
			C::N(i) => self.nfts[i].roy.clone(),
			C::S(i) => self.sfts[i].roy.clone(),
		}
		.unwrap_or_default();
		r.extend(self.fee_to.map(|f| (f, 5000)));
		if let Some(m) = mp {
			r.push(*self.mps.get(m as usize)?);
		}
		ok(r.len() <= 8 && r.iter().map(|x| x.1).sum::<u32>() <= 1_000_000)?;
		Some(r)
	}
	fn open(&mut self, by: u64, s: &Sale, buyer: Option<u64>, auction: bool) -> Ok_ {
		ok(!s.toks.is_empty())?;
		if let C::S(_) = s.col {
			ok(s.toks.iter().all(|t| t.1 > 0))?;
		}
		let roy = self.royalties(s.col, s.mp)?;
		match s.col {
			C::N(i) => {
				let d: BTreeSet<u32> = s.toks.iter().map(|t| t.0).collect();
				ok(d.len() == s.toks.len() && d.iter().all(|t| self.nfts[i].toks.get(t) == Some(&by) && self.locked(i, *t).is_none()))?;
			},
			C::S(i) => self.reserve(by, i, &s.toks)?,
		}
		ok(s.dur != Some(0))?;
		let close = self.now.saturating_add(s.dur.unwrap_or(64_800));
		self.list.insert(self.next_list, Listing { auction, asset: PAY[s.asset as usize], price: s.price, close, seller: by, col: s.col, toks: s.toks.clone(), buyer, roy, bid: None });
		self.next_list += 1;
		Some(())
	}
	/// close a listing and give its tokens back
	fn shut(&mut self, id: u128, why: u8) -> Listing {
		let l = self.list.remove(&id).unwrap();
		if let C::S(i) = l.col {
			self.unreserve(l.seller, i, &l.toks);
		}
		if why < 9 {
			self.ev.push(Ev::Closed(id, why));
		}
		l
	}
	fn deliver(&mut self, l: &Listing, to: u64) -> Ok_ {
		match l.col {
			C::N(i) => self.move_n(l.seller, i, &l.toks.iter().map(|t| t.0).collect::<Vec<_>>(), to),
			C::S(i) => self.move_s(l.seller, i, &l.toks, to),
		}
	}
	fn buy(&mut self, by: u64, id: u128) -> Ok_ {
		let l = self.list.get(&id).filter(|l| !l.auction)?;
		ok(l.buyer.map_or(true, |b| b == by))?;
		let l = self.shut(id, 9);
		// the whole price must be there before anything is paid
		ok(self.bal.get(&(l.asset, by)).copied().unwrap_or(0) >= l.price)?;
		for (w, x) in M::split(&l.roy, l.seller, l.price) {
			if x > 0 {
				self.pay(l.asset, by, w, x)?;
			}
		}
		self.deliver(&l, by)?;
		self.ev.push(Ev::Sold(id, l.price, l.asset, by, l.seller));
		Some(())
	}
	/// pay from what is held
	fn spend(&mut self, a: AssetId, from: u64, r: &Roy, seller: u64, x: u128) {
		*self.held.get_mut(&(a, from)).unwrap() -= x;
		for (w, s) in M::split(r, seller, x) {
			*self.bal.entry((a, w)).or_default() += s;
		}
	}
	fn bid(&mut self, by: u64, id: u128, x: u128) -> Ok_ {
		let l = self.list.get(&id).filter(|l| l.auction)?.clone();
		match l.bid {
			Some((_, b)) => ok(x > b)?,
			None => ok(x >= l.price)?,
		}
		self.hold(l.asset, by, x)?;
		if let Some((w, b)) = l.bid {
			self.free(l.asset, w, b);
		}
		let n = self.now;
		let l = self.list.get_mut(&id).unwrap();
		l.bid = Some((by, x));
		if l.close - n <= 40 {
			l.close = n + 40;
		}
		self.ev.push(Ev::Bid(id, x, by));
		Some(())
	}
	fn accept(&mut self, by: u64, id: u64) -> Ok_ {
		let o = self.offers.get(&id)?.clone();
		ok(self.nfts[o.col].toks.get(&o.serial) == Some(&by))?;
		if let Some(l) = self.locked(o.col, o.serial) {
			ok(self.list[&l].bid.is_none())?;
			let silent = self.list[&l].auction;
			self.shut(l, if silent { 9 } else { 3 });
		}
		let r = self.royalties(C::N(o.col), o.mp)?;
		self.spend(o.asset, o.by, &r, by, o.amount);
		self.move_n(by, o.col, &[o.serial], o.by)?;
		self.offers.remove(&id);
		self.ev.push(Ev::Accepted(id, o.amount));
		Some(())
	}
	/// what happens at the start of a block
	fn due(&mut self) {
		let due: Vec<u128> = self.list.iter().filter(|l| l.1.close == self.now).map(|l| *l.0).collect();
		for id in due {
			let l = self.shut(id, 9);
			match l.bid {
				None => self.ev.push(Ev::Closed(id, 1)),
				Some((w, x)) => {
					let before = self.clone();
					self.spend(l.asset, w, &l.roy, l.seller, x);
					if self.deliver(&l, w).is_some() {
						self.ev.push(Ev::Sold(id, x, l.asset, w, l.seller));
					} else {
						*self = before;
						self.free(l.asset, w, x);
						self.ev.push(Ev::Closed(id, 2));
					}
				},
			}
		}
	}
}
struct World {
	c: Chain,
	m: M,
	mark: usize,
	prop: String,
}
type N = (AccountId, Vec<u8>, MetadataScheme, Option<RoyaltiesSchedule<AccountId>>, Option<u32>, OriginChain, u32, u32, bool, Vec<(AccountId, Vec<u32>)>);
type S = (Vec<u8>, Option<u128>, u128, Vec<(AccountId, (u128, u128))>);

impl World {
	fn who(&self, a: &AccountId) -> u64 {
		(0..=USERS).chain(SIDE).find(|n| acc(*n) == *a).unwrap_or(if *a == addr(3000) {
			3000
		} else if *a == addr(3001) {
			3001
		} else {
			999
		})
	}
	fn events(&mut self) -> Vec<Ev> {
		let all = self.c.events_since(self.mark);
		self.mark = self.c.event_count();
		all.into_iter()
			.filter_map(|e| {
				Some(match e {
					RuntimeEvent::Nft(e) => {
						use pallet_nft::Event::*;
						match e {
							Mint { collection_id, start, end, owner } => Ev::Mint(collection_id, start, end, self.who(&owner)),
							BridgedMint { collection_id, serial_numbers, owner } => Ev::Bridged(collection_id, serial_numbers.into_inner(), self.who(&owner)),
							Transfer { previous_owner, collection_id, serial_numbers, new_owner } => Ev::Move(self.who(&previous_owner), collection_id, serial_numbers, self.who(&new_owner)),
							Burn { collection_id, serial_number } => Ev::Burn(collection_id, serial_number),
							MintFeePaid { who, payment_asset, payment_amount, .. } => Ev::Paid(self.who(&who), payment_asset, payment_amount),
							_ => return None,
						}
					},
					RuntimeEvent::Sft(e) => {
						use pallet_sft::Event::*;
						match e {
							Mint { collection_id, serial_numbers, balances, owner } => Ev::SMint(collection_id, serial_numbers.into_iter().zip(balances).collect(), self.who(&owner)),
							Transfer { previous_owner, collection_id, serial_numbers, balances, new_owner } => {
								Ev::SMove(self.who(&previous_owner), collection_id, serial_numbers.into_iter().zip(balances).collect(), self.who(&new_owner))
							},
							Burn { collection_id, serial_numbers, balances, owner } => Ev::SBurn(collection_id, serial_numbers.into_iter().zip(balances).collect(), self.who(&owner)),
							MintFeePaid { who, payment_asset, payment_amount, .. } => Ev::Paid(self.who(&who), payment_asset, payment_amount),
							_ => return None,
						}
					},
					RuntimeEvent::Marketplace(e) => {
						use pallet_marketplace::Event::*;
						match e {
							FixedPriceSaleComplete { listing_id, price, payment_asset, buyer, seller, .. } => Ev::Sold(listing_id, price, payment_asset, self.who(&buyer), self.who(&seller)),
							AuctionSold { listing_id, payment_asset, hammer_price, winner, .. } => {
								let s = self.m.list.get(&listing_id).map_or(0, |l| l.seller);
								Ev::Sold(listing_id, hammer_price, payment_asset, self.who(&winner), s)
							},
							FixedPriceSaleClose { listing_id, reason, .. } => Ev::Closed(listing_id, [0, 1, 3][reason.encode()[0] as usize]),
							AuctionClose { listing_id, reason, .. } => Ev::Closed(listing_id, [1, 2, 0][reason.encode()[0] as usize]),
							Bid { listing_id, amount, bidder, .. } => Ev::Bid(listing_id, amount, self.who(&bidder)),
							OfferAccept { offer_id, amount, .. } => Ev::Accepted(offer_id, amount),
							OfferCancel { offer_id, .. } => Ev::Withdrawn(offer_id),
							_ => return None,
						}
					},
					_ => return None,
				})
			})
			.collect()
	}
	fn verify(&mut self) -> Res {
		for (k, n) in self.m.nfts.clone().into_iter().enumerate() {
			let id = n.id;
			let got: N = same(self.c.exec(|| pallet_nft::CollectionInfo::<Runtime>::get(id).unwrap()));
			let mut seen = BTreeMap::new();
			for (w, s) in &got.9 {
				for x in s {
					let old = seen.insert(*x, self.who(w));
					check!("N01", "one-owner", old.is_none(), "token {x} of collection {k} is listed for account {} and again for {old:?}", self.who(w));
				}
			}
			check!("N01", "owners", seen == n.toks, "collection {k}: owners are {}, expected {}", short(&seen), short(&n.toks));
			check_eq!("N01", "issuance", got.7 as usize, n.toks.len(), "issuance of collection {k}");
			check_eq!("N01", "next", got.6, n.next, "next serial number of collection {k}");
			check_eq!("N01", "limits", got.4, n.max, "maximum issuance of collection {k}");
			check_eq!("N01", "collection-owner", self.who(&got.0), n.owner, "owner of collection {k}");
			check_eq!("N01", "royalties", got.3, n.roy.as_ref().map(roy), "royalties of collection {k}");
			let f: [bool; 3] = same(self.c.exec(|| pallet_nft::UtilityFlags::<Runtime>::get(id)));
			check_eq!("N01", "flags", f, n.flags, "utility flags of collection {k}");
			for u in 1..=USERS {
				let mine: Vec<u32> = n.toks.iter().filter(|t| *t.1 == u).map(|t| *t.0).collect();
				let b = self.c.exec(|| rt::Nft::token_balance_of(&acc(u), id));
				check!("N01", "query", b as usize == mine.len(), "account {u} is told it owns {b} tokens of collection {k}, but it owns {}", mine.len());
				// the pages of the list together
				let (mut at, mut all) = (0, vec![]);
				let limit = 1 + (mine.len() as u16 / 3) * 2;
				for _ in 0..mine.len() + 1 {
					let (next, total, page) = self.c.exec(|| rt::Nft::owned_tokens(id, &acc(u), at, limit));
					check!("N01", "query", total as usize == mine.len() && page.len() <= limit as usize, "a page of account {u}'s tokens: {} of {total}", page.len());
					all.extend(page);
					at = next;
					if next == 0 {
						break;
					}
				}
				check!("N01", "query", all == mine, "the pages of account {u}'s tokens of collection {k} are {all:?}, expected {mine:?}");
			}
			for s in n.toks.keys().copied().take(4).chain([n.next, 77]) {
				let g = self.c.exec(|| <rt::Nft as seed_pallet_common::NFTExt>::get_token_owner(&(id, s)));
				check!("N01", "query", g.map(|a| self.who(&a)) == n.toks.get(&s).copied(), "token {s} of collection {k} is said to belong to {g:?}");
			}
		}
		for (k, s) in self.m.sfts.clone().into_iter().enumerate() {
			for (i, t) in s.toks.iter().enumerate() {
				let id = (s.id, i as u32);
				let got: S = same(self.c.exec(|| pallet_sft::TokenInfo::<Runtime>::get(id).unwrap()));
				let mut seen = BTreeMap::new();
				for (w, b) in &got.3 {
					let old = seen.insert(self.who(w), *b);
					check!("N02", "one-entry", old.is_none(), "account {} has two balances of token {i} of SFT collection {k}", self.who(w));
				}
				check!("N02", "balances", seen == t.bal, "token {i} of SFT collection {k}: (free, reserved) are {seen:?}, expected {:?}", t.bal);
				check_eq!("N02", "issuance", got.2, t.issued, "issuance of token {i} of SFT collection {k}");
				let sum: u128 = t.bal.values().map(|b| b.0 + b.1).sum();
				check_eq!("N02", "issuance", sum, t.issued, "sum of all balances of token {i} of SFT collection {k}");
				check_eq!("N02", "limits", got.1, t.max, "maximum issuance of token {i} of SFT collection {k}");
				for u in 1..=USERS {
					let g = self.c.exec(|| rt::Sft::balance_of(&acc(u), id));
					check!("N02", "query", g == t.bal.get(&u).map_or(0, |b| b.0), "account {u} is told it has {g} of token {i} of SFT collection {k}, it has {:?}", t.bal.get(&u));
				}
			}
			let n = self.c.exec(|| pallet_sft::TokenInfo::<Runtime>::iter_keys().filter(|x| x.0 == s.id).count());
			check_eq!("N02", "tokens", n, s.toks.len(), "number of tokens of SFT collection {k}");
		}
		let locks: BTreeMap<(u32, u32), u128> = self.c.exec(|| {
			pallet_nft::TokenLocks::<Runtime>::iter()
				.map(|(t, r)| {
					let seed_primitives::TokenLockReason::Listed(l) = r;
					(t, l)
				})
				.collect()
		});
		let mut want = BTreeMap::new();
		for (id, l) in &self.m.list {
			if let C::N(i) = l.col {
				want.extend(l.toks.iter().map(|t| ((self.m.nfts[i].id, t.0), *id)));
			}
		}
		check!("M01", "locks", locks == want, "locked tokens and their listings are {locks:?}, expected {want:?}");
		use pallet_marketplace as mk;
		let got: BTreeMap<u128, (bool, u128, u32, u64, u32)> = self.c.exec(|| mk::Listings::<Runtime>::iter().collect::<Vec<_>>()).into_iter().map(|(i, l)| (i, match l {
			mk::types::Listing::FixedPrice(l) => (false, l.fixed_price, l.close, self.who(&l.seller), l.tokens.get_collection_id()),
			mk::types::Listing::Auction(l) => (true, l.reserve_price, l.close, self.who(&l.seller), l.tokens.get_collection_id()),
		})).collect();
		let want: BTreeMap<_, _> = self.m.list.iter().map(|(i, l)| (*i, (l.auction, l.price, l.close, l.seller, self.m.id(l.col)))).collect();
		check!("M01", "listings", got == want, "open listings are {got:?}, expected {want:?}");
		let ends: BTreeSet<(u32, u128)> = self.c.exec(|| mk::ListingEndSchedule::<Runtime>::iter().map(|x| (x.0, x.1)).collect());
		let want: BTreeSet<(u32, u128)> = self.m.list.iter().map(|(i, l)| (l.close, *i)).collect();
		check!("M01", "schedule", ends == want, "listings end at {ends:?}, expected {want:?}");
		let open: BTreeSet<(u32, u128)> = self.c.exec(|| mk::OpenCollectionListings::<Runtime>::iter().map(|x| (x.0, x.1)).collect());
		let want: BTreeSet<(u32, u128)> = self.m.list.iter().map(|(i, l)| (self.m.id(l.col), *i)).collect();
		check!("M01", "listings", open == want, "open listings by collection are {open:?}, expected {want:?}");
		let bids: BTreeMap<u128, (AccountId, u128)> = self.c.exec(|| mk::ListingWinningBid::<Runtime>::iter().collect());
		let bids: BTreeMap<u128, (u64, u128)> = bids.into_iter().map(|(i, b)| (i, (self.who(&b.0), b.1))).collect();
		let want: BTreeMap<u128, (u64, u128)> = self.m.list.iter().filter_map(|(i, l)| l.bid.map(|b| (*i, b))).collect();
		check!("M01", "bids", bids == want, "winning bids are {bids:?}, expected {want:?}");
		let offers: BTreeMap<u64, ((u32, u32), AssetId, u128, AccountId)> = self.c.exec(|| {
			mk::Offers::<Runtime>::iter()
				.map(|(i, o)| {
					let mk::types::OfferType::Simple(o) = o;
					(i, (o.token_id, o.asset_id, o.amount, o.buyer))
				})
				.collect()
		});
		let want: BTreeMap<_, _> = self.m.offers.iter().map(|(i, o)| (*i, ((self.m.nfts[o.col].id, o.serial), o.asset, o.amount, acc(o.by)))).collect();
		check!("M01", "offers", offers == want, "open offers are {offers:?}, expected {want:?}");
		let by_tok: BTreeMap<(u32, u32), Vec<u64>> = self.c.exec(|| mk::TokenOffers::<Runtime>::iter().map(|(t, v)| (t, v.into_inner())).collect());
		let mut want: BTreeMap<(u32, u32), Vec<u64>> = BTreeMap::new();
		for (i, o) in &self.m.offers {
			want.entry((self.m.nfts[o.col].id, o.serial)).or_default().push(*i);
		}
		check!("M01", "offers", by_tok == want, "offers by token are {by_tok:?}, expected {want:?}");
		// the reference itself: what is held is exactly the best bids and open offers
		let mut held: BTreeMap<(AssetId, u64), u128> = BTreeMap::new();
		for l in self.m.list.values() {
			if let Some((w, x)) = l.bid {
				*held.entry((l.asset, w)).or_default() += x;
			}
		}
		for o in self.m.offers.values() {
			*held.entry((o.asset, o.by)).or_default() += o.amount;
		}
		for a in PAY {
			for u in (1..=USERS).chain(SIDE).chain([3000, 3001]) {
				let w = addr(u);
				let want = self.m.bal.get(&(a, u)).copied().unwrap_or(0);
				let g = self.c.bal(a, &w);
				check!("M01", "balance", g == want, "account {u} has {g} of asset {a}, expected {want}");
				let h = self.c.exec(|| rt::AssetsExt::hold_balance(&pallet_marketplace_id(), &w, &a));
				let want = held.get(&(a, u)).copied().unwrap_or(0);
				check!("M01", "held", h == want, "account {u} has {h} of asset {a} held, its bids and offers come to {want}");
			}
		}
		Ok(())
	}
	/// run a call against what the reference expects of it
	fn run(&mut self, st: &mut Stats, what: &'static str, step: Step, f: impl FnOnce(&mut M) -> Ok_) -> Result<bool, Violation> {
		let mut m = self.m.clone();
		m.ev.clear();
		m.loose.set(false);
		let want = f(&mut m).is_some();
		let p = self.prop.clone();
		let out = self.c.atomic(&p, "refusal-left-traces", step)?;
		st.op(what, out.is_ok());
		let want = if m.loose.get() { want && out.is_ok() } else { want };
		let p = match what {
			w if w.starts_with("NFT") => "N01",
			w if w.starts_with("SFT") => "N02",
			_ => "M01",
		};
		check!(p, "outcome", out.is_ok() == want, "{what}: {out:?}, expected it to be {}", if want { "accepted" } else { "refused" });
		let got = self.events();
		let ev = if want { m.ev.clone() } else { vec![] };
		check!(p, "events", got == ev, "{what}: reported {got:?}, expected {ev:?}");
		if want {
			self.m = m;
			st.hit(p);
		}
		Ok(want)
	}
	fn block(&mut self, st: &mut Stats, to: Option<u32>) -> Res {
		self.c.end(None)?;
		if let Some(n) = to {
			self.c.skip_to(n);
		}
		st.time(4000);
		self.c.begin(4000);
		self.mark = 0;
		let mut got = self.events();
		self.m.now = self.c.n;
		self.m.ev.clear();
		self.m.due();
		got.sort();
		self.m.ev.sort();
		check!("M01", "closing", got == self.m.ev, "block {}: reported {got:?}, expected {:?}", self.c.n, self.m.ev);
		st.op("block", true);
		for e in got.iter().filter(|e| matches!(e, Ev::Sold(..) | Ev::Closed(..))) {
			st.op(if matches!(e, Ev::Sold(..)) { "auction settled" } else { "listing ended" }, true);
		}
		Ok(())
	}
}
fn short<T: std::fmt::Debug>(t: &T) -> String {
	let s = format!("{t:?}");
	if s.len() > 400 {
		format!("{}…", &s[..400])
	} else {
		s
	}
}
fn pallet_marketplace_id() -> frame_support::PalletId {
	frame_support::PalletId(*b"marketpl")
}
/// accounts of pallets: 3000 owns what nobody claimed, 3001 takes network fees
fn addr(n: u64) -> AccountId {
	use sp_runtime::traits::AccountIdConversion;
	match n {
		3000 => rt::Nft::account_id(),
		3001 => frame_support::PalletId(*b"txfeepot").into_account_truncating(),
		n => acc(n),
	}
}
fn signed(by: u64, c: impl Into<RuntimeCall>) -> Step {
	Step::Call(RawOrigin::Signed(acc(by)), c.into())
}
fn root(is: bool, c: impl Into<RuntimeCall>) -> Step {
	Step::Call(if is { RawOrigin::Root } else { RawOrigin::Signed(acc(1)) }, c.into())
}
fn tokens(m: &M, c: C, t: &[(u32, u128)]) -> pallet_marketplace::types::ListingTokens<Runtime> {
	use pallet_marketplace::types::*;
	match c {
		C::N(i) => ListingTokens::Nft(NftListing { collection_id: m.nfts[i].id, serial_numbers: BoundedVec::truncate_from(t.iter().map(|x| x.0).collect()) }),
		C::S(i) => ListingTokens::Sft(SftListing { collection_id: m.sfts[i].id, serial_numbers: BoundedVec::truncate_from(t.to_vec()) }),
	}
}
impl World {
	fn user(&self, r: &mut Rng) -> u64 {
		r.range(1, USERS)
	}
	fn any(&self, r: &mut Rng) -> u64 {
		if r.chance(1, 3) {
			*r.pick(&SIDE)
		} else {
			r.range(1, USERS)
		}
	}
	fn some_n(&self, r: &mut Rng, col: usize) -> u32 {
		let k: Vec<u32> = self.m.nfts[col].toks.keys().copied().collect();
		if k.is_empty() || r.chance(1, 15) {
			r.below(12) as u32
		} else {
			*r.pick(&k)
		}
	}
	fn some_s(&self, r: &mut Rng, col: usize) -> u32 {
		let x = r.chance(1, 15) as u64;
		r.below(self.m.sfts[col].toks.len() as u64 + x) as u32
	}
	/// tokens mostly held by one account
	fn hand(&self, r: &mut Rng, col: usize) -> (u64, Vec<u32>) {
		let n = &self.m.nfts[col];
		let first = self.some_n(r, col);
		let by = n.toks.get(&first).copied().filter(|_| r.chance(12, 13)).unwrap_or(self.user(r));
		let mut v = vec![first];
		let mine: Vec<u32> = n.toks.iter().filter(|t| *t.1 == by).map(|t| *t.0).collect();
		for _ in 0..r.below(4) {
			if !mine.is_empty() {
				let s = *r.pick(&mine);
				if !v.contains(&s) || r.chance(1, 6) {
					v.push(s);
				}
			}
		}
		if r.chance(1, 30) {
			v.push(self.some_n(r, col));
		}
		(by, v)
	}
	fn hand_s(&self, r: &mut Rng, col: usize) -> (u64, Vec<(u32, u128)>) {
		let mut by = self.user(r);
		if let Some(t) = self.m.sfts[col].toks.first().filter(|t| !t.bal.is_empty() && r.chance(2, 3)) {
			by = *r.pick(&t.bal.keys().copied().collect::<Vec<_>>());
		}
		let mut v = vec![];
		for _ in 0..r.range(1, 3) {
			let s = if r.chance(1, 2) { self.some_s(r, col) } else { 0 };
			let b = self.m.sfts[col].toks.get(s as usize).and_then(|t| t.bal.get(&by)).copied().unwrap_or_default();
			let x = if r.chance(1, 2) { r.amount(&[b.0, b.0 / 2, b.1, b.0 + b.1, 1]) } else { *r.pick(&[b.0, b.0 / 2, b.0 / 4]) };
			v.push((s, x));
		}
		(by, v)
	}
	fn col(&self, r: &mut Rng) -> usize {
		r.below(self.m.nfts.len() as u64) as usize
	}
	fn either(&self, r: &mut Rng) -> C {
		if r.chance(1, 3) {
			C::S(r.below(SFTS as u64) as usize)
		} else {
			C::N(self.col(r))
		}
	}
	fn own(&self, r: &mut Rng, c: C) -> u64 {
		if r.chance(8, 9) && self.m.owner(c) != 3000 {
			self.m.owner(c)
		} else {
			self.user(r)
		}
	}
	fn roy(&self, r: &mut Rng) -> Roy {
		match r.below(8) {
			// adding up to everything or almost
			0 => vec![(self.any(r), 300_000), (self.any(r), 300_000), (self.any(r), 400_000)],
			1 => vec![(self.any(r), 500_000), (self.any(r), 495_000)],
			2 => (0..r.range(4, 8)).map(|_| (self.any(r), r.below(200_000) as u32)).collect(),
			3 => vec![(self.any(r), 1_000_000 - r.below(2) as u32 * 5000)],
			_ => (0..r.below(4)).map(|_| (self.any(r), r.below(250_000) as u32)).collect(),
		}
	}
	fn price(&self, r: &mut Rng) -> u128 {
		if r.chance(1, 3) {
			r.below(12) as u128
		} else {
			r.amount(&[1, 199, 200, 201, 1_000_000, 99_999_999, 1 << 40])
		}
	}
	fn mp(&self, r: &mut Rng) -> Option<u32> {
		if r.chance(1, 2) {
			None
		} else {
			let x = r.chance(1, 8) as u64;
			Some(r.below(self.m.mps.len() as u64 + x) as u32)
		}
	}
	fn sale(&self, r: &mut Rng) -> (u64, Sale) {
		let col = if r.chance(if self.prop == "N02" { 4 } else { 2 }, 6) { C::S(r.below(SFTS as u64) as usize) } else { C::N(self.col(r)) };
		let (by, toks) = match col {
			C::N(i) => {
				let (by, t) = self.hand(r, i);
				(by, t.into_iter().map(|x| (x, 0)).collect())
			},
			C::S(i) => self.hand_s(r, i),
		};
		let toks = if r.chance(1, 40) { vec![] } else { toks };
		let dur = match r.below(10) {
			0 => None,
			1 => Some(0),
			2 => Some(r.range(30, 100) as u32),
			3 => Some(u32::MAX),
			_ => Some(r.range(1, 12) as u32),
		};
		(by, Sale { col, toks, asset: r.below(2) as u8, price: self.price(r), dur, mp: self.mp(r), old: r.chance(1, 2) })
	}
	fn listing(&self, r: &mut Rng, auction: Option<bool>) -> u128 {
		let v: Vec<u128> = self.m.list.iter().filter(|l| auction.map_or(true, |a| a == l.1.auction)).map(|l| *l.0).collect();
		if v.is_empty() || r.chance(1, 15) {
			r.below(self.m.next_list as u64 + 1) as u128
		} else {
			*r.pick(&v)
		}
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "tokens";
	const PROPS: &'static [&'static str] = &["N01", "N02", "M01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-nft", "pallet-sft", "pallet-marketplace", "pallet-assets-ext"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 1_000_000_000, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 6);
		c.asset(100, 18);
		let mut m = M::default();
		for a in PAY {
			for u in 1..=USERS {
				let x = *r.pick(&[0u128, 50, 1000, 100_000_000, 1 << 50, 1 << 100]);
				if x > 0 {
					c.give(a, acc(u), x);
				}
				m.bal.insert((a, u), x);
			}
		}
		let scheme = MetadataScheme::try_from(&b"https://a.b/"[..]).unwrap();
		for k in 0..NFTS {
			let owner = r.range(1, USERS);
			let s = scheme.clone();
			let chain = if k == ETH { OriginChain::Ethereum } else { OriginChain::Root };
			let id = c.exec(|| rt::Nft::do_create_collection(acc(owner), BoundedVec::truncate_from(b"n".to_vec()), 0, None, None, s, None, chain, Default::default()).unwrap());
			let mut next = 0;
			if k != ETH && r.chance(1, 8) {
				// a collection with a long history of minting and burning
				next = CAP - r.range(0, 12) as u32;
				c.exec(|| pallet_nft::CollectionInfo::<Runtime>::mutate(id, |i| i.as_mut().unwrap().next_serial_number = next));
			}
			let mut owner = owner;
			if r.chance(1, 8) {
				// not claimed yet
				owner = 3000;
				c.exec(|| pallet_nft::CollectionInfo::<Runtime>::mutate(id, |i| i.as_mut().unwrap().owner = addr(3000)));
			}
			m.nfts.push(Nft { id, owner, next, flags: [true; 3], eth: k == ETH, ..Default::default() });
		}
		for _ in 0..SFTS {
			let owner = r.range(1, USERS);
			let s = scheme.clone();
			let id = c.exec(|| {
				let id = rt::Nft::next_collection_uuid().unwrap();
				rt::Sft::create_collection(RawOrigin::Signed(acc(owner)).into(), BoundedVec::truncate_from(b"s".to_vec()), None, s, None).unwrap();
				id
			});
			m.sfts.push(Sft { id, owner, flags: [true; 3], ..Default::default() });
		}
		m.fee_to = Some(3001);
		c.begin(4000);
		m.now = c.n;
		let mark = c.event_count();
		World { c, m, mark, prop: if prop == "R01" { "M01".into() } else { prop.into() } }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(30, 160) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let col = self.col(r);
		let sc = r.below(SFTS as u64) as usize;
		let n = matches!(self.prop.as_str(), "N01") as u64;
		let s = matches!(self.prop.as_str(), "N02") as u64;
		let k = matches!(self.prop.as_str(), "M01") as u64;
		let w = [
			8, 2, 2, // blocks, crash
			2 + n, 12 + 6 * n, 4 + 2 * n, 8 + 12 * n, 3 + 4 * n, 1 + n, 1, // NFT
			4 + s, 6 + 12 * s, 5 + 14 * s, 2 + 6 * s, 1 + s, // SFT
			3, 3, 2, 3, 3, // both
			12 + 4 * k, 9 + 4 * k, 2, 10 + 4 * k, 12 + 6 * k, 5, 10 + 3 * k, 2, 8 + 2 * k, 2, 1, 2,
		];
		match r.weighted(&w.map(|x| x as u32)) {
			0 => Op::Block,
			1 => Op::Far { back: r.below(3) as u32 },
			2 => Op::Crash,
			3 => {
				let init = r.below(8) as u32;
				Op::NewNft {
					by: self.user(r),
					init: if r.chance(1, 20) { 1000 + r.below(2) as u32 } else { init },
					max: if r.chance(1, 2) { None } else { Some((init + r.below(10) as u32).saturating_sub(2)) },
					to: if r.chance(1, 2) { None } else { Some(self.user(r)) },
					roy: if r.chance(1, 2) { None } else { Some(self.roy(r)) },
				}
			},
			4 => {
				let by = self.own(r, C::N(col));
				let n = if r.chance(1, 30) { r.range(999, 1001) as u32 } else { r.below(6) as u32 };
				Op::MintN { by, col, n, to: if r.chance(1, 3) { None } else { Some(self.user(r)) } }
			},
			5 => Op::Bridged { to: self.user(r), serials: (0..r.below(4)).map(|_| if r.chance(1, 12) { r.next() as u32 } else { r.below(14) as u32 }).collect() },
			6 => {
				let (by, mut serials) = self.hand(r, col);
				if r.chance(1, 30) {
					serials.clear();
				}
				Op::MoveN { by, col, serials, to: self.user(r) }
			},
			7 => {
				let (by, s) = self.hand(r, col);
				Op::BurnN { by, col, serial: s[0] }
			},
			8 => {
				let n = &self.m.nfts[col];
				let max = (*r.pick(&[n.toks.len() as u32, n.next.min(2000), n.toks.len() as u32 + 3, 0, CAP]) + r.below(3) as u32).saturating_sub(1);
				Op::MaxN { by: self.own(r, C::N(col)), col, max }
			},
			9 => Op::Claim { col, to: self.user(r), root: r.chance(4, 5) },
			10 => {
				let init = r.amount(&[0, 1, 100, 1 << 90, u128::MAX - 5]);
				Op::NewTok {
					by: self.own(r, C::S(sc)),
					col: sc,
					init,
					max: if r.chance(1, 2) { None } else { Some(init.saturating_add(r.below(100) as u128).saturating_sub(2)) },
					to: if r.chance(1, 2) { None } else { Some(self.user(r)) },
				}
			},
			11 => {
				let mut toks = vec![];
				for _ in 0..r.range(1, 3) {
					let s = self.some_s(r, sc);
					let room = self.m.sfts[sc].toks.get(s as usize).map_or(0, |t| t.max.unwrap_or(t.issued.saturating_add(1000)) - t.issued);
					toks.push((s, r.amount(&[1, 10, room, room / 2])));
				}
				Op::MintS { by: self.own(r, C::S(sc)), col: sc, toks, to: if r.chance(1, 3) { None } else { Some(self.user(r)) } }
			},
			12 => {
				let (by, toks) = self.hand_s(r, sc);
				Op::MoveS { by, col: sc, toks: if r.chance(1, 40) { vec![] } else { toks }, to: self.user(r) }
			},
			13 => {
				let (by, toks) = self.hand_s(r, sc);
				Op::BurnS { by, col: sc, toks }
			},
			14 => {
				let serial = self.some_s(r, sc);
				let i = self.m.sfts[sc].toks.get(serial as usize).map_or(0, |t| t.issued);
				Op::MaxS { by: self.own(r, C::S(sc)), col: sc, serial, max: r.amount(&[i, i.saturating_add(50), 0]) }
			},
			15 | 16 => {
				let c = self.either(r);
				let serial = if let C::S(i) = c { self.some_s(r, i).min((self.m.sfts[i].toks.len() as u32).saturating_sub(1)) } else { 0 };
				let by = self.own(r, c);
				if r.chance(1, 2) {
					Op::Public { by, col: c, serial, on: r.chance(3, 4) }
				} else {
					Op::Fee { by, col: c, serial, price: if r.chance(1, 4) { None } else { Some((r.below(2) as u8, self.price(r))) } }
				}
			},
			17 => {
				let c = self.either(r);
				Op::Owner { by: self.own(r, c), col: c, to: self.user(r) }
			},
			18 => {
				let c = self.either(r);
				Op::Flags { by: self.own(r, c), col: c, f: if r.chance(1, 2) { [true; 3] } else { [r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)] } }
			},
			19 => {
				let c = self.either(r);
				Op::Royal { by: self.own(r, c), col: c, roy: self.roy(r) }
			},
			20 => {
				let (by, sale) = self.sale(r);
				Op::Sell { by, sale, buyer: if r.chance(1, 5) { Some(self.user(r)) } else { None } }
			},
			21 => {
				let (by, mut sale) = self.sale(r);
				if r.chance(1, 2) {
					sale.price = r.below(3) as u128;
				}
				Op::Auction { by, sale }
			},
			22 => {
				let k = if r.chance(5, 6) { Some(false) } else { None };
				let id = self.listing(r, k);
				let by = self.m.list.get(&id).map(|l| l.seller).filter(|_| r.chance(6, 7)).unwrap_or(self.user(r));
				Op::Price { by, id, price: self.price(r) }
			},
			23 => {
				let multi = r.chance(1, 3);
				let k = if r.chance(9, 10) { Some(false) } else { None };
				let mut ids = vec![self.listing(r, k)];
				if multi {
					for _ in 0..r.below(4) {
						let id = self.listing(r, Some(false));
						if !ids.contains(&id) || r.chance(1, 10) {
							ids.push(id);
						}
					}
					if r.chance(1, 20) {
						ids.clear();
					}
				}
				let by = ids.first().and_then(|i| self.m.list.get(i)).and_then(|l| l.buyer).filter(|_| r.chance(3, 4)).unwrap_or(self.user(r));
				Op::Buy { by, ids, multi }
			},
			24 => {
				let k = if r.chance(9, 10) { Some(true) } else { None };
				let id = self.listing(r, k);
				let by = self.user(r);
				let (a, best) = self.m.list.get(&id).map_or((XRP, 0), |l| (l.asset, l.bid.map_or(l.price, |b| b.1)));
				let have = self.m.bal.get(&(a, by)).copied().unwrap_or(0);
				let amount = if r.chance(3, 4) { best.saturating_add(r.below(30) as u128) } else { r.amount(&[best, have, have / 2, best.saturating_sub(1)]) };
				Op::Bid { by, id, amount }
			},
			25 => {
				let id = self.listing(r, None);
				let by = self.m.list.get(&id).map(|l| l.seller).filter(|_| r.chance(6, 7)).unwrap_or(self.user(r));
				Op::Cancel { by, id }
			},
			26 => {
				let asset = r.below(2) as u8;
				let by = self.user(r);
				let have = self.m.bal.get(&(PAY[asset as usize], by)).copied().unwrap_or(0);
				Op::Offer { by, col, serial: self.some_n(r, col), amount: if r.chance(1, 8) { r.amount(&[have, have / 2]) } else { self.price(r) }, asset, mp: self.mp(r) }
			},
			27 | 28 => {
				let ids: Vec<u64> = self.m.offers.keys().copied().collect();
				let id = if ids.is_empty() || r.chance(1, 12) { r.below(self.m.next_offer + 1) } else { *r.pick(&ids) };
				let o = self.m.offers.get(&id);
				if r.chance(1, 5) {
					Op::CancelOffer { by: o.map(|o| o.by).filter(|_| r.chance(6, 7)).unwrap_or(self.user(r)), id }
				} else {
					Op::Accept { by: o.and_then(|o| self.m.nfts[o.col].toks.get(&o.serial)).copied().filter(|_| r.chance(9, 10)).unwrap_or(self.user(r)), id }
				}
			},
			29 => Op::Market { by: self.user(r), to: if r.chance(1, 2) { None } else { Some(self.any(r)) }, cut: *r.pick(&[0, 1, 5000, 100_000, 500_000, 1_000_000]) },
			30 => Op::FeeTo { to: if r.chance(1, 3) { None } else { Some(self.any(r)) }, root: r.chance(6, 7) },
			_ => {
				let who = self.user(r);
				Op::Take { who, asset: r.below(2) as u8, leave: r.amount(&[0, 1, 50, 1000]) }
			},
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let n = self.c.n;
		st.note(|| format!("block {n}: {op:?}"));
		// a shortened run may lack the collection
		let col = match op {
			Op::MintN { col, .. } | Op::MoveN { col, .. } | Op::BurnN { col, .. } | Op::MaxN { col, .. } | Op::Claim { col, .. } | Op::Offer { col, .. } => C::N(*col),
			Op::Public { col, .. } | Op::Fee { col, .. } | Op::Owner { col, .. } | Op::Flags { col, .. } | Op::Royal { col, .. } => *col,
			Op::Sell { sale, .. } | Op::Auction { sale, .. } => sale.col,
			_ => C::N(0),
		};
		if matches!(col, C::N(i) if i >= self.m.nfts.len()) {
			return Ok(());
		}
		match op.clone() {
			Op::Block => self.block(st, None)?,
			Op::Far { back } => {
				// to just before the next listing ends
				if let Some(c) = self.m.list.values().map(|l| l.close).min().filter(|c| *c < 3_000_000) {
					let to = c.saturating_sub(back);
					if to > self.c.n + 1 {
						st.count("stretches of blocks skipped");
						self.block(st, Some(to))?;
					} else {
						self.block(st, None)?;
					}
				}
			},
			Op::Crash => {
				st.fault("crash inside a block");
				self.c.crash_and_redo()?;
			},
			Op::NewNft { by, init, max, to, roy: ro } => {
				let id = self.c.exec(|| rt::Nft::next_collection_uuid().unwrap());
				let full = self.m.nfts.len() >= MAX_NFTS;
				if full {
					return Ok(());
				}
				let call = pallet_nft::Call::create_collection {
					name: BoundedVec::truncate_from(b"new".to_vec()),
					initial_issuance: init,
					max_issuance: max,
					token_owner: to.map(acc),
					metadata_scheme: MetadataScheme::try_from(&b"https://x/"[..]).unwrap(),
					royalties_schedule: ro.as_ref().map(roy),
					cross_chain_compatibility: Default::default(),
				};
				self.run(st, "NFT collection", signed(by, call), |m| {
					ok(max.map_or(true, |x| x > 0 && init <= x && x <= CAP) && init <= LIMIT && good(&ro))?;
					let toks = (0..init).map(|s| (s, to.unwrap_or(by))).collect();
					m.nfts.push(Nft { id, owner: by, max, next: init, toks, flags: [true; 3], roy: ro.clone(), ..Default::default() });
					Some(())
				})?;
			},
			Op::MintN { by, col, n, to } => {
				let call = pallet_nft::Call::mint { collection_id: self.m.nfts[col].id, quantity: n, token_owner: to.map(acc) };
				self.run(st, "NFT mint", signed(by, call), |m| {
					let k = m.nfts[col].clone();
					ok(n > 0 && n <= LIMIT && k.flags[2] && !k.eth && (k.owner == by || k.public))?;
					ok(k.next + n <= CAP && k.max.map_or(true, |x| x >= k.next + n))?;
					if let Some((a, p)) = k.price.filter(|_| k.public && k.owner != by) {
						let total = p.saturating_mul(n as u128);
						m.pay(a, by, k.owner, total)?;
						m.ev.push(Ev::Paid(by, a, total));
					}
					let to = to.unwrap_or(by);
					m.nfts[col].toks.extend((k.next..k.next + n).map(|s| (s, to)));
					m.nfts[col].next += n;
					m.ev.push(Ev::Mint(k.id, k.next, k.next + n - 1, to));
					Some(())
				})?;
			},
			Op::Bridged { to, serials } => {
				let id = self.m.nfts[ETH].id;
				let s = serials.clone();
				let step = Step::Fn(std::rc::Rc::new(move || rt::Nft::mint_bridged_token(&acc(to), id, s.clone()).map(|_| ()).map_err(|e| e.1)));
				self.run(st, "NFT bridged", step, |m| {
					let new: BTreeSet<u32> = serials.iter().copied().filter(|s| !m.nfts[ETH].toks.contains_key(s)).collect();
					if !serials.is_empty() {
						m.ev.push(Ev::Bridged(id, new.iter().copied().collect(), to));
					}
					m.nfts[ETH].toks.extend(new.into_iter().map(|s| (s, to)));
					Some(())
				})?;
			},
			Op::MoveN { by, col, serials, to } => {
				let call = pallet_nft::Call::transfer { collection_id: self.m.nfts[col].id, serial_numbers: BoundedVec::truncate_from(serials.clone()), new_owner: acc(to) };
				self.run(st, "NFT transfer", signed(by, call), |m| m.move_n(by, col, &serials, to))?;
			},
			Op::BurnN { by, col, serial } => {
				let call = pallet_nft::Call::burn { token_id: (self.m.nfts[col].id, serial) };
				self.run(st, "NFT burn", signed(by, call), |m| {
					ok(m.locked(col, serial).is_none())?;
					let k = &mut m.nfts[col];
					ok(k.flags[1] && k.toks.get(&serial) == Some(&by))?;
					k.toks.remove(&serial);
					m.ev.push(Ev::Burn(k.id, serial));
					Some(())
				})?;
			},
			Op::MaxN { by, col, max } => {
				let call = pallet_nft::Call::set_max_issuance { collection_id: self.m.nfts[col].id, max_issuance: max };
				// what comes over the bridge is not the owner's to limit
				if col == ETH {
					return Ok(());
				}
				self.run(st, "NFT maximum", signed(by, call), |m| {
					let k = &mut m.nfts[col];
					ok(max > 0 && k.owner == by && k.max.is_none() && k.toks.len() as u32 <= max)?;
					k.max = Some(max);
					Some(())
				})?;
			},
			Op::Claim { col, to, root: is } => {
				let call = pallet_nft::Call::claim_unowned_collection { collection_id: self.m.nfts[col].id, new_owner: acc(to) };
				self.run(st, "NFT claim", root(is, call), |m| {
					ok(is && m.nfts[col].owner == 3000)?;
					m.nfts[col].owner = to;
					Some(())
				})?;
			},
			Op::NewTok { by, col, init, max, to } => {
				if self.m.sfts[col].toks.len() >= 6 {
					return Ok(());
				}
				let call = pallet_sft::Call::create_token { collection_id: self.m.sfts[col].id, token_name: BoundedVec::truncate_from(b"t".to_vec()), initial_issuance: init, max_issuance: max, token_owner: to.map(acc) };
				self.run(st, "SFT token", signed(by, call), |m| {
					let k = &mut m.sfts[col];
					ok(k.owner == by && max.map_or(true, |x| x > 0 && init <= x))?;
					let bal = if init > 0 { [(to.unwrap_or(by), (init, 0))].into() } else { BTreeMap::new() };
					k.toks.push(STok { max, issued: init, bal, ..Default::default() });
					Some(())
				})?;
			},
			Op::MintS { by, col, toks, to } => {
				let call = pallet_sft::Call::mint { collection_id: self.m.sfts[col].id, serial_numbers: BoundedVec::truncate_from(toks.clone()), token_owner: to.map(acc) };
				self.run(st, "SFT mint", signed(by, call), |m| {
					let (owner, id) = (m.sfts[col].owner, m.sfts[col].id);
					ok(m.sfts[col].flags[2] && !toks.is_empty())?;
					let to = to.unwrap_or(by);
					for (s, q) in &toks {
						let t = m.sfts[col].toks.get(*s as usize)?.clone();
						ok(*q > 0 && (owner == by || t.public))?;
						if let Some((a, p)) = t.price.filter(|_| owner != by) {
							let total = p.saturating_mul(*q);
							m.pay(a, by, owner, total)?;
							m.ev.push(Ev::Paid(by, a, total));
						}
						let t = &mut m.sfts[col].toks[*s as usize];
						t.issued = t.issued.checked_add(*q)?;
						ok(t.max.map_or(true, |x| t.issued <= x))?;
						t.bal.entry(to).or_default().0 += q;
					}
					m.ev.push(Ev::SMint(id, toks.clone(), to));
					Some(())
				})?;
			},
			Op::MoveS { by, col, toks, to } => {
				let call = pallet_sft::Call::transfer { collection_id: self.m.sfts[col].id, serial_numbers: BoundedVec::truncate_from(toks.clone()), new_owner: acc(to) };
				self.run(st, "SFT transfer", signed(by, call), |m| m.move_s(by, col, &toks, to))?;
			},
			Op::BurnS { by, col, toks } => {
				let call = pallet_sft::Call::burn { collection_id: self.m.sfts[col].id, serial_numbers: BoundedVec::truncate_from(toks.clone()) };
				self.run(st, "SFT burn", signed(by, call), |m| {
					ok(!toks.is_empty() && m.sfts[col].flags[1])?;
					for (s, q) in &toks {
						ok(*q > 0)?;
						let t = m.sfts[col].toks.get_mut(*s as usize)?;
						let b = t.bal.get_mut(&by)?;
						b.0 = b.0.checked_sub(*q)?;
						if *b == (0, 0) {
							t.bal.remove(&by);
						}
						t.issued -= q;
					}
					m.ev.push(Ev::SBurn(m.sfts[col].id, toks.clone(), by));
					Some(())
				})?;
			},
			Op::MaxS { by, col, serial, max } => {
				let call = pallet_sft::Call::set_max_issuance { token_id: (self.m.sfts[col].id, serial), max_issuance: max };
				self.run(st, "SFT maximum", signed(by, call), |m| {
					ok(max > 0 && m.sfts[col].owner == by)?;
					let t = m.sfts[col].toks.get_mut(serial as usize)?;
					ok(t.max.is_none() && t.issued <= max)?;
					t.max = Some(max);
					Some(())
				})?;
			},
			Op::Public { by, col, serial, on } => {
				let id = self.m.id(col);
				let step = match col {
					C::N(_) => signed(by, pallet_nft::Call::toggle_public_mint { collection_id: id, enabled: on }),
					C::S(_) => signed(by, pallet_sft::Call::toggle_public_mint { token_id: (id, serial), enabled: on }),
				};
				if matches!(col, C::S(i) if self.m.sfts[i].toks.len() <= serial as usize) {
					return Ok(());
				}
				self.run(st, if matches!(col, C::N(_)) { "NFT public mint" } else { "SFT public mint" }, step, |m| {
					ok(m.owner(col) == by)?;
					match col {
						C::N(i) => m.nfts[i].public = on,
						C::S(i) => m.sfts[i].toks[serial as usize].public = on,
					}
					Some(())
				})?;
			},
			Op::Fee { by, col, serial, price } => {
				let id = self.m.id(col);
				let p = price.map(|(a, x)| (PAY[a as usize], x));
				let step = match col {
					C::N(_) => signed(by, pallet_nft::Call::set_mint_fee { collection_id: id, pricing_details: p }),
					C::S(_) => signed(by, pallet_sft::Call::set_mint_fee { token_id: (id, serial), pricing_details: p }),
				};
				if matches!(col, C::S(i) if self.m.sfts[i].toks.len() <= serial as usize) {
					return Ok(());
				}
				self.run(st, if matches!(col, C::N(_)) { "NFT mint fee" } else { "SFT mint fee" }, step, |m| {
					ok(m.owner(col) == by)?;
					match col {
						C::N(i) => m.nfts[i].price = p,
						C::S(i) => m.sfts[i].toks[serial as usize].price = p,
					}
					Some(())
				})?;
			},
			Op::Owner { by, col, to } => {
				let id = self.m.id(col);
				let (what, step) = match col {
					C::N(_) => ("NFT owner", signed(by, pallet_nft::Call::set_owner { collection_id: id, new_owner: acc(to) })),
					C::S(_) => ("SFT owner", signed(by, pallet_sft::Call::set_owner { collection_id: id, new_owner: acc(to) })),
				};
				self.run(st, what, step, |m| {
					ok(m.owner(col) == by)?;
					match col {
						C::N(i) => m.nfts[i].owner = to,
						C::S(i) => m.sfts[i].owner = to,
					}
					Some(())
				})?;
			},
			Op::Flags { by, col, f } => {
				let id = self.m.id(col);
				let (what, step) = match col {
					C::N(_) => ("NFT flags", signed(by, pallet_nft::Call::set_utility_flags { collection_id: id, utility_flags: flags(f) })),
					C::S(_) => ("SFT flags", signed(by, pallet_sft::Call::set_utility_flags { collection_id: id, utility_flags: flags(f) })),
				};
				self.run(st, what, step, |m| {
					ok(m.owner(col) == by)?;
					match col {
						C::N(i) => m.nfts[i].flags = f,
						C::S(i) => m.sfts[i].flags = f,
					}
					Some(())
				})?;
			},
			Op::Royal { by, col, roy: ro } => {
				let id = self.m.id(col);
				let (what, step) = match col {
					C::N(_) => ("NFT royalties", signed(by, pallet_nft::Call::set_royalties_schedule { collection_id: id, royalties_schedule: roy(&ro) })),
					C::S(_) => ("SFT royalties", signed(by, pallet_sft::Call::set_royalties_schedule { collection_id: id, royalties_schedule: roy(&ro) })),
				};
				self.run(st, what, step, |m| {
					let ro = Some(ro);
					ok(m.owner(col) == by && good(&ro))?;
					match col {
						C::N(i) => m.nfts[i].roy = ro,
						C::S(i) => m.sfts[i].roy = ro,
					}
					Some(())
				})?;
			},
			Op::Sell { by, sale: s, buyer } => {
				let (a, id) = (PAY[s.asset as usize], self.m.id(s.col));
				let tk = tokens(&self.m, s.col, &s.toks);
				use pallet_marketplace::{types::ListingTokens, Call};
				let step = match tk {
					ListingTokens::Nft(n) if s.old => signed(by, Call::sell_nft { collection_id: id, serial_numbers: n.serial_numbers, buyer: buyer.map(acc), payment_asset: a, fixed_price: s.price, duration: s.dur, marketplace_id: s.mp }),
					tokens => signed(by, Call::sell { tokens, buyer: buyer.map(acc), payment_asset: a, fixed_price: s.price, duration: s.dur, marketplace_id: s.mp }),
				};
				self.run(st, "sell", step, |m| m.open(by, &s, buyer, false))?;
			},
			Op::Auction { by, sale: s } => {
				let (a, id) = (PAY[s.asset as usize], self.m.id(s.col));
				let tk = tokens(&self.m, s.col, &s.toks);
				use pallet_marketplace::{types::ListingTokens, Call};
				let step = match tk {
					ListingTokens::Nft(n) if s.old => signed(by, Call::auction_nft { collection_id: id, serial_numbers: n.serial_numbers, payment_asset: a, reserve_price: s.price, duration: s.dur, marketplace_id: s.mp }),
					tokens => signed(by, Call::auction { tokens, payment_asset: a, reserve_price: s.price, duration: s.dur, marketplace_id: s.mp }),
				};
				self.run(st, "auction", step, |m| m.open(by, &s, None, true))?;
			},
			Op::Price { by, id, price } => {
				let call = pallet_marketplace::Call::update_fixed_price { listing_id: id, new_price: price };
				self.run(st, "new price", signed(by, call), |m| {
					let l = m.list.get_mut(&id).filter(|l| !l.auction && l.seller == by)?;
					l.price = price;
					Some(())
				})?;
			},
			Op::Buy { by, ids, multi } => {
				let step = if multi {
					signed(by, pallet_marketplace::Call::buy_multi { listing_ids: BoundedVec::truncate_from(ids.clone()) })
				} else {
					signed(by, pallet_marketplace::Call::buy { listing_id: ids[0] })
				};
				self.run(st, if multi { "buy several" } else { "buy" }, step, |m| {
					for i in ids {
						m.buy(by, i)?;
					}
					Some(())
				})?;
			},
			Op::Bid { by, id, amount } => {
				self.run(st, "bid", signed(by, pallet_marketplace::Call::bid { listing_id: id, amount }), |m| m.bid(by, id, amount))?;
			},
			Op::Cancel { by, id } => {
				self.run(st, "cancel sale", signed(by, pallet_marketplace::Call::cancel_sale { listing_id: id }), |m| {
					m.list.get(&id).filter(|l| l.seller == by && l.bid.is_none())?;
					m.shut(id, 0);
					Some(())
				})?;
			},
			Op::Offer { by, col, serial, amount, asset, mp } => {
				let a = PAY[asset as usize];
				let call = pallet_marketplace::Call::make_simple_offer { token_id: (self.m.nfts[col].id, serial), amount, asset_id: a, marketplace_id: mp };
				self.run(st, "offer", signed(by, call), |m| {
					ok(amount > 0 && *m.nfts[col].toks.get(&serial)? != by)?;
					ok(m.locked(col, serial).map_or(true, |l| !m.list[&l].auction))?;
					ok(m.offers.values().filter(|o| (o.col, o.serial) == (col, serial)).count() < 100)?;
					m.hold(a, by, amount)?;
					m.offers.insert(m.next_offer, Offer { col, serial, asset: a, amount, by, mp });
					m.next_offer += 1;
					Some(())
				})?;
			},
			Op::CancelOffer { by, id } => {
				self.run(st, "cancel offer", signed(by, pallet_marketplace::Call::cancel_offer { offer_id: id }), |m| {
					let o = m.offers.get(&id).filter(|o| o.by == by)?.clone();
					m.free(o.asset, by, o.amount);
					m.offers.remove(&id);
					m.ev.push(Ev::Withdrawn(id));
					Some(())
				})?;
			},
			Op::Accept { by, id } => {
				self.run(st, "accept offer", signed(by, pallet_marketplace::Call::accept_offer { offer_id: id }), |m| m.accept(by, id))?;
			},
			Op::Market { by, to, cut } => {
				let call = pallet_marketplace::Call::register_marketplace { marketplace_account: to.map(acc), entitlement: Permill::from_parts(cut) };
				self.run(st, "register marketplace", signed(by, call), |m| {
					m.mps.push((to.unwrap_or(by), cut));
					Some(())
				})?;
			},
			Op::FeeTo { to, root: is } => {
				self.run(st, "fee receiver", root(is, pallet_marketplace::Call::set_fee_to { fee_to: to.map(acc) }), |m| {
					ok(is)?;
					m.fee_to = to;
					Some(())
				})?;
			},
			Op::Take { who, asset, leave } => {
				// an account runs low
				let a = PAY[asset as usize];
				let x = self.m.bal.get(&(a, who)).copied().unwrap_or(0);
				if x > leave {
					let d = x - leave;
					self.c
						.run(move || {
							use frame_support::traits::{fungibles::Mutate, tokens::Preservation};
							<rt::AssetsExt as Mutate<_>>::transfer(a, &acc(who), &acc(2003), d, Preservation::Expendable).map(|_| ())
						})
						.map_err(|e| viol("M01", "transfer", format!("{e:?}")))?;
					self.m.bal.insert((a, who), leave);
					*self.m.bal.entry((a, 2003)).or_default() += d;
				}
				self.mark = self.c.event_count();
			},
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		self.verify()
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// every listing reaches its end, then every offer is withdrawn: nothing may stay locked or held
		while let Some(c) = self.m.list.values().map(|l| l.close).filter(|c| *c < u32::MAX).min() {
			self.block(st, Some(c))?;
			self.verify()?;
		}
		let rest: Vec<u128> = self.m.list.keys().copied().collect();
		for id in rest {
			let by = self.m.list[&id].seller;
			if self.m.list[&id].bid.is_none() {
				self.apply(&Op::Cancel { by, id }, st)?;
			}
		}
		let rest: Vec<u64> = self.m.offers.keys().copied().collect();
		for id in rest {
			let by = self.m.offers[&id].by;
			self.apply(&Op::CancelOffer { by, id }, st)?;
		}
		self.c.end(None).map(|_| ())
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn rule() -> &'static str {
		"an evaluation counts when a call of the property's part was accepted and all balances, owners, locks and events compared"
	}
}
/// royalties a collection may have
fn good(r: &Option<Roy>) -> bool {
	r.as_ref().map_or(true, |r| !r.is_empty() && r.len() <= 6 && r.iter().map(|x| x.1.min(1_000_000)).sum::<u32>() <= 1_000_000)
}
fn main() {
	simkit::main::<World>()
}
