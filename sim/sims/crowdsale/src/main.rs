//! Crowdsales (C01) against an executable reference.
use frame_support::BoundedVec;
use frame_system::RawOrigin;
use pallet_crowdsale::{types::SaleStatus, Event as CE};
use rt::chain::*;
use rt::{Runtime, RuntimeCall, RuntimeEvent};
use seed_primitives::{AccountId, AssetId, MetadataScheme, OriginChain};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::U256;
use std::collections::BTreeMap;
simkit::interpose!();

const USERS: u64 = 6;
const CROWD: u64 = 100;
const PAY: [AssetId; 4] = [XRP, 100, 101, ROOT];
const COLS: usize = 6;
const UNIT: u128 = 1_000_000;
const JAM: u64 = 1 << 40;
const VAULT: u64 = 5000;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block,
	/// up to the end block of a sale
	Far { back: u32 },
	Crash,
	Fork,
	Init { by: u64, asset: u8, col: usize, price: u128, dur: u32 },
	Enable { by: u64, sale: u64 },
	Join { by: u64, sale: u64, amount: u128 },
	/// many small contributions
	Crowd { sale: u64, from: u64, n: u64, each: u128 },
	Claim { by: u64, sale: u64 },
	Redeem { by: u64, sale: u64, n: u32 },
	Distribute,
	Force { by: u64, sale: u64 },
	/// two thousand other sales are waiting, or no more
	Jam(bool),
	Vault { by: u64, sale: u64, what: u8 },
	Give { by: u64, to: u64, sale: u64, amount: u128 },
	/// spends a payment asset
	Spend { by: u64, to: u64, asset: u8, amount: u128 },
	Mint { by: u64, col: usize, n: u32 },
	Burn { by: u64, col: usize },
	Public { by: u64, col: usize, on: bool },
	MaxN { by: u64, col: usize, max: u32 },
	Mintable { by: u64, col: usize, on: bool },
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
	Created(u64),
	Enabled(u64, u32),
	Joined(u64, u64, AssetId, u128),
	Redeemed(u64, u64, u32, u32),
	Closed(u64),
	Manual(u64, u64),
	Claimed(u64, u64, u128),
	Complete(u64, u128),
	Proxied(u64, u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum S {
	Pending,
	Enabled,
	Paying(u128),
	Ended,
	Failed,
}
#[derive(Clone, Debug)]
struct Sale {
	admin: u64,
	asset: AssetId,
	col: usize,
	price: u128,
	dur: u32,
	raised: u128,
	st: S,
	at: u32,
	contrib: BTreeMap<u64, u128>,
	joined: u64,
	vid: AssetId,
}
#[derive(Clone, Default, Debug)]
struct Col {
	id: u32,
	owner: u64,
	max: Option<u32>,
	toks: BTreeMap<u32, u64>,
	next: u32,
	public: bool,
	mintable: bool,
	eth: bool,
}
#[derive(Clone, Default)]
struct M {
	now: u32,
	bal: BTreeMap<(AssetId, u64), u128>,
	sales: Vec<Sale>,
	cols: Vec<Col>,
	ends: BTreeMap<u32, Vec<u64>>,
	queue: Vec<u64>,
	jam: bool,
	/// places left in the list while it is jammed
	room: u32,
	/// sales behind those
	late: Vec<u64>,
	ev: Vec<Ev>,
}
type Ok_ = Option<()>;
fn ok(b: bool) -> Ok_ {
	b.then_some(())
}
impl M {
	fn b(&self, a: AssetId, w: u64) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn mv(&mut self, a: AssetId, f: u64, t: u64, x: u128) -> Ok_ {
		let had = self.b(a, f);
		ok(had >= x)?;
		self.bal.insert((a, f), had - x);
		*self.bal.entry((a, t)).or_default() += x;
		Some(())
	}
	fn mint(&mut self, by: u64, col: usize, n: u32, to: u64) -> Ok_ {
		let c = &mut self.cols[col];
		ok(n > 0 && n <= 1000 && c.mintable && !c.eth && (c.owner == by || c.public))?;
		ok(c.max.map_or(true, |m| c.next as u64 + n as u64 <= m as u64))?;
		for _ in 0..n {
			c.toks.insert(c.next, to);
			c.next += 1;
		}
		Some(())
	}
	/// vouchers due for a contribution
	fn due(&self, s: &Sale, x: u128) -> u128 {
		let max = U256::from(self.cols[s.col].max.unwrap());
		let c = U256::from(x) * U256::from(UNIT);
		let v = if U256::from(s.raised) > U256::from(s.price) * max { c * max / U256::from(s.raised) } else { c / U256::from(s.price) };
		v.as_u128()
	}
	fn append(&mut self, id: u64) -> bool {
		if self.jam && self.room == 0 {
			return false;
		}
		self.room = self.room.saturating_sub(1);
		self.queue.push(id);
		if self.jam {
			self.late.push(id);
		}
		true
	}
	/// closes the sales whose end has come
	fn close(&mut self) {
		for id in self.ends.remove(&self.now).unwrap_or_default() {
			let mut s = self.sales[id as usize].clone();
			let v = VAULT + id;
			self.mv(s.asset, v, s.admin, s.raised).unwrap();
			let max = self.cols[s.col].max.unwrap() as u128;
			if U256::from(s.raised) < U256::from(s.price) * U256::from(max) {
				let sold = (U256::from(s.raised) * U256::from(UNIT) / U256::from(s.price)).as_u128();
				self.mv(s.vid, v, s.admin, max * UNIT - sold).unwrap();
			}
			s.at = self.now;
			s.st = if s.raised == 0 {
				S::Ended
			} else if !self.append(id) {
				S::Failed
			} else {
				S::Paying(0)
			};
			if s.st != S::Failed {
				self.ev.push(Ev::Closed(id));
			}
			self.sales[id as usize] = s;
		}
	}
	/// pays one contributor; false when nothing can be handed over
	fn pay(&mut self, id: u64, who: u64) -> Option<u128> {
		let s = self.sales[id as usize].clone();
		let x = self.sales[id as usize].contrib.remove(&who)?;
		let d = self.due(&s, x);
		// nothing to hand over, and no account to hand it to
		ok(d > 0 || self.b(s.vid, who) > 0)?;
		self.mv(s.vid, VAULT + id, who, d).expect("enough vouchers");
		Some(d)
	}
	fn complete(&mut self, id: u64, total: u128) {
		let (vid, admin) = (self.sales[id as usize].vid, self.sales[id as usize].admin);
		let rest = self.b(vid, VAULT + id);
		self.mv(vid, VAULT + id, admin, rest);
		self.ev.push(Ev::Complete(id, total));
		self.queue.retain(|q| *q != id);
		self.room += 1;
		self.sales[id as usize].st = S::Ended;
	}
}
struct World {
	c: Chain,
	m: M,
	vaults: Vec<AccountId>,
	crowd: u64,
	mark: usize,
	prop: String,
	fork: bool,
}
fn signed(by: u64, c: impl Into<RuntimeCall>) -> Step {
	Step::Call(RawOrigin::Signed(acc(by)), c.into())
}
impl World {
	fn who(&self, a: &AccountId) -> u64 {
		if let Some(i) = self.vaults.iter().position(|v| v == a) {
			return VAULT + i as u64;
		}
		(1..=USERS).chain(CROWD..CROWD + self.crowd).find(|n| acc(*n) == *a).unwrap_or(9999)
	}
	fn addr(&self, n: u64) -> AccountId {
		if n >= VAULT {
			self.vaults[(n - VAULT) as usize]
		} else {
			acc(n)
		}
	}
	fn events(&mut self) -> Vec<Ev> {
		let ev = self.c.events_since(self.mark);
		self.mark = self.c.event_count();
		let mut v = vec![];
		for e in ev {
			let RuntimeEvent::Crowdsale(e) = e else { continue };
			v.push(match e {
				CE::CrowdsaleCreated { sale_id, .. } => Ev::Created(sale_id),
				CE::CrowdsaleEnabled { sale_id, end_block, .. } => Ev::Enabled(sale_id, end_block),
				CE::CrowdsaleParticipated { sale_id, who, asset, amount } => Ev::Joined(sale_id, self.who(&who), asset, amount),
				CE::CrowdsaleNFTRedeemed { sale_id, who, collection_id, quantity } => Ev::Redeemed(sale_id, self.who(&who), collection_id, quantity),
				CE::CrowdsaleClosed { sale_id, .. } => Ev::Closed(sale_id),
				CE::CrowdsaleManualDistribution { sale_id, who, .. } => Ev::Manual(sale_id, self.who(&who)),
				CE::CrowdsaleVouchersClaimed { sale_id, who, amount } => Ev::Claimed(sale_id, self.who(&who), amount),
				CE::CrowdsaleDistributionComplete { sale_id, vouchers_distributed } => Ev::Complete(sale_id, vouchers_distributed),
				CE::VaultCallProxied { sale_id, who, .. } => Ev::Proxied(sale_id, self.who(&who)),
				_ => continue,
			});
		}
		v.sort();
		v
	}
	fn run(&mut self, st: &mut Stats, what: &'static str, step: Step, f: impl FnOnce(&mut M, &mut Chain) -> Ok_) -> Result<bool, Violation> {
		let p = self.prop.clone();
		let out = self.c.atomic(&p, "refusal-left-traces", step)?;
		let mut m = self.m.clone();
		m.ev.clear();
		let want = f(&mut m, &mut self.c).is_some();
		st.op(what, out.is_ok());
		check!("C01", "outcome", out.is_ok() == want, "{what}: {out:?}, expected it to be {}", if want { "accepted" } else { "refused" });
		if want && m.sales.len() > self.m.sales.len() {
			let id = self.m.sales.len() as u64;
			let info = self.c.exec(|| pallet_crowdsale::SaleInfo::<Runtime>::get(id));
			let Some(info) = info else { return Err(viol("C01", "sale-info", format!("sale {id} was not recorded"))) };
			check!("C01", "vault", self.who(&info.vault) == 9999, "sale {id} shares its vault with account {}", self.who(&info.vault));
			self.vaults.push(info.vault);
		}
		let got = self.events();
		let mut ev = if want { m.ev.clone() } else { vec![] };
		ev.sort();
		check!("C01", "events", got == ev, "{what}: reported {got:?}, expected {ev:?}");
		if want {
			self.m = m;
			st.hit("C01");
		}
		Ok(want)
	}
	fn block(&mut self, st: &mut Stats, to: Option<u32>) -> Res {
		self.c.end(None)?;
		if std::mem::take(&mut self.fork) {
			self.c.abandoned_fork(|c| {
				let _ = c.unsigned(pallet_crowdsale::Call::distribute_crowdsale_rewards {});
			});
		}
		if let Some(n) = to.filter(|n| *n > self.c.n + 1) {
			self.c.skip_to(n);
		}
		st.time(4000);
		self.c.begin(4000);
		self.mark = 0;
		self.m.now = self.c.n;
		self.m.ev.clear();
		self.m.close();
		let got = self.events();
		let mut ev = self.m.ev.clone();
		ev.sort();
		check!("C01", "closing", got == ev, "block {}: reported {got:?}, expected {ev:?}", self.c.n);
		st.op("block", true);
		for _ in &ev {
			st.op("sale closed", true);
		}
		Ok(())
	}
	fn distribute(&mut self, st: &mut Stats) -> Result<bool, Violation> {
		let step = Step::Unsigned(pallet_crowdsale::Call::distribute_crowdsale_rewards {}.into());
		let id = self.m.queue.first().copied().filter(|i| !self.m.late.contains(i));
		let crowd: Vec<AccountId> = (1..=USERS).chain(CROWD..CROWD + self.crowd).map(acc).collect();
		let mut few = None;
		let r = self.run(st, "distribute", step, |m, c| {
			let id = id?;
			let left: Vec<u64> = c.exec(|| {
				pallet_crowdsale::SaleParticipation::<Runtime>::iter_prefix(id)
					.map(|(w, _)| crowd.iter().position(|a| *a == w).map_or(9999, |i| if i < USERS as usize { i as u64 + 1 } else { CROWD + i as u64 - USERS }))
					.collect()
			});
			let S::Paying(mut total) = m.sales[id as usize].st else { return None };
			let all: Vec<u64> = m.sales[id as usize].contrib.keys().copied().collect();
			let gone: Vec<u64> = all.iter().filter(|w| !left.contains(w)).copied().collect();
			few = Some((all.len(), gone.len()));
			for w in gone {
				if let Some(d) = m.pay(id, w) {
					m.ev.push(Ev::Claimed(id, w, d));
					total += d;
				}
			}
			m.sales[id as usize].at = m.now;
			m.sales[id as usize].st = S::Paying(total);
			if m.sales[id as usize].contrib.is_empty() {
				m.complete(id, total);
			}
			Some(())
		})?;
		if let (true, Some((all, gone))) = (r, few) {
			check!("C01", "progress", gone == all.min(100), "{gone} of {all} contributors were served by one distribution");
		}
		Ok(r)
	}
	fn verify(&mut self) -> Res {
		let m = self.m.clone();
		let who: Vec<(u64, AccountId)> = (1..=USERS).chain(CROWD..CROWD + self.crowd).chain(VAULT..VAULT + self.vaults.len() as u64).map(|n| (n, self.addr(n))).collect();
		let assets: Vec<AssetId> = PAY.into_iter().chain(m.sales.iter().map(|s| s.vid)).collect();
		let got: Vec<(AssetId, u64, u128)> = self.c.exec(|| assets.iter().flat_map(|a| who.iter().map(|(n, w)| (*a, *n, free(*a, w)))).collect());
		for (a, w, x) in got {
			check!("C01", "balances", x == m.b(a, w), "account {w} has {x} of asset {a}, expected {}", m.b(a, w));
		}
		for (i, s) in m.sales.iter().enumerate() {
			let id = i as u64;
			let got = self.c.exec(|| pallet_crowdsale::SaleInfo::<Runtime>::get(id).unwrap());
			let status = match s.st {
				S::Pending => SaleStatus::Pending(s.at),
				S::Enabled => SaleStatus::Enabled(s.at),
				S::Paying(x) => SaleStatus::Distributing(s.at, x),
				S::Ended => SaleStatus::Ended(s.at),
				S::Failed => SaleStatus::DistributionFailed(s.at),
			};
			check_eq!("C01", "status", got.status, status, "status of sale {id}");
			check_eq!("C01", "raised", got.funds_raised, s.raised, "funds raised by sale {id}");
			check_eq!("C01", "contributors", got.participant_count, s.joined, "number of contributors to sale {id}");
			check!(
				"C01",
				"terms",
				(self.who(&got.admin), got.payment_asset_id, got.soft_cap_price, got.voucher_asset_id, got.reward_collection_id, got.duration)
					== (s.admin, s.asset, s.price, s.vid, m.cols[s.col].id, s.dur),
				"the terms of sale {id} changed: {got:?}"
			);
			let seen: Vec<(AccountId, u128)> = self.c.exec(|| pallet_crowdsale::SaleParticipation::<Runtime>::iter_prefix(id).collect());
			let seen: BTreeMap<u64, u128> = seen.into_iter().map(|(a, x)| (self.who(&a), x)).collect();
			check!("C01", "contributions", seen == s.contrib, "contributions to sale {id} are {seen:?}, expected {:?}", s.contrib);
			let all = self.c.supply(s.vid);
			let held: u128 = m.bal.iter().filter(|b| b.0 .0 == s.vid).map(|b| *b.1).sum();
			check_eq!("C01", "vouchers", all, held, "vouchers of sale {id} in existence");
		}
		let q: Vec<u64> = self.c.exec(|| pallet_crowdsale::SaleDistribution::<Runtime>::get().into_inner());
		let q: Vec<u64> = q.into_iter().filter(|i| *i < JAM).collect();
		check_eq!("C01", "queue", q, m.queue, "sales waiting for distribution");
		let ends: BTreeMap<u32, Vec<u64>> = self.c.exec(|| pallet_crowdsale::SaleEndBlocks::<Runtime>::iter().map(|(b, v)| (b, v.into_inner())).collect());
		check_eq!("C01", "ends", ends, m.ends, "end blocks of sales");
		for (k, c) in m.cols.iter().enumerate() {
			let id = c.id;
			let issued = self.c.exec(|| <rt::Nft as seed_pallet_common::NFTExt>::get_collection_issuance(id).unwrap());
			check_eq!("C01", "tokens", issued, (c.toks.len() as u32, c.max), "issuance of collection {k}");
			let o = self.c.exec(|| <rt::Nft as seed_pallet_common::NFTExt>::get_collection_owner(id).unwrap());
			check_eq!("C01", "owner", self.who(&o), c.owner, "owner of collection {k}");
			for u in 1..=USERS {
				let n = self.c.exec(|| rt::Nft::token_balance_of(&acc(u), id));
				check_eq!("C01", "tokens", n as usize, c.toks.values().filter(|w| **w == u).count(), "tokens of collection {k} owned by account {u}");
			}
		}
		Ok(())
	}
	fn user(&self, r: &mut Rng) -> u64 {
		r.range(1, USERS)
	}
	fn sale(&self, r: &mut Rng, f: impl Fn(&Sale) -> bool) -> u64 {
		let v: Vec<u64> = (0..self.m.sales.len()).filter(|i| f(&self.m.sales[*i])).map(|i| i as u64).collect();
		if v.is_empty() || r.chance(1, 15) {
			let n = self.m.sales.len() as u64;
			r.below(n + 1)
		} else {
			*r.pick(&v)
		}
	}
	fn boss(&self, r: &mut Rng, sale: u64) -> u64 {
		match self.m.sales.get(sale as usize) {
			Some(s) if r.chance(9, 10) => s.admin,
			_ => self.user(r),
		}
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "crowdsale";
	const PROPS: &'static [&'static str] = &["C01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-crowdsale", "pallet-nft", "pallet-assets-ext"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets)", "offchain worker (its transaction is sent at any time)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 1_000_000_000, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 6);
		c.asset(100, 18);
		c.asset(101, 0);
		let mut m = M::default();
		for a in PAY {
			for u in 1..=USERS {
				let x = *r.pick(&[0u128, 50, 1000, 100_000_000, 1 << 50, 1 << 100, 1 << 124]);
				if a == ROOT {
					m.bal.insert((a, u), 1_000_000_000);
				} else if x > 0 {
					c.give(a, acc(u), x);
					m.bal.insert((a, u), x);
				}
			}
		}
		let crowd = if r.chance(1, 12) { r.range(90, 230) } else { 0 };
		for w in CROWD..CROWD + crowd {
			c.give(100, acc(w), 1000);
			m.bal.insert((100, w), 1000);
		}
		let scheme = MetadataScheme::try_from(&b"https://a.b/"[..]).unwrap();
		for _ in 0..COLS {
			let owner = r.range(1, USERS);
			let s = scheme.clone();
			let max = *r.pick(&[Some(1), Some(3), Some(10), Some(50), Some(1500), Some(10), None]);
			let eth = r.chance(1, 25);
			let chain = if eth { OriginChain::Ethereum } else { OriginChain::Root };
			let id = c.exec(|| rt::Nft::do_create_collection(acc(owner), BoundedVec::truncate_from(b"n".to_vec()), 0, max, None, s, None, chain, Default::default()).unwrap());
			m.cols.push(Col { id, owner, max, mintable: true, eth, ..Default::default() });
		}
		c.begin(4000);
		m.now = c.n;
		let mark = c.event_count();
		World { c, m, vaults: vec![], crowd, mark, prop: "C01".into(), fork: false }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 120) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let col = r.below(COLS as u64) as usize;
		let own = if r.chance(7, 8) { self.m.cols[col].owner } else { self.user(r) };
		let own = if own >= VAULT { if r.chance(1, 2) { self.m.sales[(own - VAULT) as usize].admin } else { self.user(r) } } else { own };
		let fresh = self.m.sales.len() < 3;
		let w = [10, 5, 2, 1, if fresh { 14 } else { 4 }, 8, 20, if self.crowd > 0 { 4 } else { 0 }, 8, 10, 9, 3, 1, 3, 4, 4, 2, 1, 1, 1, 1];
		match r.weighted(&w) {
			0 => Op::Block,
			1 => Op::Far { back: r.below(3) as u32 },
			2 => Op::Crash,
			3 => Op::Fork,
			4 => {
				let price = if r.chance(1, 3) { r.below(10) as u128 } else { r.amount(&[1, 5, 1000, 1_000_000, 1_000_003, 1 << 60, 1 << 110, u128::MAX / 3]) };
				let dur = match r.below(12) {
					0 => 0,
					1 => 1_944_000 + r.below(2) as u32,
					2 | 3 => 3,
					_ => r.range(1, 15) as u32,
				};
				let free: Vec<usize> = (0..COLS).filter(|c| self.m.cols[*c].owner < VAULT).collect();
				let col = if free.is_empty() || r.chance(1, 6) { col } else { *r.pick(&free) };
				let own = if self.m.cols[col].owner < VAULT && r.chance(9, 10) { self.m.cols[col].owner } else { self.user(r) };
				let k = r.chance(1, 30) as u64;
				Op::Init { by: own, asset: r.below(4 + k) as u8, col, price, dur }
			},
			5 => {
				let sale = self.sale(r, |s| s.st == S::Pending);
				Op::Enable { by: self.boss(r, sale), sale }
			},
			6 => {
				let sale = self.sale(r, |s| s.st == S::Enabled);
				let by = self.user(r);
				let (have, price, max) = self.m.sales.get(sale as usize).map_or((5, 5, 5), |s| (self.m.b(s.asset, by), s.price, self.m.cols[s.col].max.unwrap_or(1) as u128));
				let goal = price.saturating_mul(max);
				let cap = if self.m.sales.get(sale as usize).map_or(false, |s| s.asset == ROOT) { 1_000_000 } else { u128::MAX };
				let amount = match r.below(4) {
					0 => r.amount(&[have, have / 2, have / 3, 1, 1000]).min(cap),
					1 => *r.pick(&[price, price.saturating_mul(2), goal, goal / 2, goal.saturating_add(1), goal.saturating_sub(1)]),
					2 => r.range(1, 50) as u128,
					_ => goal / (r.range(2, 9) as u128) + r.below(3) as u128,
				};
				Op::Join { by, sale, amount: amount.min(if r.chance(1, 20) { amount } else { have }).min(cap) }
			},
			7 => {
				let from = r.below(self.crowd.max(1));
				Op::Crowd { sale: self.sale(r, |s| s.st == S::Enabled && s.asset == 100), from: CROWD + from / 3, n: self.crowd - from / 3, each: r.range(1, 300) as u128 }
			},
			8 => {
				let sale = self.sale(r, |s| matches!(s.st, S::Paying(_)));
				let by = match self.m.sales.get(sale as usize) {
					Some(s) if !s.contrib.is_empty() && r.chance(4, 5) => *r.pick(&s.contrib.keys().copied().collect::<Vec<_>>()),
					_ => self.user(r),
				};
				Op::Claim { by, sale }
			},
			9 => {
				let sale = self.sale(r, |s| !matches!(s.st, S::Pending | S::Enabled));
				let mut by = self.user(r);
				let mut n = r.below(4) as u32;
				if let Some(s) = self.m.sales.get(sale as usize) {
					let v: Vec<u64> = (1..=USERS).filter(|u| self.m.b(s.vid, *u) >= UNIT).collect();
					if !v.is_empty() {
						by = *r.pick(&v);
						n = (self.m.b(s.vid, by) / UNIT) as u32 + r.below(2) as u32;
						n = *r.pick(&[n, 1, n / 2, n.min(1000), 4295, 4296]);
					}
				}
				Op::Redeem { by, sale, n }
			},
			10 => Op::Distribute,
			11 => Op::Force { by: self.user(r), sale: self.sale(r, |s| s.st == S::Failed) },
			12 => Op::Jam(!self.m.jam),
			13 => {
				let sale = self.sale(r, |_| true);
				Op::Vault { by: self.boss(r, sale), sale, what: r.below(9) as u8 }
			},
			14 => {
				let sale = self.sale(r, |s| !matches!(s.st, S::Pending | S::Enabled));
				let by = self.user(r);
				let have = self.m.sales.get(sale as usize).map_or(0, |s| self.m.b(s.vid, by));
				Op::Give { by, to: self.user(r), sale, amount: r.amount(&[have, have / 2, 1, UNIT]) }
			},
			15 => {
				let (by, asset) = (self.user(r), r.below(3) as u8);
				let have = self.m.b(PAY[asset as usize], by);
				Op::Spend { by, to: self.user(r), asset, amount: *r.pick(&[have, have / 2, have.saturating_sub(7)]) }
			},
			16 => Op::Mint { by: own, col, n: r.below(4) as u32 },
			17 => Op::Burn { by: self.user(r), col },
			18 => Op::Public { by: own, col, on: r.chance(1, 2) },
			19 => Op::MaxN { by: own, col, max: r.below(12) as u32 },
			_ => Op::Mintable { by: own, col, on: r.chance(1, 2) },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		use pallet_crowdsale::Call as CC;
		let known = |s: u64, m: &M| (s as usize) < m.sales.len();
		match op.clone() {
			Op::Block => self.block(st, None)?,
			Op::Far { back } => {
				let now = self.m.now;
				let n = self.m.ends.keys().copied().next().map(|e| e.saturating_sub(back).max(now + 1));
				self.block(st, n.filter(|n| *n < now + 100))?;
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Fork => {
				self.fork = true;
				self.block(st, None)?;
				st.fault("abandoned fork");
			},
			Op::Init { by, asset, col, price, dur } => {
				let a = PAY.get(asset as usize).copied();
				let vid = self.c.exec(|| rt::AssetsExt::next_asset_uuid().unwrap());
				let call = CC::initialize { payment_asset_id: a.unwrap_or(777), collection_id: self.m.cols[col].id, soft_cap_price: price, sale_duration: dur, voucher_name: None, voucher_symbol: None };
				self.run(st, "initialize", signed(by, call), |m, _| {
					let a = a?;
					let c = &mut m.cols[col];
					ok(price > 0 && dur > 0 && dur <= 1_944_000 && c.owner == by && c.toks.is_empty() && !c.public)?;
					// every voucher must be redeemable
					ok(c.next == 0 && c.mintable && !c.eth)?;
					let max = c.max? as u128;
					let id = m.sales.len() as u64;
					c.owner = VAULT + id;
					m.bal.insert((vid, VAULT + id), max * UNIT);
					m.sales.push(Sale { admin: by, asset: a, col, price, dur, raised: 0, st: S::Pending, at: m.now, contrib: Default::default(), joined: 0, vid });
					m.ev.push(Ev::Created(id));
					Some(())
				})?;
			},
			Op::Enable { by, sale } => {
				self.run(st, "enable", signed(by, CC::enable { sale_id: sale }), |m, _| {
					let now = m.now;
					ok(known(sale, m))?;
					let s = &mut m.sales[sale as usize];
					ok(s.st == S::Pending && s.admin == by)?;
					let e = m.ends.entry(now + s.dur).or_default();
					ok(e.len() < 5)?;
					e.push(sale);
					s.st = S::Enabled;
					s.at = now;
					m.ev.push(Ev::Enabled(sale, now + s.dur));
					Some(())
				})?;
			},
			Op::Join { by, sale, amount } => self.join(st, by, sale, amount)?,
			Op::Crowd { sale, from, n, each } => {
				if self.m.sales.get(sale as usize).map_or(false, |s| s.asset == 100) {
					for w in from..(from + n).min(CROWD + self.crowd) {
						self.join(st, w, sale, each)?;
					}
				}
			},
			Op::Claim { by, sale } => {
				self.run(st, "claim", signed(by, CC::claim_voucher { sale_id: sale }), |m, _| {
					ok(known(sale, m))?;
					let S::Paying(total) = m.sales[sale as usize].st else { return None };
					let d = m.pay(sale, by)?;
					m.sales[sale as usize].at = m.now;
					m.sales[sale as usize].st = S::Paying(total + d);
					if m.sales[sale as usize].contrib.is_empty() {
						m.complete(sale, total + d);
					}
					m.ev.push(Ev::Claimed(sale, by, d));
					Some(())
				})?;
			},
			Op::Redeem { by, sale, n } => {
				self.redeem(st, by, sale, n)?;
			},
			Op::Distribute => {
				self.distribute(st)?;
			},
			Op::Force { by, sale } => {
				self.run(st, "force distribution", signed(by, CC::try_force_distribution { sale_id: sale }), |m, _| {
					ok(known(sale, m) && m.sales[sale as usize].st == S::Failed && m.append(sale))?;
					m.sales[sale as usize].st = S::Paying(0);
					m.sales[sale as usize].at = m.now;
					m.ev.push(Ev::Manual(sale, by));
					Some(())
				})?;
			},
			Op::Jam(on) => {
				if on != self.m.jam {
					self.c
						.run(move || {
							pallet_crowdsale::SaleDistribution::<Runtime>::mutate(|v| {
								v.retain(|i| *i < JAM);
								for i in v.len()..if on { 2000 } else { 0 } {
									v.try_push(JAM + i as u64).unwrap();
								}
							});
							Ok(())
						})
						.unwrap();
					self.m.jam = on;
					self.m.room = 0;
					self.m.late.clear();
					st.fault("distribution list full");
				}
			},
			Op::Vault { by, sale, what } => {
				let Some(s) = self.m.sales.get(sale as usize).cloned() else { return Ok(()) };
				let col = self.m.cols[s.col].id;
				let call: RuntimeCall = match what {
					0 => frame_system::Call::remark { remark: vec![1] }.into(),
					1 => pallet_nft::Call::set_name { collection_id: col, name: BoundedVec::truncate_from(b"new".to_vec()) }.into(),
					2 => pallet_nft::Call::mint { collection_id: col, quantity: 1, token_owner: Some(acc(by)) }.into(),
					3 => pallet_nft::Call::set_owner { collection_id: col, new_owner: acc(by) }.into(),
					4 => pallet_assets_ext::Call::transfer { asset_id: s.asset, destination: acc(by), amount: s.raised.max(1), keep_alive: false }.into(),
					5 => pallet_assets_ext::Call::transfer { asset_id: s.vid, destination: acc(by), amount: 1, keep_alive: false }.into(),
					6 => pallet_utility::Call::batch_all { calls: vec![pallet_nft::Call::mint { collection_id: col, quantity: 1, token_owner: Some(acc(by)) }.into()] }.into(),
					7 => pallet_nft::Call::toggle_public_mint { collection_id: col, enabled: true }.into(),
					_ => pallet_assets_ext::Call::mint { asset_id: s.vid, beneficiary: acc(by), amount: UNIT }.into(),
				};
				self.run(st, "vault call", signed(by, CC::proxy_vault_call { sale_id: sale, call: Box::new(call) }), |m, _| {
					ok(s.admin == by && what < 2)?;
					m.ev.push(Ev::Proxied(sale, by));
					Some(())
				})?;
			},
			Op::Give { by, to, sale, amount } => {
				let Some(s) = self.m.sales.get(sale as usize).cloned() else { return Ok(()) };
				let call = pallet_assets_ext::Call::transfer { asset_id: s.vid, destination: acc(to), amount, keep_alive: false };
				if amount > 0 {
					self.run(st, "vouchers transferred", signed(by, call), |m, _| m.mv(s.vid, by, to, amount))?;
				}
			},
			Op::Spend { by, to, asset, amount } => {
				let a = PAY[asset as usize];
				let call = pallet_assets_ext::Call::transfer { asset_id: a, destination: acc(to), amount, keep_alive: false };
				if amount > 0 {
					self.run(st, "payment asset spent", signed(by, call), |m, _| m.mv(a, by, to, amount))?;
				}
			},
			Op::Mint { by, col, n } => {
				let call = pallet_nft::Call::mint { collection_id: self.m.cols[col].id, quantity: n, token_owner: None };
				self.run(st, "NFT mint", signed(by, call), |m, _| m.mint(by, col, n, by))?;
			},
			Op::Burn { by, col } => {
				let Some(s) = self.m.cols[col].toks.iter().find(|t| *t.1 == by).map(|t| *t.0) else { return Ok(()) };
				let call = pallet_nft::Call::burn { token_id: (self.m.cols[col].id, s) };
				self.run(st, "NFT burn", signed(by, call), |m, _| m.cols[col].toks.remove(&s).map(|_| ()))?;
			},
			Op::Public { by, col, on } => {
				let call = pallet_nft::Call::toggle_public_mint { collection_id: self.m.cols[col].id, enabled: on };
				self.run(st, "public mint", signed(by, call), |m, _| {
					ok(m.cols[col].owner == by)?;
					m.cols[col].public = on;
					Some(())
				})?;
			},
			Op::MaxN { by, col, max } => {
				let call = pallet_nft::Call::set_max_issuance { collection_id: self.m.cols[col].id, max_issuance: max };
				self.run(st, "maximum issuance", signed(by, call), |m, _| {
					let c = &mut m.cols[col];
					ok(c.owner == by && max > 0 && max as usize >= c.toks.len() && c.max.is_none())?;
					c.max = Some(max);
					Some(())
				})?;
			},
			Op::Mintable { by, col, on } => {
				let f = seed_pallet_common::utils::CollectionUtilityFlags { transferable: true, burnable: true, mintable: on };
				self.run(st, "mintable", signed(by, pallet_nft::Call::set_utility_flags { collection_id: self.m.cols[col].id, utility_flags: f }), |m, _| {
					ok(m.cols[col].owner == by)?;
					m.cols[col].mintable = on;
					Some(())
				})?;
			},
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		self.verify()
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// no more faults: every enabled sale closes, every contributor is served, every whole voucher redeems
		self.apply(&Op::Jam(false), st)?;
		while let Some(e) = self.m.ends.keys().copied().next().filter(|e| *e < 1_000_000) {
			self.block(st, Some(e))?;
		}
		self.verify()?;
		for i in 0..self.m.sales.len() as u64 {
			if self.m.sales[i as usize].st == S::Failed {
				self.apply(&Op::Force { by: 1, sale: i }, st)?;
			}
		}
		while !self.m.queue.is_empty() {
			if !self.distribute(st)? {
				return Err(viol("C01", "liveness", format!("sales {:?} are never distributed", self.m.queue)));
			}
			self.block(st, None)?;
			self.verify()?;
		}
		for (i, s) in self.m.sales.clone().into_iter().enumerate() {
			for u in 1..=USERS {
				if matches!(s.st, S::Pending | S::Enabled) {
					continue;
				}
				loop {
					let n = (self.m.b(s.vid, u) / UNIT).min(1000) as u32;
					if n == 0 {
						break;
					}
					if !self.redeem(st, u, i as u64, n)? {
						return Err(viol("C01", "redeem", format!("{n} vouchers of sale {i} cannot be redeemed")));
					}
				}
			}
		}
		self.verify()?;
		self.c.end(None).map(|_| ())
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn rule() -> &'static str {
		"an evaluation counts when a crowdsale call was accepted and all balances, contributions, sales and tokens compared"
	}
}
impl World {
	fn join(&mut self, st: &mut Stats, by: u64, sale: u64, amount: u128) -> Res {
		self.run(st, "participate", signed(by, pallet_crowdsale::Call::participate { sale_id: sale, amount }), |m, _| {
			let s = m.sales.get(sale as usize)?.clone();
			ok(amount > 0 && s.st == S::Enabled)?;
			m.mv(s.asset, by, VAULT + sale, amount)?;
			let t = &mut m.sales[sale as usize];
			t.raised += amount;
			t.joined += !t.contrib.contains_key(&by) as u64;
			*t.contrib.entry(by).or_default() += amount;
			m.ev.push(Ev::Joined(sale, by, s.asset, amount));
			Some(())
		})
		.map(|_| ())
	}
	fn redeem(&mut self, st: &mut Stats, by: u64, sale: u64, n: u32) -> Result<bool, Violation> {
		self.run(st, "redeem", signed(by, pallet_crowdsale::Call::redeem_voucher { sale_id: sale, quantity: n }), |m, _| {
			let s = m.sales.get(sale as usize)?.clone();
			ok(n > 0 && matches!(s.st, S::Paying(_) | S::Ended))?;
			let x = n as u128 * UNIT;
			ok(m.b(s.vid, by) >= x)?;
			*m.bal.get_mut(&(s.vid, by)).unwrap() -= x;
			m.mint(VAULT + sale, s.col, n, by)?;
			m.ev.push(Ev::Redeemed(sale, by, m.cols[s.col].id, n));
			Some(())
		})
	}
}
fn main() {
	simkit::main::<World>()
}
