//! ERC20 bridge (P01): deposits through the real message path, withdrawals, delayed payments.
use frame_support::weights::Weight;
use frame_system::RawOrigin;
use pallet_erc20_peg::types::{DelayedPaymentId, WithdrawCallOrigin};
use pallet_erc20_peg::Call;
use rt::chain::*;
use rt::kit::*;
use rt::{AssetsExt, Erc20Peg, Runtime};
use seed_primitives::AssetId;
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::H160;
use std::collections::{BTreeMap, BTreeSet};
simkit::interpose!();

const USERS: u64 = 4;
const TOKENS: u8 = 6;
/// what one payment costs at most, by the pallet's own estimate
const EACH: u64 = 8 * 25_000_000 + 10 * 100_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block { idle: u8, fork: u8 },
	Skip,
	Crash,
	Dep { tok: u8, src: u8, amount: Amt, to: u64, bad: u8 },
	Wd { by: u64, asset: u8, amount: u128, to: u8, evm: bool },
	Bulk { by: u64, asset: u8, count: u16, amount: u128 },
	BulkDep { tok: u8, count: u16, amount: u128 },
	Move { by: u64, asset: u8, to: u64, amount: u128 },
	Delay { asset: u8, min: u128, delay: u32 },
	Flag { k: u8, on: bool },
	Addr { root: bool, k: u8 },
	Map { asset: u8, tok: u8 },
	Meta { tok: u8, dec: u8 },
	Claim { i: u8, wrong: bool },
}
/// deposit amount: hi words make it exceed what the chain can hold
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
struct Amt {
	hi: u64,
	lo: u128,
}
#[derive(Clone, Debug, PartialEq)]
enum Pay {
	Dep { tok: u8, amount: u128, to: u64 },
	Wd { tok: u8, asset: AssetId, amount: u128, to: u8 },
}
#[derive(Clone, Debug)]
struct Due {
	at: u32,
	pay: Pay,
}
#[derive(Clone, Debug)]
struct Msg {
	tok: u8,
	src: u8,
	amount: Amt,
	to: u64,
	bad: u8,
}
#[derive(Clone, Debug, PartialEq)]
struct Out1 {
	dst: H160,
	tok: u8,
	amount: u128,
	to: u8,
}
struct World {
	c: Chain,
	prop: String,
	/// assets in play; 0 is ROOT, 1 an asset that is never mapped
	assets: Vec<AssetId>,
	map: BTreeMap<u8, AssetId>,
	back: BTreeMap<AssetId, u8>,
	meta: BTreeMap<u8, u8>,
	bal: BTreeMap<(AssetId, u64), u128>,
	peg_root: u128,
	supply: BTreeMap<AssetId, u128>,
	flags: [bool; 4],
	addr: [u8; 2],
	delay: BTreeMap<AssetId, (u128, u32)>,
	pend: BTreeMap<DelayedPaymentId, Due>,
	seen_ids: BTreeSet<DelayedPaymentId>,
	msgs: BTreeMap<u32, Vec<Msg>>,
	period: u32,
	next_msg: u64,
	out: Vec<Out1>,
	log_ids: BTreeSet<u64>,
	seen_logs: usize,
	spare: AssetId,
	faults: bool,
}
fn token(k: u8) -> H160 {
	H160::repeat_byte(0x40 + k)
}
fn contract(k: u8) -> H160 {
	H160::repeat_byte(0xa0 + k)
}
fn peg() -> H160 {
	pallet_h160(b"erc20peg")
}
fn dest(k: u8) -> H160 {
	H160::repeat_byte(0x70 + k)
}
fn data(m: &Msg) -> Vec<u8> {
	let mut v = vec![];
	v.extend(aword(token(m.tok)));
	let mut w = word(m.amount.lo);
	w[8..16].copy_from_slice(&m.amount.hi.to_be_bytes());
	v.extend(w);
	v.extend(aword(h160(acc(m.to))));
	match m.bad {
		1 => v.truncate(70),
		2 => v.clear(),
		3 => v.truncate(31),
		_ => {},
	}
	v
}
impl World {
	fn pending_ids(&mut self) -> BTreeSet<DelayedPaymentId> {
		self.c.exec(|| pallet_erc20_peg::DelayedPayments::<Runtime>::iter_keys().collect())
	}
	fn peg_acc(&self) -> seed_primitives::AccountId {
		peg().into()
	}
	/// tokens appear with the beneficiary
	fn mint(&mut self, tok: u8, amount: u128, to: u64) -> bool {
		let a = self.map[&tok];
		if a == ROOT {
			if self.peg_root < amount {
				return false;
			}
			self.peg_root -= amount;
		} else {
			let s = self.supply.entry(a).or_default();
			match s.checked_add(amount) {
				Some(x) => *s = x,
				None => return false,
			}
		}
		*self.bal.entry((a, to)).or_default() += amount;
		true
	}
	/// the asset of a token that arrives for the first time
	fn create(&mut self, tok: u8) -> Res {
		let got = self.c.exec(|| pallet_erc20_peg::Erc20ToAssetId::<Runtime>::get(token(tok)));
		check!("P01", "no-asset", got.is_some(), "a deposit of unknown token {tok} created no asset");
		let a = got.unwrap();
		check!("P01", "asset-reused", !self.assets.contains(&a), "a deposit of unknown token {tok} was given the existing asset {a}");
		use frame_support::traits::fungibles::metadata::Inspect;
		let d = self.c.exec(|| <AssetsExt as Inspect<_>>::decimals(a));
		check_eq!("P01", "decimals", d, self.meta.get(&tok).copied().unwrap_or(18), "decimals of the new asset for token {tok}");
		self.assets.push(a);
		self.map.insert(tok, a);
		self.back.insert(a, tok);
		self.supply.insert(a, 0);
		Ok(())
	}
	/// model of a deposit that the bridge delivers; returns a delayed payment
	fn deliver(&mut self, m: &Msg, st: &mut Stats) -> Result<Option<Due>, Violation> {
		let n = self.c.n;
		let root = m.src == self.addr[1];
		let pegc = m.src == self.addr[0];
		if m.bad > 0 && m.bad < 4 || !(root || pegc) {
			st.count("message refused: malformed or not from the contracts");
			return Ok(None);
		}
		if !self.flags[0] || m.amount.hi > 0 || m.amount.lo == u128::MAX {
			st.count("deposit refused");
			return Ok(None);
		}
		if let Some(a) = self.map.get(&m.tok).copied() {
			if !(if a == ROOT { root } else { pegc }) {
				st.count("deposit refused: wrong contract");
				return Ok(None);
			}
			if let Some((min, d)) = self.delay.get(&a).filter(|d| self.flags[2] && d.0 <= m.amount.lo) {
				let _ = min;
				return Ok(Some(Due { at: n.saturating_add(*d), pay: Pay::Dep { tok: m.tok, amount: m.amount.lo, to: m.to } }));
			}
		} else {
			self.create(m.tok)?;
			st.count("asset created by a deposit");
		}
		st.hit("P01");
		if !self.mint(m.tok, m.amount.lo, m.to) {
			st.count("deposit exceeds what can exist");
		}
		Ok(None)
	}
	/// carry out a payment in the model
	fn execute(&mut self, p: &Pay, st: &mut Stats) -> Res {
		st.hit("P01");
		st.count("delayed payment carried out");
		match p {
			Pay::Dep { tok, amount, to } => {
				if !self.map.contains_key(tok) {
					self.create(*tok)?;
				}
				if !self.mint(*tok, *amount, *to) {
					st.count("deposit exceeds what can exist");
				}
			},
			Pay::Wd { tok, asset, amount, to } => self.send(*tok, *asset, *amount, *to),
		}
		Ok(())
	}
	fn send(&mut self, tok: u8, asset: AssetId, amount: u128, to: u8) {
		let dst = contract(if asset == ROOT { self.addr[1] } else { self.addr[0] });
		self.out.push(Out1 { dst, tok, amount, to });
	}
	/// new delayed payments must be exactly the ones the model wants
	fn adopt(&mut self, want: Vec<Due>) -> Res {
		let ids = self.pending_ids();
		let new: Vec<_> = ids.iter().filter(|i| !self.seen_ids.contains(i)).copied().collect();
		check!("P01", "delayed-payments", new.len() == want.len(), "{} payments were delayed, expected {}: {:?}", new.len(), want.len(), want);
		for (i, d) in new.into_iter().zip(want) {
			self.seen_ids.insert(i);
			self.pend.insert(i, d);
		}
		Ok(())
	}
	/// payments no longer pending were carried out just now
	fn settle(&mut self, early: bool, st: &mut Stats) -> Res {
		let ids = self.pending_ids();
		let gone: Vec<_> = self.pend.keys().filter(|i| !ids.contains(i)).copied().collect();
		let n = self.c.n;
		for i in gone {
			let d = self.pend.remove(&i).unwrap();
			check!("P01", "paid-early", early || d.at <= n, "payment {i} due at block {} was carried out in block {n}", d.at);
			self.execute(&d.pay, st)?;
		}
		Ok(())
	}
	fn begin(&mut self, st: &mut Stats) -> Res {
		self.c.begin(4000);
		st.time(4000);
		let n = self.c.n;
		let mut want = vec![];
		for m in self.msgs.remove(&n).unwrap_or_default() {
			if let Some(d) = self.deliver(&m, st)? {
				want.push(d);
			}
		}
		self.adopt(want)?;
		self.verify(st)
	}
	fn end(&mut self, idle: u8, st: &mut Stats) -> Res {
		let w = match idle {
			0 => None,
			1 => Some(Weight::zero()),
			2 => Some(Weight::from_parts(25_000_001, u64::MAX)),
			k => Some(Weight::from_parts((k as u64 - 2) * EACH / 2, u64::MAX)),
		};
		if w.is_some() {
			st.fault("no or little weight left for idle processing");
		}
		self.c.end(w)?;
		self.settle(false, st)?;
		let l = logs(&self.c.last_digest.clone());
		self.take_logs(l)?;
		self.seen_logs = 0;
		check!("P01", "message-lost", self.out.is_empty(), "withdrawals without an outgoing message: {:?}", self.out);
		self.verify(st)
	}
	fn take_logs(&mut self, l: Vec<Log>) -> Res {
		for x in &l[self.seen_logs.min(l.len())..] {
			if let Log::Sign { eth, id, data } = x {
				check!("P01", "other-request", *eth, "an XRPL signing request out of nowhere");
				check!("P01", "proof-id-reused", self.log_ids.insert(*id), "proof id {id} used twice");
				let p = self.out.iter().position(|o| {
					let mut m = vec![];
					m.extend(aword(token(o.tok)));
					m.extend(word(o.amount));
					m.extend(aword(dest(o.to)));
					eth_digest(peg(), o.dst, &m, 0, *id) == *data
				});
				check!("P01", "unexpected-message", p.is_some(), "outgoing message {id} matches no withdrawal; outstanding: {:?}", self.out);
				self.out.remove(p.unwrap());
			}
		}
		self.seen_logs = l.len();
		Ok(())
	}
	/// messages and balances so far
	fn verify(&mut self, _st: &mut Stats) -> Res {
		if self.c.open {
			let l = self.c.logs();
			self.take_logs(l)?;
			check!("P01", "message-lost", self.out.is_empty(), "withdrawals without an outgoing message: {:?}", self.out);
		}
		let (assets, pa) = (self.assets.clone(), self.peg_acc());
		let got: Vec<(AssetId, u64, u128)> = self.c.exec(|| assets.iter().flat_map(|a| (1..=USERS).map(move |u| (*a, u, free(*a, &acc(u))))).collect());
		for (a, u, b) in got {
			let want = self.bal.get(&(a, u)).copied().unwrap_or(0);
			check!("P01", "balance", b == want, "account {u} holds {b} of asset {a}, expected {want}");
		}
		let sup: Vec<(AssetId, u128)> = self.c.exec(|| assets.iter().map(|a| (*a, supply(*a))).collect());
		for (a, s) in sup {
			check!("P01", "supply", s == self.supply[&a], "{s} of asset {a} exist, expected {}", self.supply[&a]);
		}
		let p = self.c.exec(|| free(ROOT, &pa));
		check!("P01", "locked", p == self.peg_root, "the peg holds {p} ROOT, expected {}", self.peg_root);
		let map: BTreeMap<H160, AssetId> = self.c.exec(|| pallet_erc20_peg::Erc20ToAssetId::<Runtime>::iter().collect());
		let want: BTreeMap<H160, AssetId> = self.map.iter().map(|(t, a)| (token(*t), *a)).collect();
		check!("P01", "mapping", map == want, "token mapping {map:?}, expected {want:?}");
		let map: BTreeMap<AssetId, H160> = self.c.exec(|| pallet_erc20_peg::AssetIdToErc20::<Runtime>::iter().collect());
		let want: BTreeMap<AssetId, H160> = self.back.iter().map(|(a, t)| (*a, token(*t))).collect();
		check!("P01", "mapping", map == want, "asset mapping {map:?}, expected {want:?}");
		Ok(())
	}
	fn withdraw(&mut self, by: u64, asset: u8, amount: u128, to: u8, evm: bool, st: &mut Stats) -> Res {
		let a = self.assets[asset as usize % self.assets.len()];
		let b = self.bal.get(&(a, by)).copied().unwrap_or(0);
		let delayed = self.delay.get(&a).filter(|d| self.flags[3] && d.0 <= amount).map(|d| d.1);
		let may = self.flags[1] && self.back.contains_key(&a) && !(evm && delayed.is_some()) && amount <= b;
		let s = if evm {
			Step::Fn(std::rc::Rc::new(move || Erc20Peg::do_withdrawal(acc(by), a, amount, dest(to), WithdrawCallOrigin::Evm).map(|_| ())))
		} else {
			Step::Call(RawOrigin::Signed(acc(by)), Call::withdraw { asset_id: a, amount, beneficiary: dest(to) }.into())
		};
		let out = self.c.atomic("P01", "refusal-left-traces", s)?;
		st.op("withdraw", out.is_ok());
		if amount > 0 {
			check!("P01", "withdrawal-outcome", out.is_ok() == may, "withdrawal of {amount} of asset {a} by account {by} holding {b}: {out:?}; active {}, mapped {}, delay {delayed:?}", self.flags[1], self.back.contains_key(&a));
		} else if out.is_ok() {
			check!("P01", "withdrawal-outcome", may, "empty withdrawal of asset {a}: {out:?}");
		}
		let mut want = vec![];
		if out.is_ok() {
			st.hit("P01");
			*self.bal.entry((a, by)).or_default() -= amount;
			if a == ROOT {
				self.peg_root += amount;
			} else {
				*self.supply.get_mut(&a).unwrap() -= amount;
			}
			let tok = self.back[&a];
			match delayed {
				Some(d) => want.push(Due { at: self.c.n.saturating_add(d), pay: Pay::Wd { tok, asset: a, amount, to } }),
				None => self.send(tok, a, amount, to),
			}
		}
		self.adopt(want)
	}
	fn due(&self) -> Vec<u32> {
		self.msgs.keys().copied().chain(self.pend.values().map(|d| d.at)).collect()
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "erc20";
	const PROPS: &'static [&'static str] = &["P01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-erc20-peg", "pallet-ethy (messages in, signing requests out)", "pallet-assets-ext", "the runtime's event router and configuration", "seed-primitives"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, assets, balances)", "ethabi", "Ethereum and its contracts", "validators (nobody signs)"];
	fn rule() -> &'static str {
		"an evaluation counts when a deposit was credited, a withdrawal accepted, or a delayed payment carried out"
	}
	fn panic_prop(&self) -> String {
		self.prop.clone()
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn thorough_runs() -> u64 {
		60_000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: *r.pick(&[1_000_000, 1_000_000_000_000]), xrp_each: 1_000_000_000 });
		c.reexec = prop == "R01" || r.chance(1, 4);
		let period = r.range(1, 3) as u32;
		c.bridge(period);
		for a in [100, 101, 102, 103] {
			c.asset(a, 18);
		}
		let mut w = World {
			c,
			prop: prop.into(),
			assets: vec![ROOT, 102, 100, 101],
			map: [(0, ROOT), (1, 100), (2, 101)].into(),
			back: [(ROOT, 0), (100, 1), (101, 2)].into(),
			meta: Default::default(),
			bal: Default::default(),
			peg_root: *r.pick(&[0, 1_000_000_000]),
			supply: Default::default(),
			flags: [true, true, true, true],
			addr: [0, 1],
			delay: Default::default(),
			pend: Default::default(),
			seen_ids: Default::default(),
			msgs: Default::default(),
			period,
			next_msg: 1,
			out: vec![],
			log_ids: Default::default(),
			seen_logs: 0,
			spare: 103,
			faults: !r.chance(1, 6),
		};
		for a in [100, 102] {
			for u in 1..=USERS {
				let x = (r.amount(&[]) >> 8) + 1;
				w.c.give(a, acc(u), x);
			}
		}
		w.c.give(XRP, acc(1), 1);
		if w.peg_root > 0 {
			let p = w.peg_acc();
			w.c.give(ROOT, p, w.peg_root);
		}
		let map = w.map.clone();
		w.c.exec(|| {
			for (t, a) in map {
				Erc20Peg::set_erc20_asset_map(RawOrigin::Root.into(), a, token(t)).unwrap();
			}
			Erc20Peg::set_erc20_peg_address(RawOrigin::Root.into(), contract(0)).unwrap();
			Erc20Peg::set_root_peg_address(RawOrigin::Root.into(), contract(1)).unwrap();
			Erc20Peg::activate_deposits(RawOrigin::Root.into(), true).unwrap();
			Erc20Peg::activate_withdrawals(RawOrigin::Root.into(), true).unwrap();
		});
		for a in w.assets.clone() {
			for u in 1..=USERS {
				let b = w.c.bal(a, &acc(u));
				w.bal.insert((a, u), b);
			}
			let s = w.c.supply(a);
			w.supply.insert(a, s);
		}
		w.c.begin(4000);
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 110) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let f = self.faults as u32;
		let na = self.assets.len() as u64;
		match r.weighted(&[14, 8, 2 * f, 14, 14, 1, 1, 3, 5, 2, 1, 1, 2, 2]) {
			0 => Op::Block { idle: if r.chance(1, 2) { 0 } else { r.below(30) as u8 * f as u8 }, fork: if f > 0 && r.chance(1, 8) { r.range(1, 200) as u8 } else { 0 } },
			1 => Op::Skip,
			2 => Op::Crash,
			3 => {
				let tok = r.below(TOKENS as u64) as u8;
				let a = self.map.get(&tok).copied();
				let s = a.map(|a| self.supply[&a]).unwrap_or(0);
				let min = a.and_then(|a| self.delay.get(&a)).map(|d| d.0).unwrap_or(9);
				// the stand-in's (and Substrate's) transfers need head room in the supply
				let lo = match r.amount(&[min, self.peg_root, u128::MAX]) {
					u128::MAX => u128::MAX,
					x if s < 1 << 122 => x >> x.leading_zeros().min(7).abs_diff(7),
					_ => 1,
				};
				let src = if r.chance(1, 8) { r.below(4) as u8 } else { self.addr[(a == Some(ROOT)) as usize] };
				Op::Dep { tok, src, amount: Amt { hi: if r.chance(1, 20) { r.range(1, 3) } else { 0 }, lo: if lo < u128::MAX && r.chance(2, 3) { lo % 1_000_000_000 } else { lo } }, to: r.range(1, USERS), bad: if r.chance(1, 15) { r.range(1, 3) as u8 } else { 0 } }
			},
			4 => {
				let by = r.range(1, USERS);
				let asset = r.below(na) as u8;
				let a = self.assets[asset as usize];
				let b = self.bal.get(&(a, by)).copied().unwrap_or(0);
				let min = self.delay.get(&a).map(|d| d.0).unwrap_or(9);
				let mut amount = r.amount(&[b, min]);
				if r.chance(1, 2) && b > 10 {
					amount = 1 + (r.next() as u128) % (b / 3);
				}
				Op::Wd { by, asset, amount, to: r.below(4) as u8, evm: r.chance(1, 6) }
			},
			5 => Op::Bulk { by: r.range(1, USERS), asset: r.below(na) as u8, count: *r.pick(&[20, 60, 130, 300]), amount: r.range(1, 50) as u128 },
			6 => Op::BulkDep { tok: r.below(3) as u8, count: *r.pick(&[10, 40, 120]), amount: r.range(1, 2000) as u128 },
			7 => Op::Move { by: r.range(1, USERS), asset: r.below(na) as u8, to: r.range(1, USERS), amount: r.range(1, 100000) as u128 },
			8 => Op::Delay { asset: r.below(na) as u8, min: r.amount(&[1000]) >> r.below(64), delay: if r.chance(1, 12) { u32::MAX - r.below(3) as u32 } else { r.below(7) as u32 } },
			9 => Op::Flag { k: r.below(4) as u8, on: r.chance(2, 3) },
			10 => Op::Addr { root: r.chance(1, 2), k: r.below(4) as u8 },
			11 => Op::Map { asset: 0, tok: r.below(TOKENS as u64) as u8 },
			12 => Op::Meta { tok: r.below(TOKENS as u64) as u8, dec: r.below(30) as u8 },
			_ => Op::Claim { i: r.below(250) as u8, wrong: r.chance(1, 4) },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let n = self.c.n;
		st.note(|| format!("block {n}: {op:?}"));
		match op.clone() {
			Op::Block { idle, fork } => {
				self.end(idle, st)?;
				if fork > 0 {
					st.fault("abandoned fork");
					let a = self.assets[fork as usize % self.assets.len()];
					self.c.abandoned_fork(|c| {
						let _ = c.call(acc(1 + fork as u64 % USERS), Call::withdraw { asset_id: a, amount: fork as u128, beneficiary: dest(9) });
						let m = Msg { tok: fork % TOKENS, src: 0, amount: Amt { hi: 0, lo: 77 }, to: 1, bad: 0 };
						let _ = c.message(1_000_000, contract(0), peg(), &data(&m));
					});
				}
				self.begin(st)?;
				st.op("block", true);
			},
			Op::Skip => {
				// nothing happens in between: go to the block before the next due one
				self.end(0, st)?;
				let to = self.due().into_iter().filter(|d| *d > n).min();
				if let Some(d) = to.filter(|d| *d < n + 1000) {
					if !self.pend.values().any(|p| p.at <= n) {
						st.time(4000 * (d - n - 1) as u64);
						self.c.skip_to(d);
					}
				}
				self.begin(st)?;
				st.op("skip", true);
			},
			Op::Crash => {
				st.fault("crash inside a block");
				self.c.crash_and_redo()?;
			},
			Op::Dep { tok, src, amount, to, bad } => {
				let m = Msg { tok, src, amount, to, bad };
				if bad > 0 {
					st.fault("malformed message");
				}
				if src != self.addr[0] && src != self.addr[1] {
					st.fault("message from a foreign contract");
				}
				let out = self.c.message(self.next_msg, contract(src), peg(), &data(&m));
				st.op("message", out.is_ok());
				if out.is_ok() {
					self.msgs.entry(n + self.period).or_default().push(m);
					self.next_msg += 1;
				}
			},
			Op::BulkDep { tok, count, amount } => {
				st.count("bulk of messages");
				let a = self.map.get(&tok).copied();
				for _ in 0..count {
					let m = Msg { tok, src: self.addr[(a == Some(ROOT)) as usize], amount: Amt { hi: 0, lo: amount }, to: 1, bad: 0 };
					if self.c.message(self.next_msg, contract(m.src), peg(), &data(&m)).is_ok() {
						self.msgs.entry(n + self.period).or_default().push(m);
						self.next_msg += 1;
					}
				}
			},
			Op::Wd { by, asset, amount, to, evm } => self.withdraw(by, asset, amount, to, evm, st)?,
			Op::Bulk { by, asset, count, amount } => {
				st.count("bulk of withdrawals");
				for _ in 0..count {
					let a = self.assets[asset as usize % self.assets.len()];
					if self.bal.get(&(a, by)).copied().unwrap_or(0) < amount {
						break;
					}
					self.withdraw(by, asset, amount, 1, false, st)?;
				}
			},
			Op::Move { by, asset, to, amount } => {
				let a = self.assets[asset as usize % self.assets.len()];
				let b = self.bal.get(&(a, by)).copied().unwrap_or(0);
				if b >= amount && by != to {
					self.c.run(move || {
						use frame_support::traits::{fungibles::Mutate, tokens::Preservation};
						<AssetsExt as Mutate<_>>::transfer(a, &acc(by), &acc(to), amount, Preservation::Expendable).map(|_| ())
					})
					.map_err(|e| viol("P01", "transfer", format!("transfer of {amount} of {b}: {e:?}")))?;
					*self.bal.entry((a, by)).or_default() -= amount;
					*self.bal.entry((a, to)).or_default() += amount;
				}
			},
			Op::Delay { asset, min, delay } => {
				let a = self.assets[asset as usize % self.assets.len()];
				if self.c.root(Call::set_payment_delay { asset_id: a, min_balance: min, delay }).is_ok() {
					self.delay.insert(a, (min, delay));
				}
			},
			Op::Flag { k, on } => {
				let c: Call<Runtime> = match k % 4 {
					0 => Call::activate_deposits { activate: on },
					1 => Call::activate_withdrawals { activate: on },
					2 => Call::activate_deposits_delay { activate: on },
					_ => Call::activate_withdrawals_delay { activate: on },
				};
				if self.c.root(c).is_ok() {
					self.flags[k as usize % 4] = on;
				}
				st.count("switch thrown");
			},
			Op::Addr { root, k } => {
				let c: Call<Runtime> = if root { Call::set_root_peg_address { eth_address: contract(k) } } else { Call::set_erc20_peg_address { eth_address: contract(k) } };
				if self.c.root(c).is_ok() {
					self.addr[root as usize] = k;
				}
			},
			Op::Map { tok, .. } => {
				// governance maps a fresh asset to a token that is not known yet
				if !self.map.contains_key(&tok) && !self.assets.contains(&self.spare) {
					let a = self.spare;
					if self.c.root(Call::set_erc20_asset_map { asset_id: a, eth_address: token(tok) }).is_ok() {
						self.assets.push(a);
						self.map.insert(tok, a);
						self.back.insert(a, tok);
						self.supply.insert(a, 0);
					}
				}
			},
			Op::Meta { tok, dec } => {
				let s = frame_support::BoundedVec::truncate_from(b"SYM".to_vec());
				if self.c.root(Call::set_erc20_meta { details: vec![(token(tok), s, dec)] }).is_ok() {
					self.meta.insert(tok, dec);
				}
			},
			Op::Claim { i, wrong } => {
				if !self.pend.is_empty() {
					let k = *self.pend.keys().nth(i as usize % self.pend.len()).unwrap();
					let at = self.pend[&k].at.saturating_sub(wrong as u32);
					let s = Step::Call(RawOrigin::Root, Call::claim_delayed_payment { block_number: at, payment_id: k }.into());
					let out = self.c.atomic("P01", "refusal-left-traces", s)?;
					st.op("claim", out.is_ok());
					let ids = self.pending_ids();
					let gone = self.pend.keys().filter(|x| !ids.contains(x)).count();
					check!("P01", "claimed-others", gone == out.is_ok() as usize && (out.is_err() || !ids.contains(&k)), "claiming payment {k} ({out:?}) carried out {gone} payments");
					self.settle(true, st)?;
				}
				// a user must not be able to claim
				let k = i as u64;
				check!("P01", "claimed-by-user", self.c.call(acc(1), Call::claim_delayed_payment { block_number: n, payment_id: k }).is_err(), "an ordinary account claimed payment {k}");
			},
		}
		if self.c.open {
			self.verify(st)?;
		}
		st.mix(fnv(format!("{:?}{:?}", std::mem::discriminant(op), self.pend.len()).as_bytes()));
		st.state(self.c.hash());
		st.digest(self.c.hash());
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// faults stop: everything due is paid
		for _ in 0..60 {
			let n = self.c.n;
			if !self.due().into_iter().any(|d| d < n + 1000) {
				break;
			}
			self.apply(&Op::Skip, st)?;
		}
		let n = self.c.n;
		check!("P01", "never-paid", self.pend.values().all(|d| d.at > n), "delayed payments never carried out: {:?} at block {n}", self.pend.iter().filter(|d| d.1.at <= n).take(5).collect::<Vec<_>>());
		Ok(())
	}
}
fn main() {
	simkit::main::<World>()
}
