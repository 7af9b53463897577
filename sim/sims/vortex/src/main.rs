//! Reward cycles (V01): registered rewards, unsigned batch payouts sent by the offchain workers over a faulty
//! network, and redemption of the reward token.
use codec::Decode;
use frame_support::traits::{fungibles::Inspect, OffchainWorker};
use frame_support::PalletId;
use frame_system::RawOrigin;
use pallet_vortex_distribution::{Call as VC, Event as VE, VtxDistStatus as S};
use rt::chain::*;
use rt::{Runtime, RuntimeCall, RuntimeEvent, VortexDistribution as V};
use seed_primitives::{AccountId, AssetId};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::U256;
use sp_runtime::traits::AccountIdConversion;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
simkit::interpose!();
type Pool = Arc<substrate::misc::RwLock<sp_core::offchain::testing::PoolState>>;
type Net = sp_core::offchain::Shared;

const USERS: u64 = 6;
/// accounts that only receive rewards
const CROWD: u64 = 420;
const VAULT: u64 = 100_001;
const FEES: u64 = 100_002;
const ROOTS: u64 = 100_003;
fn addr(n: u64) -> AccountId {
	let p = |b: &[u8; 8]| PalletId(*b).into_account_truncating();
	match n {
		VAULT => p(b"vtx/vpot"),
		FEES => p(b"vtx/fpot"),
		ROOTS => p(b"vtx/rpot"),
		_ => acc(n),
	}
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum By {
	Root,
	Acc(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// the block ends, offchain workers run, a new block begins; what happens to each payout that was sent, in blocks
	/// of delay (empty: lost, several: duplicated)
	Block { send: Vec<Vec<u8>>, validator: bool },
	Crash,
	Admin { by: By, to: u64 },
	New { by: By },
	Off { by: By, id: u32 },
	Start { by: By, id: u32 },
	Trigger { by: By, id: u32 },
	Eras { by: By, id: u32, a: u32, b: u32 },
	Prices { by: By, id: u32, list: Vec<(AssetId, u128)> },
	Reward { by: By, id: u32, list: Vec<(u64, u128)> },
	/// many accounts at once
	Crowd { by: By, id: u32, from: u64, n: u64, x: u128 },
	/// somebody sends a payout call
	Junk { id: u32, at: i64, signed: bool },
	Redeem { who: u64, id: u32, x: u128 },
	Give { to: u64, a: AssetId, x: u128 },
	Move { from: u64, to: u64, x: u128 },
}
#[derive(Clone, Default)]
struct C {
	s: u8,
	prices: BTreeSet<AssetId>,
	list: BTreeMap<u64, (u128, bool)>,
	eras: Option<(u32, u32)>,
	/// payout calls since everybody was paid
	idle: u32,
}
const OFF: u8 = 0;
const OPEN: u8 = 1;
const TRIG: u8 = 2;
const PAY: u8 = 3;
const DONE: u8 = 4;
#[derive(Clone, Debug, PartialEq)]
enum Ev {
	Admin(Option<u64>, u64),
	New(u32),
	Off(u32),
	Start(u32),
	Trigger(u32),
	Eras(u32, u32, u32),
	Prices(u32, Vec<(AssetId, u128)>),
	Reward(u32, Vec<(u64, u128)>),
	Paid(u32, u64, u128),
	Done(u32),
}
#[derive(Clone, Default)]
struct M {
	admin: Option<u64>,
	c: Vec<C>,
	bal: BTreeMap<(AssetId, u64), u128>,
	ev: Vec<Ev>,
	next_at: u32,
}
type Ok_ = Option<()>;
fn ok(b: bool) -> Ok_ {
	b.then_some(())
}
impl M {
	fn b(&self, a: AssetId, w: u64) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn supply(&self, a: AssetId) -> u128 {
		self.bal.iter().filter(|b| b.0 .0 == a).map(|b| *b.1).sum()
	}
	fn mv(&mut self, a: AssetId, f: u64, t: u64, x: u128) -> Ok_ {
		if x == 0 {
			return Some(());
		}
		let n = self.b(a, f).checked_sub(x)?;
		self.bal.insert((a, f), n);
		*self.bal.entry((a, t)).or_default() += x;
		Some(())
	}
	fn may(&self, by: By) -> Ok_ {
		ok(match by {
			By::Root => true,
			By::Acc(n) => self.admin == Some(n),
		})
	}
	fn at(&mut self, id: u32) -> Option<&mut C> {
		self.c.get_mut(id as usize)
	}
}
struct World {
	c: Chain,
	m: M,
	mark: usize,
	prop: String,
	pool: Pool,
	net: Net,
	/// payouts on their way: the block to be delivered in, and the call
	air: Vec<(u32, RuntimeCall)>,
	/// payouts which the workers of the last block sent
	sent: usize,
	ids: BTreeMap<AccountId, u64>,
	base: Vec<AssetId>,
	big: u128,
	stalled: u32,
}
impl World {
	fn n(&self, a: &AccountId) -> u64 {
		self.ids.get(a).copied().unwrap_or(0)
	}
	fn events(&mut self) -> Vec<Ev> {
		let ev = self.c.events_since(self.mark);
		self.mark = self.c.event_count();
		let mut v = vec![];
		for e in ev {
			let RuntimeEvent::VortexDistribution(e) = e else { continue };
			v.push(match e {
				VE::AdminAccountChanged { old_key, new_key } => Ev::Admin(old_key.map(|a| self.n(&a)), self.n(&new_key)),
				VE::VtxDistCreated { id } => Ev::New(id),
				VE::VtxDistDisabled { id } => Ev::Off(id),
				VE::VtxDistStarted { id } => Ev::Start(id),
				VE::TriggerVtxDistribution { id } => Ev::Trigger(id),
				VE::SetVtxDistEras { id, start_era, end_era } => Ev::Eras(id, start_era, end_era),
				VE::SetAssetPrices { id, asset_prices } => Ev::Prices(id, asset_prices.into_inner()),
				VE::RewardRegistered { id, rewards } => Ev::Reward(id, rewards.iter().map(|(a, x)| (self.n(a), *x)).collect()),
				VE::VtxDistPaidOut { id, who, amount } => Ev::Paid(id, self.n(&who), amount),
				VE::VtxDistDone { id } => Ev::Done(id),
				_ => continue,
			});
		}
		v
	}
	fn run(&mut self, st: &mut Stats, what: &'static str, s: Step, f: impl FnOnce(&mut M) -> Ok_) -> Result<bool, Violation> {
		let p = self.prop.clone();
		let mut m = self.m.clone();
		m.ev.clear();
		let want = f(&mut m).is_some();
		let out = self.c.atomic(&p, "refusal-left-traces", s)?;
		st.op(what, out.is_ok());
		check!("V01", "outcome", out.is_ok() == want, "{what}: {out:?}, expected it to be {}", if want { "accepted" } else { "refused" });
		let got = self.events();
		let ev = if want { m.ev.clone() } else { vec![] };
		check!("V01", "events", got == ev, "{what}: reported {got:?}, expected {ev:?}");
		if want {
			self.m = m;
			st.hit("V01");
		}
		Ok(want)
	}
	/// a payout call arrives; whom it pays is for the chain to choose, but everybody once
	fn payout(&mut self, st: &mut Stats, call: RuntimeCall) -> Res {
		let RuntimeCall::VortexDistribution(VC::pay_unsigned { id, current_block }) = call.clone() else { return Ok(()) };
		let now = self.c.n;
		let out = self.c.step(Step::Unsigned(call));
		st.op("payout", out.is_ok());
		check!("V01", "payout-outcome", out.is_ok() == (current_block <= now), "a payout naming block {current_block} in block {now}: {out:?}");
		let ev = self.events();
		if out.is_err() {
			return Ok(());
		}
		let paying = self.m.at(id).is_some_and(|c| c.s == PAY);
		if !paying {
			check!("V01", "paid-not-due", ev.is_empty(), "cycle {id} is not being paid, but a payout reported {ev:?}");
			return Ok(());
		}
		self.m.next_at = now + 7;
		let left = self.m.c[id as usize].list.values().filter(|x| !x.1).count();
		let mut paid = 0;
		let mut done = false;
		for e in &ev {
			match e {
				Ev::Paid(i, w, x) => {
					let c = &mut self.m.c[id as usize];
					let r = c.list.get(w).copied();
					check!("V01", "paid-wrong", *i == id && r == Some((*x, false)), "cycle {id} paid {x} to {w}, for whom (amount, already paid) was {r:?}");
					c.list.insert(*w, (*x, true));
					check!("V01", "vault-short", self.m.b(VTX, VAULT) >= *x, "paid more than the vault had");
					self.m.mv(VTX, VAULT, *w, *x);
					paid += 1;
					st.hit("V01");
				},
				Ev::Done(i) => {
					check!("V01", "done", *i == id && !done, "reported the end of cycle {i} while paying {id}");
					done = true;
				},
				e => return Err(viol("V01", "payout-event", format!("a payout reported {e:?}"))),
			}
		}
		let all = left == paid;
		check!("V01", "no-progress", left == 0 || paid > 0, "a payout of cycle {id} paid nobody although {left} were due");
		check!("V01", "batch", paid <= 100 && (all || paid >= 99), "a payout of cycle {id} paid {paid} of {left} accounts");
		check!("V01", "done-early", !done || all, "cycle {id} is done but {} accounts were not paid", left - paid);
		let c = &mut self.m.c[id as usize];
		if done {
			c.s = DONE;
		} else if left == 0 {
			c.idle += 1;
			check!("V01", "never-done", c.idle < 3, "everybody of cycle {id} was paid, but it does not end");
		}
		Ok(())
	}
	fn verify(&mut self) -> Res {
		let m = &self.m;
		for a in &self.base {
			for w in (1..=USERS).chain([VAULT, FEES, ROOTS]) {
				let got = self.c.exec(|| rt::AssetsExt::balance(*a, &addr(w)));
				check_eq!("V01", "balances", got, m.b(*a, w), "balance of asset {a} of account {w}");
			}
			let got = self.c.exec(|| rt::AssetsExt::total_issuance(*a));
			check_eq!("V01", "supply", got, m.supply(*a), "supply of asset {a}");
		}
		for (i, c) in m.c.iter().enumerate() {
			let (s, e) = self.c.exec(|| (pallet_vortex_distribution::VtxDistStatuses::<Runtime>::get(i as u32), pallet_vortex_distribution::VtxDistEras::<Runtime>::get(i as u32)));
			let s = match s {
				S::Disabled => OFF,
				S::Enabled => OPEN,
				S::Triggered => TRIG,
				S::Paying => PAY,
				S::Done => DONE,
			};
			check_eq!("V01", "status", (s, e), (c.s, c.eras.unwrap_or_default()), "state of cycle {i}");
		}
		Ok(())
	}
	fn crowd(&mut self) -> Res {
		for w in 1..=CROWD {
			let got = self.c.exec(|| rt::AssetsExt::balance(VTX, &addr(w)));
			check_eq!("V01", "rewards", got, self.m.b(VTX, w), "reward tokens of account {w}");
		}
		Ok(())
	}
	fn block(&mut self, st: &mut Stats, send: &[Vec<u8>], validator: bool) -> Res {
		let n = self.c.n;
		self.c.end(None)?;
		self.net.write().is_validator = validator;
		self.c.peek(|| V::offchain_worker(n));
		let txs: Vec<Vec<u8>> = std::mem::take(&mut self.pool.write().transactions);
		let mut due: Vec<u32> = vec![];
		if validator && self.m.next_at <= n {
			due = (0..self.m.c.len() as u32).filter(|i| self.m.c[*i as usize].s == PAY).collect();
		}
		let mut got = vec![];
		for (i, t) in txs.iter().enumerate() {
			let x = match rt::UncheckedExtrinsic::decode(&mut &t[..]) {
				Ok(x) => x,
				Err(_) => return Err(viol("V01", "worker", "an offchain worker sent something undecodable")),
			};
			let RuntimeCall::VortexDistribution(VC::pay_unsigned { id, current_block }) = x.0.function.clone() else { return Err(viol("V01", "worker", "an offchain worker sent another call")) };
			check!("V01", "worker", current_block == n, "an offchain worker of block {n} named block {current_block}");
			got.push(id);
			let d: Vec<u8> = send.get(i).cloned().unwrap_or(vec![0]);
			match d.len() {
				0 => st.fault("payout transaction lost"),
				1 => {
					if d[0] > 0 {
						st.fault("payout transaction delayed")
					}
				},
				_ => st.fault("payout transaction duplicated"),
			}
			for k in d {
				self.air.push((n + 1 + k as u32, x.0.function.clone()));
			}
		}
		got.sort();
		check_eq!("V01", "worker-sends", got, due, "cycles for which the offchain worker of block {n} (next at {}) sent payouts", self.m.next_at);
		self.sent = txs.len();
		self.c.begin(4000);
		st.time(4000);
		self.mark = 0;
		self.events();
		let now = self.c.n;
		let (go, stay): (Vec<_>, Vec<_>) = std::mem::take(&mut self.air).into_iter().partition(|t| t.0 <= now);
		self.air = stay;
		for (_, c) in go {
			self.payout(st, c)?;
		}
		Ok(())
	}
	fn by(&self, r: &mut Rng) -> By {
		match r.below(10) {
			0..=2 => By::Root,
			3 => By::Acc(1 + r.below(USERS)),
			_ => self.m.admin.map_or(By::Root, By::Acc),
		}
	}
	fn id(&self, r: &mut Rng, s: u8) -> u32 {
		let v: Vec<u32> = (0..self.m.c.len() as u32).filter(|i| self.m.c[*i as usize].s == s).collect();
		if v.is_empty() || r.chance(1, 12) {
			r.below(self.m.c.len() as u64 + 2) as u32
		} else {
			*r.pick(&v)
		}
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "vortex";
	const PROPS: &'static [&'static str] = &["V01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-vortex-distribution (calls, unsigned validation, offchain worker)", "pallet-assets-ext"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets, transaction pool)"];
	fn new(seed: u64, prop: &str) -> Self {
		use sp_core::offchain::{testing, OffchainWorkerExt, TransactionPoolExt};
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 0, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 6);
		let (o, net) = testing::TestOffchainExt::new();
		let (p, pool) = testing::TestTransactionPoolExt::new();
		c.ext.register_extension(OffchainWorkerExt::new(o));
		c.ext.register_extension(TransactionPoolExt::new(p));
		c.asset(100, 18);
		c.asset(101, 6);
		let base = vec![ROOT, XRP, VTX, 100, 101];
		let mut m = M::default();
		let big = *r.pick(&[1u128 << 30, 1 << 50, 1 << 90]);
		for w in 1..=USERS {
			c.give(ROOT, acc(w), 1_000_000);
			m.bal.insert((ROOT, w), 1_000_000);
			if r.chance(1, 3) {
				let x = r.below(1 << 30) as u128 + 1;
				c.give(VTX, acc(w), x);
				m.bal.insert((VTX, w), x);
			}
		}
		let ids = (1..=CROWD).chain([VAULT, FEES, ROOTS]).map(|n| (addr(n), n)).collect();
		c.begin(4000);
		let mark = c.event_count();
		World { c, m, mark, prop: "V01".into(), pool, net, air: vec![], sent: 0, ids, base, big, stalled: 0 }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 130) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let by = self.by(r);
		let w = [24, 2, 2, if self.m.c.len() < 2 { 8 } else { 2 }, 1, 6, 6, 1, 6, 8, 4, 8, 8, 7, 3];
		match r.weighted(&w) {
			0 => Op::Block { send: (0..4).map(|_| match r.below(8) { 0 => vec![], 1 => vec![r.below(30) as u8], 2 => vec![0, r.below(9) as u8], 3 => vec![0, 0], _ => vec![0] }).collect(), validator: r.chance(9, 10) },
			1 => Op::Crash,
			2 => Op::Admin { by: if r.chance(2, 3) { By::Root } else { by }, to: 1 + r.below(USERS) },
			3 => Op::New { by },
			4 => Op::Off { by, id: r.below(self.m.c.len() as u64 + 1) as u32 },
			5 => Op::Start { by, id: self.id(r, TRIG) },
			6 => Op::Trigger { by, id: self.id(r, OPEN) },
			7 => Op::Eras { by, id: self.id(r, OPEN), a: r.below(5) as u32, b: r.below(5) as u32 },
			8 => {
				let n = r.below(4) + 1;
				let s = *r.pick(&[OPEN, OPEN, OPEN, TRIG, PAY, DONE]);
				Op::Prices { by, id: self.id(r, s), list: (0..n).map(|_| (if r.chance(1, 20) { VTX } else { *r.pick(&[ROOT, XRP, 100, 101]) }, r.below(100) as u128)).collect() }
			},
			9 => {
				let n = r.below(5);
				let mut list: Vec<_> = (0..n).map(|_| (1 + r.below(USERS), if r.chance(1, 8) { 0 } else { r.amount(&[5, 1000, 1 << 40]) % (1 << 60) })).collect();
				if r.chance(1, 25) {
					list.push((1, u128::MAX - r.below(3) as u128));
				}
				Op::Reward { by, id: self.id(r, OPEN), list }
			},
			10 => {
				let n = *r.pick(&[30u64, 98, 99, 100, 101, 199, 200, 201, 300]);
				Op::Crowd { by, id: self.id(r, OPEN), from: 1 + r.below(CROWD - n), n, x: 1 + r.below(1000) as u128 }
			},
			11 => Op::Junk { id: if r.chance(1, 2) { self.id(r, PAY) } else { r.below(6) as u32 }, at: *r.pick(&[0, 0, -1, -3, 1, 5]), signed: r.chance(1, 12) },
			12 => {
				let who = 1 + r.below(USERS);
				let b = self.m.b(VTX, who);
				let s = if r.chance(5, 6) { DONE } else { PAY };
				Op::Redeem { who, id: self.id(r, s), x: *r.pick(&[b, b / 2, b / 3, b / 7, 1, 0, b.saturating_add(1), b]) }
			},
			13 => {
				let to = *r.pick(&[FEES, FEES, FEES, ROOTS, VAULT]);
				let a = *r.pick(&[ROOT, XRP, 100, 101, VTX]);
				Op::Give { to, a, x: if a == VTX { 1 + r.below(1000) as u128 } else { r.amount(&[1000, self.big]) % (1 << 92) + 1 } }
			},
			_ => {
				let from = 1 + r.below(CROWD);
				let b = self.m.b(VTX, from);
				Op::Move { from, to: 1 + r.below(USERS), x: if r.chance(1, 2) { b } else { b / 2 } }
			},
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let o = |by: By| match by {
			By::Root => RawOrigin::Root,
			By::Acc(n) => RawOrigin::Signed(acc(n)),
		};
		let call = |by: By, c: VC<Runtime>| Step::Call(o(by), c.into());
		match op.clone() {
			Op::Block { send, validator } => self.block(st, &send, validator)?,
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Admin { by, to } => {
				self.run(st, "set admin", call(by, VC::set_admin { new: acc(to) }), |m| {
					ok(by == By::Root)?;
					m.ev.push(Ev::Admin(m.admin, to));
					m.admin = Some(to);
					Some(())
				})?;
			},
			Op::New { by } => {
				self.run(st, "create", call(by, VC::create_vtx_dist {}), |m| {
					m.may(by)?;
					m.ev.push(Ev::New(m.c.len() as u32));
					m.c.push(C { s: OPEN, ..Default::default() });
					Some(())
				})?;
			},
			Op::Off { by, id } => {
				self.run(st, "disable", call(by, VC::disable_vtx_dist { id }), |m| {
					m.may(by)?;
					let c = m.at(id)?;
					ok(c.s != OFF)?;
					c.s = OFF;
					m.ev.push(Ev::Off(id));
					Some(())
				})?;
			},
			Op::Trigger { by, id } => {
				self.run(st, "trigger", call(by, VC::trigger_vtx_distribution { id }), |m| {
					m.may(by)?;
					let c = m.at(id)?;
					ok(c.s == OPEN)?;
					c.s = TRIG;
					for a in c.prices.clone() {
						let x = m.b(a, FEES);
						m.mv(a, FEES, VAULT, x)?;
					}
					let x = m.b(ROOT, ROOTS);
					m.mv(ROOT, ROOTS, VAULT, x)?;
					m.ev.push(Ev::Trigger(id));
					Some(())
				})?;
			},
			Op::Start { by, id } => {
				self.run(st, "start", call(by, VC::start_vtx_dist { id }), |m| {
					m.may(by)?;
					let c = m.at(id)?;
					ok(c.s == TRIG)?;
					c.s = PAY;
					// the vault gets exactly what is to be paid
					let sum = c.list.values().try_fold(0u128, |s, x| s.checked_add(x.0))?;
					ok(m.supply(VTX).checked_add(sum).is_some())?;
					*m.bal.entry((VTX, VAULT)).or_default() += sum;
					m.ev.push(Ev::Start(id));
					Some(())
				})?;
			},
			Op::Eras { by, id, a, b } => {
				// what governance notes down for ids that do not exist yet is not judged
				if id as usize >= self.m.c.len() {
					return Ok(());
				}
				self.run(st, "set eras", call(by, VC::set_vtx_dist_eras { id, start_era: a, end_era: b }), |m| {
					m.may(by)?;
					ok(a <= b)?;
					if let Some(c) = m.at(id) {
						c.eras = Some((a, b));
					}
					m.ev.push(Ev::Eras(id, a, b));
					Some(())
				})?;
			},
			Op::Prices { by, id, list } => {
				if id as usize >= self.m.c.len() {
					return Ok(());
				}
				let s = call(by, VC::set_asset_prices { asset_prices: list.clone().try_into().unwrap(), id });
				self.run(st, "set assets", s, |m| {
					m.may(by)?;
					ok(list.iter().all(|x| x.0 != VTX))?;
					let c = m.at(id)?;
					c.prices.extend(list.iter().map(|x| x.0));
					m.ev.push(Ev::Prices(id, list.clone()));
					Some(())
				})?;
			},
			Op::Reward { .. } | Op::Crowd { .. } => {
				let (by, id, list) = match op.clone() {
					Op::Reward { by, id, list } => (by, id, list),
					Op::Crowd { by, id, from, n, x } => (by, id, (from..from + n).map(|w| (w, x + w as u128)).collect()),
					_ => unreachable!(),
				};
				let s = call(by, VC::register_rewards { id, rewards: list.iter().map(|(w, x)| (acc(*w), *x)).collect::<Vec<_>>().try_into().unwrap() });
				self.run(st, "register rewards", s, |m| {
					m.may(by)?;
					let c = m.at(id)?;
					ok(c.s == OPEN)?;
					for (w, x) in &list {
						c.list.insert(*w, (*x, false));
						// (the last word on an account counts)
						c.list.values().try_fold(0u128, |s, x| s.checked_add(x.0))?;
					}
					m.ev.push(Ev::Reward(id, list.clone()));
					Some(())
				})?;
			},
			Op::Junk { id, at, signed } => {
				let c = VC::<Runtime>::pay_unsigned { id, current_block: (self.c.n as i64 + at).max(0) as u32 };
				if signed {
					self.run(st, "signed payout", call(By::Acc(1), c), |_| None)?;
				} else {
					st.fault("payout call of a stranger");
					self.payout(st, c.into())?;
				}
			},
			Op::Redeem { who, id, x } => {
				self.run(st, "redeem", call(By::Acc(who), VC::redeem_tokens_from_vault { id, vortex_token_amount: x }), |m| {
					ok(x > 0 && x <= m.b(VTX, who))?;
					let s = m.supply(VTX);
					let c = m.at(id)?;
					ok(c.s == DONE)?;
					for a in c.prices.clone() {
						let y = U256::from(x) * U256::from(m.b(a, VAULT)) / U256::from(s);
						m.mv(a, VAULT, who, y.low_u128())?;
					}
					let n = m.b(VTX, who) - x;
					m.bal.insert((VTX, who), n);
					Some(())
				})?;
			},
			Op::Give { to, a, x } => {
				let s = Step::Fn(std::rc::Rc::new(move || {
					use frame_support::traits::fungibles::Mutate;
					rt::AssetsExt::mint_into(a, &addr(to), x).map(|_| ())
				}));
				self.run(st, "fees and donations", s, |m| {
					*m.bal.entry((a, to)).or_default() += x;
					Some(())
				})?;
			},
			Op::Move { from, to, x } => {
				if x == 0 || from == to {
					return Ok(());
				}
				let s = Step::Call(RawOrigin::Signed(acc(from)), pallet_assets_ext::Call::<Runtime>::transfer { asset_id: VTX, destination: acc(to), amount: x, keep_alive: false }.into());
				self.run(st, "transfer reward", s, |m| m.mv(VTX, from, to, x))?;
			},
		}
		self.verify()?;
		for c in &self.m.c {
			st.mix((c.s as u64) << 16 | c.list.values().filter(|x| x.1).count() as u64);
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		self.crowd()?;
		// once nothing is lost any more, every cycle that is being paid ends, whatever strangers send
		let left: usize = self.m.c.iter().filter(|c| c.s == PAY).map(|c| c.list.len() / 99 + 5).sum();
		for k in 0..left * 10 + 12 {
			self.apply(&Op::Block { send: vec![], validator: true }, st)?;
			if k % 3 == 0 {
				self.apply(&Op::Junk { id: 99, at: 0, signed: false }, st)?;
			}
		}
		let stuck: Vec<usize> = (0..self.m.c.len()).filter(|i| self.m.c[*i].s == PAY).collect();
		check!("V01", "payout-starved", stuck.is_empty(), "cycles {stuck:?} are not paid after {} blocks of working workers and network", left * 10 + 12);
		for c in self.m.c.iter().filter(|c| c.s == DONE) {
			check!("V01", "unpaid", c.list.values().all(|x| x.1), "a cycle is done but somebody was not paid");
		}
		self.crowd()?;
		self.c.end(None).map(|_| ())
	}
	fn quick_runs() -> u64 {
		1500
	}
	fn rule() -> &'static str {
		"an evaluation counts when a reward was paid or a call accepted and all balances compared"
	}
}
fn main() {
	simkit::main::<World>()
}
