//! Fungible assets, holds and the fee currency (A01) against an executable reference.
use frame_support::traits::{tokens::fungibles::Mutate as _, Currency, ExistenceRequirement as ER, Imbalance, WithdrawReasons};
use frame_support::PalletId;
use frame_system::RawOrigin;
use pallet_assets_ext::{AssetCurrency, Event as AE};
use rt::chain::*;
use rt::{Runtime, RuntimeEvent};
use seed_pallet_common::{Hold, TransferExt};
use seed_primitives::{AccountId, AssetId, Balance};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_runtime::traits::AccountIdConversion;
use std::collections::BTreeMap;
use std::rc::Rc;
simkit::interpose!();

pub struct FeeAsset;
impl frame_support::traits::Get<AssetId> for FeeAsset {
	fn get() -> AssetId {
		XRP
	}
}
type Xrp = AssetCurrency<Runtime, FeeAsset>;
fn next_key() -> Vec<u8> {
	[sp_core::twox_128(b"AssetsExt"), sp_core::twox_128(b"NextAssetId")].concat()
}
fn next_asset() -> u32 {
	frame_support::storage::unhashed::get_or_default::<u32>(&next_key())
}
const USERS: u64 = 6;
const POOL: u64 = 6000;
/// an asset of which accounts hold at least ten
const BIG: AssetId = 150;
const LEAST: u128 = 10;
const PALLETS: u64 = 19;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block,
	Crash,
	Create { by: u64, owner: Option<u64>, decimals: u8 },
	Deposit { amount: u128, root: bool },
	/// many assets were created
	Jump { left: u32 },
	Mint { by: u64, a: usize, to: u64, x: u128 },
	Burn { by: u64, a: usize, from: u64, x: u128 },
	Move { by: u64, a: usize, to: u64, x: u128, keep: bool },
	Hold { p: u64, who: u64, a: usize, x: u128 },
	Release { p: u64, who: u64, a: usize, x: u128 },
	Spend { p: u64, who: u64, a: usize, to: Vec<(u64, u128)> },
	Split { who: u64, a: usize, to: Vec<(u64, u128)> },
	/// a fee is withdrawn; part is given back, part goes on, the rest disappears
	Fee { who: u64, x: u128, back: u128, tip: u128, on: Option<u64>, keep: bool },
	Set { who: u64, x: u128 },
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
	Made(AssetId, u64),
	Hold(AssetId, u64, u128, u64),
	Release(AssetId, u64, u128, u64),
	Spend(AssetId, u64, Vec<(u64, u128)>, u64),
	Split(AssetId, u64, Vec<(u64, u128)>),
}
#[derive(Clone, Default)]
struct M {
	assets: Vec<(AssetId, u64)>,
	bal: BTreeMap<(usize, u64), u128>,
	/// deposits of native currency
	kept: BTreeMap<u64, u128>,
	supply: Vec<u128>,
	holds: BTreeMap<(usize, u64, u64), u128>,
	next: u32,
	deposit: u128,
	ev: Vec<Ev>,
}
type Ok_ = Option<()>;
fn ok(b: bool) -> Ok_ {
	b.then_some(())
}
const NATIVE: usize = 0;
const FEE: usize = 1;
const LEASTS: usize = 2;
impl M {
	fn b(&self, a: usize, w: u64) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn add(&mut self, a: usize, w: u64, x: u128) -> Ok_ {
		let n = self.b(a, w).checked_add(x)?;
		ok(n > 0 && (a != LEASTS || n >= LEAST))?;
		self.bal.insert((a, w), n);
		Some(())
	}
	fn sub(&mut self, a: usize, w: u64, x: u128) -> Ok_ {
		let n = self.b(a, w).checked_sub(x)?;
		self.bal.insert((a, w), n);
		Some(())
	}
	fn mv(&mut self, a: usize, f: u64, t: u64, x: u128) -> Ok_ {
		self.sub(a, f, x)?;
		self.add(a, t, x)
	}
	fn split(&mut self, a: usize, f: u64, to: &[(u64, u128)]) -> Ok_ {
		let sum = to.iter().try_fold(0u128, |s, t| s.checked_add(t.1))?;
		ok(self.b(a, f) >= sum)?;
		for (t, x) in to.iter().filter(|t| t.1 > 0) {
			self.mv(a, f, *t, *x)?;
		}
		self.ev.push(Ev::Split(self.assets[a].0, f, to.to_vec()));
		Some(())
	}
}
struct World {
	c: Chain,
	m: M,
	mark: usize,
	prop: String,
}
fn addr(n: u64) -> AccountId {
	if n == POOL {
		PalletId(*b"assetext").into_account_truncating()
	} else {
		acc(n)
	}
}
fn pid(p: u64) -> PalletId {
	let mut b = *b"modulexx";
	b[6] = b'a' + (p * 7 % PALLETS) as u8;
	PalletId(b)
}
fn step(f: impl Fn() -> sp_runtime::DispatchResult + 'static) -> Step {
	Step::Fn(Rc::new(f))
}
fn who(a: &AccountId) -> u64 {
	(1..=USERS).chain([POOL, 1000]).find(|n| addr(*n) == *a).unwrap_or(9999)
}
impl World {
	fn events(&mut self) -> Vec<Ev> {
		let ev = self.c.events_since(self.mark);
		self.mark = self.c.event_count();
		let pl = |p: [u8; 8]| (0..PALLETS).find(|i| pid(*i).0 == p).unwrap_or(99);
		let l = |v: Vec<(AccountId, u128)>| v.into_iter().map(|(a, x)| (who(&a), x)).collect::<Vec<_>>();
		let mut v = vec![];
		for e in ev {
			let RuntimeEvent::AssetsExt(e) = e else { continue };
			v.push(match e {
				AE::CreateAsset { asset_id, creator, .. } => Ev::Made(asset_id, who(&creator)),
				AE::PlaceHold { asset_id, who: w, amount, pallet_id } => Ev::Hold(asset_id, who(&w), amount, pl(pallet_id)),
				AE::ReleaseHold { asset_id, who: w, amount, pallet_id } => Ev::Release(asset_id, who(&w), amount, pl(pallet_id)),
				AE::SpendHold { asset_id, who: w, spends, pallet_id } => Ev::Spend(asset_id, who(&w), l(spends), pl(pallet_id)),
				AE::SplitTransfer { asset_id, who: w, transfers } => Ev::Split(asset_id, who(&w), l(transfers)),
				_ => continue,
			});
		}
		v
	}
	fn run(&mut self, st: &mut Stats, what: &'static str, s: Step, f: impl FnOnce(&mut M) -> Ok_) -> Result<bool, Violation> {
		let p = self.prop.clone();
		let mut m = self.m.clone();
		m.ev.clear();
		let want = f(&mut m).is_some();
		let out = self.c.atomic(&p, "refusal-left-traces", s)?;
		st.op(what, out.is_ok());
		check!("A01", "outcome", out.is_ok() == want, "{what}: {out:?}, expected it to be {}", if want { "accepted" } else { "refused" });
		let got = self.events();
		let ev = if want { m.ev.clone() } else { vec![] };
		check!("A01", "events", got == ev, "{what}: reported {got:?}, expected {ev:?}");
		if want {
			self.m = m;
			st.hit("A01");
		}
		Ok(want)
	}
	fn verify(&mut self) -> Res {
		let m = self.m.clone();
		for (i, (id, _)) in m.assets.iter().enumerate() {
			let id = *id;
			let mut sum = 0u128;
			for w in (1..=USERS).chain([POOL]) {
				let (f, t, s) = self.c.exec(|| {
					use frame_support::traits::fungibles::Inspect;
					(<rt::AssetsExt as Inspect<AccountId>>::balance(id, &addr(w)), <rt::AssetsExt as Inspect<AccountId>>::total_balance(id, &addr(w)), <rt::AssetsExt as Inspect<AccountId>>::asset_exists(id))
				});
				check!("A01", "exists", s, "asset {id} does not exist");
				let kept = if i == NATIVE { m.kept.get(&w).copied().unwrap_or(0) } else { 0 };
				check_eq!("A01", "balances", (f, t), (m.b(i, w), m.b(i, w) + kept), "free and total balance of asset {id} of account {w}");
				sum += t;
			}
			let mut held: BTreeMap<(usize, u64, u64), u128> = Default::default();
			self.c.exec(|| {
				for w in 1..=USERS {
					// (an account holds something exactly if its entry is not empty)
					for p in 0..PALLETS {
						let h = rt::AssetsExt::hold_balance(&pid(p), &addr(w), &id);
						if h > 0 {
							held.insert((i, w, p), h);
						}
					}
				}
			});
			let want: BTreeMap<_, _> = m.holds.iter().filter(|h| h.0 .0 == i).map(|h| (*h.0, *h.1)).collect();
			check!("A01", "holds", held == want, "(asset, account, component) hold {held:?}, expected {want:?}");
			let all = self.c.supply(id);
			check!("A01", "supply", all == sum && all == m.supply[i], "supply of asset {id} is {all}, accounts hold {sum}, expected {}", m.supply[i]);
		}
		let n = self.c.exec(|| next_asset());
		check_eq!("A01", "next", n, m.next, "next asset number");
		let d = self.c.exec(|| pallet_assets_ext::AssetDeposit::<Runtime>::get());
		check_eq!("A01", "deposit", d, m.deposit, "deposit for an asset");
		Ok(())
	}
	fn user(&self, r: &mut Rng) -> u64 {
		r.range(1, USERS)
	}
	fn any(&self, r: &mut Rng) -> u64 {
		if r.chance(1, 12) {
			POOL
		} else {
			r.range(1, USERS)
		}
	}
	fn asset(&self, r: &mut Rng) -> usize {
		r.below(self.m.assets.len() as u64) as usize
	}
	/// an amount that leaves no dust behind
	fn amt(&self, r: &mut Rng, a: usize, w: u64) -> u128 {
		let b = self.m.b(a, w);
		let x = match r.below(4) {
			0 => r.amount(&[b, b / 2, b / 4]),
			1 => b / (r.range(2, 5) as u128),
			2 => r.range(1, 40) as u128,
			_ => *r.pick(&[b, b.saturating_sub(1), b + 1]),
		};
		if (a == LEASTS || a == NATIVE) && x <= b && b - x < 2 * LEAST {
			x.saturating_sub(2 * LEAST).max(1)
		} else {
			x.max(1)
		}
	}
	fn payees(&self, r: &mut Rng, of: u128) -> Vec<(u64, u128)> {
		let n = r.below(5) + 1;
		let mut left = of;
		let mut v = vec![];
		for k in 0..n {
			let x = if k + 1 == n { left } else { *r.pick(&[left / 2, left / 3, 1, 0, 9, 10, left]) }.min(left);
			left -= x;
			v.push((self.user(r), x));
		}
		match r.below(12) {
			0 => v[0].1 = v[0].1.saturating_add(1),
			1 => v.push((self.user(r), u128::MAX - r.below(3) as u128)),
			2 => {
				// adds up to little, modulo two to the 128
				let s: u128 = v.iter().map(|x| x.1).sum();
				v.push((self.user(r), (u128::MAX - s).saturating_add(1 + r.below(2) as u128)));
			},
			_ => {},
		}
		v
	}
	fn holding(&self, r: &mut Rng) -> (usize, u64, u64, u128) {
		let v: Vec<_> = self.m.holds.iter().map(|(k, x)| (k.0, k.1, k.2, *x)).collect();
		if v.is_empty() || r.chance(1, 12) {
			(self.asset(r), self.user(r), r.below(PALLETS), 5)
		} else {
			*r.pick(&v)
		}
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "assets";
	const PROPS: &'static [&'static str] = &["A01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-assets-ext (calls, holds, imbalances, fee currency)"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 5_000_000, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 6);
		c.exec(|| {
			pallet_assets::Pallet::<Runtime>::force_create(rt::RuntimeOrigin::root(), BIG, acc(1), true, LEAST).unwrap();
		});
		c.asset(100, 18);
		let mut m = M::default();
		m.assets = vec![(ROOT, 1000), (XRP, 1000), (BIG, 1), (100, 1000)];
		for w in 1..=USERS {
			m.bal.insert((NATIVE, w), 5_000_000);
			for a in [FEE, LEASTS, 3] {
				let x = *r.pick(&[0u128, 0, 50, 1000, 100_000_000, 1 << 50, 1 << 100]);
				if x > 0 {
					c.give(m.assets[a].0, acc(w), x);
					m.bal.insert((a, w), x);
				}
			}
		}
		for a in [NATIVE, LEASTS] {
			// so that what is held never is all that the account has
			c.give(m.assets[a].0, addr(POOL), 1000);
			m.bal.insert((a, POOL), 1000);
		}
		for a in 0..4 {
			let s = m.bal.iter().filter(|b| b.0 .0 == a).map(|b| *b.1).sum();
			m.supply.push(s);
		}
		m.next = c.exec(|| next_asset());
		m.deposit = c.exec(|| pallet_assets_ext::AssetDeposit::<Runtime>::get());
		c.begin(4000);
		let mark = c.event_count();
		World { c, m, mark, prop: "A01".into() }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 140) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let a = self.asset(r);
		let w = [3, 2, 4, 1, 1, 6, 6, 12, 22, 14, 18, 10, 8, 3];
		match r.weighted(&w) {
			0 => Op::Block,
			1 => Op::Crash,
			2 => Op::Create { by: self.user(r), owner: if r.chance(1, 2) { None } else { Some(self.user(r)) }, decimals: *r.pick(&[0u8, 6, 18, 19]) },
			3 => Op::Deposit { amount: *r.pick(&[0u128, 1, 1_000_000, 3_000_000]), root: r.chance(5, 6) },
			4 => Op::Jump { left: r.below(3) as u32 },
			5 => Op::Mint { by: if r.chance(5, 6) { self.m.assets[a].1 } else { self.user(r) }, a, to: self.user(r), x: if self.m.supply[a] > 0 && r.chance(1, 15) { u128::MAX } else { r.range(1, 1_000_000) as u128 * if r.chance(1, 3) { 1 << 60 } else { 1 } } },
			6 => {
				let from = self.user(r);
				Op::Burn { by: if r.chance(5, 6) { self.m.assets[a].1 } else { self.user(r) }, a, from, x: self.amt(r, a, from) }
			},
			7 => {
				let by = self.user(r);
				Op::Move { by, a, to: self.any(r), x: self.amt(r, a, by), keep: r.chance(1, 3) }
			},
			8 => {
				// some runs fill the list of holds of one account
				let who = if r.chance(1, 3) { 1 } else { self.user(r) };
				let a = if r.chance(1, 3) { FEE } else { a };
				let x = if r.chance(1, 2) { 1 + r.below(30) as u128 } else { self.amt(r, a, who) };
				let x = if r.chance(1, 20) { 0 } else { x };
				let x = if (a == LEASTS || a == NATIVE) && x <= self.m.b(a, who) && self.m.b(a, who) - x < 2 * LEAST { self.m.b(a, who) / 2 } else { x };
				Op::Hold { p: r.below(PALLETS), who, a, x: if a == LEASTS && self.m.b(a, who) < 4 * LEAST { 1 << 120 } else { x } }
			},
			9 => {
				let (a, who, p, h) = self.holding(r);
				let h = *r.pick(&[h, h, h / 2, h + 1, 0, 1, h.saturating_sub(1)]);
				Op::Release { p: if r.chance(1, 15) { r.below(PALLETS) } else { p }, who: if r.chance(1, 15) { self.user(r) } else { who }, a, x: h }
			},
			10 => {
				let (a, who, p, h) = self.holding(r);
				let of = *r.pick(&[h, h, h / 2, h + 1, 0]);
				Op::Spend { p: if r.chance(1, 15) { r.below(PALLETS) } else { p }, who: if r.chance(1, 15) { self.user(r) } else { who }, a, to: self.payees(r, of) }
			},
			11 => {
				let who = self.user(r);
				let of = self.m.b(a, who) / 2;
				let a = if of < 2 * LEAST && a == LEASTS { 3 } else { a };
				let of = if r.chance(1, 2) || a == NATIVE || a == LEASTS { of } else { self.m.b(a, who) };
				let mut to = self.payees(r, of);
				// what an account sends to itself is not of interest
				to.iter_mut().filter(|t| t.0 == who).for_each(|t| t.0 = who % USERS + 1);
				Op::Split { who, a, to }
			},
			12 => {
				let who = self.user(r);
				let x = self.amt(r, FEE, who);
				let tip = r.below(4) as u128;
				let back = r.amount(&[x, x / 2, x / 3]);
				Op::Fee { who, x, back, tip, on: if r.chance(1, 2) { None } else { Some(self.user(r)) }, keep: r.chance(1, 2) }
			},
			_ => {
				let who = self.user(r);
				let b = self.m.b(FEE, who);
				Op::Set { who, x: (*r.pick(&[b, b / 2, b + 5, b * 2, 0])).min(1 << 110) }
			},
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		use pallet_assets_ext::Call as AC;
		let call = |by: u64, c: AC<Runtime>| Step::Call(RawOrigin::Signed(acc(by)), c.into());
		let id = |m: &M, a: usize| m.assets.get(a).map(|x| x.0);
		match op.clone() {
			Op::Block => {
				self.c.end(None)?;
				self.c.begin(4000);
				st.time(4000);
				self.mark = 0;
				self.events();
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Create { by, owner, decimals } => {
				let s = call(by, AC::create_asset { name: b"n".to_vec(), symbol: b"s".to_vec(), decimals, min_balance: None, owner: owner.map(acc) });
				self.run(st, "create asset", s, |m| {
					ok(decimals <= 18 && m.next + 1 < 1 << 22)?;
					let d = m.deposit;
					ok(m.b(NATIVE, by) > d)?;
					m.sub(NATIVE, by, d)?;
					*m.kept.entry(by).or_default() += d;
					// this chain's number in the low ten bits
					let id = m.next << 10 | 100;
					ok(!m.assets.iter().any(|x| x.0 == id))?;
					m.next += 1;
					m.assets.push((id, owner.unwrap_or(by)));
					m.supply.push(0);
					m.ev.push(Ev::Made(id, owner.unwrap_or(by)));
					Some(())
				})?;
			},
			Op::Deposit { amount, root } => {
				let o = if root { RawOrigin::Root } else { RawOrigin::Signed(acc(1)) };
				self.run(st, "asset deposit", Step::Call(o, AC::set_asset_deposit { asset_deposit: amount }.into()), |m| {
					ok(root)?;
					m.deposit = amount;
					Some(())
				})?;
			},
			Op::Jump { left } => {
				let n = (1 << 22) - 1 - left;
				self.c
					.run(move || {
						frame_support::storage::unhashed::put(&next_key(), &n);
						Ok(())
					})
					.unwrap();
				// never backwards
				self.m.next = n.max(self.m.next);
				let n = self.m.next;
				self.c
					.run(move || {
						frame_support::storage::unhashed::put(&next_key(), &n);
						Ok(())
					})
					.unwrap();
				st.fault("asset numbers nearly used up");
			},
			Op::Mint { by, a, to, x } => {
				let Some(i) = id(&self.m, a) else { return Ok(()) };
				self.run(st, "mint", call(by, AC::mint { asset_id: i, beneficiary: acc(to), amount: x }), |m| {
					ok(a != NATIVE && m.assets[a].1 == by)?;
					m.supply[a] = m.supply[a].checked_add(x)?;
					m.add(a, to, x)
				})?;
			},
			Op::Burn { by, a, from, x } => {
				let Some(i) = id(&self.m, a) else { return Ok(()) };
				// takes as much as there is
				let x2 = x.min(self.m.b(a, from));
				if a == LEASTS && self.m.b(a, from) - x2 < LEAST {
					return Ok(());
				}
				self.run(st, "burn", call(by, AC::burn_from { asset_id: i, who: acc(from), amount: x }), |m| {
					ok(a != NATIVE && m.assets[a].1 == by && x2 > 0)?;
					m.supply[a] -= x2;
					m.sub(a, from, x2)
				})?;
			},
			Op::Move { by, a, to, x, keep } => {
				let Some(i) = id(&self.m, a) else { return Ok(()) };
				if by == to || self.m.b(a, by) < x.saturating_add(LEAST) && a == LEASTS && self.m.b(a, by) >= x {
					return Ok(());
				}
				self.run(st, "transfer", call(by, AC::transfer { asset_id: i, destination: addr(to), amount: x, keep_alive: keep }), |m| {
					m.mv(a, by, to, x)?;
					ok(!keep || m.b(a, by) > 0)
				})?;
			},
			Op::Hold { p, who, a, x } => {
				let Some(i) = id(&self.m, a) else { return Ok(()) };
				if (a == LEASTS || a == NATIVE) && x > 0 && self.m.b(a, who) < x.saturating_add(LEAST) && self.m.b(a, who) >= x {
					return Ok(());
				}
				self.run(st, "hold", step(move || rt::AssetsExt::place_hold(pid(p), &acc(who), i, x)), |m| {
					if x > 0 {
						let n = m.holds.iter().filter(|h| h.0 .0 == a && h.0 .1 == who).count();
						ok(n < 16 || m.holds.contains_key(&(a, who, p)))?;
						m.mv(a, who, POOL, x)?;
						*m.holds.entry((a, who, p)).or_default() += x;
						m.ev.push(Ev::Hold(i, who, x, p));
					}
					Some(())
				})?;
			},
			Op::Release { p, who, a, x } => {
				let Some(i) = id(&self.m, a) else { return Ok(()) };
				self.run(st, "release", step(move || rt::AssetsExt::release_hold(pid(p), &acc(who), i, x)), |m| {
					if x > 0 {
						let h = m.holds.get_mut(&(a, who, p))?;
						*h = h.checked_sub(x)?;
						m.holds.retain(|_, h| *h > 0);
						m.mv(a, POOL, who, x)?;
						m.ev.push(Ev::Release(i, who, x, p));
					}
					Some(())
				})?;
			},
			Op::Spend { p, who, a, to } => {
				let Some(i) = id(&self.m, a) else { return Ok(()) };
				let list: Vec<(AccountId, Balance)> = to.iter().map(|t| (acc(t.0), t.1)).collect();
				self.run(st, "spend", step(move || rt::AssetsExt::spend_hold(pid(p), &acc(who), i, &list)), |m| {
					let sum = to.iter().try_fold(0u128, |s, t| s.checked_add(t.1))?;
					if sum > 0 {
						let h = m.holds.get_mut(&(a, who, p))?;
						*h = h.checked_sub(sum)?;
						m.holds.retain(|_, h| *h > 0);
						m.split(a, POOL, &to)?;
						m.ev.push(Ev::Spend(i, who, to, p));
					}
					Some(())
				})?;
			},
			Op::Split { who, a, to } => {
				let Some(i) = id(&self.m, a) else { return Ok(()) };
				let sum = to.iter().try_fold(0u128, |s, t| s.checked_add(t.1));
				if (a == LEASTS || a == NATIVE) && sum.map_or(false, |s| self.m.b(a, who) >= s && self.m.b(a, who) - s < LEAST) {
					return Ok(());
				}
				let list: Vec<(AccountId, Balance)> = to.iter().map(|t| (acc(t.0), t.1)).collect();
				self.run(st, "split transfer", step(move || rt::AssetsExt::split_transfer(&acc(who), i, &list)), |m| m.split(a, who, &to))?;
			},
			Op::Fee { who, x, back, tip, on, keep } => {
				let s = step(move || {
					let req = if keep { ER::KeepAlive } else { ER::AllowDeath };
					let paid = Xrp::withdraw(&acc(who), x, WithdrawReasons::FEE, req)?;
					// some is refunded
					let refund = Xrp::deposit_into_existing(&acc(who), back.min(x)).unwrap_or_default();
					let paid = paid.offset(refund).same().unwrap_or_else(|_| panic!("refund exceeds fee"));
					let (tip, fee) = paid.split(tip);
					if let Some(to) = on {
						Xrp::resolve_creating(&acc(to), fee.merge(tip));
					}
					Ok(())
				});
				self.run(st, "fee", s, |m| {
					m.sub(FEE, who, x)?;
					ok(!keep || m.b(FEE, who) > 0)?;
					let rest = x - back.min(x);
					*m.bal.entry((FEE, who)).or_default() += back.min(x);
					match on {
						Some(to) => *m.bal.entry((FEE, to)).or_default() += rest,
						None => m.supply[FEE] -= rest,
					}
					let _ = tip;
					Some(())
				})?;
			},
			Op::Set { who, x } => {
				self.run(
					st,
					"set balance",
					step(move || {
						drop(Xrp::make_free_balance_be(&acc(who), x));
						Ok(())
					}),
					|m| {
						let b = m.b(FEE, who);
						m.supply[FEE] = m.supply[FEE] - b + x;
						m.bal.insert((FEE, who), x);
						Some(())
					},
				)?;
			},
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		self.verify()
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// every hold can be released in full to its owner
		let all: Vec<_> = self.m.holds.iter().map(|(k, x)| (*k, *x)).collect();
		for ((a, who, p), x) in all {
			if !(a == LEASTS && x < LEAST && self.m.b(a, who) == 0) {
				self.apply(&Op::Release { p, who, a, x }, st)?;
			}
		}
		self.c.end(None).map(|_| ())
	}
	fn quick_runs() -> u64 {
		6000
	}
	fn rule() -> &'static str {
		"an evaluation counts when a call on an asset was accepted and all balances, holds and supplies compared"
	}
}
fn main() {
	simkit::main::<World>()
}
