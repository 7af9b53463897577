//! The exchange (D01) against an executable reference.
use frame_support::traits::fungibles::Inspect;
use frame_support::PalletId;
use frame_system::RawOrigin;
use pallet_dex::{Call as DC, Event as DE, TradingPair, TradingPairStatus};
use rt::chain::*;
use rt::{Runtime, RuntimeEvent};
use seed_primitives::{AccountId, AssetId};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::U256;
use sp_runtime::traits::AccountIdConversion;
use std::collections::BTreeMap;
simkit::interpose!();

const USERS: u64 = 5;
const LEAST_LP: u128 = 1000;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum W {
	U(u64),
	Pool(AssetId, AssetId),
	Burn,
	Pot,
}
use W::*;
fn addr(w: W) -> AccountId {
	match w {
		U(n) => acc(n),
		Pool(a, b) => TradingPair(a, b).pool_address(),
		Burn => PalletId(*b"burn/dex").into_account_truncating(),
		Pot => PalletId(*b"txfeepot").into_account_truncating(),
	}
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block,
	Crash,
	Add { by: u64, a: AssetId, b: AssetId, xa: u128, xb: u128, la: u128, lb: u128, to: Option<W>, till: Option<i64> },
	Remove { by: u64, a: AssetId, b: AssetId, x: u128, la: u128, lb: u128, to: Option<W>, till: Option<i64> },
	/// exact supply, least output
	In { by: u64, path: Vec<AssetId>, x: u128, least: u128, to: Option<W>, till: Option<i64> },
	/// exact target, greatest input
	Out { by: u64, path: Vec<AssetId>, x: u128, most: u128, to: Option<W>, till: Option<i64> },
	Move { by: u64, a: AssetId, to: W, x: u128 },
	FeeTo { root: bool, to: Option<W> },
	Switch { root: bool, a: AssetId, b: AssetId, on: bool },
}
#[derive(Clone, Default, Debug, PartialEq)]
struct P {
	lp: AssetId,
	on: bool,
	r: (u128, u128),
	k: U256,
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
	FeeTo(Option<AccountId>),
	Add(AccountId, AssetId, u128, AssetId, u128, u128, AccountId),
	Remove(AccountId, AssetId, u128, AssetId, u128, u128, AccountId),
	Swap(AccountId, Vec<AssetId>, u128, u128, AccountId),
	On(AssetId, AssetId),
	Off(AssetId, AssetId),
}
#[derive(Clone, Default)]
struct M {
	bal: BTreeMap<(AssetId, W), u128>,
	pools: BTreeMap<(AssetId, AssetId), P>,
	fee_to: Option<W>,
	next: u32,
	now: u32,
	ev: Vec<Ev>,
}
type Ok_ = Option<()>;
fn ok(b: bool) -> Ok_ {
	b.then_some(())
}
fn u(x: u128) -> U256 {
	U256::from(x)
}
fn pair(a: AssetId, b: AssetId) -> (AssetId, AssetId) {
	(a.min(b), a.max(b))
}
fn low(x: U256) -> Option<u128> {
	(x.bits() <= 128).then(|| x.low_u128())
}
impl M {
	fn b(&self, a: AssetId, w: W) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn supply(&self, a: AssetId) -> u128 {
		self.bal.iter().filter(|b| b.0 .0 == a).map(|b| *b.1).sum()
	}
	fn mv(&mut self, a: AssetId, f: W, t: W, x: u128) -> Ok_ {
		let n = self.b(a, f).checked_sub(x)?;
		ok(x > 0 || self.b(a, t) > 0)?;
		self.bal.insert((a, f), n);
		let m = self.b(a, t).checked_add(x)?;
		self.bal.insert((a, t), m);
		Some(())
	}
	fn in_time(&self, till: Option<i64>) -> Ok_ {
		ok(till.map_or(true, |t| t >= 0))
	}
	fn sync(&mut self, p: (AssetId, AssetId)) {
		let w = Pool(p.0, p.1);
		let r = (self.b(p.0, w), self.b(p.1, w));
		let on = self.fee_to.is_some();
		let q = self.pools.get_mut(&p).unwrap();
		q.r = r;
		q.k = if on { u(r.0) * u(r.1) } else { U256::zero() };
	}
	fn add(&mut self, by: W, a: AssetId, b: AssetId, x: (u128, u128), l: (u128, u128), to: W, till: Option<i64>) -> Ok_ {
		self.in_time(till)?;
		ok(a != b && x.0 > 0 && x.1 > 0)?;
		let p = pair(a, b);
		let (x, l) = if a == p.0 { (x, l) } else { ((x.1, x.0), (l.1, l.0)) };
		if !self.pools.contains_key(&p) {
			let lp = self.next << 10 | 100;
			self.next += 1;
			self.pools.insert(p, P { lp, on: true, ..Default::default() });
		}
		let q = self.pools[&p].clone();
		ok(q.on)?;
		let (mut y, r) = (x, q.r);
		if r != (0, 0) {
			ok(r.0 > 0 && r.1 > 0)?;
			// as much as possible of both in the ratio of the reserves
			let b = low(u(x.0) * u(r.1) / u(r.0));
			match b.filter(|b| *b <= x.1) {
				Some(b) => {
					ok(b >= l.1)?;
					y.1 = b;
				},
				None => {
					y.0 = low(u(x.1) * u(r.0) / u(r.1))?;
					ok(y.0 <= x.0 && y.0 >= l.0)?;
				},
			}
		}
		let w = Pool(p.0, p.1);
		self.mv(p.0, by, w, y.0)?;
		self.mv(p.1, by, w, y.1)?;
		// what was sent to the pool before counts as well
		let g = (self.b(p.0, w).checked_sub(r.0)?, self.b(p.1, w).checked_sub(r.1)?);
		let s = self.supply(q.lp);
		let liq = if s == 0 {
			let l = low((u(g.0) * u(g.1)).integer_sqrt())?.checked_sub(LEAST_LP)?;
			self.bal.insert((q.lp, Burn), LEAST_LP);
			l
		} else {
			low((u(g.0) * u(s) / u(r.0)).min(u(g.1) * u(s) / u(r.1)))?
		};
		ok(liq > 0)?;
		*self.bal.entry((q.lp, to)).or_default() += liq;
		self.sync(p);
		self.ev.push(Ev::Add(addr(by), p.0, g.0, p.1, g.1, liq, addr(to)));
		Some(())
	}
	fn remove(&mut self, by: W, a: AssetId, b: AssetId, x: u128, l: (u128, u128), to: W, till: Option<i64>) -> Ok_ {
		self.in_time(till)?;
		let p = pair(a, b);
		let l = if a == p.0 { l } else { (l.1, l.0) };
		let q = self.pools.get(&p)?.clone();
		let w = Pool(p.0, p.1);
		self.mv(q.lp, by, w, x)?;
		let x = self.b(q.lp, w);
		let s = self.supply(q.lp);
		let part = |have: u128| low(u(x) * u(have) / u(s));
		let y = (part(self.b(p.0, w))?, part(self.b(p.1, w))?);
		ok(y.0 > 0 && y.1 > 0 && y.0 >= l.0 && y.1 >= l.1)?;
		self.bal.insert((q.lp, w), 0);
		self.mv(p.0, w, to, y.0)?;
		self.mv(p.1, w, to, y.1)?;
		self.sync(p);
		self.ev.push(Ev::Remove(addr(by), p.0, y.0, p.1, y.1, x, addr(to)));
		Some(())
	}
	fn res(&self, a: AssetId, b: AssetId) -> Option<(u128, u128)> {
		let q = self.pools.get(&pair(a, b)).filter(|q| q.on)?;
		let r = if a < b { q.r } else { (q.r.1, q.r.0) };
		ok(r.0 > 0 && r.1 > 0)?;
		Some(r)
	}
	fn out(x: u128, r: (u128, u128)) -> Option<u128> {
		ok(x > 0)?;
		let x = u(x) * u(997);
		low(x * u(r.1) / (u(r.0) * u(1000) + x)).filter(|x| *x > 0)
	}
	fn inp(x: u128, r: (u128, u128)) -> Option<u128> {
		ok(x > 0 && x < r.1)?;
		low(u(r.0) * u(x) * u(1000) / (u(r.1 - x) * u(997)) + u(1))
	}
	fn quote(&self, path: &[AssetId], x: u128, exact_in: bool) -> Option<Vec<u128>> {
		ok((2..=3).contains(&path.len()))?;
		let n = path.len();
		let mut v = vec![x; n];
		for i in 1..n {
			if exact_in {
				v[i] = Self::out(v[i - 1], self.res(path[i - 1], path[i])?)?;
			} else {
				v[n - 1 - i] = Self::inp(v[n - i], self.res(path[n - 1 - i], path[n - i])?)?;
			}
		}
		Some(v)
	}
	fn swap(&mut self, by: W, path: &[AssetId], v: &[u128], to: W) -> Ok_ {
		let home = |i: usize| {
			let p = pair(path[i], path[i + 1]);
			Pool(p.0, p.1)
		};
		self.mv(path[0], by, home(0), v[0])?;
		for i in 0..path.len() - 1 {
			let (a, b) = (path[i], path[i + 1]);
			let p = pair(a, b);
			let r = self.res(a, b)?;
			ok(v[i + 1] < r.1)?;
			let next = if i + 2 < path.len() { home(i + 1) } else { to };
			let w = home(i);
			self.mv(b, w, next, v[i + 1])?;
			let now = (self.b(a, w), self.b(b, w));
			let got = (now.0.saturating_sub(r.0), now.1.saturating_sub(r.1 - v[i + 1]));
			ok(got != (0, 0))?;
			let x = u(now.0) * u(1000) - u(got.0) * u(3);
			let y = u(now.1) * u(1000) - u(got.1) * u(3);
			ok(x * y >= u(r.0) * u(r.1) * u(1_000_000))?;
			let q = self.pools.get_mut(&p).unwrap();
			q.r = if a < b { now } else { (now.1, now.0) };
			if let Some(f) = self.fee_to {
				// one sixth of what the liquidity has grown by
				let k = u(now.0) * u(now.1);
				let (new, old) = (k.integer_sqrt(), q.k.integer_sqrt());
				q.k = k;
				let lp = q.lp;
				if !old.is_zero() && new > old {
					let x = low(u(self.supply(lp)) * (new - old) / (new * u(5) + old))?;
					*self.bal.entry((lp, f)).or_default() += x;
				}
			}
		}
		Some(())
	}
}
struct World {
	c: Chain,
	m: M,
	base: Vec<AssetId>,
	mark: usize,
	prop: String,
	scale: Vec<u128>,
}
impl World {
	fn events(&mut self) -> Vec<Ev> {
		let ev = self.c.events_since(self.mark);
		self.mark = self.c.event_count();
		let mut v = vec![];
		for e in ev {
			let RuntimeEvent::Dex(e) = e else { continue };
			v.push(match e {
				DE::FeeToSet(w) => Ev::FeeTo(w),
				DE::AddLiquidity(a, b, c, d, e, f, g) => Ev::Add(a, b, c, d, e, f, g),
				DE::RemoveLiquidity(a, b, c, d, e, f, g) => Ev::Remove(a, b, c, d, e, f, g),
				DE::Swap(a, b, c, d, e) => Ev::Swap(a, b, c, d, e),
				DE::EnableTradingPair(p) => Ev::On(p.0, p.1),
				DE::DisableTradingPair(p) => Ev::Off(p.0, p.1),
				_ => continue,
			});
		}
		v
	}
	fn run(&mut self, st: &mut Stats, what: &'static str, s: Step, f: impl FnOnce(&mut M) -> Ok_) -> Result<bool, Violation> {
		let p = self.prop.clone();
		let mut m = self.m.clone();
		m.ev.clear();
		let want = f(&mut m).is_some();
		let out = self.c.atomic(&p, "refusal-left-traces", s)?;
		st.op(what, out.is_ok());
		check!("D01", "outcome", out.is_ok() == want, "{what}: {out:?}, expected it to be {}", if want { "accepted" } else { "refused" });
		let got = self.events();
		let ev = if want { m.ev.clone() } else { vec![] };
		check!("D01", "events", got == ev, "{what}: reported {got:?}, expected {ev:?}");
		if want {
			self.worth(&m)?;
			self.m = m;
			st.hit("D01");
		}
		Ok(want)
	}
	/// What one share stands for never becomes less, and nothing can be taken out that was not put in: judged on
	/// the real balances, not on the reference.
	fn worth(&mut self, after: &M) -> Res {
		for (p, q) in after.pools.iter() {
			let (w, lp) = (addr(Pool(p.0, p.1)), q.lp);
			let (x, y, s) = self.c.exec(|| (rt::AssetsExt::balance(p.0, &w), rt::AssetsExt::balance(p.1, &w), rt::AssetsExt::total_issuance(lp)));
			let Some(o) = self.m.pools.get(p) else { continue };
			let w = Pool(p.0, p.1);
			let (x0, y0, s0) = (self.m.b(p.0, w), self.m.b(p.1, w), self.m.supply(o.lp));
			if s0 == 0 || s == 0 {
				continue;
			}
			let new = (u(x) * u(y)).integer_sqrt() + u(1);
			let mut old = (u(o.r.0.min(x0)) * u(o.r.1.min(y0))).integer_sqrt();
			// what was gained by swaps while no fee went anywhere may be charged (a sixth of it) when fees resume
			if !o.k.is_zero() {
				old = old.min(o.k.integer_sqrt());
			}
			check!("D01", "share-lost-worth", new * u(s0) >= old * u(s), "pool {p:?}: {x0} and {y0} for {s0} shares became {x} and {y} for {s}");
		}
		Ok(())
	}
	fn verify(&mut self) -> Res {
		let m = &self.m;
		let all: Vec<W> = (1..=USERS).map(U).chain([Burn, Pot]).chain(m.pools.keys().map(|p| Pool(p.0, p.1))).collect();
		for a in self.base.iter().copied().chain(m.pools.values().map(|q| q.lp)) {
			for w in &all {
				let got = self.c.exec(|| rt::AssetsExt::balance(a, &addr(*w)));
				check_eq!("D01", "balances", got, m.b(a, *w), "balance of asset {a} of {w:?}");
			}
			let got = self.c.exec(|| rt::AssetsExt::total_issuance(a));
			check_eq!("D01", "conservation", got, m.supply(a), "supply of asset {a}");
		}
		for (p, q) in &m.pools {
			let t = TradingPair(p.0, p.1);
			let (lp, on, r, k) = self.c.exec(|| {
				let lp = pallet_dex::TradingPairLPToken::<Runtime>::get(t);
				(lp, pallet_dex::TradingPairStatuses::<Runtime>::get(t) == TradingPairStatus::Enabled, pallet_dex::LiquidityPool::<Runtime>::get(t), pallet_dex::LiquidityPoolLastK::<Runtime>::get(q.lp))
			});
			check_eq!("D01", "pool", (lp, on, r), (Some(q.lp), q.on, q.r), "shares, status and reserves of pool {p:?}");
			check_eq!("D01", "last-product", k, q.k, "product the next fee of pool {p:?} is measured from");
			let w = Pool(p.0, p.1);
			check!("D01", "reserves", r.0 <= m.b(p.0, w) && r.1 <= m.b(p.1, w), "pool {p:?} has recorded {r:?} but holds less");
		}
		let f = self.c.exec(|| pallet_dex::FeeTo::<Runtime>::get());
		check_eq!("D01", "fee-to", f, m.fee_to.map(addr), "receiver of the fee");
		Ok(())
	}
	fn assets(&self) -> Vec<AssetId> {
		self.base.iter().copied().chain(self.m.pools.values().map(|q| q.lp)).collect()
	}
	fn any(&self, r: &mut Rng) -> AssetId {
		if r.chance(1, 15) {
			*r.pick(&self.assets())
		} else {
			*r.pick(&self.base)
		}
	}
	fn some_pair(&self, r: &mut Rng) -> (AssetId, AssetId) {
		let v: Vec<_> = self.m.pools.keys().copied().collect();
		let (a, b) = if v.is_empty() || r.chance(1, 12) { (self.any(r), self.any(r)) } else { *r.pick(&v) };
		if r.chance(1, 2) {
			(b, a)
		} else {
			(a, b)
		}
	}
	fn to(&self, r: &mut Rng) -> Option<W> {
		match r.below(10) {
			0..=4 => None,
			5 | 6 => Some(U(1 + r.below(USERS))),
			7 => Some(Pot),
			_ => {
				let (a, b) = self.some_pair(r);
				Some(if self.m.pools.contains_key(&pair(a, b)) { Pool(a.min(b), a.max(b)) } else { U(1) })
			},
		}
	}
	fn till(&self, r: &mut Rng) -> Option<i64> {
		*r.pick(&[None, None, None, None, Some(0), Some(1), Some(50), Some(-1)])
	}
	fn amt(&self, r: &mut Rng, a: AssetId, by: u64) -> u128 {
		let b = self.m.b(a, U(by));
		let s = self.base.iter().position(|x| *x == a).map_or(1000, |i| self.scale[i]);
		let x = match r.below(8) {
			0 => b / (2 + r.below(6) as u128),
			1 => 1 + r.below(30) as u128,
			2 => b,
			3 => b.saturating_add(1),
			_ => s / 4 + r.below(1 << 20) as u128 * s / (1 << 19),
		};
		// (accounts keep some of everything)
		if x <= b && b - x < 50 {
			b.saturating_sub(50).max(1)
		} else {
			x.max(1)
		}
	}
	fn path(&self, r: &mut Rng) -> Vec<AssetId> {
		let (a, b) = self.some_pair(r);
		let mut v = vec![a, b];
		if r.chance(1, 2) {
			let c: Vec<_> = self.m.pools.keys().filter(|p| p.0 == b || p.1 == b).map(|p| if p.0 == b { p.1 } else { p.0 }).collect();
			v.push(if c.is_empty() || r.chance(1, 10) { self.any(r) } else { *r.pick(&c) });
		}
		if r.chance(1, 25) {
			v.push(self.any(r));
		}
		if r.chance(1, 30) {
			v.truncate(r.below(2) as usize);
		}
		v
	}
	fn enough(&self, by: u64, a: AssetId, x: u128) -> bool {
		let b = self.m.b(a, U(by));
		x > b || b - x >= 20
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "dex";
	const PROPS: &'static [&'static str] = &["D01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-dex", "pallet-assets-ext"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: USERS, root_each: 0, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 6);
		c.asset(100, 18);
		c.asset(101, 6);
		let base = vec![ROOT, XRP, 100, 101];
		let mut m = M::default();
		let mut scale = vec![];
		for a in &base {
			let s = *r.pick(&[300u128, 1_000, 5_000, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000_000_000, 1 << 100]);
			scale.push(s);
			for w in 1..=USERS {
				let x = s * r.range(2, 40) as u128;
				c.give(*a, acc(w), x);
				m.bal.insert((*a, U(w)), x);
			}
			// the pot always has some of everything
			c.give(*a, addr(Pot), 100);
			m.bal.insert((*a, Pot), 100);
		}
		m.next = c.exec(|| frame_support::storage::unhashed::get_or_default::<u32>(&[sp_core::twox_128(b"AssetsExt"), sp_core::twox_128(b"NextAssetId")].concat()));
		m.fee_to = Some(Pot);
		c.begin(4000);
		m.now = 1;
		let mark = c.event_count();
		World { c, m, base, mark, prop: "D01".into(), scale }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 160) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let by = 1 + r.below(USERS);
		let w = [4, 2, if self.m.pools.len() < 3 { 30 } else { 10 }, 9, 16, 14, 6, 3, 3];
		let near = |r: &mut Rng, x: u128| *r.pick(&[0, 0, x / 2, x, x, x.saturating_add(1), x.saturating_sub(1)]);
		match r.weighted(&w) {
			0 => Op::Block,
			1 => Op::Crash,
			2 => {
				let (a, b) = if r.chance(1, 2) { self.some_pair(r) } else { (self.any(r), self.any(r)) };
				let (mut xa, mut xb) = (self.amt(r, a, by), self.amt(r, b, by));
				let (mut la, mut lb) = (0, 0);
				if let Some(res) = self.m.res(a, b) {
					if r.chance(2, 3) {
						// near the ratio of the reserves
						xb = low(u(xa) * u(res.1) / u(res.0)).unwrap_or(xb);
						xb = *r.pick(&[xb, xb.saturating_add(1), xb.saturating_sub(1), xb.saturating_mul(2)]);
					}
					if let (Some(y), true) = (low(u(xa) * u(res.1) / u(res.0)), r.chance(1, 3)) {
						la = near(r, xa);
						lb = near(r, y);
					}
					if let (Some(y), true) = (low(u(xb) * u(res.0) / u(res.1)), r.chance(1, 3)) {
						la = near(r, y);
						lb = near(r, xb);
					}
				}
				if r.chance(1, 40) {
					xa = 0;
				}
				Op::Add { by, a, b, xa, xb, la, lb, to: self.to(r), till: self.till(r) }
			},
			3 => {
				let (a, b) = self.some_pair(r);
				let p = pair(a, b);
				let by = if let (Some(q), true) = (self.m.pools.get(&p), r.chance(4, 5)) { (1..=USERS).max_by_key(|w| self.m.b(q.lp, U((w + by) % USERS + 1))).map_or(by, |w| (w + by) % USERS + 1) } else { by };
				let lp = self.m.pools.get(&p).map_or(0, |q| q.lp);
				let have = self.m.b(lp, U(by));
				let x = *r.pick(&[have, have, have / 2, have / 3, have + 1, 1, 10, 0]);
				let (mut la, mut lb) = (0, 0);
				let s = self.m.supply(lp);
				if s > 0 && r.chance(1, 2) {
					let w = Pool(p.0, p.1);
					let x = x + self.m.b(lp, w);
					la = near(r, low(u(self.m.b(a, w)) * u(x) / u(s)).unwrap_or(0));
					lb = near(r, low(u(self.m.b(b, w)) * u(x) / u(s)).unwrap_or(0));
				}
				Op::Remove { by, a, b, x, la, lb, to: self.to(r), till: self.till(r) }
			},
			4 => {
				let path = self.path(r);
				let x = path.first().map_or(5, |a| self.amt(r, *a, by));
				let x = if r.chance(1, 40) { 0 } else { x };
				let y = self.m.quote(&path, x, true).map_or(0, |v| v[v.len() - 1]);
				Op::In { by, path, x, least: near(r, y), to: self.to(r), till: self.till(r) }
			},
			5 => {
				let path = self.path(r);
				let n = path.len();
				let x = if n >= 2 {
					let have = self.m.res(path[n - 2], path[n - 1]).map_or(10, |r| r.1);
					*r.pick(&[1, 2, have / 2, have / 10, have / 100, have, have.saturating_sub(1), have + 1, have / 1000])
				} else {
					5
				};
				let y = self.m.quote(&path, x, false).map_or(1 << 90, |v| v[0]);
				Op::Out { by, path, x, most: *r.pick(&[u128::MAX, u128::MAX, y, y, y.saturating_sub(1), y.saturating_add(1)]), to: self.to(r), till: self.till(r) }
			},
			6 => {
				let a = *r.pick(&self.assets());
				let x = self.amt(r, a, by);
				Op::Move { by, a, to: if r.chance(1, 3) { U(1 + r.below(USERS)) } else { self.to(r).unwrap_or(U(1)) }, x }
			},
			7 => Op::FeeTo { root: r.chance(5, 6), to: if r.chance(1, 2) { None } else { Some(*r.pick(&[Pot, U(2)])) } },
			_ => {
				let (a, b) = self.some_pair(r);
				Op::Switch { root: r.chance(5, 6), a, b, on: self.m.pools.get(&pair(a, b)).map_or(true, |q| q.on) == r.chance(1, 5) }
			},
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let call = |by: u64, c: DC<Runtime>| Step::Call(RawOrigin::Signed(acc(by)), c.into());
		let now = self.c.peek(|| rt::System::block_number());
		let date = |t: Option<i64>| t.map(|t| (now as i64 + t).max(0) as u32);
		match op.clone() {
			Op::Block => {
				self.c.end(None)?;
				self.c.begin(4000);
				st.time(4000);
				self.mark = 0;
				self.events();
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Add { by, a, b, xa, xb, la, lb, to, till } => {
				if !self.enough(by, a, xa) || !self.enough(by, b, xb) {
					return Ok(());
				}
				let s = call(by, DC::add_liquidity { token_a: a, token_b: b, amount_a_desired: xa, amount_b_desired: xb, amount_a_min: la, amount_b_min: lb, to: to.map(addr), deadline: date(till) });
				self.run(st, "add liquidity", s, |m| m.add(U(by), a, b, (xa, xb), (la, lb), to.unwrap_or(U(by)), till))?;
			},
			Op::Remove { by, a, b, x, la, lb, to, till } => {
				let s = call(by, DC::remove_liquidity { token_a: a, token_b: b, liquidity: x, amount_a_min: la, amount_b_min: lb, to: to.map(addr), deadline: date(till) });
				self.run(st, "remove liquidity", s, |m| m.remove(U(by), a, b, x, (la, lb), to.unwrap_or(U(by)), till))?;
			},
			Op::In { by, path, x, least, to, till } => {
				if path.first().is_some_and(|a| !self.enough(by, *a, x)) {
					return Ok(());
				}
				let s = call(by, DC::swap_with_exact_supply { amount_in: x, amount_out_min: least, path: path.clone(), to: to.map(addr), deadline: date(till) });
				let to = to.unwrap_or(U(by));
				let before = path.last().map_or(0, |a| self.m.b(*a, to));
				let done = self.run(st, "swap exact supply", s, |m| {
					m.in_time(till)?;
					let v = m.quote(&path, x, true)?;
					ok(v[v.len() - 1] >= least)?;
					m.swap(U(by), &path, &v, to)?;
					m.ev.push(Ev::Swap(addr(U(by)), path.clone(), x, v[v.len() - 1], addr(to)));
					Some(())
				})?;
				if done && !matches!(to, Pool(..)) && path[0] != path[path.len() - 1] {
					let a = path[path.len() - 1];
					let got = self.c.exec(|| rt::AssetsExt::balance(a, &addr(to)));
					check!("D01", "less-than-asked", got >= before + least, "swap of {x} along {path:?} for at least {least} gave {}", got as i128 - before as i128);
				}
			},
			Op::Out { by, path, x, most, to, till } => {
				if let Some(v) = self.m.quote(&path, x, false) {
					if !self.enough(by, path[0], v[0]) {
						return Ok(());
					}
				}
				let s = call(by, DC::swap_with_exact_target { amount_out: x, amount_in_max: most, path: path.clone(), to: to.map(addr), deadline: date(till) });
				let to = to.unwrap_or(U(by));
				let before = path.first().map_or(0, |a| self.m.b(*a, U(by)));
				let done = self.run(st, "swap exact target", s, |m| {
					m.in_time(till)?;
					let v = m.quote(&path, x, false)?;
					ok(v[0] <= most)?;
					m.swap(U(by), &path, &v, to)?;
					m.ev.push(Ev::Swap(addr(U(by)), path.clone(), v[0], x, addr(to)));
					Some(())
				})?;
				if done && path[0] != path[path.len() - 1] {
					let got = self.c.exec(|| rt::AssetsExt::balance(path[0], &addr(U(by))));
					check!("D01", "more-than-allowed", before.saturating_sub(got) <= most, "swap for {x} along {path:?} took {} of at most {most}", before.saturating_sub(got));
				}
			},
			Op::Move { by, a, to, x } => {
				if !self.assets().contains(&a) || to == U(by) || !self.enough(by, a, x) {
					return Ok(());
				}
				let s = Step::Call(RawOrigin::Signed(acc(by)), pallet_assets_ext::Call::<Runtime>::transfer { asset_id: a, destination: addr(to), amount: x, keep_alive: false }.into());
				self.run(st, "donation", s, |m| m.mv(a, U(by), to, x))?;
			},
			Op::FeeTo { root, to } => {
				let s = if root { Step::Call(RawOrigin::Root, DC::<Runtime>::set_fee_to { fee_to: to.map(addr) }.into()) } else { call(1, DC::set_fee_to { fee_to: to.map(addr) }) };
				self.run(st, "set fee receiver", s, |m| {
					ok(root)?;
					m.fee_to = to;
					m.ev.push(Ev::FeeTo(to.map(addr)));
					Some(())
				})?;
			},
			Op::Switch { root, a, b, on } => {
				let o = if root { RawOrigin::Root } else { RawOrigin::Signed(acc(1)) };
				let c: DC<Runtime> = if on { DC::reenable_trading_pair { token_a: a, token_b: b } } else { DC::disable_trading_pair { token_a: a, token_b: b } };
				self.run(st, "switch pair", Step::Call(o, c.into()), |m| {
					let p = pair(a, b);
					let q = m.pools.get_mut(&p)?;
					ok(root && q.on != on)?;
					q.on = on;
					m.ev.push(if on { Ev::On(p.0, p.1) } else { Ev::Off(p.0, p.1) });
					Some(())
				})?;
			},
		}
		self.verify()?;
		st.mix((self.m.pools.len() as u64) << 8 | self.m.pools.values().filter(|q| q.on).count() as u64);
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// every share can be redeemed, disabled pools included
		for (p, q) in self.m.pools.clone() {
			for w in 1..=USERS {
				let x = self.m.b(q.lp, U(w));
				if x > 0 {
					self.apply(&Op::Remove { by: w, a: p.0, b: p.1, x, la: 0, lb: 0, to: None, till: None }, st)?;
				}
			}
		}
		self.c.end(None).map(|_| ())
	}
	fn quick_runs() -> u64 {
		4000
	}
	fn rule() -> &'static str {
		"an evaluation counts when an operation on the exchange was accepted and all balances, reserves and shares compared"
	}
}
fn main() {
	simkit::main::<World>()
}
