//! Fee payment (F01) and maintenance mode (K01): signed transactions through the runtime's whole chain of signed
//! extensions, with calls wrapped in batches, proxies, passes and fee preferences, and contract calls paid through
//! the fee proxy, while governance switches maintenance, blocks accounts, pallets, calls and contracts, and changes fees.
use frame_support::dispatch::GetDispatchInfo;
use frame_system::RawOrigin;
use pallet_maintenance_mode::Call as MC;
use rt::chain::*;
use rt::evm::{abi, low, prefixed, Done, Tok};
use rt::{Runtime, RuntimeCall, RuntimeEvent};
use seed_primitives::{AccountId, AssetId};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{H160, U256};
use sp_runtime::Perbill;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
simkit::interpose!();

/// users: 1 owns a pass, 2 is its delegate, 3 is proxied by 4, 5 holds the sudo key, 6 has no XRP, 7 hardly any
const USERS: u64 = 7;
const PASS: u64 = 8;
const SINK: u64 = 9;
const POT: u64 = 10;
const AUTHOR: u64 = 11;
const WHALE: u64 = 12;
const A: AssetId = 5000;
const B: AssetId = 5001;
const C: AssetId = 5002;
const M1: AssetId = 5003;
const M2: AssetId = 5004;
const WEI: u128 = 1_000_000_000_000;
const OLD: [u8; 4] = [0x25, 0x5a, 0x34, 0x32];
const NEW: [u8; 4] = [0xf6, 0x09, 0x82, 0x86];

fn addr(n: u64) -> AccountId {
	match n {
		PASS => {
			let mut a = [0xff; 20];
			a[4..].copy_from_slice(&1u128.to_be_bytes());
			H160(a).into()
		},
		POT => <rt::TxFeePot>::account_id(),
		_ => acc(n),
	}
}
/// a contract: 0 the fee proxy, 1 and 2 the tokens M1 and M2, else nobody
fn contract(t: u8) -> H160 {
	match t {
		0 => low(1211),
		1 => prefixed(&[0xcc; 4], M1),
		2 => prefixed(&[0xcc; 4], M2),
		_ => low(777_777),
	}
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Via {
	/// the payment asset, through the old or the current function
	Pay { asset: AssetId, old: bool },
	/// an asset address that is none
	NoToken,
	/// something else
	Junk(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Gas {
	/// base fee times this, plus this
	Base(u8, u64),
	/// 2^n
	Huge(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum G {
	Maint(bool),
	Acc(u64, bool),
	Evm(u8, bool),
	Call(String, String, bool),
	Pallet(String, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum S {
	/// one unit (2^k) of M1 through the assets pallet or through assets-ext
	Move { k: u8, ext: bool },
	/// 2^k ROOT
	Root { k: u8 },
	Evm { source: u64, to: u8, k: u8, gas: u64, max: Gas, prio: Option<u64>, via: Option<Via> },
	Gov { sudo: bool, g: G },
	Batch { all: bool, v: Vec<S> },
	Proxy(Box<S>),
	Pass(Box<S>),
	Fee { asset: AssetId, max: u128, call: Box<S> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	Block(bool),
	Crash,
	Fork,
	Tx { by: u64, tip: u128, call: S },
	Gov { root: bool, g: G },
	Fees { root: bool, what: u8, x: u128 },
	Era,
	/// a contract is created
	Create { source: u64, two: bool },
	/// the whale trades with a pool
	Trade { asset: AssetId, sell: bool, x: u128 },
}
fn gov(g: &G) -> RuntimeCall {
	let b = |s: &str| sp_core::bounded::BoundedVec::truncate_from(s.as_bytes().to_vec());
	match g {
		G::Maint(on) => MC::enable_maintenance_mode { enabled: *on },
		G::Acc(a, on) => MC::block_account { account: addr(*a), blocked: *on },
		G::Evm(t, on) => MC::block_evm_target { target_address: contract(*t), blocked: *on },
		G::Call(p, c, on) => MC::block_call { pallet_name: b(p), call_name: b(c), blocked: *on },
		G::Pallet(p, on) => MC::block_pallet { pallet_name: b(p), blocked: *on },
	}
	.into()
}
fn wei(base: U256, g: &Gas) -> U256 {
	match g {
		Gas::Base(x, y) => base * U256::from(*x) + U256::from(*y),
		Gas::Huge(n) => U256::one() << (*n as usize),
	}
}
fn inner(to: u8, k: u8) -> (H160, Vec<u8>) {
	(contract(to), abi("transfer(address,uint256)", &[Tok::A(h160(addr(SINK))), Tok::U(U256::from(1u128 << k))]))
}
fn call(s: &S, base: U256) -> RuntimeCall {
	match s {
		S::Move { k, ext: false } => pallet_assets::Call::<Runtime>::transfer { id: M1.into(), target: addr(SINK), amount: 1 << k }.into(),
		S::Move { k, ext: true } => pallet_assets_ext::Call::<Runtime>::transfer { asset_id: M1, destination: addr(SINK), amount: 1 << k, keep_alive: false }.into(),
		S::Root { k } => pallet_balances::Call::<Runtime>::transfer_allow_death { dest: addr(SINK), value: 1 << k }.into(),
		S::Evm { source, to, k, gas, max, prio, via } => {
			let (t, i) = inner(*to, *k);
			let (target, input) = match via {
				None => (t, i),
				Some(Via::Junk(d)) => (contract(0), d.clone()),
				Some(v) => {
					let (tok, old) = match v {
						Via::Pay { asset, old } => (prefixed(&[0xcc; 4], *asset), *old),
						_ => (prefixed(&[0xcd; 4], A), false),
					};
					let d = if old {
						let mut d = abi("x(address,uint128,address,bytes)", &[Tok::A(tok), Tok::U(U256::zero()), Tok::A(t), Tok::Bytes(i)]);
						d[..4].copy_from_slice(&OLD);
						d
					} else {
						let mut d = abi("x(address,address,bytes)", &[Tok::A(tok), Tok::A(t), Tok::Bytes(i)]);
						d[..4].copy_from_slice(&NEW);
						d
					};
					(contract(0), d)
				},
			};
			pallet_evm::Call::<Runtime>::call { source: h160(addr(*source)), target, input, value: U256::zero(), gas_limit: *gas, max_fee_per_gas: wei(base, max), max_priority_fee_per_gas: prio.map(U256::from), nonce: None, access_list: vec![] }.into()
		},
		S::Gov { sudo: false, g } => gov(g),
		S::Gov { sudo: true, g } => pallet_sudo::Call::<Runtime>::sudo { call: Box::new(gov(g)) }.into(),
		S::Batch { all, v } => {
			let calls = v.iter().map(|c| call(c, base)).collect();
			if *all {
				pallet_utility::Call::<Runtime>::batch_all { calls }.into()
			} else {
				pallet_utility::Call::<Runtime>::batch { calls }.into()
			}
		},
		S::Proxy(c) => pallet_proxy::Call::<Runtime>::proxy { real: addr(3), force_proxy_type: None, call: Box::new(call(c, base)) }.into(),
		S::Pass(c) => pallet_futurepass::Call::<Runtime>::proxy_extrinsic { futurepass: addr(PASS), call: Box::new(call(c, base)) }.into(),
		S::Fee { asset, max, call: c } => pallet_fee_proxy::Call::<Runtime>::call_with_fee_preferences { payment_asset: *asset, max_payment: *max, call: Box::new(call(c, base)) }.into(),
	}
}
/// pallet and function, in lower case
fn name(s: &S) -> (&'static str, &'static str) {
	match s {
		S::Move { ext: false, .. } => ("assets", "transfer"),
		S::Move { ext: true, .. } => ("assetsext", "transfer"),
		S::Root { .. } => ("balances", "transfer_allow_death"),
		S::Evm { .. } => ("evm", "call"),
		S::Gov { sudo: true, .. } => ("sudo", "sudo"),
		S::Gov { g, .. } => (
			"maintenancemode",
			match g {
				G::Maint(_) => "enable_maintenance_mode",
				G::Acc(..) => "block_account",
				G::Evm(..) => "block_evm_target",
				G::Call(..) => "block_call",
				G::Pallet(..) => "block_pallet",
			},
		),
		S::Batch { all: true, .. } => ("utility", "batch_all"),
		S::Batch { .. } => ("utility", "batch"),
		S::Proxy(_) => ("proxy", "proxy"),
		S::Pass(_) => ("futurepass", "proxy_extrinsic"),
		S::Fee { .. } => ("feeproxy", "call_with_fee_preferences"),
	}
}
/// pallets that always work
const ALWAYS: [&str; 5] = ["maintenancemode", "sudo", "timestamp", "imonline", "ethbridge"];

#[derive(Clone, Debug, PartialEq)]
enum Why {
	/// stopped by maintenance or a block
	Stopped,
	Other,
}
type R = Result<(), Why>;
fn ok(b: bool) -> R {
	b.then_some(()).ok_or(Why::Other)
}
fn free(b: bool) -> R {
	b.then_some(()).ok_or(Why::Stopped)
}
/// a contract call that reached the interpreter
#[derive(Clone, Debug)]
struct Ran {
	source: H160,
	target: H160,
	input: Vec<u8>,
	used: u64,
	good: bool,
}
#[derive(Clone, Debug, Default)]
struct M {
	bal: BTreeMap<(AssetId, u64), u128>,
	/// reserves of the pools with XRP: token, XRP
	pool: BTreeMap<AssetId, (u128, u128)>,
	era: u128,
	maint: bool,
	acc: BTreeSet<u64>,
	evm: BTreeSet<u8>,
	calls: BTreeSet<(String, String)>,
	pallets: BTreeSet<String>,
	base: U256,
	weight: Perbill,
	len: u128,
	/// what the interpreter reported, in order
	ran: Vec<Ran>,
	at: usize,
	/// contract calls that a block stopped, or that ran: why the model and the code disagree, if they do
	evms: Vec<(u64, u8)>,
}
fn up(x: U256) -> u128 {
	let (q, r) = (x / U256::from(WEI), x % U256::from(WEI));
	let q = if r.is_zero() { q } else { q + 1 };
	u128::try_from(q).unwrap_or(u128::MAX)
}
impl M {
	fn get(&self, a: AssetId, w: u64) -> u128 {
		self.bal.get(&(a, w)).copied().unwrap_or(0)
	}
	fn add(&mut self, a: AssetId, w: u64, x: u128) {
		*self.bal.entry((a, w)).or_default() += x;
	}
	fn sub(&mut self, a: AssetId, w: u64, x: u128) -> R {
		ok(self.get(a, w) >= x)?;
		*self.bal.entry((a, w)).or_default() -= x;
		Ok(())
	}
	fn tx(&mut self, f: impl FnOnce(&mut M) -> R) -> R {
		let old = self.clone();
		let r = f(self);
		if r.is_err() {
			// what the interpreter ran cannot be unseen
			let at = self.at;
			*self = old;
			self.at = at;
		}
		r
	}
	fn paused(&self, s: &S) -> bool {
		let (p, c) = name(s);
		!ALWAYS.contains(&p) && (self.pallets.contains(p) || self.calls.contains(&(p.into(), c.into())))
	}
	fn active(&self) -> bool {
		self.maint || !self.acc.is_empty() || !self.evm.is_empty() || !self.calls.is_empty() || !self.pallets.is_empty()
	}
	fn price_in(&self, asset: AssetId, out: u128) -> Result<u128, Why> {
		let (t, x) = *self.pool.get(&asset).ok_or(Why::Other)?;
		ok(out > 0 && out < x && t > 0)?;
		Ok((U256::from(t) * U256::from(out) * 1000 / (U256::from(x - out) * 997)).as_u128() + 1)
	}
	fn price_out(&self, asset: AssetId, inn: u128) -> Result<u128, Why> {
		let (t, x) = *self.pool.get(&asset).ok_or(Why::Other)?;
		ok(inn > 0 && t > 0 && x > 0)?;
		let i = U256::from(inn) * 997;
		Ok((i * x / (U256::from(t) * 1000 + i)).as_u128())
	}
	fn swap(&mut self, w: u64, asset: AssetId, inn: u128, out: u128) -> R {
		self.sub(asset, w, inn)?;
		self.add(XRP, w, out);
		let p = self.pool.get_mut(&asset).unwrap();
		*p = (p.0 + inn, p.1 - out);
		Ok(())
	}
	/// the most a contract call can cost (wei), and what it needs at least
	fn gas(&self, gas: u64, max: &Gas, prio: Option<u64>) -> Result<(U256, U256), Why> {
		let g = U256::from(gas);
		let total = g.checked_mul(self.base.checked_add(U256::from(prio.unwrap_or(0))).ok_or(Why::Other)?).ok_or(Why::Other)?;
		let max = wei(self.base, max).checked_mul(g).ok_or(Why::Other)?;
		ok(total <= max)?;
		Ok((total, max))
	}
	fn govern(&mut self, g: &G) -> R {
		fn put<T: Ord>(s: &mut BTreeSet<T>, x: T, on: bool) {
			if on {
				s.insert(x);
			} else {
				s.remove(&x);
			}
		}
		match g {
			G::Maint(on) => self.maint = *on,
			G::Acc(a, on) => put(&mut self.acc, *a, *on),
			G::Evm(t, on) => put(&mut self.evm, *t, *on),
			G::Call(p, c, on) => {
				ok(!p.is_empty() && !c.is_empty())?;
				ok(!ALWAYS.contains(&&*p.to_lowercase()))?;
				put(&mut self.calls, (p.to_lowercase(), c.to_lowercase()), *on);
			},
			G::Pallet(p, on) => {
				ok(!p.is_empty() && !ALWAYS.contains(&&*p.to_lowercase()))?;
				put(&mut self.pallets, p.to_lowercase(), *on);
			},
		}
		Ok(())
	}
	/// a call by `w`; `proxied`: reached through a proxy
	fn run(&mut self, w: u64, proxied: bool, s: &S) -> R {
		self.tx(|m| {
			free(!m.paused(s))?;
			ok(!(proxied && matches!(s, S::Proxy(_) | S::Pass(_))))?;
			match s {
				S::Move { k, .. } => {
					m.sub(M1, w, 1 << k)?;
					m.add(M1, SINK, 1 << k);
					Ok(())
				},
				S::Root { k } => {
					m.sub(ROOT, w, 1 << k)?;
					m.add(ROOT, SINK, 1 << k);
					Ok(())
				},
				S::Evm { source, to, k, gas, max, prio, via } => m.evm(w, *source, *to, *k, *gas, max, *prio, via),
				S::Gov { sudo, g } => {
					ok(*sudo && w == 5)?;
					let _ = m.tx(|m| m.govern(g));
					Ok(())
				},
				S::Batch { all, v } => {
					for c in v {
						match m.run(w, proxied, c) {
							Err(e) if *all => return Err(e),
							Err(_) => break,
							_ => {},
						}
					}
					Ok(())
				},
				S::Proxy(c) => {
					ok(w == 4)?;
					let _ = m.run(3, true, c);
					Ok(())
				},
				S::Pass(c) => {
					ok(w == 1 || w == 2)?;
					// passes are called through the proxy pallet
					free(!m.paused(&S::Proxy(c.clone())))?;
					let _ = m.run(PASS, true, c);
					Ok(())
				},
				S::Fee { asset, call, .. } => {
					ok(*asset != XRP && !matches!(**call, S::Fee { .. }))?;
					m.run(w, proxied, call)
				},
			}
		})
	}
	#[allow(clippy::too_many_arguments)]
	fn evm(&mut self, w: u64, source: u64, to: u8, k: u8, gas: u64, max: &Gas, prio: Option<u64>, via: &Option<Via>) -> R {
		ok(w == source)?;
		free(!self.maint && !self.acc.contains(&source))?;
		free(!self.evm.contains(if via.is_some() { &0 } else { &to }))?;
		if let Some(v) = via {
			let Via::Pay { asset, .. } = v else { return Err(Why::Other) };
			free(!self.evm.contains(&to))?;
			let (total, most) = self.gas(gas, max, prio)?;
			let (total, most) = (up(total), up(most));
			let inn = self.price_in(*asset, most)?;
			let out = self.price_out(*asset, inn)?;
			ok(out >= if most - total == 1 { most } else { total })?;
			self.swap(source, *asset, inn, out)?;
		}
		// the interpreter (a stand-in) takes the fee through the runtime's adapter
		let mx = wei(self.base, max);
		let p = U256::from(prio.unwrap_or(0));
		ok(mx >= self.base && p <= mx)?;
		ok(mx.checked_mul(gas.into()).is_some_and(|x| U256::from(self.get(XRP, source)) * WEI >= x))?;
		let real = (mx - self.base).min(p);
		let paid = up((self.base + real) * gas);
		self.sub(XRP, source, paid)?;
		let (t, i) = inner(to, k);
		let ran = self.ran.get(self.at).cloned().ok_or(Why::Other)?;
		self.at += 1;
		ok(ran.source == h160(addr(source)) && ran.target == t && ran.input == i)?;
		if ran.good && to > 0 {
			let id = if to == 1 { M1 } else { M2 };
			self.sub(id, source, 1 << k)?;
			self.add(id, SINK, 1 << k);
		}
		self.evms.push((source, to));
		let used = U256::from(ran.used);
		let back = if paid == 0 { 0 } else { up((U256::from(paid) * WEI).saturating_sub((self.base + real) * used)) };
		self.add(XRP, source, back);
		let kept = paid - back.min(paid);
		let pot = up(self.base * used).min(kept);
		self.add(XRP, POT, pot);
		self.era += pot;
		self.add(XRP, AUTHOR, kept - pot);
		Ok(())
	}
	/// what is charged before the call runs; the payer
	fn charge(&mut self, by: u64, s: &S, fee: u128) -> Result<u64, Why> {
		let pass = |w: u64| w == 1 || w == 2;
		let mut payer = by;
		if matches!(s, S::Pass(_)) && pass(by) {
			payer = PASS;
		}
		if let S::Fee { asset, max, call } = s {
			let mut total = fee;
			let mut add = |m: &M, c: &S| {
				if let S::Evm { gas, max, prio, .. } = c {
					if let Ok((_, most)) = m.gas(*gas, max, *prio) {
						total = total.saturating_add(up(most));
					}
				}
			};
			if let S::Pass(c) = &**call {
				if pass(by) {
					payer = PASS;
				}
				add(self, c);
			}
			add(self, call);
			if self.get(XRP, payer) < 1 {
				total = total.saturating_add(1);
			}
			ok(*asset != XRP)?;
			let inn = self.price_in(*asset, total)?;
			ok(inn <= *max)?;
			self.swap(payer, *asset, inn, total)?;
		}
		if fee > 0 {
			ok(self.get(XRP, payer) > fee)?;
			self.sub(XRP, payer, fee)?;
		}
		Ok(payer)
	}
}
struct World {
	c: Chain,
	m: M,
	prop: String,
	ran: Rc<RefCell<Vec<Ran>>>,
	mark: usize,
	start: BTreeMap<AssetId, u128>,
	paid: u128,
}
type Res = Result<(), Violation>;
const SHOWN: [AssetId; 7] = [ROOT, XRP, A, B, C, M1, M2];
impl World {
	/// the model's view of the chain
	fn look(&mut self) -> M {
		let mut m = M::default();
		for a in SHOWN {
			for w in 1..=WHALE {
				m.bal.insert((a, w), self.c.bal(a, &addr(w)));
			}
		}
		for a in [A, B] {
			let t = pallet_dex::TradingPair::new(a, XRP);
			let (x, y) = self.c.exec(|| pallet_dex::LiquidityPool::<Runtime>::get(t));
			m.pool.insert(a, if t.0 == a { (x, y) } else { (y, x) });
		}
		m.era = self.c.exec(pallet_tx_fee_pot::EraTxFees::<Runtime>::get);
		m
	}
	fn prop(&self) -> &'static str {
		if self.m.active() {
			"K01"
		} else {
			"F01"
		}
	}
	fn verify(&mut self, op: &Op) -> Res {
		let got = self.look();
		for ((a, w), x) in &self.m.bal {
			let y = got.get(*a, *w);
			let p = if [M1, M2, ROOT].contains(a) { self.prop() } else { "F01" };
			check!(p, if p == "F01" { "balance" } else { "effect" }, y == *x, "account {w} has {y} of asset {a}, expected {x}, after {op:?}");
		}
		check_eq!("F01", "pool", got.pool, self.m.pool, "reserves after {op:?}");
		check_eq!("F01", "era", got.era, self.m.era, "fees of this era after {op:?}");
		for (a, x) in self.start.clone() {
			let y = self.c.supply(a);
			check!("F01", "supply", y == x, "supply of asset {a} went from {x} to {y} after {op:?}");
		}
		let (on, accs, evms, calls, pallets) = self.c.exec(|| {
			(
				pallet_maintenance_mode::MaintenanceModeActive::<Runtime>::get(),
				pallet_maintenance_mode::BlockedAccounts::<Runtime>::iter().filter(|x| x.1).map(|x| x.0).collect::<BTreeSet<_>>(),
				pallet_maintenance_mode::BlockedEVMAddresses::<Runtime>::iter().filter(|x| x.1).map(|x| x.0).collect::<BTreeSet<_>>(),
				pallet_maintenance_mode::BlockedCalls::<Runtime>::iter().filter(|x| x.1).map(|((p, c), _)| (String::from_utf8_lossy(&p).into_owned(), String::from_utf8_lossy(&c).into_owned())).collect::<BTreeSet<_>>(),
				pallet_maintenance_mode::BlockedPallets::<Runtime>::iter().filter(|x| x.1).map(|x| String::from_utf8_lossy(&x.0).into_owned()).collect::<BTreeSet<_>>(),
			)
		});
		check_eq!("K01", "blocks", on, self.m.maint, "maintenance after {op:?}");
		check_eq!("K01", "blocks", accs, self.m.acc.iter().map(|a| addr(*a)).collect(), "blocked accounts after {op:?}");
		check_eq!("K01", "blocks", evms, self.m.evm.iter().map(|a| contract(*a)).collect(), "blocked contracts after {op:?}");
		check_eq!("K01", "blocks", calls, self.m.calls.clone(), "blocked calls after {op:?}");
		check_eq!("K01", "blocks", pallets, self.m.pallets.clone(), "blocked pallets after {op:?}");
		Ok(())
	}
	fn g(&self, r: &mut Rng) -> G {
		let case = |r: &mut Rng, s: &str| match r.below(4) {
			0 => s.to_lowercase(),
			1 => s.to_uppercase(),
			_ => s.to_string(),
		};
		let off = |r: &mut Rng| r.chance(2, 5);
		let known = [("Assets", "transfer"), ("AssetsExt", "transfer"), ("Balances", "transfer_allow_death"), ("EVM", "call"), ("Utility", "batch"), ("Utility", "batch_all"), ("Proxy", "proxy"), ("Futurepass", "proxy_extrinsic"), ("FeeProxy", "call_with_fee_preferences"), ("Sudo", "sudo"), ("MaintenanceMode", "block_account"), ("Timestamp", "set"), ("ImOnline", "heartbeat"), ("EthBridge", "submit_event"), ("", "transfer"), ("Assets", ""), ("Nft", "transfer")];
		// lift something that is in force
		if self.m.active() && r.chance(1, 2) {
			let m = &self.m;
			let mut all: Vec<G> = vec![];
			if m.maint {
				all.push(G::Maint(false));
			}
			all.extend(m.acc.iter().map(|a| G::Acc(*a, false)));
			all.extend(m.evm.iter().map(|a| G::Evm(*a, false)));
			all.extend(m.calls.iter().map(|a| G::Call(a.0.clone(), a.1.clone(), false)));
			all.extend(m.pallets.iter().map(|a| G::Pallet(a.clone(), false)));
			let g = r.pick(&all).clone();
			return match g {
				G::Call(p, c, o) => G::Call(case(r, &p), case(r, &c), o),
				G::Pallet(p, o) => G::Pallet(case(r, &p), o),
				g => g,
			};
		}
		match r.weighted(&[2, 3, 3, 4, 3]) {
			0 => G::Maint(!off(r)),
			1 => G::Acc(*r.pick(&[1, 2, 3, 4, 5, 6, PASS]), !off(r)),
			2 => G::Evm(r.below(4) as u8, !off(r)),
			3 => {
				let (p, c) = *r.pick(&known);
				G::Call(case(r, p), case(r, c), !off(r))
			},
			_ => {
				let (p, _) = *r.pick(&known);
				G::Pallet(case(r, p), !off(r))
			},
		}
	}
	fn evm(&self, r: &mut Rng, w: u64, k: &mut u8) -> S {
		*k += 1;
		let via = match r.below(10) {
			0..=3 => None,
			4 => Some(match r.below(4) {
				0 => Via::NoToken,
				1 => Via::Junk(vec![]),
				2 => Via::Junk(NEW.to_vec()),
				_ => Via::Junk([vec![1, 2, 3, 4], vec![0; 200]].concat()),
			}),
			_ => Some(Via::Pay { asset: *r.pick(&[A, A, B, B, C, XRP]), old: r.chance(1, 3) }),
		};
		let max = match r.below(12) {
			0 => Gas::Base(0, r.below(1 << 40)),
			1..=3 => Gas::Base(1, 0),
			4..=6 => Gas::Base(2, 0),
			7..=9 => Gas::Base(1, r.below(1 << 43)),
			_ => Gas::Huge(*r.pick(&[45, 50, 90, 127, 150, 200, 240])),
		};
		S::Evm { source: if r.chance(1, 20) { 1 + r.below(USERS) } else { w }, to: 1 + r.below(2) as u8, k: *k, gas: *r.pick(&[200_000, 500_000, 1_000_000]), max, prio: if r.chance(1, 2) { None } else { Some({
			let n = *r.pick(&[10u32, 40, 43]);
			r.below(1 << n)
		}) }, via }
	}
	fn s(&mut self, r: &mut Rng, w: u64, deep: u8, k: &mut u8) -> S {
		let mut wt = [4, 3, 2, 4, 1, 3, 2, 3, 3];
		if deep >= 4 || *k > 12 {
			wt = [4, 3, 2, 3, 1, 0, 0, 0, 0];
		}
		if w == 5 {
			wt[4] = 4;
		}
		if w == 4 {
			wt[6] = 8;
		}
		if w == 1 || w == 2 {
			wt[7] = 8;
		}
		match r.weighted(&wt) {
			0 => {
				*k += 1;
				S::Move { k: *k, ext: false }
			},
			1 => {
				*k += 1;
				S::Move { k: *k, ext: true }
			},
			2 => {
				*k += 1;
				S::Root { k: *k }
			},
			3 => self.evm(r, w, k),
			4 => S::Gov { sudo: r.chance(2, 3), g: self.g(r) },
			5 => {
				let n = r.below(4);
				S::Batch { all: r.chance(1, 2), v: (0..n).map(|_| self.s(r, w, deep + 1, k)).collect() }
			},
			6 => S::Proxy(Box::new(self.s(r, 3, deep + 1, k))),
			7 => S::Pass(Box::new(self.s(r, PASS, deep + 1, k))),
			_ => {
				let call = Box::new(self.s(r, w, deep + 1, k));
				self.fee(r, w, call)
			},
		}
	}
	fn fee(&mut self, r: &mut Rng, w: u64, call: Box<S>) -> S {
		let asset = *r.pick(&[A, A, A, B, B, B, C, XRP]);
		// near what it will cost
		let mut max = u128::MAX;
		if r.chance(1, 2) && [A, B].contains(&asset) {
			let s = S::Fee { asset, max, call: call.clone() };
			let mut m = self.m.clone();
			let (fee, _) = self.fee_of(&s, 0);
			if let Ok(p) = m.charge(w, &s, fee) {
				let cost = self.m.get(asset, p) - m.get(asset, p);
				max = match r.below(4) {
					0 => cost - 1,
					1 => cost,
					2 => cost / 2,
					_ => cost + 1,
				};
			}
		}
		S::Fee { asset, max, call }
	}
	/// fee of a transaction, from the fees in force
	fn fee_of(&mut self, s: &S, tip: u128) -> (u128, u128) {
		let c = call(s, self.m.base);
		let info = self.c.peek(|| c.get_dispatch_info());
		let (len, w) = (codec::Encode::encoded_size(&c) as u128 + 110, info.weight.ref_time() as u128);
		let base = <rt::stand_ins::RuntimeBlockWeights as frame_support::traits::Get<frame_system::limits::BlockWeights>>::get().get(info.class).base_extrinsic.ref_time() as u128;
		(self.m.weight * base + self.m.weight * w + self.m.len * len + tip, w)
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "fees";
	const PROPS: &'static [&'static str] = &["F01", "K01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-fee-proxy (incl. the EVM runner)", "pallet-fee-control", "pallet-tx-fee-pot", "pallet-maintenance-mode", "pallet-dex", "pallet-futurepass", "pallet-assets-ext", "runtime configuration: call filter, signed extensions, proxy filter, EVM currency and fee adapters, precompiles"];
	const STUB: &'static [&'static str] = &["frame (system, executive, assets, balances, transaction payment, utility, proxy, sudo)", "EVM interpreter: a small engine that runs the real precompiles and takes fees through the real adapter as pallet-evm does"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed ^ 0xfee);
		let mut c = Chain::new(Cfg { accounts: WHALE, root_each: 1 << 60, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 8);
		for a in [A, B, C, M1, M2] {
			c.asset(a, if a == A { 6 } else { 18 });
		}
		for w in 1..=USERS {
			for a in [A, B, C] {
				if r.chance(5, 6) {
					c.give(a, addr(w), *r.pick(&[1_000_000_000, 1 << 50]));
				}
			}
			for a in [M1, M2] {
				c.give(a, addr(w), 1 << 60);
			}
			match w {
				6 => {},
				7 => c.give(XRP, addr(w), 1 + r.below(1000) as u128),
				_ => c.give(XRP, addr(w), *r.pick(&[100_000_000_000, 100_000_000_000, 10_000_000])),
			}
		}
		c.give(XRP, addr(AUTHOR), 5);
		for a in [XRP, A, B] {
			c.give(a, addr(WHALE), 1 << 100);
		}
		c.give(ROOT, addr(PASS), 1 << 60);
		c.exec(|| {
			rt::stand_ins::set_validators(&vec![addr(AUTHOR)]);
			pallet_sudo::Key::<Runtime>::put(addr(5));
			let any = rt::impls::ProxyType::Any;
			rt::Futurepass::create(RawOrigin::Signed(addr(1)).into(), addr(1)).expect("pass");
			pallet_proxy::Pallet::<Runtime>::add_proxy_delegate(&addr(PASS), addr(2), any, 0).expect("delegate");
			pallet_proxy::Pallet::<Runtime>::add_proxy_delegate(&addr(3), addr(4), any, 0).expect("proxy");
			for (a, x, y) in [(A, 1u128 << 50, 1u128 << 45), (B, 30_000_000_000, 70_000_000_000)] {
				rt::Dex::add_liquidity(RawOrigin::Signed(addr(WHALE)).into(), a, XRP, x, y, 0, 0, None, None).expect("pool");
			}
		});
		for a in [A, B, C] {
			c.give(a, addr(PASS), 1 << 45);
		}
		for a in [M1, M2] {
			c.give(a, addr(PASS), 1 << 50);
		}
		c.give(XRP, addr(PASS), *r.pick(&[100_000_000_000, 100_000_000_000, 1, 1000]));
		let ran: Rc<RefCell<Vec<Ran>>> = Default::default();
		let l = ran.clone();
		pallet_evm::set_inner_handler(Some(Box::new(move |c: &pallet_evm::InnerCall| interpret(c, &l))));
		c.begin(4000);
		let mut w = World { c, m: M::default(), prop: prop.into(), ran, mark: 0, start: BTreeMap::new(), paid: 0 };
		w.m = w.look();
		w.m.base = U256::from(7_500_000_000_000u128);
		w.m.weight = Perbill::from_parts(100_000);
		w.m.len = 350;
		for a in SHOWN {
			let x = w.c.supply(a);
			w.start.insert(a, x);
		}
		w.mark = w.c.event_count();
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(15, 60) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let calm = self.prop == "F01";
		match r.weighted(&[3, 1, 1, 24, if calm { 2 } else { 9 }, 2, 1, 2, if calm { 0 } else { 2 }]) {
			0 => Op::Block(r.chance(1, 3)),
			1 => Op::Crash,
			2 => Op::Fork,
			3 => {
				let by = 1 + r.below(USERS);
				let mut k = 0;
				let mut call = self.s(r, by, 0, &mut k);
				if r.chance(1, 3) && !matches!(call, S::Fee { .. }) {
					call = self.fee(r, by, Box::new(call));
				}
				Op::Tx { by, tip: if r.chance(1, 4) { r.below(100_000) as u128 } else { 0 }, call }
			},
			4 => Op::Gov { root: r.chance(5, 6), g: self.g(r) },
			5 => {
				let what = r.below(3) as u8;
				let x = match what {
					0 => *r.pick(&[7_500_000_000_000, 15_000_000_000_000, 1_000_000_000_000, 1_234_567_890_123, 999_999_999_999, 1, 0]),
					1 => *r.pick(&[100_000, 1_000_000, 1, 0]),
					_ => *r.pick(&[350, 0, 1, 10_000]),
				};
				Op::Fees { root: r.chance(4, 5), what, x }
			},
			6 => Op::Era,
			8 => Op::Create { source: *r.pick(&[1, 2, 3, 4, 5, 6, PASS]), two: r.chance(1, 2) },
			_ => {
				let asset = *r.pick(&[A, B]);
				let p = self.m.pool[&asset];
				let sell = r.chance(1, 2);
				Op::Trade { asset, sell, x: (if sell { p.0 } else { p.1 }) / *r.pick(&[3, 20, 1000]) + 1 }
			},
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		self.ran.borrow_mut().clear();
		match op {
			Op::Block(_) => {
				self.c.end(None)?;
				self.c.begin(4000);
				self.mark = self.c.event_count();
				st.time(4000);
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash");
				self.mark = self.c.event_count();
			},
			Op::Fork => {
				self.c.end(None)?;
				self.c.abandoned_fork(|c| {
					let _ = c.root(gov(&G::Maint(true)));
					let _ = c.signed(addr(1), call(&S::Move { k: 3, ext: true }, U256::zero()), 0);
				});
				st.fault("abandoned fork");
				self.c.begin(4000);
				self.mark = self.c.event_count();
			},
			Op::Tx { by, tip, call: s } => {
				if !(1..=USERS).contains(by) {
					return Ok(());
				}
				let was = self.m.clone();
				let (fee, _) = self.fee_of(s, *tip);
				let out = self.c.signed(addr(*by), call(s, self.m.base), *tip);
				let ev = self.c.events_since(self.mark);
				self.mark += ev.len();
				self.m.ran = self.ran.borrow().clone();
				self.m.at = 0;
				self.m.evms.clear();
				let reported: Vec<(AccountId, u128, u128)> = ev
					.iter()
					.filter_map(|e| match e {
						RuntimeEvent::TransactionPayment(pallet_transaction_payment::Event::TransactionFeePaid { who, actual_fee, tip }) => Some((*who, *actual_fee, *tip)),
						_ => None,
					})
					.collect();
				let mut m = self.m.clone();
				// is it let in?
				let exempt = ALWAYS.contains(&name(s).0);
				let entry = free(exempt || !(m.maint || m.acc.contains(by))).and_then(|_| m.charge(*by, s, fee));
				let want = match &entry {
					Err(_) => Out_::Refused,
					Ok(payer) => {
						let r = m.run(*by, false, s);
						check!(if was.active() { "K01" } else { "F01" }, "let-in", !matches!(out, Err(None)), "{by}'s {s:?} (fee {fee}) was refused; blocked: {} {:?} {:?} {:?} {:?}", was.maint, was.acc, was.evm, was.calls, was.pallets);
						check!("F01", "fee-report", reported.len() == 1 && reported[0].0 == addr(*by) && reported[0].2 == *tip, "fees reported for {by}'s {s:?}: {reported:?}");
						let actual = reported[0].1;
						check!("F01", "fee", actual >= *tip && actual <= fee, "{by} was charged {actual} for {s:?}, the most is {fee}, the tip {tip}");
						if matches!(s, S::Fee { .. } | S::Pass(_) | S::Move { .. } | S::Root { .. }) {
							check_eq!("F01", "fee-full", actual, fee, "fee of {by} for {s:?}");
						}
						// what was too much goes back to the sender, if it can hold it
						let back = fee - actual;
						if fee > 0 {
							let mut pot = actual;
							if m.get(XRP, *by) > 0 {
								m.add(XRP, *by, back);
							} else {
								pot = fee;
							}
							m.add(XRP, POT, pot);
							m.era += pot;
						}
						if *payer == PASS {
							st.count("paid by the pass");
						}
						match r {
							Ok(()) => Out_::Done,
							Err(w) => Out_::Failed(w),
						}
					},
				};
				let got = match &out {
					Ok(_) => Out_::Done,
					Err(None) => Out_::Refused,
					Err(Some(_)) => Out_::Failed(Why::Other),
				};
				let same = std::mem::discriminant(&got) == std::mem::discriminant(&want);
				let stopped = matches!(want, Out_::Failed(Why::Stopped)) || entry == Err(Why::Stopped);
				let filtered = matches!(out, Err(Some(e)) if e == frame_system::Error::<Runtime>::CallFiltered.into());
				let p = if stopped || filtered || (was.active() && matches!(got, Out_::Refused)) { "K01" } else { "F01" };
				check!(p, if stopped { "not-stopped" } else { "outcome" }, same, "{by} sent {s:?} (fee {fee}): {out:?}, expected {want:?}; blocked: {} {:?} {:?} {:?} {:?}", was.maint, was.acc, was.evm, was.calls, was.pallets);
				check!(if was.active() { "K01" } else { "F01" }, "executions", entry.is_err() || m.at == m.ran.len(), "{by} sent {s:?}: {} contract calls ran, expected {}", m.ran.len(), m.at);
				check!("F01", "executions", entry.is_ok() || m.ran.is_empty(), "{by} sent {s:?}, which was refused, but contract calls ran");
				// the pay of those who pay in another token
				if let (S::Fee { asset, max, .. }, Ok(p)) = (s, &entry) {
					let spent = was.get(*asset, *p).saturating_sub(self.c.bal(*asset, &addr(*p)));
					let more = self.ran.borrow().len();
					check!("F01", "above-max", more > 0 || spent <= *max, "{p} paid {spent} of {asset} for fees, the most was {max}");
					st.hit("F01");
					st.count("paid in tokens");
				}
				if stopped {
					st.count("stopped");
					st.hit("K01");
				}
				if self.m.active() && got == Out_::Done {
					st.count("done in spite of blocks");
				}
				if m.at > 0 {
					st.count("contract calls");
				}
				st.op(name(s).0, out.is_ok());
				if entry.is_ok() {
					if want == Out_::Done || matches!(want, Out_::Failed(_)) {
						self.m = m;
					}
				}
			},
			Op::Gov { root, g } => {
				let o = if *root { RawOrigin::Root } else { RawOrigin::Signed(addr(1)) };
				let out = self.c.step(Step::Call(o, gov(g)));
				let mut m = self.m.clone();
				let want = ok(*root).and_then(|_| m.govern(g));
				check!("K01", "governance", out.is_ok() == want.is_ok(), "{g:?} by {}: {out:?}, expected {want:?}", if *root { "root" } else { "a user" });
				if want.is_ok() {
					self.m = m;
				}
				st.op("governance", out.is_ok());
			},
			Op::Fees { root, what, x } => {
				use pallet_fee_control::Call as F;
				let c: RuntimeCall = match what {
					0 => F::<Runtime>::set_evm_base_fee { value: U256::from(*x) },
					1 => F::<Runtime>::set_weight_multiplier { value: Perbill::from_parts(*x as u32) },
					_ => F::<Runtime>::set_length_multiplier { value: *x },
				}
				.into();
				let o = if *root { RawOrigin::Root } else { RawOrigin::Signed(addr(1)) };
				let out = self.c.step(Step::Call(o, c));
				check!("F01", "fee-control", *root == out.is_ok(), "fees set by {}: {out:?}", if *root { "root" } else { "a user" });
				if *root {
					match what {
						0 => self.m.base = U256::from(*x),
						1 => self.m.weight = Perbill::from_parts(*x as u32),
						_ => self.m.len = *x,
					}
				}
				st.op("fee change", out.is_ok());
			},
			Op::Era => {
				let got = Rc::new(Cell::new((0, 0)));
				let g = got.clone();
				let _ = self.c.run(move || {
					g.set(<rt::TxFeePot as pallet_staking::EraPayout<u128>>::era_payout(5, 7, 9));
					Ok(())
				});
				check_eq!("F01", "era-payout", got.get(), (self.m.era, 0), "what an era pays out");
				self.paid += self.m.era;
				self.m.era = 0;
				st.op("end of an era", true);
			},
			Op::Create { source, two } => {
				use pallet_evm::Runner;
				type Run = <Runtime as pallet_evm::Config>::Runner;
				let (s, two) = (h160(addr(*source)), *two);
				let config = pallet_evm::Pallet::<Runtime>::config();
				let out = self.c.run(move || {
					let z = U256::zero();
					let r = if two {
						Run::create2(s, vec![1], Default::default(), z, 100_000, None, None, None, vec![], false, false, None, None, &config)
					} else {
						Run::create(s, vec![1], z, 100_000, None, None, None, vec![], false, false, None, None, &config)
					};
					r.map(|_| ()).map_err(|e| e.error.into())
				});
				let want = !self.m.maint && !self.m.acc.contains(source);
				let made = self.ran.borrow().len();
				check!("K01", "create", out.is_ok() == want && made == want as usize, "account {source} created a contract: {out:?}, {made} reached the interpreter, expected {want}");
				st.op("contract creation", out.is_ok());
			},
			Op::Trade { asset, sell, x } => {
				let path = if *sell { vec![*asset, XRP] } else { vec![XRP, *asset] };
				let (x, a) = (*x, *asset);
				let out = self.c.run(move || rt::Dex::swap_with_exact_supply(RawOrigin::Signed(addr(WHALE)).into(), x, 1, path.clone(), None, None).map(|_| ()).map_err(|e| e.error));
				st.op("trade", out.is_ok());
				let now = self.look();
				self.m.pool = now.pool.clone();
				for t in [a, XRP] {
					self.m.bal.insert((t, WHALE), now.get(t, WHALE));
				}
			},
		}
		self.mark = self.c.event_count();
		self.verify(op)?;
		st.mix(self.m.active() as u64 * 8 + self.m.maint as u64 * 4 + (self.m.acc.len().min(1) * 2 + self.m.evm.len().min(1)) as u64);
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// everything lifted: all works again
		let m = self.m.clone();
		let all: Vec<G> = [G::Maint(false)].into_iter().chain(m.acc.iter().map(|a| G::Acc(*a, false))).chain(m.evm.iter().map(|a| G::Evm(*a, false))).chain(m.calls.iter().map(|a| G::Call(a.0.to_uppercase(), a.1.clone(), false))).chain(m.pallets.iter().map(|a| G::Pallet(a.clone(), false))).collect();
		for g in all {
			// by the holder of the sudo key, who may be blocked too
			let s = S::Gov { sudo: true, g };
			let poor = self.m.get(XRP, 5) <= self.fee_of(&s, 0).0;
			if poor {
				let S::Gov { g, .. } = s else { continue };
				self.apply(&Op::Gov { root: true, g }, st)?;
			} else {
				self.apply(&Op::Tx { by: 5, tip: 0, call: s }, st)?;
			}
		}
		check!("K01", "lifted", !self.m.active(), "blocks remain: {:?}", self.m);
		for s in [S::Move { k: 1, ext: false }, S::Move { k: 2, ext: true }, S::Root { k: 3 }] {
			self.apply(&Op::Tx { by: 3, tip: 0, call: s }, st)?;
		}
		self.c.end(None)?;
		st.hit("K01");
		st.hit("F01");
		Ok(())
	}
	fn panic_prop(&self) -> String {
		"F01".into()
	}
	fn quick_runs() -> u64 {
		6000
	}
	fn thorough_runs() -> u64 {
		120_000
	}
	fn rule() -> &'static str {
		"an evaluation counts when a transaction was let in or stopped and all balances, the pot and the effects were compared with the reference"
	}
}
#[derive(Clone, Debug, PartialEq)]
enum Out_ {
	Done,
	Failed(Why),
	Refused,
}
/// what pallet-evm does around a transaction: checks, takes the fee, runs it, gives back what was not used, pays the tip
fn interpret(c: &pallet_evm::InnerCall, l: &Rc<RefCell<Vec<Ran>>>) -> pallet_evm::InnerOutcome {
	use pallet_evm::{InnerOutcome as O, OnChargeEVMTransaction};
	type Charge = <Runtime as pallet_evm::Config>::OnChargeTransaction;
	if c.kind.starts_with("create") {
		l.borrow_mut().push(Ran { source: c.source, target: H160::zero(), input: c.input.clone(), used: 0, good: true });
	}
	let Some(target) = c.target.filter(|_| c.kind == "call") else { return O::Ok };
	let base = <Runtime as pallet_evm::Config>::FeeCalculator::min_gas_price().0;
	use fp_evm::FeeCalculator;
	let (max, prio) = (c.max_fee_per_gas.unwrap_or_default(), c.max_priority_fee_per_gas.unwrap_or_default());
	if max < base || prio > max {
		return O::Reject;
	}
	let who: AccountId = c.source.into();
	let have = U256::from(rt::chain::free(XRP, &who)) * WEI;
	if !max.checked_mul(c.gas_limit.into()).is_some_and(|x| have >= x) {
		return O::Reject;
	}
	let per = base + (max - base).min(prio);
	let Ok(fee) = <Charge as OnChargeEVMTransaction<Runtime>>::withdraw_fee(&c.source, per * c.gas_limit) else { return O::Reject };
	let d: Done = rt::evm::transact(c.source, target, c.input.clone(), c.value, c.gas_limit);
	l.borrow_mut().push(Ran { source: c.source, target, input: c.input.clone(), used: d.gas_used, good: d.ok() });
	let tip = <Charge as OnChargeEVMTransaction<Runtime>>::correct_and_deposit_fee(&c.source, per * d.gas_used, base * d.gas_used, fee);
	<Charge as OnChargeEVMTransaction<Runtime>>::pay_priority_fee(tip);
	match d.reason {
		fp_evm::ExitReason::Succeed(_) => O::Ok,
		fp_evm::ExitReason::Revert(_) => O::Revert,
		_ => O::OutOfGas,
	}
}
fn main() {
	simkit::main::<World>();
}
