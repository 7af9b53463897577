//! Money in the EVM (W01): contract transactions with value, nested frames that fail or run out of gas, contract creation,
//! gas charged and returned, tips, transfers by the XRP token contract and by ordinary calls, money on hold.
use frame_support::traits::fungible::Inspect;
use frame_support::traits::tokens::{Fortitude, Preservation};
use frame_support::PalletId;
use frame_system::RawOrigin;
use pallet_evm::{InnerCall, InnerOutcome, OnChargeEVMTransaction, Runner};
use rt::chain::*;
use rt::evm::{abi, deploy, low, n, prefixed, Act, Code, Done, Kind, Tok, Trace};
use rt::kit::*;
use rt::Runtime;
use seed_pallet_common::Hold;
use seed_primitives::AccountId;
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{H160, U256};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
simkit::interpose!();

const WEI: u128 = 1_000_000_000_000;
/// parties: 1..=4 have XRP, 5 has one drop, 6 and 7 have none, 8..=10 are contracts, 11 is a block author with money and 12 one
/// without, 13 the zero address, 14 the fee pot, 15 the contract of the XRP token, 16 the registrar of passes,
/// 17 where held money is, 18 and 19 where new contracts appear
const PARTIES: u8 = 19;
const POT: u8 = 14;
const TOKEN: u8 = 15;
const HELD: u8 = 17;
type Charge = <Runtime as pallet_evm::Config>::OnChargeTransaction;
type Money = <Runtime as pallet_evm::Config>::Currency;
type Run = <Runtime as pallet_evm::Config>::Runner;

fn at(k: u8) -> H160 {
	match k {
		8..=10 | 18 | 19 => H160::repeat_byte(0x30 + k),
		13 => H160::zero(),
		POT => h160(<rt::TxFeePot>::account_id()),
		TOKEN => prefixed(&[0xcc; 4], XRP),
		16 => low(65535),
		HELD => pallet_h160(b"assetext"),
		_ => h160(acc(k as u64)),
	}
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Tx {
	by: u8,
	to: u8,
	/// in wei
	value: u128,
	acts: Vec<Act>,
	/// what the XRP token contract is asked to move, in drops, when it is called
	token: Option<(u8, u128)>,
	gas: u64,
	/// base fee times this, plus this
	max: (u8, u128),
	prio: Option<u128>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	Block(bool),
	Crash,
	/// through the Ethereum transaction pool
	Tx(Tx),
	/// through the EVM pallet's call, signed by this party
	Call(Tx, u8),
	Create(Tx, bool),
	Move { by: u8, to: u8, x: u128, keep: bool },
	Hold { who: u8, x: u128, on: bool },
	Author(u8),
	Base(u128),
}
/// one transaction that reached the interpreter
#[derive(Clone, Debug)]
struct Ran {
	source: H160,
	per: U256,
	base: U256,
	gas: u64,
	used: u64,
	reserve: U256,
	/// nothing: refused
	trace: Option<Vec<Trace>>,
}
struct World {
	c: Chain,
	prop: String,
	bal: BTreeMap<H160, u128>,
	held: BTreeMap<u8, u128>,
	author: u8,
	base: u128,
	total: u128,
	/// fees noted for the era
	era: u128,
	ran: Rc<RefCell<Vec<Ran>>>,
	faults: bool,
}
/// drops that cover this many wei
fn drops(w: U256) -> Option<u128> {
	let up = if (w % WEI).is_zero() { 0u8 } else { 1 };
	(w / WEI + U256::from(up)).try_into().ok()
}
fn seen(k: H160) -> u128 {
	<Money as Inspect<AccountId>>::reducible_balance(&k.into(), Preservation::Preserve, Fortitude::Polite)
}
/// pallet-evm's own part: checks, charge, execution, refund, tip
fn interpret(c: &InnerCall, l: &Rc<RefCell<Vec<Ran>>>) -> InnerOutcome {
	use fp_evm::FeeCalculator;
	use InnerOutcome as O;
	let target = match c.kind {
		"call" => c.target.unwrap(),
		"create" => at(18),
		"create2" => at(19),
		_ => return O::Ok,
	};
	let base = <Runtime as pallet_evm::Config>::FeeCalculator::min_gas_price().0;
	let max = c.max_fee_per_gas.unwrap_or_default();
	let mut r = Ran { source: c.source, per: U256::zero(), base, gas: c.gas_limit, used: 0, reserve: U256::zero(), trace: None };
	let ok = (|| {
		if max < base || c.max_priority_fee_per_gas.is_some_and(|p| p > max) {
			return None;
		}
		r.reserve = max.checked_mul(c.gas_limit.into())?.checked_add(c.value)?;
		if U256::from(seen(c.source)) < r.reserve {
			return None;
		}
		r.per = match c.max_priority_fee_per_gas {
			Some(p) => base + (max - base).min(p),
			None => max,
		};
		<Charge as OnChargeEVMTransaction<Runtime>>::withdraw_fee(&c.source, r.per * c.gas_limit).ok()
	})();
	let Some(fee) = ok else {
		l.borrow_mut().push(r);
		return O::Reject;
	};
	let d: Done = rt::evm::transact(c.source, target, c.input.clone(), c.value, c.gas_limit);
	r.used = d.gas_used;
	let tip = <Charge as OnChargeEVMTransaction<Runtime>>::correct_and_deposit_fee(&c.source, r.per * d.gas_used, base * d.gas_used, fee);
	<Charge as OnChargeEVMTransaction<Runtime>>::pay_priority_fee(tip);
	r.trace = Some(d.trace);
	l.borrow_mut().push(r);
	match d.reason {
		fp_evm::ExitReason::Succeed(_) => O::Ok,
		fp_evm::ExitReason::Revert(_) => O::Revert,
		_ => O::OutOfGas,
	}
}
fn parse_transfer(input: &[u8]) -> Option<(H160, u128)> {
	if input.len() < 68 || input[..4] != rt::evm::selector("transfer(address,uint256)") {
		return None;
	}
	let x = U256::from_big_endian(&input[36..68]);
	Some((H160::from_slice(&input[16..36]), x.try_into().ok()?))
}
impl World {
	fn have(&self, k: H160) -> u128 {
		self.bal.get(&k).copied().unwrap_or(0)
	}
	fn shift(&mut self, from: H160, to: H160, x: u128) {
		let have = self.have(from);
		self.bal.insert(from, have - x);
		*self.bal.entry(to).or_default() += x;
	}
	fn input(t: &Tx) -> Vec<u8> {
		use codec::Encode;
		match t.token {
			Some((to, x)) => abi("transfer(address,uint256)", &[Tok::A(at(to)), n(x)]),
			None if t.acts.is_empty() => vec![],
			None => t.acts.encode(),
		}
	}
	fn max(&self, t: &Tx) -> U256 {
		U256::from(self.base) * t.max.0 + U256::from(t.max.1)
	}
	/// what the frames of a transaction should have done with money
	fn follow(&mut self, trace: &[Trace], st: &mut Stats) -> Res {
		let mut stack = vec![];
		for t in trace {
			match t {
				Trace::In => stack.push(self.bal.clone()),
				Trace::Out(ok) => {
					let b = stack.pop().unwrap();
					if !ok {
						if b != self.bal {
							st.count("frame that had moved money undone");
						}
						self.bal = b;
					}
				},
				Trace::Value(from, to, v, moved) => {
					let need = drops(*v).filter(|_| *v <= U256::from(u128::MAX));
					let have = self.have(*from);
					let may = need.is_some_and(|x| x <= have);
					check!("W01", "value", may == *moved, "{v} wei from {from} holding {have} drops: moved {moved}, expected {may}");
					if may {
						st.hit("W01");
						if !(*v % WEI).is_zero() {
							st.count("value with a fraction of a drop moved");
						}
						self.shift(*from, *to, need.unwrap());
						if self.have(*from) == 0 {
							st.count("account emptied");
						}
					} else {
						st.fault("value the sender does not have");
					}
				},
				Trace::Pre(caller, code, input, ok) => {
					if let (true, true, Some((to, x))) = (*ok, *code == at(TOKEN), parse_transfer(input)) {
						check!("W01", "token-transfer", x <= self.have(*caller), "the XRP token contract moved {x} drops of {caller} holding {}", self.have(*caller));
						self.shift(*caller, to, x);
						st.count("XRP token contract moved drops");
					}
				},
			}
		}
		Ok(())
	}
	fn actual(&mut self) -> (BTreeMap<H160, u128>, BTreeMap<H160, u128>, u128) {
		self.c.exec(|| {
			let all = || (1..=PARTIES).map(at);
			(all().map(|a| (a, free(XRP, &a.into()))).collect(), all().map(|a| (a, seen(a))).collect(), supply(XRP))
		})
	}
	/// the transaction the interpreter just ran, if any, against the model
	fn settle(&mut self, t: &Tx, value: U256, st: &mut Stats) -> Result<Option<bool>, Violation> {
		let ran: Vec<Ran> = std::mem::take(&mut *self.ran.borrow_mut());
		check!("W01", "ran-twice", ran.len() <= 1, "one transaction was executed {} times", ran.len());
		let Some(r) = ran.into_iter().next() else { return Ok(None) };
		check!("W01", "base-fee", r.base == U256::from(self.base), "base fee {}, configured {}", r.base, self.base);
		let have = self.have(r.source);
		let max = self.max(t);
		let offered = max >= r.base && t.prio.map_or(true, |p| U256::from(p) <= max);
		let afford = max.checked_mul(t.gas.into()).and_then(|x| x.checked_add(value)).is_some_and(|x| x <= U256::from(have) * WEI);
		check!("W01", "charge", r.trace.is_some() == (offered && afford), "transaction of {} holding {have} drops with gas {} at {max} and value {value}: executed {}", r.source, t.gas, r.trace.is_some());
		let Some(trace) = r.trace else { return Ok(Some(false)) };
		let paid = drops(r.per * r.gas).unwrap();
		check!("W01", "charge", paid <= have, "{paid} drops charged to {} holding {have}", r.source);
		self.bal.insert(r.source, have - paid);
		self.follow(&trace, st)?;
		// what is left are the fee's movements
		let (real, _, total) = self.actual();
		let author = if self.author == 0 { H160::zero() } else { at(self.author) };
		check_eq!("W01", "total", total, self.total, "XRP in existence after a contract transaction");
		let era = self.c.peek(pallet_tx_fee_pot::EraTxFees::<Runtime>::get);
		let delta = |k: H160| real[&k] as i128 - self.have(k) as i128;
		for k in (1..=PARTIES).map(at) {
			if ![r.source, author, at(POT)].contains(&k) {
				check!("W01", "bystander", delta(k) == 0, "{k} has {} drops, expected {}", real[&k], self.have(k));
			}
			check!("W01", "loss", delta(k) >= 0, "{k} has {} drops, expected {} or more", real[&k], self.have(k));
		}
		let mut who: Vec<H160> = vec![r.source, author, at(POT)];
		who.sort();
		who.dedup();
		let sum: i128 = who.iter().map(|k| delta(*k)).sum();
		check!("W01", "fee-lost", sum == paid as i128, "{paid} drops were charged for gas, {sum} came back to the payer, the pot and the author");
		let w = |x: i128| U256::from(x as u128) * WEI;
		let near = |x: U256, y: U256| x < y + WEI && y < x + WEI;
		let pot = delta(at(POT));
		check!("W01", "base-fee", near(w(pot), r.base * r.used), "the fee pot got {pot} drops for {} gas at a base fee of {}", r.used, r.base);
		check!("W01", "era", pot >= 0 && era == self.era + pot as u128, "the fee pot got {pot} drops, the fees noted for the era went from {} to {era}", self.era);
		if author != r.source {
			let net = paid as i128 - delta(r.source);
			check!("W01", "fee", near(w(net), r.per * r.used), "{net} drops were charged for {} gas (of {}) at {} wei", r.used, r.gas, r.per);
			if delta(author) > 0 {
				st.count("tip to the author");
			}
			if delta(r.source) > 0 {
				st.count("unused gas paid back");
				if self.have(r.source) == 0 {
					st.count("unused gas paid back to an emptied account");
				}
			}
		}
		if paid > 0 {
			st.hit("W01");
		}
		self.era = era;
		for k in who {
			self.bal.insert(k, real[&k]);
		}
		Ok(Some(true))
	}
	fn verify(&mut self) -> Res {
		let (real, view, total) = self.actual();
		let mut sum = 0;
		for k in 1..=PARTIES {
			let a = at(k);
			check!("W01", "balance", real[&a] == self.have(a), "party {k} has {} drops, expected {}", real[&a], self.have(a));
			check!("W01", "view", U256::from(view[&a]) == U256::from(real[&a]) * WEI, "the EVM sees {} wei at party {k}, who has {} drops", view[&a], real[&a]);
			sum += real[&a];
		}
		check!("W01", "total", sum == total && total == self.total, "{total} drops exist, {sum} are held, {} were issued", self.total);
		Ok(())
	}
	fn tx(&mut self, t: &Tx, how: u8, st: &mut Stats) -> Res {
		let config = pallet_evm::Pallet::<Runtime>::config();
		let (src, to, value, gas, max, input) = (at(t.by), at(t.to), U256::from(t.value), t.gas, self.max(t), Self::input(t));
		let prio = t.prio.map(U256::from);
		let out = self.c.run(move || {
			let i = input.clone();
			let r = match how {
				0 => Run::call(src, to, i, value, gas, Some(max), prio, None, vec![], true, true, None, None, &config).map(|_| ()),
				1 => Run::create(src, i, value, gas, Some(max), prio, None, vec![], true, true, None, None, &config).map(|_| ()),
				_ => Run::create2(src, i, Default::default(), value, gas, Some(max), prio, None, vec![], true, true, None, None, &config).map(|_| ()),
			};
			r.map_err(|e| e.error.into())
		});
		st.op(if how == 0 { "Ethereum transaction" } else { "contract creation" }, out.is_ok());
		let s = self.settle(t, value, st)?;
		check!("W01", "lost", s == Some(out.is_ok()), "transaction {t:?}: {out:?}, executed {s:?}");
		Ok(())
	}
	fn gen_acts(&mut self, r: &mut Rng, me: u8, depth: u8) -> Vec<Act> {
		use codec::Encode;
		let mut v = vec![];
		for _ in 0..r.range(1, 3) {
			match r.weighted(&[8, 1, 1]) {
				0 => {
					let to = self.target(r);
					let value = if r.chance(2, 3) { self.gen_value(r, me) } else { 0 };
					let (input, value) = if to == TOKEN {
						let x = self.have(at(me));
						(abi("transfer(address,uint256)", &[Tok::A(at(r.range(1, 12) as u8)), n(r.amount(&[x]))]), if r.chance(1, 8) { value } else { 0 })
					} else if (8..=10).contains(&to) && depth < 3 {
						(self.gen_acts(r, to, depth + 1).encode(), value)
					} else {
						(vec![], value)
					};
					let kind = *r.pick(&[Kind::Call, Kind::Call, Kind::Call, Kind::Call, Kind::Call, Kind::CallCode, Kind::Delegate, Kind::Static]);
					v.push(Act::Call { kind, to: at(to).0, value, input, must: r.chance(1, 4) });
				},
				1 => v.push(Act::Revert),
				_ => v.push(Act::Burn(*r.pick(&[1, 1000, 50_000, 10_000_000]))),
			}
		}
		v
	}
	fn target(&self, r: &mut Rng) -> u8 {
		match r.weighted(&[6, 6, 3, 1, 1]) {
			0 => r.range(1, 7) as u8,
			1 => r.range(8, 10) as u8,
			2 => TOKEN,
			3 => r.range(11, 13) as u8,
			_ => r.range(14, 19) as u8,
		}
	}
	fn gen_value(&self, r: &mut Rng, by: u8) -> u128 {
		let have = self.have(at(by));
		let w = match r.weighted(&[4, 2, 2, 2, 1]) {
			0 => r.below(1000) as u128 * WEI,
			1 => have * WEI,
			2 => r.below(4) as u128,
			3 => r.amount(&[have]) % (have + 2) * WEI,
			_ => return *r.pick(&[u128::MAX, u128::MAX - 1, u128::MAX / WEI * WEI, 1 << 64]),
		};
		match r.below(5) {
			0 => w.saturating_sub(1),
			1 => w + 1,
			2 => w + r.below(WEI as u64) as u128,
			_ => w,
		}
	}
	fn gen_tx(&mut self, r: &mut Rng) -> Tx {
		let by = if r.chance(1, 6) { r.range(5, 7) } else { r.range(1, 4) } as u8;
		let to = self.target(r);
		let acts = if (8..=10).contains(&to) && r.chance(5, 6) { self.gen_acts(r, to, 0) } else { vec![] };
		let gas = *r.pick(&[0, 1, 21_000, 100_000, 100_000, 1_000_000, 1_000_000, 5_000_000]);
		let max = (r.below(4) as u8, if r.chance(1, 2) { r.amount(&[WEI]) % (1 << 50) } else { 0 });
		let prio = match r.below(4) {
			0 => None,
			1 => Some(0),
			_ => Some(r.amount(&[WEI]) % (1 << 45)),
		};
		let mut t = Tx { by, to, value: 0, acts, token: None, gas, max, prio };
		if to == TOKEN {
			let have = self.have(at(by));
			t.token = Some((r.range(1, 12) as u8, r.amount(&[have])));
		}
		if to != TOKEN || r.chance(1, 6) {
			t.value = self.gen_value(r, by);
			// everything that the gas leaves
			let fee = self.max(&t) * t.gas;
			let all = U256::from(self.have(at(by))) * WEI;
			if r.chance(1, 3) && fee <= all {
				t.value = (all - fee).try_into().unwrap_or(u128::MAX);
			}
		}
		t
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "evmmoney";
	const PROPS: &'static [&'static str] = &["W01", "R01"];
	const REAL: &'static [&'static str] = &["the runtime's EVM currency (scaling, transfers)", "the runtime's EVM fee adapter", "pallet-fee-proxy (runner)", "pallet-fee-control", "pallet-tx-fee-pot", "pallet-assets-ext", "the runtime's precompiles", "the runtime's author and address mapping"];
	const STUB: &'static [&'static str] = &["the EVM interpreter and pallet-evm (contracts are scripts; frames, value and gas follow pallet-evm)", "substrate (storage, executive, assets, balances)", "block authoring"];
	fn rule() -> &'static str {
		"an evaluation counts when a frame moved value or a transaction was charged for gas"
	}
	fn panic_prop(&self) -> String {
		self.prop.clone()
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn thorough_runs() -> u64 {
		100_000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: 4, root_each: 1_000_000, xrp_each: *r.pick(&[200, 1_000_000, 50_000_000, 1_000_000_000_000]) });
		c.reexec = prop == "R01" || r.chance(1, 4);
		c.give(XRP, acc(5), 1);
		for k in [8, 9] {
			c.give(XRP, at(k).into(), *r.pick(&[1, 3, 1000, 1_000_000]));
		}
		c.give(XRP, acc(11), 7);
		c.exec(|| {
			for k in 8..=10 {
				deploy(at(k), Code::Eval);
			}
		});
		let ran = Rc::new(RefCell::new(vec![]));
		let l = ran.clone();
		pallet_evm::set_inner_handler(Some(Box::new(move |c: &InnerCall| interpret(c, &l))));
		let mut w = World { c, prop: prop.into(), bal: Default::default(), held: Default::default(), author: 0, base: 0, total: 0, era: 0, ran, faults: !r.chance(1, 6) };
		w.bal = w.actual().0;
		w.total = w.actual().2;
		w.base = w.c.exec(|| rt::FeeControl::base_fee_per_gas()).try_into().unwrap();
		w.c.begin(4000);
		w.ran.borrow_mut().clear();
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(15, 70) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let f = self.faults as u32;
		match r.weighted(&[5, f, 30, 6, 3, 4, 3, 2, 2]) {
			0 => Op::Block(f > 0 && r.chance(1, 8)),
			1 => Op::Crash,
			2 => Op::Tx(self.gen_tx(r)),
			3 => {
				let t = self.gen_tx(r);
				let by = if r.chance(1, 4) { r.range(1, 7) as u8 } else { t.by };
				Op::Call(t, by)
			},
			4 => Op::Create(self.gen_tx(r), r.chance(1, 2)),
			5 => {
				let by = r.range(1, 7) as u8;
				let have = self.have(at(by));
				Op::Move { by, to: r.range(1, 12) as u8, x: r.amount(&[have]), keep: r.chance(1, 4) }
			},
			6 => {
				let who = r.range(1, 5) as u8;
				let x = if r.chance(1, 2) { self.have(at(who)) } else { self.held.get(&who).copied().unwrap_or(0) };
				Op::Hold { who, x: r.amount(&[x]) % (x + 2), on: r.chance(1, 2) }
			},
			7 => Op::Author(*r.pick(&[0, 1, 11, 11, 12])),
			_ => Op::Base(*r.pick(&[0, 1, 7_500_000_000_000, 7_500_000_000_000, 1_000_000, WEI - 1, WEI + 1, 1 << 45])),
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let b = self.c.n;
		st.note(|| format!("block {b}: {op:?}"));
		match op.clone() {
			Op::Block(fork) => {
				self.c.end(None)?;
				if fork {
					st.fault("abandoned fork");
					self.c.abandoned_fork(|c| {
						let _ = c.run(|| {
							let config = pallet_evm::Pallet::<Runtime>::config();
							let z: U256 = (1u128 << 60).into();
							Run::call(at(1), at(2), vec![], 5_000_000_000_000u128.into(), 100, Some(z), None, None, vec![], true, true, None, None, &config).map(|_| ()).map_err(|e| e.error.into())
						});
					});
				}
				self.c.begin(4000);
				st.time(4000);
				st.op("block", true);
			},
			Op::Crash => {
				st.fault("crash inside a block");
				self.c.crash_and_redo()?;
			},
			Op::Tx(t) => self.tx(&t, 0, st)?,
			Op::Create(t, two) => self.tx(&t, 1 + two as u8, st)?,
			Op::Call(t, signer) => {
				let c = pallet_evm::Call::call { source: at(t.by), target: at(t.to), input: Self::input(&t), value: t.value.into(), gas_limit: t.gas, max_fee_per_gas: self.max(&t), max_priority_fee_per_gas: t.prio.map(U256::from), nonce: None, access_list: vec![] };
				let out = self.c.call(at(signer).into(), c);
				st.op("EVM call extrinsic", out.is_ok());
				if signer != t.by {
					st.fault("EVM call for somebody else");
				}
				let s = self.settle(&t, t.value.into(), st)?;
				let want = if signer == t.by { Some(out.is_ok()) } else { None };
				check!("W01", "origin", s == want && (want.is_some() || out.is_err()), "call of party {} signed by {signer}: {out:?}, executed {s:?}", t.by);
			},
			Op::Move { by, to, x, keep } => {
				let out = self.c.call(acc(by as u64), pallet_assets_ext::Call::transfer { asset_id: XRP, destination: at(to).into(), amount: x, keep_alive: keep });
				st.op("transfer", out.is_ok());
				if out.is_ok() {
					check!("W01", "transfer", x <= self.have(at(by)), "transfer of {x} by party {by} holding {}", self.have(at(by)));
					self.shift(at(by), at(to), x);
				}
			},
			Op::Hold { who, x, on } => {
				let id = PalletId(*b"sim/hold");
				let have = if on { self.have(at(who)) } else { self.held.get(&who).copied().unwrap_or(0) };
				let out = self.c.run(move || {
					let a: AccountId = at(who).into();
					if on {
						rt::AssetsExt::place_hold(id, &a, XRP, x)
					} else {
						rt::AssetsExt::release_hold(id, &a, XRP, x)
					}
				});
				st.op("hold", out.is_ok());
				if out.is_ok() {
					check!("W01", "hold", x <= have, "hold ({on}) of {x} of {have}");
					let h = self.held.entry(who).or_default();
					if on {
						*h += x;
						self.shift(at(who), at(HELD), x);
					} else {
						*h -= x;
						self.shift(at(HELD), at(who), x);
					}
				}
			},
			Op::Author(k) => {
				self.author = k;
				let v = if k == 0 { vec![] } else { vec![at(k).into(), acc(4)] };
				self.c.run(move || {
					rt::stand_ins::set_validators(&v);
					Ok(())
				})
				.unwrap();
			},
			Op::Base(x) => {
				let out = self.c.root(pallet_fee_control::Call::set_evm_base_fee { value: x.into() });
				if out.is_ok() {
					self.base = x;
				}
			},
		}
		self.ran.borrow_mut().clear();
		self.verify()?;
		let _ = RawOrigin::<AccountId>::Root;
		let h = self.c.hash();
		st.mix(fnv(format!("{:?}{:?}", std::mem::discriminant(op), self.author).as_bytes()));
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// faults stop: everybody can still send everything away
		for k in 1..=7u8 {
			let have = self.have(at(k));
			if have > 0 {
				self.apply(&Op::Base(0), st)?;
				let t = Tx { by: k, to: 18, value: have * WEI, acts: vec![], token: None, gas: 0, max: (0, 0), prio: None };
				self.apply(&Op::Tx(t), st)?;
				check!("W01", "stuck", self.have(at(k)) == 0, "party {k} could not send {have} drops");
			}
		}
		Ok(())
	}
}
fn main() {
	simkit::main::<World>()
}
