//! Transactions signed with an account's own key (T01): honest ones, forged and altered ones, sent once, again,
//! late, out of order, and on both sides of a fork.
use codec::Encode;
use frame_system::RawOrigin;
use rt::chain::*;
use rt::{Runtime, RuntimeCall, RuntimeEvent, SignedExtra, System, UncheckedExtrinsic};
use seed_primitives::AccountId;
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::Pair;
use sp_runtime::generic::Era;
use std::collections::BTreeMap;
simkit::interpose!();

const PEOPLE: u64 = 6;
/// has no XRP
const POOR: u64 = 5;
const BILLION: u128 = 1_000_000_000;

fn pair(n: u64) -> sp_core::ecdsa::Pair {
	let mut secret = [7u8; 32];
	secret[..8].copy_from_slice(&n.to_be_bytes());
	sp_core::ecdsa::Pair::from_seed_slice(&secret).unwrap()
}
thread_local! {
	static IDS: std::cell::RefCell<BTreeMap<u64, AccountId>> = Default::default();
}
/// the last 20 bytes of the hash of the public key; 0: the zero account
fn id(n: u64) -> AccountId {
	if n == 0 {
		return AccountId::from([0u8; 20]);
	}
	IDS.with(|m| {
		*m.borrow_mut().entry(n).or_insert_with(|| {
			let h = [0x5a; 32];
			let sig = pair(n).sign_prehashed(&h);
			let p = simcrypto::secp256k1::recover(&sig.0, &h).ok().unwrap();
			let mut b = [0u8; 20];
			b.copy_from_slice(&simcrypto::keccak_256(&p)[12..]);
			AccountId::from(b)
		})
	})
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum C {
	Remark(u16),
	/// to, drops; more than there is: fails
	Send(u64, u128),
	/// two transfers, the second is of this many drops
	Both(u64, u128),
}
fn call(c: &C) -> RuntimeCall {
	let send = |to: u64, amount: u128| -> RuntimeCall { pallet_assets_ext::Call::transfer { asset_id: ROOT, destination: id(to), amount, keep_alive: false }.into() };
	match c {
		C::Remark(n) => frame_system::Call::remark { remark: (0..*n).map(|x| x as u8).collect() }.into(),
		C::Send(to, x) => send(*to, *x),
		C::Both(to, x) => pallet_utility::Call::batch_all { calls: vec![send(*to, 1), send(*to, *x)] }.into(),
	}
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Said {
	by: u64,
	c: C,
	nonce: u32,
	tip: u64,
	/// valid this many blocks from this one
	life: Option<(u64, u64)>,
}
/// what the signature was made over, in which form, by whom
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum How {
	Plain,
	Personal,
	PersonalHash,
	/// forms that do not count
	Blake,
	Sha,
	Twice,
	PersonalHex,
	NoPrefix,
	/// another's key
	Key(u64),
	/// another chain, runtime or starting block
	Genesis,
	Spec,
	TxVersion,
	Birth,
	/// the call as it is, without the rest
	CallOnly,
}
use How::*;
/// what happens to it on the way
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Twist {
	None,
	Call,
	Nonce(i8),
	Tip,
	Life,
	Signer(u64),
	/// a bit of the signature
	Bit(u16),
	Truncate(u8),
	/// 27 or 28 in the last byte of the signature: the same
	Ethereum,
	NoSignature,
	Zero,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	Block(u8),
	Crash,
	Send { by: u64, c: C, ahead: i8, tip: u64, life: Option<u64>, old: u8, how: How, twist: Twist },
	/// one sent earlier comes again
	Again { i: u16, twist: Twist },
	/// the block is given up; what it held is sent again
	Fork(Vec<u16>),
	Elsewhere(u64),
}
#[derive(Clone, Debug)]
struct Sent {
	said: Said,
	how: How,
	/// whose key made the signature
	key: u64,
	bytes: Vec<u8>,
	/// as signed: nothing was altered
	honest: bool,
}
struct World {
	c: Chain,
	prop: String,
	faults: bool,
	sent: Vec<Sent>,
	nonce: BTreeMap<u64, u32>,
	root: BTreeMap<u64, u128>,
	xrp: BTreeMap<u64, u128>,
	mark: usize,
	genesis: sp_core::H256,
}
fn owner(s: &Said, how: How) -> u64 {
	match how {
		Key(w) => w,
		_ => s.by.max(1),
	}
}
fn extra_of(s: &Said) -> SignedExtra {
	Part::make(s.nonce, s.tip as u128, era(s))
}
fn era(s: &Said) -> Era {
	match s.life {
		Some((p, from)) => Era::mortal(p, from),
		None => Era::Immortal,
	}
}
fn eth(m: &[u8]) -> Vec<u8> {
	let mut v = b"\x19Ethereum Signed Message:\n".to_vec();
	v.extend(m.len().to_string().bytes());
	v.extend_from_slice(m);
	v
}
impl World {
	fn hash_of(&mut self, n: u64) -> sp_core::H256 {
		self.c.peek(|| System::block_hash(n as u32))
	}
	fn sign(&mut self, s: &Said, how: How) -> [u8; 65] {
		let v = <<Runtime as frame_system::Config>::Version as sp_core::Get<_>>::get();
		let (mut spec, mut txv) = (v.spec_version, v.transaction_version);
		let mut genesis = self.genesis;
		let mut birth = match s.life {
			Some((_, from)) => self.hash_of(from),
			None => self.genesis,
		};
		match how {
			Genesis => genesis.0[3] ^= 1,
			Spec => spec += 1,
			TxVersion => txv += 1,
			Birth => birth.0[3] ^= 1,
			_ => {},
		}
		let rc = call(&s.c);
		let e = extra_of(s);
		// what is signed, in the order of the checks of the runtime
		let mut m = (rc.clone(), e).encode();
		m.extend((spec, txv, genesis, birth).encode());
		if how == CallOnly {
			m = rc.encode();
		}
		if m.len() > 256 {
			m = simcrypto::blake2_256(&m).to_vec();
		}
		let k = simcrypto::keccak_256;
		let h = match how {
			Personal => k(&eth(&m)),
			PersonalHash => k(&eth(&simcrypto::blake2_256(&m))),
			Blake => simcrypto::blake2_256(&m),
			Sha => simcrypto::sha2_256(&m),
			Twice => k(&k(&m)),
			PersonalHex => k(&eth(m.iter().map(|x| format!("{x:02x}")).collect::<String>().as_bytes())),
			NoPrefix => k(&simcrypto::blake2_256(&m)),
			_ => k(&m),
		};
		pair(owner(s, how)).sign_prehashed(&h).0
	}
	/// the bytes; whether they say what was signed
	fn write(&mut self, s: &Said, how: How, twist: Twist) -> (Vec<u8>, Said, bool) {
		let mut sig = self.sign(s, how);
		let mut t = s.clone();
		let mut same = true;
		let mut signed = true;
		match twist {
			Twist::None => {},
			Twist::Call => {
				t.c = match &s.c {
					C::Remark(n) => C::Remark(n + 1),
					C::Send(to, x) => C::Send(*to, x ^ 1),
					C::Both(to, x) => C::Send(*to, *x),
				};
				same = false;
			},
			Twist::Nonce(d) => {
				t.nonce = (s.nonce as i64 + d as i64).max(0) as u32;
				same = t.nonce == s.nonce;
			},
			Twist::Tip => {
				t.tip ^= 1;
				same = false;
			},
			Twist::Life => {
				t.life = match s.life {
					None => Some((64, self.c.n as u64 - 1)),
					Some((p, from)) => Some((p * 2, from)),
				};
				same = era(&t) == era(s);
			},
			Twist::Signer(w) => {
				t.by = w;
			},
			Twist::Bit(b) => {
				let b = b as usize % 512;
				sig[b / 8] ^= 1 << (b % 8);
				same = false;
			},
			Twist::Zero => {
				t.by = 0;
			},
			Twist::Ethereum => sig[64] += 27,
			Twist::NoSignature => {
				signed = false;
				same = false;
			},
			Twist::Truncate(_) => same = false,
		}
		let xt = if signed { UncheckedExtrinsic::new_signed(call(&t.c), id(t.by), sp_core::ecdsa::Signature(sig).into(), extra_of(&t)) } else { UncheckedExtrinsic::new_unsigned(call(&t.c)) };
		let mut b = xt.encode();
		if let Twist::Truncate(k) = twist {
			let n = b.len();
			b.truncate(n - 1 - k as usize % (n - 1));
		}
		(b, t, same)
	}
	/// sends these bytes into the open block
	fn deliver(&mut self, x: &Sent, st: &mut Stats) -> Res {
		let s = &x.said;
		let now = self.c.n as u64;
		let alive = match s.life {
			None => true,
			Some((p, from)) => {
				let p = p.clamp(4, 1 << 16).next_power_of_two();
				from < now && now < from + p
			},
		};
		let counted = matches!(x.how, Plain | Personal | PersonalHash | Key(_));
		let genuine = x.honest && counted && x.key == s.by && (1..=PEOPLE).contains(&s.by);
		let due = self.nonce.get(&s.by).copied().unwrap_or(0);
		let rich = s.by != POOR;
		let want = genuine && alive && s.nonce == due && rich;
		let bytes = x.bytes.clone();
		let pool = self.c.peek(|| pooled(&bytes));
		let before = self.c.hash();
		let out = self.c.step(Step::Raw(bytes));
		let taken = !matches!(out, Err(None));
		check!("T01", if taken { "accepted" } else { "refused" }, taken == want, "{x:?}, account at nonce {due}, block {now}: in the block {out:?}, before it in the pool {pool:?}");
		// the pool keeps what may come to be valid later, and nothing else
		let later = genuine && alive && s.nonce >= due && rich;
		check!("T01", "pool", pool.is_ok() == later, "{x:?}, account at nonce {due}, block {now}: the pool says {pool:?}");
		if let Ok(v) = &pool {
			if let Some((p, from)) = s.life {
				let p = p.clamp(4, 1 << 16).next_power_of_two();
				check!("T01", "longevity", v.longevity <= from + p - now, "kept for {} more blocks, it ends in {}", v.longevity, from + p - now);
			}
			check!("T01", "order", v.provides.len() == 1 && v.requires.is_empty() == (s.nonce == due), "nonce {} of an account at {due} requires {:?} provides {:?}", s.nonce, v.requires, v.provides);
		}
		let ev = self.c.events_since(self.mark);
		self.mark += ev.len();
		if !taken {
			check!("T01", "trace", self.c.hash() == before, "a refused transaction changed the state: {x:?}");
			st.op("refused", true);
			if genuine && s.nonce < due {
				st.fault("a transaction that was executed already");
			}
			if genuine && !alive {
				st.fault("a transaction past its end");
			}
			if !genuine {
				st.fault(match x.how {
					Key(_) => "somebody else's signature",
					Genesis => "signed for another chain",
					Spec | TxVersion => "signed for another runtime",
					Birth => "signed for another fork",
					Plain | Personal | PersonalHash => "altered on the way",
					_ => "signed in an unknown form",
				});
			}
			return Ok(());
		}
		st.hit("T01");
		st.count(match x.how {
			Plain => "plain",
			Personal => "personal",
			PersonalHash => "personal over the hash",
			_ => "own key",
		});
		let fees: Vec<(AccountId, u128, u128)> = ev
			.iter()
			.filter_map(|e| match e {
				RuntimeEvent::TransactionPayment(pallet_transaction_payment::Event::TransactionFeePaid { who, actual_fee, tip }) => Some((*who, *actual_fee, *tip)),
				_ => None,
			})
			.collect();
		check!("T01", "fee", fees.len() == 1 && fees[0].0 == id(s.by) && fees[0].2 == s.tip as u128 && fees[0].1 >= fees[0].2, "{x:?} paid {fees:?}");
		*self.nonce.entry(s.by).or_default() += 1;
		let have = *self.root.get(&s.by).unwrap_or(&0);
		let sum = match &s.c {
			C::Remark(_) => None,
			C::Send(to, k) => Some((*to, *k)),
			C::Both(to, k) => Some((*to, k.saturating_add(1))),
		};
		let fine = match &s.c {
			C::Remark(_) => true,
			C::Send(_, k) => *k <= have,
			C::Both(to, k) => *k > 0 && if *to == s.by { *k <= have } else { k.saturating_add(1) <= have },
		};
		check!("T01", "outcome", out.is_ok() == fine, "{x:?} of one who has {have}: {out:?}");
		if let (true, Some((to, k))) = (fine, sum) {
			if to != s.by {
				*self.root.entry(s.by).or_default() -= k;
				*self.root.entry(to).or_default() += k;
			}
		}
		*self.xrp.get_mut(&s.by).unwrap() -= fees[0].1;
		st.op(if fine { "executed" } else { "executed and failed" }, out.is_ok());
		self.verify()
	}
	fn verify(&mut self) -> Res {
		for w in 1..=PEOPLE {
			let (n, r, x) = self.c.peek(|| (System::account_nonce(id(w)), free(ROOT, &id(w)), free(XRP, &id(w))));
			check_eq!("T01", "nonce", n, self.nonce.get(&w).copied().unwrap_or(0), "nonce of {w}");
			check_eq!("T01", "moved", r, self.root.get(&w).copied().unwrap_or(0), "ROOT of {w}");
			check_eq!("T01", "paid", x, self.xrp.get(&w).copied().unwrap_or(0), "XRP of {w}");
		}
		Ok(())
	}
	fn twist(&self, r: &mut Rng) -> Twist {
		use Twist::*;
		if !self.faults || r.chance(3, 5) {
			return if r.chance(1, 6) { Ethereum } else { None };
		}
		match r.below(10) {
			0 => Call,
			1 => Nonce(*r.pick(&[-1, 1, 2, 0])),
			2 => Tip,
			3 => Life,
			4 => Signer(r.range(1, PEOPLE)),
			5 | 6 => Bit(r.below(512) as u16),
			7 => Truncate(r.below(200) as u8),
			8 => NoSignature,
			_ => Zero,
		}
	}
	fn next_block(&mut self, ms: u64) -> Res {
		self.c.end(None)?;
		self.c.begin(ms);
		self.mark = self.c.event_count();
		Ok(())
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "signed";
	const PROPS: &'static [&'static str] = &["T01", "R01"];
	const REAL: &'static [&'static str] = &["seed-primitives (accounts, signatures)", "runtime configuration: the transaction format and the list of signed extensions, fees, call filter", "pallet-assets-ext", "pallet-maintenance-mode", "pallet-fee-control", "pallet-tx-fee-pot", "pallet-fee-proxy"];
	const STUB: &'static [&'static str] = &["frame (system with its signed extensions, executive, assets, balances, transaction payment, utility)", "fp-self-contained", "secp256k1, keccak, BLAKE implementations"];
	fn rule() -> &'static str {
		"a run that executed a signed transaction"
	}
	fn panic_prop(&self) -> String {
		self.prop.clone()
	}
	fn quick_runs() -> u64 {
		4000
	}
	fn thorough_runs() -> u64 {
		150_000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed ^ 0x51674ed);
		let mut c = Chain::new(Cfg { accounts: 1, root_each: 1 << 60, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 6);
		let mut w = BTreeMap::new();
		let mut x = BTreeMap::new();
		for k in 1..=PEOPLE {
			let root = r.range(1000, 1_000_000) as u128;
			c.give(ROOT, id(k), root);
			w.insert(k, root);
			let xrp = if k == POOR { 0 } else { 100_000 * BILLION };
			if xrp > 0 {
				c.give(XRP, id(k), xrp);
			}
			x.insert(k, xrp);
		}
		for _ in 0..r.below(3) {
			c.begin(4000);
			c.end(None).ok();
		}
		c.begin(4000);
		let genesis = c.peek(|| System::block_hash(0));
		let mark = c.event_count();
		World { c, prop: prop.into(), faults: !r.chance(1, 8), sent: vec![], nonce: Default::default(), root: w, xrp: x, mark, genesis }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(10, 45) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let again = !self.sent.is_empty();
		match r.below(20) {
			0 | 1 => Op::Block(0),
			2 => Op::Block(r.below(9) as u8),
			3 if self.faults => Op::Crash,
			4 if again && self.faults => Op::Fork((0..r.below(4)).map(|_| r.below(self.sent.len() as u64) as u16).collect()),
			5..=8 if again => Op::Again { i: if r.chance(1, 2) { r.below(self.sent.len() as u64) as u16 } else { self.sent.len() as u16 - 1 }, twist: if r.chance(3, 4) { Twist::None } else { self.twist(r) } },
			9 if self.faults => Op::Elsewhere(r.range(1, PEOPLE)),
			_ => {
				let by = if r.chance(1, 12) { POOR } else { r.range(1, PEOPLE - 2) };
				let to = r.range(1, PEOPLE);
				let c = match r.below(6) {
					0 => C::Remark(*r.pick(&[0u16, 30, 150, 160, 170, 180, 190, 200, 255, 256, 300])),
					1 => C::Both(to, r.range(1, 2000) as u128),
					2 => C::Send(to, r.amount(&[1000, 1 << 60]).max(1)),
					_ => C::Send(to, r.range(1, 2000) as u128),
				};
				let how = if !self.faults || r.chance(2, 3) {
					*r.pick(&[Plain, Personal, PersonalHash])
				} else {
					*r.pick(&[Blake, Sha, Twice, PersonalHex, NoPrefix, Key(to), Genesis, Spec, TxVersion, Birth, CallOnly])
				};
				Op::Send {
					by,
					c,
					ahead: if r.chance(4, 5) { 0 } else { r.below(5) as i8 - 2 },
					tip: *r.pick(&[0u64, 0, 0, 1, 1000, 1_000_000]),
					life: if r.chance(1, 3) { Some(*r.pick(&[4u64, 8, 64])) } else { None },
					old: if r.chance(3, 4) { 0 } else { r.below(12) as u8 },
					how,
					twist: self.twist(r),
				}
			},
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		match op.clone() {
			Op::Block(k) => {
				for _ in 0..=k {
					self.next_block(4000)?;
					st.time(4000);
				}
				st.op("block", true);
				self.verify()?;
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash inside a block");
				self.mark = self.c.event_count();
			},
			Op::Send { by, c, ahead, tip, life, old, how, twist } => {
				let nonce = (self.nonce.get(&by).copied().unwrap_or(0) as i64 + ahead as i64).max(0) as u32;
				let top = self.c.n as u64 - 1;
				let said = Said { by, c, nonce, tip, life: life.map(|p| (p, top.saturating_sub(old as u64))) };
				let key = owner(&said, how);
				let (bytes, said, same) = self.write(&said, how, twist);
				let x = Sent { key, said, how, bytes, honest: same };
				if ahead > 0 {
					st.fault("out of order");
				}
				self.deliver(&x, st)?;
				self.sent.push(x);
			},
			Op::Again { i, twist } => {
				let Some(x) = self.sent.get(i as usize).cloned() else { return Ok(()) };
				// (only its own signer can write it anew)
				let y = if twist == Twist::None || !x.honest || x.key != x.said.by {
					x
				} else {
					// (a lifetime is signed with the hash of its first block, which is still known)
					let (bytes, said, same) = self.write(&x.said, x.how, twist);
					Sent { key: x.key, said, how: x.how, bytes, honest: same }
				};
				st.fault("duplicate");
				self.deliver(&y, st)?;
			},
			Op::Fork(which) => {
				self.next_block(4000)?;
				self.c.end(None)?;
				let txs: Vec<Vec<u8>> = which.iter().filter_map(|i| self.sent.get(*i as usize)).map(|x| x.bytes.clone()).collect();
				// others, on the way there
				self.c.abandoned_fork(|c| {
					for b in txs {
						let _ = c.step(Step::Raw(b));
					}
				});
				st.fault("abandoned fork");
				self.c.begin(4000);
				self.mark = self.c.event_count();
				self.verify()?;
			},
			Op::Elsewhere(w) => {
				// what others do for an account does not touch its nonce
				let out = self.c.call(id(PEOPLE), pallet_assets_ext::Call::<Runtime>::transfer { asset_id: ROOT, destination: id(w), amount: 1, keep_alive: false });
				if out.is_ok() {
					*self.root.entry(PEOPLE).or_default() -= 1;
					*self.root.entry(w).or_default() += 1;
				}
				let _ = self.c.bypass(id(w), frame_system::Call::<Runtime>::remark { remark: vec![] });
				self.mark = self.c.event_count();
				self.verify()?;
			},
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		self.next_block(4000)?;
		self.verify()?;
		// all that was ever executed comes once more
		for x in self.sent.clone() {
			let due = self.nonce.get(&x.said.by).copied().unwrap_or(0);
			if x.honest && x.said.nonce < due {
				self.deliver(&x, st)?;
			}
		}
		let _ = RawOrigin::<AccountId>::Root;
		Ok(())
	}
}
fn main() {
	simkit::main::<World>()
}
