//! Transactions signed by wallets (S01): calls carried by XRPL transactions, and calls made with delegation
//! certificates (doughnuts), sent once, again, altered and out of order.
use codec::{Decode, Encode};
use fp_self_contained::SelfContainedCall;
use frame_support::dispatch::GetDispatchInfo;
use frame_system::RawOrigin;
use rt::chain::*;
use rt::{Runtime, RuntimeCall, RuntimeEvent};
use seed_primitives::AccountId;
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{Pair, H160};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use wallet::doughnut::{signature::crypto, traits::*, Doughnut, DoughnutV1, Method, Module, Topping};
use wallet::pact::{types::*, Comparator, Contract};
use wallet::xrpl_binary_codec::serializer::Serializer;
simkit::interpose!();

/// the last two sign with ed25519, the fifth has no XRP
const PEOPLE: u64 = 7;
const POOR: u64 = 5;
const PASS: u64 = 1000;
const WHALE: u64 = 1;
/// pays fees through the exchange
const A: u32 = 5000;
const BILLION: u128 = 1_000_000_000;

thread_local! {
	static KEYS: RefCell<BTreeMap<u64, Keys>> = Default::default();
}
#[derive(Clone)]
struct Keys {
	secret: [u8; 32],
	/// as it is written into XRPL transactions
	public: Vec<u8>,
	id: AccountId,
}
fn edwards(n: u64) -> bool {
	n > 5
}
fn key(n: u64) -> Keys {
	KEYS.with(|k| {
		k.borrow_mut()
			.entry(n)
			.or_insert_with(|| {
				let mut secret = [9u8; 32];
				secret[..8].copy_from_slice(&n.to_be_bytes());
				if edwards(n) {
					let p = sp_core::ed25519::Pair::from_seed_slice(&secret).unwrap();
					let mut public = vec![0xed];
					public.extend_from_slice(&p.public().0);
					Keys { secret, public, id: seed_primitives::AccountId20::try_from(p.public()).unwrap() }
				} else {
					let p = sp_core::ecdsa::Pair::from_seed_slice(&secret).unwrap();
					Keys { secret, public: p.public().0.to_vec(), id: seed_primitives::AccountId20::try_from(p.public()).unwrap() }
				}
			})
			.clone()
	})
}
fn addr(n: u64) -> AccountId {
	if n >= PASS {
		let mut a = [0xff; 20];
		a[4..].copy_from_slice(&((n - PASS + 1) as u128).to_be_bytes());
		return H160(a).into();
	}
	key(n).id
}
/// what a person wants done
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum C {
	Pay { to: u64, x: u128, keep: bool },
	Asset { to: u64, x: u128, keep: bool },
	Remark(u8),
	NewPass(u64),
	Batch(Vec<C>),
	Pass { p: u64, call: Box<C> },
	/// fees in another asset: at most 1, or plenty
	Pref { plenty: bool, call: Box<C> },
	/// another wallet-signed transaction
	Nest { xrpl: bool },
	Sudo,
}
fn call(c: &C) -> RuntimeCall {
	match c {
		C::Pay { to, x, keep: false } => pallet_balances::Call::transfer { dest: addr(*to), value: *x }.into(),
		C::Pay { to, x, keep: true } => pallet_balances::Call::transfer_keep_alive { dest: addr(*to), value: *x }.into(),
		C::Asset { to, x, keep } => pallet_assets_ext::Call::transfer { asset_id: VTX, destination: addr(*to), amount: *x, keep_alive: *keep }.into(),
		C::Remark(b) => frame_system::Call::remark { remark: vec![*b; 3] }.into(),
		C::NewPass(w) => pallet_futurepass::Call::create { account: addr(*w) }.into(),
		C::Batch(v) => pallet_utility::Call::batch_all { calls: v.iter().map(call).collect() }.into(),
		C::Pass { p, call: c } => pallet_futurepass::Call::proxy_extrinsic { futurepass: addr(*p), call: Box::new(call(c)) }.into(),
		C::Pref { plenty, call: c } => pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: A, max_payment: if *plenty { 1 << 90 } else { 1 }, call: Box::new(call(c)) }.into(),
		C::Nest { xrpl: true } => pallet_xrpl::Call::transact { encoded_msg: Default::default(), signature: Default::default(), call: Box::new(call(&C::Remark(0))) }.into(),
		C::Nest { xrpl: false } => pallet_doughnut::Call::transact { call: Box::new(call(&C::Remark(0))), doughnut: vec![], nonce: 0, genesis_hash: Default::default(), tip: 0, signature: vec![] }.into(),
		C::Sudo => pallet_sudo::Call::sudo { call: Box::new(call(&C::Remark(0))) }.into(),
	}
}
/// the call made through a pass, perhaps with a fee preference
fn by_pass(c: &C) -> bool {
	match c {
		C::Pass { .. } => true,
		C::Pref { call, .. } => matches!(**call, C::Pass { .. }),
		_ => false,
	}
}
fn leaf(c: &C) -> &C {
	match c {
		C::Pass { call, .. } => call,
		C::Pref { call, .. } => match &**call {
			C::Pass { call, .. } => call,
			c => c,
		},
		c => c,
	}
}
/// how a message deviates from an honest one
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Twist {
	None,
	// harmless
	UpperType,
	OtherMemoFirst,
	SecondMemo,
	ExtraPart,
	ExtraFields,
	OtherAccount,
	// not
	BadTypeFirst,
	NoMemo,
	WrongType,
	ShortMemo,
	NotHex,
	EmptyKey,
	OddKey,
	Truncated,
	Trailing,
	NoTxnId,
	Empty,
	WrongGenesis,
	OtherCallHash,
	/// signed with another's key
	OtherSigner,
	/// a bit of the signature flipped
	BitFlip,
	/// the signature is over another tip
	OtherTip,
	/// ... another nonce
	OtherNonce,
	/// no signature at all
	Unsigned,
}
use Twist::*;
const HARMLESS: [Twist; 7] = [None, UpperType, OtherMemoFirst, SecondMemo, ExtraPart, ExtraFields, OtherAccount];
const WRONG_X: [Twist; 18] = [BadTypeFirst, NoMemo, WrongType, ShortMemo, NotHex, EmptyKey, OddKey, Truncated, Trailing, NoTxnId, Empty, WrongGenesis, OtherCallHash, OtherSigner, BitFlip, OtherTip, OtherNonce, Unsigned];
const WRONG_D: [Twist; 10] = [Truncated, Trailing, Empty, WrongGenesis, OtherCallHash, OtherSigner, BitFlip, OtherTip, OtherNonce, Unsigned];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Limit {
	arg: u8,
	/// 0 equal, 1 less, 2 less or equal, 3 greater
	cmp: u8,
	n: u64,
	/// instead of a number, an account
	who: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Cert {
	issuer: u64,
	holder: u64,
	issuer_pays: bool,
	from: u32,
	until: u32,
	/// None: for another domain
	allow: Option<Vec<(String, Vec<(String, Option<Vec<Limit>>)>)>>,
	/// signed with the issuer's key, with the Ethereum prefix or without
	eip: bool,
	forged: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	Block(u8),
	Crash,
	Issue(Cert),
	/// through XRPL; `ahead` of the account's nonce, `until` blocks from now
	X { by: u64, call: C, ahead: i8, until: i8, tip: u64, twist: Twist, pick: u16, send: bool },
	/// with a certificate
	D { cert: usize, call: C, ahead: i8, tip: u64, twist: Twist, pick: u16, send: bool },
	/// something made before, as it is (0), with another call (1), with another one's signature (2),
	/// as a plain call of somebody (3) or of root (4)
	Again { i: usize, how: u8, other: usize, call: C, by: u64 },
	RevokeCert { by: u64, cert: usize, on: bool },
	RevokeHolder { by: u64, holder: u64, on: bool },
	Holder { who: u64, on: bool },
	/// an ordinary signed transaction
	Plain { by: u64, call: C },
	Maintenance(bool),
	BlockAccount { who: u64, on: bool },
	BlockCall { what: u8, on: bool },
}
/// something that could be sent
#[derive(Clone)]
struct Msg {
	call: RuntimeCall,
	c: C,
	/// whose nonce counts
	signer: u64,
	nonce: u32,
	until: u32,
	tip: u64,
	/// signed, encoded and for this chain
	honest: bool,
	cert: Option<usize>,
}
#[derive(Clone, Default, PartialEq)]
struct M {
	root: BTreeMap<u64, u128>,
	vtx: BTreeMap<u64, u128>,
	xrp: BTreeMap<u64, u128>,
	alt: BTreeMap<u64, u128>,
	nonce: BTreeMap<u64, u32>,
	/// passes of people
	pass: BTreeMap<u64, u64>,
}
impl M {
	fn exec(&mut self, by: u64, c: &C, through: bool, closed: &BTreeSet<u8>) -> bool {
		let save = self.clone();
		let ok = self.sub(by, c, through, closed);
		if !ok {
			*self = save;
		}
		ok
	}
	fn sub(&mut self, by: u64, c: &C, through: bool, closed: &BTreeSet<u8>) -> bool {
		if what(c).is_some_and(|w| closed.contains(&w)) {
			return false;
		}
		fn mv(b: &mut BTreeMap<u64, u128>, from: u64, to: u64, x: u128, least: u128) -> bool {
			let f = b.get(&from).copied().unwrap_or(0);
			if f < x || f - x < least {
				return false;
			}
			*b.get_mut(&from).unwrap() -= x;
			*b.entry(to).or_default() += x;
			true
		}
		match c {
			// (a pass has a deposit, with which it cannot leave)
			C::Pay { to, x, keep } => mv(&mut self.root, by, *to, *x, (*keep || by >= PASS) as u128),
			C::Asset { to, x, keep } => mv(&mut self.vtx, by, *to, *x, *keep as u128),
			C::Remark(_) => true,
			C::NewPass(w) => {
				if through || self.pass.contains_key(w) {
					return false;
				}
				let p = PASS + self.pass.len() as u64;
				self.pass.insert(*w, p);
				true
			},
			C::Batch(v) => v.iter().all(|c| self.exec(by, c, through, closed)),
			C::Pass { p, call } => {
				if through || self.pass.get(&by) != Some(p) || matches!(**call, C::Nest { xrpl: true }) {
					return false;
				}
				self.exec(*p, call, true, closed);
				true
			},
			C::Pref { call, .. } => !matches!(**call, C::Pref { .. }) && self.exec(by, call, through, closed),
			C::Nest { .. } | C::Sudo => false,
		}
	}
}
/// calls maintenance may close
fn what(c: &C) -> Option<u8> {
	match c {
		C::Pay { keep: false, .. } => Some(0),
		C::Asset { .. } => Some(1),
		C::Pass { .. } => Some(2),
		_ => Option::None,
	}
}
/// pallet, call and arguments
fn permission(c: &C) -> Option<(&'static str, &'static str, Vec<Result<u128, u64>>)> {
	Some(match c {
		C::Pay { to, x, keep: false } => ("Balances", "transfer", vec![Err(*to), Ok(*x)]),
		C::Pay { to, x, keep: true } => ("Balances", "transfer_keep_alive", vec![Err(*to), Ok(*x)]),
		C::Asset { to, x, keep } => ("AssetsExt", "transfer", vec![Ok(VTX as u128), Err(*to), Ok(*x), Ok(*keep as u128)]),
		C::Remark(_) => ("System", "remark", vec![Err(u64::MAX)]),
		C::NewPass(w) => ("Futurepass", "create", vec![Err(*w)]),
		_ => return Option::None,
	})
}
impl Cert {
	fn allows(&self, c: &C) -> bool {
		let (Some(allow), Some((module, method, args))) = (&self.allow, permission(c)) else { return false };
		fn find<'a, T>(v: &'a [(String, T)], n: &str) -> Option<&'a T> {
			v.iter().find(|x| x.0 == n).or_else(|| v.iter().find(|x| x.0 == "*")).map(|x| &x.1)
		}
		let Some(limits) = find(allow, module).and_then(|m| find(m, method)) else { return false };
		limits.iter().flatten().all(|l| match (args.get(l.arg as usize), l.who) {
			(Some(Ok(x)), Option::None) => match l.cmp {
				0 => *x == l.n as u128,
				1 => *x < l.n as u128,
				2 => *x <= l.n as u128,
				_ => *x > l.n as u128,
			},
			(Some(Err(a)), Some(w)) => l.cmp == 0 && *a == w,
			_ => false,
		})
	}
	fn bytes(&self) -> Vec<u8> {
		let modules = self.allow.iter().flatten().map(|(name, methods)| Module {
			name: name.clone(),
			block_cooldown: Option::None,
			methods: methods
				.iter()
				.map(|(name, limits)| Method {
					name: name.clone(),
					block_cooldown: Option::None,
					constraints: limits.as_ref().map(|l| {
						Contract(
							l.iter()
								.map(|l| {
									let cmp = [Comparator::Equal, Comparator::LessThan, Comparator::LessThanOrEqual, Comparator::GreaterThan][l.cmp as usize & 3];
									let v = match l.who {
										Some(w) => PactType::StringLike(StringLike(addr(w).0.to_vec())),
										Option::None => PactType::Numeric(Numeric(l.n)),
									};
									(l.arg, cmp, v)
								})
								.collect(),
						)
						.encode()
					}),
				})
				.collect(),
		});
		let topping = Topping { modules: modules.collect() }.encode();
		let pk = |n| -> [u8; 33] { key(n).public.try_into().unwrap() };
		let mut d = DoughnutV1 {
			issuer: pk(self.issuer),
			holder: pk(self.holder),
			fee_mode: if self.issuer_pays { FeeMode::ISSUER } else { FeeMode::HOLDER } as u8,
			toppings: vec![(if self.allow.is_some() { "trn" } else { "other" }.into(), topping)],
			expiry: self.until,
			not_before: self.from,
			payload_version: 1,
			signature_version: 0,
			signature: [0; 65],
		};
		let k = key(if self.forged { 1 + self.issuer % 5 } else { self.issuer }).secret;
		if self.eip {
			d.sign_eip191(&k).unwrap();
		} else {
			d.sign_ecdsa(&k).unwrap();
		}
		Doughnut::V1(d).encode()
	}
}
fn der(rs: &[u8]) -> Vec<u8> {
	let int = |b: &[u8]| {
		let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
		if v.first().is_none_or(|x| x & 0x80 != 0) {
			v.insert(0, 0);
		}
		let mut o = vec![2, v.len() as u8];
		o.extend(v);
		o
	};
	let mut body = int(&rs[..32]);
	body.extend(int(&rs[32..64]));
	let mut o = vec![0x30, body.len() as u8];
	o.extend(body);
	o
}
struct X<'a> {
	key: &'a [u8],
	account: [u8; 20],
	memos: Vec<(Vec<u8>, Vec<u8>)>,
}
impl X<'_> {
	/// the fields that are signed, among others perhaps
	fn blob(&self, t: Twist) -> Vec<u8> {
		let mut s = Serializer::new();
		if t == ExtraFields {
			s.field(1, 2);
			s.out.extend([0, 0]);
			s.field(2, 4);
			s.out.extend([0, 0, 1, 0]);
			s.field(2, 27);
			s.out.extend([0, 0, 9, 0]);
		}
		if t != NoTxnId {
			s.field(5, 9);
			s.out.extend([0x16; 32]);
		}
		if t == ExtraFields {
			s.field(6, 8);
			s.out.extend((12u64 | 1 << 62).to_be_bytes());
		}
		s.field(7, 3);
		match t {
			EmptyKey => s.sized(&[]),
			OddKey => s.sized(&[self.key, &[1]].concat()),
			_ => s.sized(self.key),
		}
		if t == ExtraFields {
			s.field(7, 4);
			s.sized(&[3; 70]);
		}
		s.field(8, 1);
		s.sized(&self.account);
		if t != NoMemo {
			s.field(15, 9);
			for (ty, data) in &self.memos {
				s.field(14, 10);
				s.field(7, 12);
				s.sized(ty);
				s.field(7, 13);
				s.sized(data);
				s.field(14, 1);
			}
			s.field(15, 1);
		}
		if t == Trailing {
			s.field(8, 9);
			s.out.push(0);
		}
		if t == Truncated {
			s.out.pop();
		}
		if t == Empty {
			s.out.clear();
		}
		s.out
	}
}
struct World {
	c: Chain,
	m: M,
	prop: String,
	certs: Vec<(Cert, Vec<u8>)>,
	msgs: Vec<Msg>,
	genesis: [u8; 32],
	paused: bool,
	blocked: BTreeSet<u64>,
	closed: BTreeSet<u8>,
	revoked: BTreeSet<Vec<u8>>,
	revoked_holders: BTreeSet<(u64, u64)>,
	holders: BTreeSet<u64>,
	mark: usize,
}
impl World {
	fn all(&self) -> Vec<u64> {
		(1..=PEOPLE).chain(PASS..PASS + PEOPLE + 1).collect()
	}
	fn look(&mut self) -> M {
		let all = self.all();
		let old = &self.m;
		let (mut m, pass) = (M::default(), old.pass.clone());
		self.c.exec(|| {
			for n in all {
				let a = addr(n);
				for (id, b) in [(ROOT, &mut m.root), (VTX, &mut m.vtx), (XRP, &mut m.xrp), (A, &mut m.alt)] {
					let x = free(id, &a);
					if x > 0 {
						b.insert(n, x);
					}
				}
				let k = rt::System::account_nonce(a);
				if k > 0 {
					m.nonce.insert(n, k);
				}
			}
			for w in 1..=PEOPLE {
				if let Some(p) = pallet_futurepass::Holders::<Runtime>::get(addr(w)) {
					m.pass.insert(w, (PASS..PASS + PEOPLE + 1).find(|n| addr(*n) == p).unwrap_or(9999));
				}
			}
		});
		let _ = pass;
		m
	}
	/// is somebody kept from making this call at all
	fn stopped(&self, who: &[u64], c: &C) -> bool {
		!matches!(c, C::Sudo) && (self.paused || who.iter().any(|w| self.blocked.contains(w)))
	}
	fn nonce(&self, w: u64) -> u32 {
		self.m.nonce.get(&w).copied().unwrap_or(0)
	}
	fn make_x(&mut self, by: u64, c: &C, ahead: i8, until: i8, tip: u64, t: Twist, pick: u16) -> Msg {
		let k = key(by);
		let rc = call(c);
		let nonce = (self.nonce(by) as i64 + ahead as i64).max(0) as u32;
		let until = (self.c.n as i64 + until as i64).max(0) as u32;
		let mut genesis = self.genesis;
		if t == WrongGenesis {
			genesis[pick as usize % 32] ^= 1;
		}
		let mut hash = simcrypto::blake2_256(&rc.encode());
		if t == OtherCallHash {
			hash[pick as usize % 32] ^= 1;
		}
		let text = |nonce: u32, tip: u64| {
			let mut s = format!("{}:{nonce}:{until}:{tip}:{}", hex::encode(genesis), hex::encode(hash));
			match t {
				ExtraPart => s += ":more",
				ShortMemo => s.truncate(pick as usize % s.len()),
				NotHex => s = s.replace(':', ";"),
				_ => {},
			}
			s.into_bytes()
		};
		let memos = |nonce: u32, tip: u64| {
			let ty: &[u8] = match t {
				UpperType => b"ExtrinSic",
				WrongType => b"extrinsics",
				_ => b"extrinsic",
			};
			let mut v = vec![(ty.to_vec(), text(nonce, tip))];
			match t {
				OtherMemoFirst => v.insert(0, (b"note".to_vec(), vec![0xff, 0xfe])),
				BadTypeFirst => v.insert(0, (vec![0xff, 0xfe], b"x".to_vec())),
				SecondMemo => v.push((b"extrinsic".to_vec(), b"no:no:no".to_vec())),
				_ => {},
			}
			v
		};
		let account = if t == OtherAccount { [pick as u8; 20] } else { simcrypto::ripemd160(&simcrypto::sha2_256(&k.public)) };
		let x = X { key: &k.public, account, memos: memos(nonce, tip) };
		let signed = X { key: &k.public, account, memos: memos(nonce + (t == OtherNonce) as u32, tip + (t == OtherTip) as u64) };
		let mut m = vec![0x53, 0x54, 0x58, 0];
		// an empty list of memos is not written
		m.extend(signed.blob(if matches!(t, NoMemo) { NoMemo } else { None }));
		let s = key(if t == OtherSigner { 1 + (by + pick as u64 % (PEOPLE - 1)) % PEOPLE } else { by });
		let mut sig = if s.public[0] == 0xed {
			sp_core::ed25519::Pair::from_seed_slice(&s.secret).unwrap().sign(&m).0.to_vec()
		} else {
			let h: [u8; 32] = simcrypto::sha2_512(&m)[..32].try_into().unwrap();
			der(&simcrypto::secp256k1::sign(&s.secret, &h).unwrap())
		};
		match t {
			// (past the header, into r or s)
			BitFlip => {
				let n = sig.len();
				sig[n - 1 - pick as usize % 20] ^= 1 << (pick % 8);
			},
			Unsigned => sig.clear(),
			_ => {},
		}
		let call = pallet_xrpl::Call::transact { encoded_msg: x.blob(t).try_into().expect("short"), signature: sig.try_into().expect("short"), call: Box::new(rc) }.into();
		Msg { call, c: c.clone(), signer: by, nonce, until, tip, honest: HARMLESS.contains(&t), cert: Option::None }
	}
	fn make_d(&mut self, cert: usize, c: &C, ahead: i8, tip: u64, t: Twist, pick: u16) -> Msg {
		let (ct, mut d) = self.certs[cert].clone();
		let rc = call(c);
		let nonce = (self.nonce(ct.holder) as i64 + ahead as i64).max(0) as u32;
		let mut genesis = self.genesis;
		match t {
			WrongGenesis => genesis[pick as usize % 32] ^= 1,
			Trailing => d.push(pick as u8),
			Truncated => {
				d.pop();
			},
			Empty => d.clear(),
			_ => {},
		}
		let tx = |rc: RuntimeCall, nonce: u32, tip: u64, signature: Vec<u8>| pallet_doughnut::Call::<Runtime>::transact { call: Box::new(rc), doughnut: d.clone(), nonce, genesis_hash: genesis.into(), tip, signature };
		let over = match t {
			OtherCallHash => tx(call(&C::Remark(77)), nonce, tip, vec![]),
			OtherNonce => tx(rc.clone(), nonce + 1, tip, vec![]),
			OtherTip => tx(rc.clone(), nonce, tip + 1, vec![]),
			_ => tx(rc.clone(), nonce, tip, vec![]),
		};
		let s = if t == OtherSigner { 1 + (ct.holder + pick as u64 % 4) % 5 } else { ct.holder };
		let mut sig = crypto::sign_eip191(&key(s).secret, &over.encode()).unwrap().to_vec();
		match t {
			BitFlip => sig[pick as usize % 64] ^= 1 << (pick % 8),
			Unsigned => sig.clear(),
			_ => {},
		}
		let honest = (t == None || HARMLESS.contains(&t)) && !ct.forged;
		Msg { call: tx(rc, nonce, tip, sig).into(), c: c.clone(), signer: ct.holder, nonce, until: u32::MAX, tip, honest, cert: Some(cert) }
	}
	fn fee(&mut self, m: &Msg) -> u128 {
		let c = m.call.clone();
		let info = self.c.peek(|| c.get_dispatch_info());
		let base = <rt::stand_ins::RuntimeBlockWeights as frame_support::traits::Get<frame_system::limits::BlockWeights>>::get().get(info.class).base_extrinsic.ref_time() as u128;
		let w = sp_runtime::Perbill::from_parts(100_000);
		let len = c.encoded_size() as u128 + 10;
		w * base + w * info.weight.ref_time() as u128 + 350 * len + m.tip as u128
	}
	/// does it enter a block; apart from the nonce
	fn valid(&mut self, m: &Msg) -> Result<(u64, u128, u128), &'static str> {
		let n = self.c.n;
		let own = self.m.pass.get(&m.signer).copied();
		if !m.honest {
			return Err("not what was signed");
		}
		let payer = match m.cert {
			Option::None => {
				if matches!(m.c, C::Nest { xrpl: true }) {
					return Err("nested");
				}
				if n > m.until {
					return Err("too late");
				}
				if by_pass(&m.c) && own.is_none() {
					return Err("no pass");
				}
				if self.stopped(&if by_pass(&m.c) { vec![m.signer, own.unwrap()] } else { vec![m.signer] }, &m.c) {
					return Err("kept away");
				}
				if by_pass(&m.c) {
					own.unwrap()
				} else {
					m.signer
				}
			},
			Some(k) => {
				let (ct, b) = &self.certs[k];
				if n < ct.from || n >= ct.until {
					return Err("not in its time");
				}
				if self.revoked.contains(b) || self.revoked_holders.contains(&(ct.issuer, ct.holder)) {
					return Err("revoked");
				}
				if self.stopped(&[m.signer], &m.c) {
					return Err("kept away");
				}
				let payer = if ct.issuer_pays { ct.issuer } else { ct.holder };
				if by_pass(&m.c) {
					*self.m.pass.get(&payer).ok_or("no pass")?
				} else {
					payer
				}
			},
		};
		let fee = self.fee(m);
		let xrp = self.m.xrp.get(&payer).copied().unwrap_or(0);
		let mut alt = 0;
		if let C::Pref { plenty, .. } = &m.c {
			let need = fee + (xrp == 0) as u128;
			let quote = self.c.peek(|| rt::Dex::get_amounts_in(need, &[A, XRP]).map(|v| v[0]));
			let Ok(q) = quote else { return Err("no liquidity") };
			if !*plenty && q > 1 {
				return Err("too dear");
			}
			if self.m.alt.get(&payer).copied().unwrap_or(0) <= q {
				return Err("cannot pay");
			}
			alt = q;
		} else if xrp <= fee {
			return Err("cannot pay");
		}
		Ok((payer, fee, alt))
	}
	fn send(&mut self, m: &Msg, st: &mut Stats) -> Res {
		let valid = self.valid(m);
		let now = self.nonce(m.signer);
		let kind = if m.cert.is_some() { "doughnut" } else { "xrpl" };
		let text = format!("{kind} of {} (nonce {} of {now}, certificate {:?}): {:?}", m.signer, m.nonce, m.cert, m.c);
		// the pool
		let c = m.call.clone();
		let pool = self.c.peek(|| match c.check_self_contained() {
			Some(Ok(i)) => {
				let info = c.get_dispatch_info();
				let len = c.encoded_size() + 10;
				c.validate_self_contained(&i, &info, len).and_then(|v| v.ok())
			},
			_ => Option::None,
		});
		let prop = if valid == Err("kept away") { "K01" } else { "S01" };
		check!(prop, "pool", pool.is_some() == (valid.is_ok() && m.nonce >= now), "{text}: the pool {} it, expected: {valid:?}", if pool.is_some() { "took" } else { "refused" });
		if let Some(v) = pool {
			let id = addr(m.signer);
			check!("S01", "pool-provides", v.provides == vec![(id, m.nonce).encode()], "{text}: the pool takes it to provide {:?}", v.provides);
			let need = if m.nonce > now { vec![(id, m.nonce - 1).encode()] } else { vec![] };
			check!("S01", "pool-requires", v.requires == need, "{text}: the pool takes it to require {:?}", v.requires);
		}
		let before = self.c.hash();
		let out = self.c.step(Step::Unsigned(m.call.clone()));
		let entered = out != Err(Option::None);
		let expected = valid.is_ok() && m.nonce == now;
		check!(prop, "entered", entered == expected, "{text}: {out:?}, expected: {valid:?}");
		let (payer, fee, alt) = match valid {
			Ok(v) if entered => v,
			v => {
				check!(prop, "refusal-left-traces", self.c.hash() == before, "{text}: refused, but changed the state");
				st.op(kind, false);
				st.count(v.err().unwrap_or("other nonce"));
				return Ok(());
			},
		};
		let mut n = self.m.clone();
		*n.nonce.entry(m.signer).or_default() += 1;
		if alt > 0 {
			*n.alt.get_mut(&payer).unwrap() -= alt;
			if n.xrp.get(&payer).is_none() {
				n.xrp.insert(payer, 1);
			}
		} else {
			*n.xrp.get_mut(&payer).unwrap() -= fee;
		}
		let passes = n.pass.len();
		let (ok, inner) = match m.cert {
			Option::None => {
				let r = n.exec(m.signer, &m.c, false, &self.closed);
				(r, r)
			},
			Some(k) => {
				let (ct, _) = &self.certs[k];
				let l = leaf(&m.c);
				let open = what(l).is_none_or(|w| !self.closed.contains(&w));
				if self.holders.contains(&ct.holder) && open && ct.allows(l) {
					(true, n.exec(ct.issuer, &m.c, false, &self.closed))
				} else {
					(false, false)
				}
			},
		};
		if m.cert.is_some() && !inner && ok {
			st.count("a permitted call failed");
		}
		check!("S01", "outcome", out.is_ok() == ok, "{text}: {out:?}, expected it to {}", if ok { "succeed" } else { "fail" });
		let ev = self.c.events_since(self.mark);
		let mut told = vec![];
		for e in ev {
			match e {
				RuntimeEvent::Xrpl(pallet_xrpl::Event::XRPLExtrinsicExecuted { caller, call: x, .. }) => told.push((caller == addr(m.signer) && m.cert.is_none() && x == call(&m.c), true)),
				RuntimeEvent::Doughnut(pallet_doughnut::Event::DoughnutCallExecuted { doughnut, call: x, result }) => told.push((m.cert.is_some_and(|k| self.certs[k].1 == doughnut) && x == call(&m.c), result.is_ok())),
				_ => {},
			}
		}
		let want = if ok { vec![(true, inner)] } else { vec![] };
		check!("S01", "events", told == want, "{text}: told {told:?}, expected {want:?}");
		let now = self.look();
		if n.pass.len() > passes {
			// what a pass costs is its own business (L01)
			let origin = m.cert.map_or(m.signer, |k| self.certs[k].0.issuer);
			let paid = n.root[&origin].saturating_sub(now.root[&origin]);
			check!("S01", "pass-cost", paid > 0 && paid < BILLION * BILLION, "{text}: a pass cost {paid}");
			n.root.insert(origin, now.root[&origin]);
			for p in passes..n.pass.len() {
				let p = PASS + p as u64;
				if let Some(x) = now.root.get(&p) {
					n.root.insert(p, *x);
				}
			}
		}
		for b in [&mut n.root, &mut n.vtx, &mut n.xrp, &mut n.alt] {
			b.retain(|_, x| *x > 0);
		}
		self.compare(&n, &now, &text)?;
		self.m = now;
		st.op(kind, true);
		if inner {
			st.count(if m.cert.is_some() { "calls made with certificates" } else { "calls made from XRPL" });
		}
		st.hit("S01");
		Ok(())
	}
	fn compare(&self, n: &M, now: &M, text: &str) -> Res {
		for (name, want, got) in [("ROOT", &n.root, &now.root), ("VTX", &n.vtx, &now.vtx), ("XRP", &n.xrp, &now.xrp), ("the payment asset", &n.alt, &now.alt)] {
			check!("S01", "balances", want == got, "{text}: {name} of everyone {got:?}, expected {want:?}");
		}
		check!("S01", "nonces", n.nonce == now.nonce, "{text}: nonces {:?}, expected {:?}", now.nonce, n.nonce);
		check!("S01", "passes", n.pass == now.pass, "{text}: passes {:?}, expected {:?}", now.pass, n.pass);
		Ok(())
	}
	fn c(&self, r: &mut Rng, by: u64, deep: u8) -> C {
		let to = if r.chance(1, 4) && !self.m.pass.is_empty() { *r.pick(&self.m.pass.values().copied().collect::<Vec<_>>()) } else { 1 + r.below(PEOPLE) };
		let x = *r.pick(&[0, 1, 1000, 1001, 999, BILLION, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 64) + 500, 1 << 70, 1 << 120]);
		let pass = self.m.pass.get(&by).copied();
		match r.weighted(&[6, 2, 5, 2, 1, if deep < 2 { 2 } else { 0 }, if deep < 2 { 5 } else { 0 }, if deep < 2 { 3 } else { 0 }, 1, 1]) {
			0 => C::Pay { to, x, keep: false },
			1 => C::Pay { to, x, keep: true },
			// (nothing to an account without the asset is a matter of the stand-in)
			2 => C::Asset { to, x: x.max(1), keep: r.chance(1, 2) },
			3 => C::Remark(r.below(4) as u8),
			4 => C::NewPass(1 + r.below(PEOPLE)),
			5 => C::Batch((0..r.range(0, 3)).map(|_| self.c(r, by, deep + 1)).collect()),
			6 => {
				let p = match pass {
					Some(p) if r.chance(5, 6) => p,
					_ => PASS + r.below(4),
				};
				C::Pass { p, call: Box::new(self.c(r, p, deep + 1)) }
			},
			7 => C::Pref { plenty: r.chance(4, 5), call: Box::new(self.c(r, by, deep + 1)) },
			8 => C::Nest { xrpl: r.chance(1, 2) },
			_ => C::Sudo,
		}
	}
	fn cert(&self, r: &mut Rng) -> Cert {
		let issuer = 1 + r.below(5);
		let holder = 1 + r.below(5);
		let n = self.c.n;
		let methods: [(&str, &[&str]); 5] = [("Balances", &["transfer", "transfer_keep_alive"]), ("AssetsExt", &["transfer", "burn"]), ("System", &["remark"]), ("Futurepass", &["create"]), ("*", &["*", "transfer"])];
		let mut allow = vec![];
		for (name, ms) in methods {
			if r.chance(2, 3) {
				let mut v = vec![];
				for m in ms {
					if r.chance(3, 4) {
						let limits = r.chance(1, 2).then(|| {
							(0..r.range(0, 2))
								.map(|_| {
									// where amounts and accounts are in the arguments
									let (num, acc) = match name {
										"Balances" => (1, 0),
										"AssetsExt" => (*r.pick(&[2, 2, 2, 0, 3]), 1),
										_ => (r.below(3) as u8, 0),
									};
									if r.chance(2, 3) {
										let n = match (name, num) {
											("AssetsExt", 0) => *r.pick(&[VTX as u64, ROOT as u64]),
											("AssetsExt", 3) => r.below(2),
											_ => *r.pick(&[1000, 1000, 0, 1, BILLION as u64, 1 << 63]),
										};
										Limit { arg: num, cmp: if num == 0 || num == 3 { 0 } else { *r.pick(&[2, 2, 1, 3, 0]) }, n, who: Option::None }
									} else {
										Limit { arg: acc, cmp: if r.chance(7, 8) { 0 } else { 2 }, n: 0, who: Some(1 + r.below(PEOPLE)) }
									}
								})
								.collect()
						});
						v.push((if r.chance(1, 6) { "*" } else { *m }.to_string(), limits));
					}
				}
				allow.push((name.to_string(), v));
			}
		}
		if r.chance(1, 5) {
			allow.reverse();
		}
		Cert {
			issuer,
			holder,
			issuer_pays: r.chance(1, 2),
			from: if r.chance(1, 6) { n + r.below(4) as u32 } else { 0 },
			until: if r.chance(1, 4) { (n + r.below(8) as u32).saturating_sub(1) } else { n + 500 },
			allow: if r.chance(12, 13) { Some(allow) } else { Option::None },
			eip: r.chance(1, 2),
			forged: r.chance(1, 10),
		}
	}
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "wallets";
	const PROPS: &'static [&'static str] = &["S01", "K01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-xrpl", "pallet-doughnut", "pallet-futurepass", "pallet-fee-proxy", "pallet-dex", "pallet-assets-ext", "pallet-maintenance-mode", "runtime configuration: self-contained calls, permission and pass lookups, call filter, proxy filter, fee adapters"];
	const STUB: &'static [&'static str] = &["frame (system, executive, assets, balances, transaction payment, utility, proxy, sudo)", "xrpl-sdk codec and types, doughnut-rs, trn-pact (stand-ins with their formats and rules; XRPL's is the real one for the fields used)", "secp256k1, ed25519, SHA and BLAKE implementations"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed ^ 0x3a11e7);
		let mut c = Chain::new(Cfg { accounts: WHALE, root_each: 1 << 60, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 8);
		c.asset(A, 6);
		let big = 10u128.pow(30);
		for w in 1..=PEOPLE {
			c.give(ROOT, addr(w), big);
			c.give(VTX, addr(w), big);
			if w != POOR {
				c.give(XRP, addr(w), 1_000 * BILLION);
			}
			if r.chance(3, 4) {
				c.give(A, addr(w), 1 << 60);
			}
		}
		c.give(XRP, acc(WHALE), 1 << 100);
		c.give(A, acc(WHALE), 1 << 100);
		c.exec(|| {
			rt::Dex::add_liquidity(RawOrigin::Signed(acc(WHALE)).into(), A, XRP, 1 << 60, 1 << 60, 0, 0, Option::None, Option::None).expect("pool");
		});
		let mut passes = 0;
		let mut holders = BTreeSet::new();
		for w in 1..=PEOPLE {
			if r.chance(1, 2) {
				c.exec(|| rt::Futurepass::create(RawOrigin::Signed(addr(w)).into(), addr(w)).expect("pass"));
				let p = addr(PASS + passes);
				passes += 1;
				if r.chance(4, 5) {
					c.give(XRP, p, 1_000 * BILLION);
				}
				if r.chance(1, 2) {
					c.give(A, p, 1 << 60);
				}
				for a in [ROOT, VTX] {
					if r.chance(3, 4) {
						c.give(a, p, big);
					}
				}
			}
			if r.chance(3, 4) {
				c.exec(|| pallet_doughnut::WhitelistedHolders::<Runtime>::insert(addr(w), true));
				holders.insert(w);
			}
		}
		c.begin(4000);
		let genesis = c.peek(|| rt::System::block_hash(0)).0;
		let mut w = World {
			c,
			m: M::default(),
			prop: prop.into(),
			certs: vec![],
			msgs: vec![],
			genesis,
			paused: false,
			blocked: Default::default(),
			closed: Default::default(),
			revoked: Default::default(),
			revoked_holders: Default::default(),
			holders,
			mark: 0,
		};
		w.m = w.look();
		w.mark = w.c.event_count();
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(15, 60) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let k01 = self.prop == "K01";
		let tip = *r.pick(&[0, 0, 0, 7, BILLION as u64, BILLION as u64 * 1_000_000]);
		let ahead = *r.pick(&[0, 0, 0, 0, 0, 0, 0, 1, 2, -1]);
		let upkeep = if k01 { 3 } else { 1 };
		if self.certs.is_empty() && r.chance(1, 3) {
			return Op::Issue(self.cert(r));
		}
		match r.weighted(&[3, 1, 3, 14, if self.certs.is_empty() { 0 } else { 16 }, if self.msgs.is_empty() { 0 } else { 8 }, 2, 2, 1, 2, upkeep, upkeep, upkeep]) {
			0 => Op::Block(*r.pick(&[1, 1, 2, 4])),
			1 => Op::Crash,
			2 => Op::Issue(self.cert(r)),
			3 => {
				let by = 1 + r.below(PEOPLE);
				let twist = if r.chance(2, 3) { None } else if r.chance(1, 3) { *r.pick(&HARMLESS) } else { *r.pick(&WRONG_X) };
				Op::X { by, call: self.c(r, by, 0), ahead, until: *r.pick(&[0, 1, 3, 100, 100, 100, -1]), tip, twist, pick: r.next() as u16, send: r.chance(5, 6) }
			},
			4 => {
				// mostly the newest, and those of living people
				let cert = if r.chance(1, 2) { self.certs.len() - 1 } else { r.idx(self.certs.len()) };
				let twist = if r.chance(3, 4) { None } else { *r.pick(&WRONG_D) };
				let by = self.certs[cert].0.issuer;
				let mut call = self.c(r, by, 0);
				for _ in 0..6 {
					if self.certs[cert].0.allows(leaf(&call)) || r.chance(1, 6) {
						break;
					}
					call = self.c(r, by, 0);
				}
				Op::D { cert, call, ahead, tip, twist, pick: r.next() as u16, send: r.chance(5, 6) }
			},
			5 => Op::Again { i: r.idx(self.msgs.len()), how: *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4]), other: r.idx(self.msgs.len()), call: self.c(r, 1, 0), by: 1 + r.below(PEOPLE) },
			6 => {
				let cert = r.idx(self.certs.len().max(1));
				let by = match self.certs.get(cert) {
					Some((c, _)) if r.chance(3, 4) => c.issuer,
					_ => 1 + r.below(PEOPLE),
				};
				Op::RevokeCert { by, cert, on: r.chance(2, 3) }
			},
			7 => {
				let held: Vec<_> = self.revoked_holders.iter().copied().collect();
				if !held.is_empty() && r.chance(1, 3) {
					let (by, holder) = *r.pick(&held);
					return Op::RevokeHolder { by, holder, on: false };
				}
				match self.certs.get(r.idx(self.certs.len().max(1))) {
					Some((c, _)) if r.chance(3, 4) => Op::RevokeHolder { by: c.issuer, holder: c.holder, on: r.chance(3, 4) },
					_ => Op::RevokeHolder { by: 1 + r.below(5), holder: 1 + r.below(5), on: r.chance(1, 2) },
				}
			},
			8 => Op::Holder { who: 1 + r.below(5), on: r.chance(2, 3) },
			9 => {
				let by = 1 + r.below(PEOPLE);
				Op::Plain { by, call: self.c(r, by, 1) }
			},
			10 => Op::Maintenance(r.chance(1, 3)),
			11 => Op::BlockAccount { who: *r.pick(&[1, 2, 3, 4, 6, 7, PASS, PASS + 1]), on: r.chance(1, 2) },
			_ => Op::BlockCall { what: r.below(3) as u8, on: r.chance(1, 2) },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		self.mark = self.c.event_count();
		match op.clone() {
			Op::Block(n) => {
				for _ in 0..n {
					self.c.end(Option::None)?;
					self.c.begin(4000);
					st.time(4000);
				}
				self.mark = self.c.event_count();
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Issue(c) => {
				if edwards(c.issuer) || edwards(c.holder) || c.issuer * c.holder == 0 {
					return Ok(());
				}
				let b = c.bytes();
				self.certs.push((c, b));
			},
			Op::X { by, call, ahead, until, tip, twist, pick, send } => {
				let m = self.make_x(by, &call, ahead, until, tip, twist, pick);
				if twist != None {
					st.fault(&format!("XRPL message: {twist:?}"));
				}
				self.msgs.push(m.clone());
				if send {
					self.send(&m, st)?;
				}
			},
			Op::D { cert, call, ahead, tip, twist, pick, send } => {
				if cert >= self.certs.len() {
					return Ok(());
				}
				let m = self.make_d(cert, &call, ahead, tip, twist, pick);
				if twist != None {
					st.fault(&format!("doughnut message: {twist:?}"));
				}
				self.msgs.push(m.clone());
				if send {
					self.send(&m, st)?;
				}
			},
			Op::Again { i, how, other, call: c2, by } => {
				if i.max(other) >= self.msgs.len() {
					return Ok(());
				}
				let (mut m, o) = (self.msgs[i].clone(), self.msgs[other].clone());
				match how {
					0 => st.fault("sent again"),
					1 => {
						st.fault("sent with another call");
						let new = call(&c2);
						if c2 != m.c {
							match &mut m.call {
								RuntimeCall::Xrpl(pallet_xrpl::Call::transact { call, .. }) => **call = new,
								RuntimeCall::Doughnut(pallet_doughnut::Call::transact { call, .. }) => **call = new,
								_ => {},
							}
							m.c = c2;
							m.honest = false;
						}
					},
					2 => {
						st.fault("sent with another signature");
						match (&mut m.call, &o.call) {
							(RuntimeCall::Xrpl(pallet_xrpl::Call::transact { signature, .. }), RuntimeCall::Xrpl(pallet_xrpl::Call::transact { signature: s, .. })) => {
								m.honest &= signature == s;
								*signature = s.clone();
							},
							(RuntimeCall::Doughnut(pallet_doughnut::Call::transact { signature, .. }), RuntimeCall::Doughnut(pallet_doughnut::Call::transact { signature: s, .. })) => {
								m.honest &= signature == s;
								*signature = s.clone();
							},
							_ => m.honest &= true,
						}
					},
					_ => {
						st.fault("as a plain call");
						let origin = if how == 3 { RawOrigin::Signed(addr(by)) } else { RawOrigin::Root };
						let before = self.c.hash();
						let out = self.c.step(Step::Call(origin, m.call.clone()));
						check!("S01", "plain-call", out.is_err(), "{by} made the wallet call of {} as a plain call: {out:?}", m.signer);
						check!("S01", "plain-call", before == self.c.hash(), "a refused plain call of {by} changed the state");
						return Ok(());
					},
				}
				self.send(&m, st)?;
			},
			Op::RevokeCert { by, cert, on } => {
				if cert >= self.certs.len() {
					return Ok(());
				}
				let (c, b) = self.certs[cert].clone();
				let out = self.c.call(addr(by), pallet_doughnut::Call::revoke_doughnut { doughnut: b.clone(), revoke: on });
				check!("S01", "revoke", out.is_ok() == (by == c.issuer), "{by} revokes a certificate of {}: {out:?}", c.issuer);
				if out.is_ok() {
					if on {
						self.revoked.insert(b);
					} else {
						self.revoked.remove(&b);
					}
				}
				st.op("revoke certificate", out.is_ok());
			},
			Op::RevokeHolder { by, holder, on } => {
				let out = self.c.call(addr(by), pallet_doughnut::Call::revoke_holder { holder: addr(holder), revoke: on });
				check!("S01", "revoke", out.is_ok(), "{by} revokes {holder}: {out:?}");
				if on {
					self.revoked_holders.insert((by, holder));
				} else {
					self.revoked_holders.remove(&(by, holder));
				}
			},
			Op::Holder { who, on } => {
				let c = pallet_doughnut::Call::update_whitelisted_holders { holder: addr(who), add: on };
				let out = self.c.call(addr(who), c.clone());
				check!("S01", "whitelist", out.is_err(), "{who} put itself on the list of holders");
				let out = self.c.root(c);
				check!("S01", "whitelist", out.is_ok(), "root cannot change the list of holders: {out:?}");
				if on {
					self.holders.insert(who);
				} else {
					self.holders.remove(&who);
				}
			},
			Op::Plain { by, call: c } => {
				if matches!(c, C::Nest { .. }) {
					return Ok(());
				}
				let _ = self.c.signed(addr(by), call(&c), 0);
				self.m = self.look();
			},
			Op::Maintenance(on) => {
				self.c.root(pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: on }).expect("root");
				self.paused = on;
				st.fault(if on { "maintenance mode on" } else { "maintenance mode off" });
			},
			Op::BlockAccount { who, on } => {
				self.c.root(pallet_maintenance_mode::Call::block_account { account: addr(who), blocked: on }).expect("root");
				if on {
					self.blocked.insert(who);
				} else {
					self.blocked.remove(&who);
				}
				st.fault("account blocked or unblocked");
			},
			Op::BlockCall { what, on } => {
				let (p, f) = [("Balances", "transfer"), ("assetsext", "TRANSFER"), ("futurepass", "proxy_extrinsic")][what as usize % 3];
				let b = |s: &str| s.as_bytes().to_vec().try_into().unwrap();
				self.c.root(pallet_maintenance_mode::Call::block_call { pallet_name: b(p), call_name: b(f), blocked: on }).expect("root");
				if on {
					self.closed.insert(what % 3);
				} else {
					self.closed.remove(&(what % 3));
				}
				st.fault("call closed or opened");
			},
		}
		if !matches!(op, Op::X { .. } | Op::D { .. } | Op::Plain { .. }) {
			let now = self.look();
			self.compare(&self.m.clone(), &now, &format!("{op:?}"))?;
		}
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// an honest message by somebody with means goes through once nothing stands in its way
		self.paused = false;
		self.c.root(pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: false }).expect("root");
		for w in std::mem::take(&mut self.blocked) {
			self.c.root(pallet_maintenance_mode::Call::block_account { account: addr(w), blocked: false }).expect("root");
		}
		self.c.end(Option::None)?;
		self.c.begin(4000);
		for by in [1, 7] {
			self.mark = self.c.event_count();
			let m = self.make_x(by, &C::Remark(1), 0, 5, 0, None, 0);
			let v = self.valid(&m);
			if v.is_ok() {
				let n = self.nonce(by);
				self.send(&m, st)?;
				check!("S01", "stuck", self.nonce(by) == n + 1, "an honest message of {by} does not go through");
			}
		}
		// every certificate is good for what it permits, or for nothing
		for k in (0..self.certs.len()).rev().take(10) {
			let to = 1 + k as u64 % PEOPLE;
			let tries = [C::Remark(1), C::Pay { to, x: 1, keep: true }, C::Pay { to, x: 1000, keep: false }, C::Asset { to, x: 1, keep: true }];
			let i = tries.iter().position(|c| self.certs[k].0.allows(c)).unwrap_or(0);
			self.mark = self.c.event_count();
			let m = self.make_d(k, &tries[i], 0, 0, None, 0);
			self.send(&m, st)?;
		}
		self.c.end(Option::None)?;
		st.hit("S01");
		st.hit("K01");
		Ok(())
	}
	fn panic_prop(&self) -> String {
		"S01".into()
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn thorough_runs() -> u64 {
		100_000
	}
	fn rule() -> &'static str {
		"storage root after every step"
	}
}
fn main() {
	simkit::main::<World>();
}
