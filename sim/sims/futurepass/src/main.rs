//! Futurepasses (L01): creation, signed delegation, removal, transfer and calls through passes - as chain calls,
//! proxied, batched and nested, and through the EVM precompiles from accounts, passes and hostile contracts.
use frame_support::traits::fungibles::Inspect;
use frame_system::RawOrigin;
use pallet_futurepass::{Call as FC, Event as FE};
use rt::chain::*;
use rt::evm::{self, abi, n as num, Act, Code, Done, Kind, Tok};
use rt::{Runtime, RuntimeCall, RuntimeEvent};
use seed_primitives::AccountId;
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{Pair, H160, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
simkit::interpose!();

const USERS: u64 = 7;
const PASS: u64 = 1000;
const CONTRACT: u64 = 2000;
const WEI: u128 = 1_000_000_000_000;
const ANY: u8 = 1;
const OWNER: u8 = 255;
const MAX: usize = 32;
/// many more accounts that can sign
const CROWD: u64 = 100;

thread_local! {
	static KEYS: RefCell<BTreeMap<u64, (sp_core::ecdsa::Pair, AccountId)>> = Default::default();
}
fn key(n: u64) -> (sp_core::ecdsa::Pair, AccountId) {
	KEYS.with(|k| {
		k.borrow_mut()
			.entry(n)
			.or_insert_with(|| {
				let mut s = [7u8; 32];
				s[..8].copy_from_slice(&n.to_be_bytes());
				let p = sp_core::ecdsa::Pair::from_seed_slice(&s).unwrap();
				let id = seed_primitives::AccountId20::try_from(p.public()).unwrap();
				(p, id)
			})
			.clone()
	})
}
fn addr(n: u64) -> AccountId {
	H160::from(at(n)).into()
}
fn at(n: u64) -> [u8; 20] {
	match n {
		CONTRACT.. => {
			let mut a = [0xcc; 20];
			a[12..].copy_from_slice(&n.to_be_bytes());
			a
		},
		PASS.. => {
			let mut a = [0xff; 20];
			a[4..].copy_from_slice(&((n - PASS + 1) as u128).to_be_bytes());
			a
		},
		_ => h160(key(n).1).0,
	}
}
fn who(a: AccountId) -> u64 {
	(1..=USERS).chain(PASS..PASS + 40).chain(CONTRACT..CONTRACT + 2).chain(CROWD..CROWD + 40).find(|n| addr(*n) == a).unwrap_or(9999)
}
fn pass(n: u64) -> bool {
	(PASS..CONTRACT).contains(&n)
}
/// what a signature is made over and by whom, where it differs from what is submitted
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
struct Sig {
	by: Option<u64>,
	pass: Option<u64>,
	ty: Option<u8>,
	deadline: Option<u32>,
	raw: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum A {
	Create(u64),
	Register { p: u64, d: u64, ty: u8, deadline: u32, sig: Sig },
	Unregister { p: u64, d: u64 },
	Transfer { cur: u64, new: Option<u64> },
	/// send XRP
	Pay { to: u64, x: u128 },
}
/// a chain call
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum S {
	Do(A),
	Batch { all: bool, v: Vec<S> },
	Proxy { real: u64, force: Option<u8>, call: Box<S> },
	Pass { p: u64, call: Box<S> },
	Evm { source: u64, call: E },
}
/// a contract call
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum E {
	/// no call data
	Pay { to: u64, x: u128 },
	Reg { p: u64, d: u64, ty: u8, deadline: u32, sig: Sig, x: u128 },
	Unreg { p: u64, d: u64, x: u128 },
	Owner { p: u64, new: Option<u64>, x: u128 },
	Create { owner: u64, x: u128 },
	Proxy { p: u64, ty: u8, call: Box<E>, x: u128 },
	/// too little or unknown call data to a pass
	Junk { p: u64, data: Vec<u8> },
	View { p: u64, d: u64 },
	Script { at: u64, x: u128, v: Vec<(Kind, E, bool)> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
	Block(u8),
	Crash,
	/// gas: too little, perhaps
	Do { by: u64, call: S, gas: Option<u64> },
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
	Created(u64, u64),
	Registered(u64, u64, u8),
	Unregistered(u64, u64),
	Transferred(u64, Option<u64>, u64),
	Through(u64),
	Proxied(bool),
	Evm(bool),
	Log(u64, usize),
}
#[derive(Clone, Default, PartialEq)]
struct P {
	d: BTreeSet<([u8; 20], u8)>,
	deposit: u128,
}
#[derive(Clone, Default)]
struct M {
	now: u32,
	holders: BTreeMap<u64, u64>,
	p: Vec<P>,
	root: BTreeMap<u64, u128>,
	xrp: BTreeMap<u64, u128>,
	ev: Vec<Ev>,
	/// calls into a pass that are under way
	deep: BTreeMap<u64, u32>,
	base: u128,
	each: u128,
}
type Ok_ = Option<()>;
fn ok(b: bool) -> Ok_ {
	b.then_some(())
}
fn mv(b: &mut BTreeMap<u64, u128>, from: u64, to: u64, x: u128, keep: u128) -> Ok_ {
	if x == 0 || from == to {
		return Some(());
	}
	let f = b.get(&from).copied().unwrap_or(0);
	ok(f >= x && f - x >= keep)?;
	b.insert(from, f - x);
	*b.entry(to).or_default() += x;
	Some(())
}
impl M {
	fn i(&self, p: u64) -> Option<usize> {
		(pass(p) && p - PASS < self.p.len() as u64).then_some((p - PASS) as usize)
	}
	fn dep(&self, n: usize) -> u128 {
		if n == 0 {
			0
		} else {
			self.base + self.each * n as u128
		}
	}
	fn find(&self, p: u64, d: u64, force: Option<u8>) -> Option<u8> {
		self.p[self.i(p)?].d.iter().find(|x| x.0 == at(d) && force.is_none_or(|f| f == x.1)).map(|x| x.1)
	}
	/// all or nothing
	fn tx(&mut self, f: impl FnOnce(&mut M) -> Ok_) -> Ok_ {
		let save = self.clone();
		let r = f(self);
		if r.is_none() {
			*self = save;
		}
		r
	}
	fn add(&mut self, funder: u64, p: u64, d: u64, ty: u8) -> Ok_ {
		let i = self.i(p)?;
		let (new, old) = (self.dep(self.p[i].d.len() + 1), self.p[i].deposit);
		let mut x = new - old;
		if self.root.get(&p).copied().unwrap_or(0) < 1 {
			x += 1;
		}
		mv(&mut self.root, funder, p, x, 1)?;
		ok(p != d && self.p[i].d.len() < MAX && self.p[i].d.insert((at(d), ty)))?;
		let free = self.root.get_mut(&p)?;
		ok(*free > new - old)?;
		*free -= new - old;
		self.p[i].deposit = new;
		Some(())
	}
	fn remove(&mut self, to: u64, p: u64, d: u64) -> Ok_ {
		let i = self.i(p)?;
		let ty = self.find(p, d, None)?;
		self.p[i].d.remove(&(at(d), ty));
		let new = self.dep(self.p[i].d.len());
		let x = self.p[i].deposit - new;
		self.p[i].deposit = new;
		*self.root.entry(p).or_default() += x;
		mv(&mut self.root, p, to, x, 1)
	}
	fn act(&mut self, w: u64, a: &A) -> Ok_ {
		match a.clone() {
			A::Create(h) => {
				ok(!self.holders.contains_key(&h))?;
				let p = PASS + self.p.len() as u64;
				self.p.push(P::default());
				self.holders.insert(h, p);
				self.add(w, p, h, OWNER)?;
				self.ev.push(Ev::Created(p, h));
			},
			A::Register { p, d, ty, deadline, sig } => {
				let own = self.holders.get(&w) == Some(&p);
				ok(w == p || own)?;
				ok(w == p || self.find(p, w, None).is_some())?;
				ok(ty == ANY && self.find(p, d, None).is_none() && deadline >= self.now)?;
				ok(!sig.raw && sig.by.is_none_or(|x| x == d) && sig.pass.is_none_or(|x| x == p) && sig.ty.is_none_or(|x| x == ty) && sig.deadline.is_none_or(|x| x == deadline))?;
				ok(!pass(d) && d < CONTRACT)?;
				self.add(w, p, d, ANY)?;
				self.ev.push(Ev::Registered(p, d, ty));
			},
			A::Unregister { p, d } => {
				ok(self.holders.get(&d) != Some(&p))?;
				ok(self.holders.get(&w) == Some(&p) || w == p || w == d)?;
				self.remove(w, p, d)?;
				self.ev.push(Ev::Unregistered(p, d));
			},
			A::Transfer { cur, new } => {
				let p = self.holders.remove(&cur)?;
				ok(w == cur || w == p)?;
				let i = self.i(p)?;
				match new {
					Some(h) => {
						ok(!self.holders.contains_key(&h))?;
						if h != cur && self.find(p, h, None).is_some() {
							self.remove(w, p, h)?;
						}
						self.add(w, p, h, OWNER)?;
						let others: Vec<u64> = self.p[i].d.iter().map(|x| who(H160(x.0).into())).filter(|x| *x != h).collect();
						for d in others {
							self.remove(w, p, d)?;
						}
						self.holders.insert(h, p);
					},
					None => {
						let x = self.p[i].deposit;
						self.p[i] = P::default();
						*self.root.entry(p).or_default() += x;
						mv(&mut self.root, p, w, x, 0)?;
					},
				}
				self.ev.push(Ev::Transferred(cur, new, p));
			},
			A::Pay { to, x } => {
				ok(x > 0 && self.xrp.get(&w).copied().unwrap_or(0) >= x)?;
				mv(&mut self.xrp, w, to, x, 0)?
			},
		}
		Some(())
	}
	/// does this permission cover the call
	fn covers(ty: u8, c: &S) -> bool {
		match c {
			S::Do(A::Pay { .. }) | S::Batch { .. } => true,
			S::Do(A::Create(_)) | S::Proxy { .. } | S::Pass { .. } => false,
			S::Do(_) => ty == OWNER,
			S::Evm { call, .. } => ty == OWNER || !matches!(target(call), T::Pass(_) | T::Registrar),
		}
	}
	fn sub(&mut self, w: u64, through: Option<u8>, c: &S) -> Ok_ {
		ok(through.is_none_or(|ty| M::covers(ty, c)))?;
		self.tx(|m| match c {
			S::Do(a) => m.act(w, a),
			S::Batch { all, v } => {
				for c in v {
					if m.sub(w, through, c).is_none() {
						ok(!all)?;
						break;
					}
				}
				Some(())
			},
			S::Proxy { real, force, call } => m.proxy(w, *real, *force, call),
			S::Pass { p, call } => {
				if matches!(**call, S::Do(A::Register { .. } | A::Unregister { .. } | A::Transfer { .. })) {
					ok(m.holders.get(&w) == Some(p))?;
				}
				m.proxy(w, *p, None, call)?;
				m.ev.push(Ev::Through(w));
				Some(())
			},
			S::Evm { source, call } => {
				ok(w == *source)?;
				let r = m.evm(w, call, false);
				m.ev.push(Ev::Evm(r.is_some()));
				Some(())
			},
		})
	}
	fn proxy(&mut self, w: u64, real: u64, force: Option<u8>, c: &S) -> Ok_ {
		let ty = self.find(real, w, force)?;
		let r = self.sub(real, Some(ty), c);
		self.ev.push(Ev::Proxied(r.is_some()));
		Some(())
	}
	/// a call by `w`; what fails leaves nothing
	fn evm(&mut self, w: u64, e: &E, st: bool) -> Ok_ {
		self.tx(|m| {
			let (x, to) = (value(e), target(e));
			ok(x == 0 || !st)?;
			match to {
				T::Pass(p) | T::Acc(p) => {
					ok(m.xrp.get(&w).copied().unwrap_or(0) >= x)?;
					mv(&mut m.xrp, w, p, x, 0)?
				},
				T::Registrar => ok(x == 0)?,
			}
			if let T::Pass(p) = to {
				let d = m.deep.entry(p).or_default();
				ok(*d < 2)?;
				*d += 1;
				m.pass_call(w, p, e, st)?;
				*m.deep.get_mut(&p)? -= 1;
				return Some(());
			}
			match e {
				E::Pay { .. } => Some(()),
				E::Create { owner, .. } => {
					ok(!st)?;
					let k = m.ev.len();
					m.act(w, &A::Create(*owner))?;
					ok(m.ev.len() == k + 1)?;
					m.ev.push(Ev::Log(0, 2));
					Some(())
				},
				E::Script { at, v, .. } => {
					for (kind, e, must) in v {
						// nobody pays in a static call
						ok(!(st && *kind == Kind::Call && value(e) > 0))?;
						let r = match kind {
							Kind::Call => m.evm(*at, e, st),
							Kind::Static => m.evm(*at, e, true),
							// code of others in the contract's own name: no precompile of a pass allows that
							_ => match target(e) {
								T::Acc(_) if matches!(e, E::Pay { .. }) => Some(()),
								_ => None,
							},
						};
						ok(r.is_some() || !must)?;
					}
					Some(())
				},
				_ => None,
			}
		})
	}
	fn pass_call(&mut self, w: u64, p: u64, e: &E, st: bool) -> Ok_ {
		match e.clone() {
			E::Pay { x, .. } => ok(x > 0),
			E::View { .. } => Some(()),
			E::Reg { d, ty, deadline, sig, x, .. } => {
				ok(!st && x == 0)?;
				self.act(w, &A::Register { p, d, ty, deadline, sig })?;
				self.ev.push(Ev::Log(p, 3));
				Some(())
			},
			E::Unreg { d, x, .. } => {
				ok(!st && x == 0)?;
				self.act(w, &A::Unregister { p, d })?;
				self.ev.push(Ev::Log(p, 2));
				Some(())
			},
			E::Owner { new, x, .. } => {
				ok(!st && x == 0)?;
				// of this pass, not of another one
				ok(self.holders.get(&w) == Some(&p))?;
				self.act(w, &A::Transfer { cur: w, new })?;
				self.ev.push(Ev::Log(p, 3));
				Some(())
			},
			E::Proxy { ty, call, .. } => {
				ok(!st)?;
				if let T::Pass(_) | T::Registrar = target(&call) {
					ok(matches!(*call, E::Reg { .. } | E::Unreg { .. } | E::Owner { new: Some(_), .. }))?;
					ok(self.holders.get(&w) == Some(&p))?;
				}
				self.find(p, w, None)?;
				match ty {
					0 => self.evm(p, &call, true)?,
					1 => self.evm(p, &call, false)?,
					_ => return None,
				}
				self.ev.push(Ev::Log(p, 4));
				Some(())
			},
			_ => None,
		}
	}
}
enum T {
	Pass(u64),
	Registrar,
	Acc(u64),
}
fn target(e: &E) -> T {
	match e {
		E::Pay { to, .. } if pass(*to) => T::Pass(*to),
		E::Pay { to, .. } => T::Acc(*to),
		E::Reg { p, .. } | E::Unreg { p, .. } | E::Owner { p, .. } | E::Proxy { p, .. } | E::Junk { p, .. } | E::View { p, .. } => T::Pass(*p),
		E::Create { .. } => T::Registrar,
		E::Script { at, .. } => T::Acc(*at),
	}
}
fn value(e: &E) -> u128 {
	match e {
		E::Pay { x, .. } | E::Reg { x, .. } | E::Unreg { x, .. } | E::Owner { x, .. } | E::Create { x, .. } | E::Proxy { x, .. } | E::Script { x, .. } => *x,
		_ => 0,
	}
}
fn sign(p: u64, d: u64, ty: u8, deadline: u32, s: &Sig) -> [u8; 65] {
	if s.raw {
		return [3; 65];
	}
	let mut m = at(s.pass.unwrap_or(p)).to_vec();
	m.extend(at(d));
	m.push(s.ty.unwrap_or(ty));
	m.extend(s.deadline.unwrap_or(deadline).to_be_bytes());
	let h = sp_io::hashing::keccak_256(&m);
	let t: String = h.iter().map(|b| format!("{b:02x}")).collect();
	let e = sp_io::hashing::keccak_256(format!("\x19Ethereum Signed Message:\n{}{t}", t.len()).as_bytes());
	let by = s.by.unwrap_or(d);
	let k = key(if by >= PASS { 1 } else { by }).0;
	k.sign_prehashed(&e).0
}
fn ptype(t: u8) -> rt::impls::ProxyType {
	rt::impls::ProxyType::try_from(t).unwrap()
}
fn data(e: &E) -> Vec<u8> {
	let a = |n: u64| Tok::A(H160(at(n)));
	match e {
		E::Pay { .. } => vec![],
		E::Junk { data, .. } => data.clone(),
		E::Reg { p, d, ty, deadline, sig, .. } => abi("registerDelegateWithSignature(address,uint8,uint32,bytes)", &[a(*d), num(*ty as u128), num(*deadline as u128), Tok::Bytes(sign(*p, *d, *ty, *deadline, sig).to_vec())]),
		E::Unreg { d, .. } => abi("unregisterDelegate(address)", &[a(*d)]),
		E::Owner { new: Some(w), .. } => abi("transferOwnership(address)", &[a(*w)]),
		E::Owner { new: None, .. } => abi("renounceOwnership()", &[]),
		E::Create { owner, .. } => abi("create(address)", &[a(*owner)]),
		E::View { d, .. } => abi("delegateType(address)", &[a(*d)]),
		E::Proxy { ty, call, .. } => abi("proxyCall(uint8,address,uint256,bytes)", &[num(*ty as u128), Tok::A(dest(call)), num(value(call) * WEI), Tok::Bytes(data(call))]),
		E::Script { v, .. } => {
			let acts: Vec<Act> = v.iter().map(|(k, e, must)| Act::Call { kind: *k, to: dest(e).0, value: if matches!(k, Kind::Call) { value(e) * WEI } else { 0 }, input: data(e), must: *must }).collect();
			codec::Encode::encode(&acts)
		},
	}
}
fn dest(e: &E) -> H160 {
	match target(e) {
		T::Pass(p) | T::Acc(p) => H160(at(p)),
		T::Registrar => evm::low(65535),
	}
}
fn call(s: &S, gas: u64) -> RuntimeCall {
	match s.clone() {
		S::Do(A::Create(h)) => FC::create { account: addr(h) }.into(),
		S::Do(A::Register { p, d, ty, deadline, sig }) => FC::register_delegate_with_signature { futurepass: addr(p), delegate: addr(d), proxy_type: ptype(ty), deadline, signature: sign(p, d, ty, deadline, &sig) }.into(),
		S::Do(A::Unregister { p, d }) => FC::unregister_delegate { futurepass: addr(p), delegate: addr(d) }.into(),
		S::Do(A::Transfer { cur, new }) => FC::transfer_futurepass { current_owner: addr(cur), new_owner: new.map(addr) }.into(),
		S::Do(A::Pay { to, x }) => pallet_assets::Call::<Runtime>::transfer { id: XRP.into(), target: addr(to), amount: x }.into(),
		S::Batch { all, v } => {
			let calls = v.iter().map(|c| call(c, gas)).collect();
			if all {
				pallet_utility::Call::<Runtime>::batch_all { calls }.into()
			} else {
				pallet_utility::Call::<Runtime>::batch { calls }.into()
			}
		},
		S::Proxy { real, force, call: c } => pallet_proxy::Call::<Runtime>::proxy { real: addr(real), force_proxy_type: force.map(ptype), call: Box::new(call(&c, gas)) }.into(),
		S::Pass { p, call: c } => FC::proxy_extrinsic { futurepass: addr(p), call: Box::new(call(&c, gas)) }.into(),
		S::Evm { source, call: e } => pallet_evm::Call::<Runtime>::call { source: H160(at(source)), target: dest(&e), input: data(&e), value: U256::from(value(&e) * WEI), gas_limit: gas, max_fee_per_gas: U256::zero(), max_priority_fee_per_gas: None, nonce: None, access_list: vec![] }.into(),
	}
}
struct World {
	c: Chain,
	m: M,
	mark: usize,
	start: (u128, u128),
	dead: BTreeSet<u64>,
	_done: Rc<RefCell<Vec<Done>>>,
}
type Res = Result<(), Violation>;
impl World {
	fn events(&mut self) -> Vec<Ev> {
		let ev = self.c.events_since(self.mark);
		self.mark += ev.len();
		ev.into_iter()
			.filter_map(|e| match e {
				RuntimeEvent::Futurepass(FE::FuturepassCreated { futurepass, delegate }) => Some(Ev::Created(who(futurepass), who(delegate))),
				RuntimeEvent::Futurepass(FE::DelegateRegistered { futurepass, delegate, proxy_type }) => Some(Ev::Registered(who(futurepass), who(delegate), proxy_type.into())),
				RuntimeEvent::Futurepass(FE::DelegateUnregistered { futurepass, delegate }) => Some(Ev::Unregistered(who(futurepass), who(delegate))),
				RuntimeEvent::Futurepass(FE::FuturepassTransferred { old_owner, new_owner, futurepass }) => Some(Ev::Transferred(who(old_owner), new_owner.map(who), who(futurepass))),
				RuntimeEvent::Futurepass(FE::ProxyExecuted { delegate, .. }) => Some(Ev::Through(who(delegate))),
				RuntimeEvent::Proxy(pallet_proxy::Event::ProxyExecuted { result }) => Some(Ev::Proxied(result.is_ok())),
				RuntimeEvent::EVM(pallet_evm::Event::Executed { .. }) => Some(Ev::Evm(true)),
				RuntimeEvent::EVM(pallet_evm::Event::ExecutedFailed { .. }) => Some(Ev::Evm(false)),
				RuntimeEvent::EVM(pallet_evm::Event::Log { log }) => Some(Ev::Log(if log.address == evm::low(65535) { 0 } else { who(log.address.into()) }, log.topics.len())),
				_ => None,
			})
			.collect()
	}
	fn verify(&mut self, st: &mut Stats) -> Res {
		let m = self.m.clone();
		let mut held: Vec<(u64, u64)> = self.c.exec(|| pallet_futurepass::Holders::<Runtime>::iter().map(|(a, b)| (who(a), who(b))).collect());
		held.sort();
		check_eq!("L01", "holders", held, m.holders.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), "holders and their passes");
		let mut seen = BTreeSet::new();
		check!("L01", "shared", held.iter().all(|x| seen.insert(x.1)), "a pass belongs to two accounts: {held:?}");
		for (i, p) in m.p.iter().enumerate() {
			let w = PASS + i as u64;
			let (d, dep) = self.c.exec(|| pallet_proxy::Proxies::<Runtime>::get(addr(w)));
			let got: BTreeSet<([u8; 20], u8)> = d.iter().map(|x| (h160(x.delegate).0, u8::from(x.proxy_type))).collect();
			check_eq!("L01", "delegates", (d.len(), &got), (p.d.len(), &p.d), "delegates of pass {i}");
			check_eq!("L01", "deposit", dep, p.deposit, "deposit of pass {i}");
			let res = self.c.exec(|| <pallet_balances::Pallet<Runtime> as frame_support::traits::ReservableCurrency<AccountId>>::reserved_balance(&addr(w)));
			check_eq!("L01", "deposit", res, p.deposit, "reserved balance of pass {i}");
			let owners: Vec<_> = p.d.iter().filter(|x| x.1 == OWNER).collect();
			let holder = m.holders.iter().find(|x| *x.1 == w).map(|x| at(*x.0));
			check!("L01", "one-owner", owners.len() <= 1 && owners.first().map(|x| x.0) == holder, "pass {i} has owners {owners:?}, its holder is {holder:?}");
			// what contracts see
			let v = self.c.exec(|| evm::view(evm::low(1), H160(at(w)), abi("owner()", &[])));
			check_eq!("L01", "view-owner", v.output, rt::kit::aword(H160(holder.unwrap_or_default())).to_vec(), "owner() of pass {i}");
			for d in p.d.iter().take(3) {
				let v = self.c.exec(|| evm::view(evm::low(1), H160(at(w)), abi("delegateType(address)", &[Tok::A(H160(d.0))])));
				check_eq!("L01", "view-type", v.output, rt::kit::word(d.1 as u128).to_vec(), "delegateType() of pass {i}");
			}
			if let Some(h) = holder {
				let v = self.c.exec(|| evm::view(evm::low(1), evm::low(65535), abi("futurepassOf(address)", &[Tok::A(H160(h))])));
				check_eq!("L01", "view-pass", v.output, rt::kit::aword(H160(at(w))).to_vec(), "futurepassOf() the holder of pass {i}");
			}
		}
		for w in (1..=USERS).chain((0..m.p.len() as u64).map(|i| PASS + i)).chain([CONTRACT, CONTRACT + 1]) {
			let got = self.c.exec(|| (pallet_balances::Pallet::<Runtime>::free_balance(addr(w)), rt::AssetsExt::balance(XRP, &addr(w))));
			check_eq!("L01", "balances", got, (m.root.get(&w).copied().unwrap_or(0), m.xrp.get(&w).copied().unwrap_or(0)), "ROOT and XRP of account {w}");
		}
		let sup = (self.c.supply(ROOT), self.c.supply(XRP));
		check_eq!("L01", "supply", sup, self.start, "supplies");
		st.mix((held.len() * 64 + m.p.len()) as u64);
		Ok(())
	}
	fn user(&self, r: &mut Rng) -> u64 {
		1 + r.below(USERS)
	}
	/// some account: mostly users, sometimes passes or contracts
	fn any(&self, r: &mut Rng) -> u64 {
		match r.below(12) {
			0 => self.pass(r),
			1 => CONTRACT + r.below(2),
			_ => self.user(r),
		}
	}
	fn pass(&self, r: &mut Rng) -> u64 {
		PASS + r.below(self.m.p.len() as u64 + 1)
	}
	fn owner(&self, p: u64, r: &mut Rng) -> u64 {
		self.m.holders.iter().find(|x| *x.1 == p).map_or_else(|| self.user(r), |x| *x.0)
	}
	fn delegate(&self, p: u64, r: &mut Rng) -> u64 {
		let v: Vec<u64> = self.m.i(p).map_or(vec![], |i| self.m.p[i].d.iter().map(|x| who(H160(x.0).into())).collect());
		if v.is_empty() {
			self.user(r)
		} else {
			*r.pick(&v)
		}
	}
	/// somebody with something to do with the pass
	fn close(&self, p: u64, r: &mut Rng) -> u64 {
		match r.below(8) {
			0..=3 => self.owner(p, r),
			4..=5 => self.delegate(p, r),
			6 => p,
			_ => self.any(r),
		}
	}
	fn deadline(&self, r: &mut Rng) -> u32 {
		let n = self.m.now;
		*r.pick(&[n, n + 1, n + 5, n + 100, u32::MAX, n.saturating_sub(1)])
	}
	fn sig(&self, r: &mut Rng) -> Sig {
		let mut s = Sig::default();
		if r.chance(1, 5) {
			match r.below(5) {
				0 => s.by = Some(self.user(r)),
				1 => s.pass = Some(self.pass(r)),
				2 => s.ty = Some(*r.pick(&[0, 1, 255])),
				3 => s.deadline = Some(self.deadline(r)),
				_ => s.raw = true,
			}
		}
		s
	}
	fn ty(&self, r: &mut Rng) -> u8 {
		*r.pick(&[1, 1, 1, 1, 1, 1, 1, 0, 2, 255])
	}
	fn new_delegate(&self, r: &mut Rng) -> u64 {
		match r.below(10) {
			0..=2 => CROWD + r.below(40),
			3 => self.pass(r),
			_ => self.user(r),
		}
	}
	fn amount(&self, r: &mut Rng) -> u128 {
		1 + r.below(1000) as u128
	}
	fn action(&self, r: &mut Rng, p: u64) -> A {
		match r.weighted(&[2, 5, 3, 3, 5]) {
			0 => A::Create(self.any(r)),
			1 => A::Register { p, d: self.new_delegate(r), ty: self.ty(r), deadline: self.deadline(r), sig: self.sig(r) },
			2 => A::Unregister { p, d: if r.chance(3, 4) { self.delegate(p, r) } else { self.any(r) } },
			3 => {
				let cur = if r.chance(4, 5) { self.owner(p, r) } else { self.any(r) };
				let new = match r.below(10) {
					0 => None,
					1 => Some(cur),
					2..=4 => Some(self.delegate(p, r)),
					5 => Some(p),
					_ => Some(self.any(r)),
				};
				A::Transfer { cur, new }
			},
			_ => A::Pay { to: self.any(r), x: self.amount(r) },
		}
	}
	fn evm(&self, r: &mut Rng, p: u64, depth: u32) -> E {
		let w = if depth == 0 { [3, 4, 3, 3, 1, 0, 1, 1, 0] } else { [3, 3, 2, 3, 1, 6, 1, 1, 4] };
		let x = if r.chance(1, 10) { self.amount(r) } else { 0 };
		match r.weighted(&w) {
			0 => E::Pay { to: if r.chance(1, 2) { self.any(r) } else { p }, x: if r.chance(3, 4) { self.amount(r) } else { 0 } },
			1 => E::Reg { p, d: self.new_delegate(r), ty: self.ty(r), deadline: self.deadline(r), sig: self.sig(r), x },
			2 => E::Unreg { p, d: if r.chance(3, 4) { self.delegate(p, r) } else { self.any(r) }, x },
			3 => E::Owner { p, new: match r.below(6) { 0 => None, 1 => Some(self.delegate(p, r)), _ => Some(self.any(r)) }, x },
			4 => E::Create { owner: self.any(r), x },
			5 => {
				let q = if r.chance(2, 3) { p } else { self.pass(r) };
				let call = self.evm(r, q, depth - 1);
				let ty = *r.pick(&[1, 1, 1, 1, 1, 0, 2, 9]);
				// value and static call do not go together
				let ty = if ty == 0 && value(&call) > 0 { 1 } else { ty };
				// no salt, no contract
				let ty = if matches!(call, E::Pay { .. }) && r.chance(1, 8) { 4 } else { ty };
				E::Proxy { p, ty, call: Box::new(call), x }
			},
			6 => {
				let n = r.below(6) as usize;
				E::Junk { p, data: (0..n).map(|_| r.below(256) as u8).collect() }
			},
			7 => E::View { p, d: self.user(r) },
			_ => {
				let v: Vec<_> = (0..r.range(1, 3)).map(|_| {
					let k = *r.pick(&[Kind::Call, Kind::Call, Kind::Delegate, Kind::Delegate, Kind::CallCode, Kind::Static]);
					let q = if r.chance(3, 4) { p } else { self.pass(r) };
					let e = loop {
						let e = self.evm(r, q, depth - 1);
						// a script is not run in another contract's name
						if k == Kind::Call || k == Kind::Static || !matches!(e, E::Script { .. }) {
							break e;
						}
					};
					(k, strip(e, k), r.chance(1, 3))
				}).collect();
				{ let at = CONTRACT + r.below(2); E::Script { at, x, v } }
			},
		}
	}
	fn sub(&self, r: &mut Rng, by: u64, p: u64, depth: u32) -> S {
		let w = if depth == 0 { [6, 0, 0, 0, 3] } else { [4, 2, 3, 6, 6] };
		match r.weighted(&w) {
			0 => S::Do(self.action(r, p)),
			1 => S::Batch { all: r.chance(1, 2), v: (0..r.range(1, 3)).map(|_| self.sub(r, by, p, depth - 1)).collect() },
			2 => S::Proxy { real: p, force: *r.pick(&[None, None, Some(ANY), Some(OWNER), Some(0)]), call: Box::new(self.sub(r, p, p, depth - 1)) },
			3 => {
				let q = if r.chance(4, 5) { p } else { self.pass(r) };
				S::Pass { p, call: Box::new(self.sub(r, p, q, depth - 1)) }
			},
			_ => S::Evm { source: if r.chance(15, 16) { by } else { self.any(r) }, call: self.evm(r, p, depth.min(2)) },
		}
	}
}
/// no value without a plain call
fn strip(e: E, k: Kind) -> E {
	if k == Kind::Call {
		return e;
	}
	let mut e = e;
	match &mut e {
		E::Pay { x, .. } | E::Reg { x, .. } | E::Unreg { x, .. } | E::Owner { x, .. } | E::Create { x, .. } | E::Proxy { x, .. } | E::Script { x, .. } => *x = 0,
		_ => {},
	}
	e
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "futurepass";
	const PROPS: &'static [&'static str] = &["L01", "R01"];
	const REAL: &'static [&'static str] = &["pallet-futurepass", "runtime ProxyPalletProvider, ProxyType filters and CallFilter", "futurepass and registrar precompiles, precompile-utils (sets, modifiers, encoding)", "FeePreferencesRunner", "pallet-assets-ext"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, balances, assets, proxy, utility)", "EVM interpreter (frames, contracts as scripts)"];
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let mut c = Chain::new(Cfg { accounts: 0, root_each: 0, xrp_each: 0 });
		c.reexec = prop == "R01" || r.chance(1, 6);
		let done = Rc::new(RefCell::new(vec![]));
		evm::install(done.clone());
		let mut m = M { base: rt::ProxyDepositBase::get(), each: rt::ProxyDepositFactor::get(), ..Default::default() };
		let rich = if r.chance(1, 4) { m.base * 3 } else { m.base * 1000 };
		for w in 1..=USERS {
			c.give(ROOT, addr(w), rich);
			c.give(XRP, addr(w), 1_000_000);
			m.root.insert(w, rich);
			m.xrp.insert(w, 1_000_000);
		}
		for k in 0..2 {
			c.give(XRP, addr(CONTRACT + k), 1000);
			m.xrp.insert(CONTRACT + k, 1000);
			c.exec(|| evm::deploy(H160(at(CONTRACT + k)), Code::Eval));
		}
		let start = (c.supply(ROOT), c.supply(XRP));
		c.begin(4000);
		m.now = c.n;
		let mark = c.event_count();
		World { c, m, mark, start, dead: Default::default(), _done: done }
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 120) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		match r.weighted(&[3, 1, 30]) {
			0 => Op::Block(1 + r.below(3) as u8),
			1 => Op::Crash,
			_ => {
				if self.m.p.len() < 2 && r.chance(1, 2) {
					let by = self.user(r);
					return Op::Do { by, call: S::Do(A::Create(if r.chance(3, 4) { by } else { self.any(r) })), gas: None };
				}
				let p = self.pass(r);
				if self.m.i(p).is_some() && r.chance(1, 5) {
					// a proper new delegate, so that there are some
					let by = self.owner(p, r);
					let d = self.new_delegate(r);
					return Op::Do { by, call: S::Do(A::Register { p, d, ty: 1, deadline: self.m.now + r.below(4) as u32, sig: Sig::default() }), gas: None };
				}
				let mut by = self.close(p, r);
				if by >= PASS {
					by = self.user(r);
				}
				let call = self.sub(r, by, p, 2);
				let plain = matches!(&call, S::Evm { call, .. } if !scripted(call));
				Op::Do { by, call, gas: (plain && r.chance(1, 8)).then(|| r.below(400_000)) }
			},
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		match op.clone() {
			Op::Block(n) => {
				for _ in 0..n {
					self.c.end(None)?;
					self.c.begin(4000);
					st.time(4000);
				}
				self.m.now = self.c.n;
				self.mark = self.c.event_count();
			},
			Op::Crash => {
				self.c.crash_and_redo()?;
				st.fault("crash and redo of the open block");
			},
			Op::Do { by, call: s, gas } => {
				if by >= PASS {
					return Ok(());
				}
				let mut m = self.m.clone();
				m.ev.clear();
				let full = m.sub(by, None, &s).is_some();
				let out = self.c.atomic("L01", "refusal-left-traces", Step::Call(RawOrigin::Signed(addr(by)), call(&s, gas.unwrap_or(1 << 40))))?;
				let got = self.events();
				// out of gas: nothing at all
				if gas.is_some() && out.is_ok() && got == [Ev::Evm(false)] {
					m = self.m.clone();
					m.ev = got.clone();
					st.fault("out of gas");
				}
				let what = match &s {
					S::Do(_) => "direct call",
					S::Batch { .. } => "batch",
					S::Proxy { .. } => "proxy call",
					S::Pass { .. } => "call through a pass",
					S::Evm { .. } => "contract call",
				};
				st.op(what, out.is_ok());
				check!("L01", "outcome", out.is_ok() == full, "{by} did {s:?}: {out:?}, expected it to be {}", if full { "accepted" } else { "refused" });
				let ev = if full { m.ev.clone() } else { vec![] };
				check!("L01", "events", got == ev, "{by} did {s:?}: reported {got:?}, expected {ev:?}");
				if full {
					if m.holders != self.m.holders || m.p != self.m.p {
						st.hit("L01");
					}
					m.deep.clear();
					self.m = m;
				}
			},
		}
		self.verify(st)?;
		let _ = &self.dead;
		let h = self.c.hash();
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		self.c.end(None)?;
		st.hit("L01");
		Ok(())
	}
	fn panic_prop(&self) -> String {
		"L01".into()
	}
	fn quick_runs() -> u64 {
		3000
	}
	fn thorough_runs() -> u64 {
		100_000
	}
	fn rule() -> &'static str {
		"storage root after every step"
	}
}
fn scripted(e: &E) -> bool {
	match e {
		E::Script { .. } => true,
		E::Proxy { call, .. } => scripted(call),
		_ => false,
	}
}
fn main() {
	simkit::main::<World>();
}
