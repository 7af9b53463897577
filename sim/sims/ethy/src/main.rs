//! Ethereum bridge: messages and challenges (B01, B02), proof requests (B03), validator handover
//! (B04), checked Ethereum calls (B05).
use codec::{Decode, Encode};
use frame_support::traits::OneSessionHandler;
use frame_support::weights::Weight;
use frame_system::RawOrigin;
use pallet_ethy::*;
use rt::chain::*;
use rt::kit::*;
use rt::{stand_ins, EthBridge, Runtime, RuntimeEvent, System, XRPLBridge};
use seed_pallet_common::{EthCallOracle, EthereumBridge};
use seed_primitives::ethy::crypto::{AuthorityId, AuthorityPair};
use seed_primitives::ethy::{ConsensusLog, ETHY_ENGINE_ID};
use seed_primitives::AccountId;
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{Pair, H160, H256};
use std::collections::{BTreeMap, BTreeSet};
use third::xrplc::parse;
simkit::interpose!();

type Call = pallet_ethy::Call<Runtime>;
type XCall = pallet_xrpl_bridge::Call<Runtime>;
const POOL: u8 = 12;
const BOND: u128 = 100_000_000;
const THRESHOLD: u32 = 66;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Block { idle: u8, fork: u8 },
	Skip,
	Crash,
	Bond(u64),
	Unbond(u64),
	SetRelayer(u64),
	Submit { by: u64, id: u64, ver: u8, missing: bool, dest: u8 },
	Bulk { from: u64, count: u32, gap: u64 },
	RemoveMissing(u64, u64),
	Challenge { by: u64, id: u64 },
	Vote { id: u64, idx: u16, res: u8, bad: u8 },
	Replay(u32),
	Ask(u8),
	CallVote { id: u64, idx: u16, res: u8, bad: u8 },
	Send { len: u32, k: u8 },
	Withdraw { by: u64, amount: u128 },
	Pause(bool),
	PerBlock(u8),
	Period(u32),
	Rotate { next: Vec<u8>, kind: u8 },
	Doors(Vec<(u8, bool)>),
	Contract(u8),
}
#[derive(Clone, Debug, PartialEq)]
enum St {
	Pending,
	Challenged(u64),
	Valid,
}
#[derive(Clone, Debug)]
struct Claim {
	ver: u8,
	dest: u8,
	st: St,
	votes: BTreeMap<u8, bool>,
	gen: u32,
	due: u32,
}
#[derive(Clone, Debug, PartialEq)]
enum Req {
	Eth { src: H160, dst: H160, msg: Vec<u8> },
	/// XRPL payment to a destination
	Pay { amount: u64, to: u8 },
	/// XRPL signer list
	List { nft: bool, entries: BTreeSet<[u8; 20]> },
}
struct World {
	c: Chain,
	prop: String,
	users: u64,
	free: BTreeMap<u64, u128>,
	bond: BTreeMap<u64, u128>,
	relayer: Option<u64>,
	claims: BTreeMap<u64, Claim>,
	sched: BTreeMap<u32, Vec<u64>>,
	/// schedule entries of messages judged invalid
	stale: BTreeMap<u64, u32>,
	routed: BTreeSet<u64>,
	exempt: Vec<(u64, u64)>,
	/// ids that were once missed (only steers the generator)
	late: BTreeSet<u64>,
	floor: Option<u64>,
	next_new: u64,
	gens: BTreeMap<u64, u32>,
	period: u32,
	seen_routed: usize,
	/// signed votes seen so far: payload, signature, key, claim generation
	sent: Vec<(NotarizationPayload, <AuthorityId as sp_runtime::RuntimeAppPublic>::Signature, u8, u32)>,
	// sessions
	active: Vec<u8>,
	queued: Vec<u8>,
	kind: u8,
	session: u32,
	notary: Vec<u8>,
	next_notary: Vec<u8>,
	set_id: u64,
	manual: bool,
	changing: bool,
	announced: bool,
	next_change: Option<u32>,
	finalise: BTreeMap<u32, Vec<u8>>,
	doors: BTreeSet<u8>,
	xrpl_keys: Vec<u8>,
	contract: u8,
	door_ok: bool,
	// requests
	waiting: BTreeMap<u64, Req>,
	last_id: Option<u64>,
	per_block: u8,
	seen_logs: usize,
	// calls
	calls: BTreeMap<u64, BTreeMap<u8, CheckedEthCallResult>>,
	answered: BTreeSet<u64>,
	seen_answers: usize,
	faults: bool,
	bulky: bool,
}
fn pair(k: u8) -> AuthorityPair {
	AuthorityPair::from_seed(&[k + 1; 32])
}
thread_local! {
	static IDS: Vec<AuthorityId> = (0..POOL).map(|k| pair(k).public()).collect();
}
fn id(k: u8) -> AuthorityId {
	IDS.with(|v| v[k as usize].clone())
}
fn key_of(a: &AuthorityId) -> u8 {
	IDS.with(|v| v.iter().position(|x| x == a).map(|p| p as u8).unwrap_or(255))
}
fn vacc(k: u8) -> AccountId {
	acc(500 + k as u64)
}
fn addr(k: u8) -> H160 {
	H160::repeat_byte(0x40 + k)
}
fn dest(k: u8) -> H160 {
	use sp_runtime::traits::AccountIdConversion;
	match k {
		0 => <Runtime as pallet_erc20_peg::Config>::PegPalletId::get().into_account_truncating(),
		_ => addr(k),
	}
}
fn payload(id: u64, ver: u8) -> Vec<u8> {
	let mut v = vec![ver; 1 + (ver as usize % 40)];
	v.extend(id.to_be_bytes());
	v
}
fn word(v: u64) -> [u8; 32] {
	let mut w = [0; 32];
	w[24..].copy_from_slice(&v.to_be_bytes());
	w
}
fn aword(a: H160) -> [u8; 32] {
	let mut w = [0; 32];
	w[12..].copy_from_slice(a.as_bytes());
	w
}
fn abi_bytes(b: &[u8]) -> Vec<u8> {
	let mut v = word(b.len() as u64).to_vec();
	v.extend(b);
	v.resize((v.len() + 31) / 32 * 32, 0);
	v
}
/// a message as the Ethereum contract emits it: id, source, destination, data, fee
fn event(id: u64, src: H160, dst: H160, data: &[u8]) -> Vec<u8> {
	let mut v = vec![];
	v.extend(word(id));
	v.extend(aword(src));
	v.extend(aword(dst));
	v.extend(word(160));
	v.extend(word(7));
	v.extend(abi_bytes(data));
	v
}
/// what the validators must sign for an outgoing message
fn eth_digest(src: H160, dst: H160, msg: &[u8], set: u64, id: u64) -> Vec<u8> {
	let mut v = vec![];
	v.extend(aword(src));
	v.extend(aword(dst));
	v.extend(word(160));
	v.extend(word(set));
	v.extend(word(id));
	v.extend(abi_bytes(msg));
	sp_io::hashing::keccak_256(&v).to_vec()
}
fn eth_address(k: u8) -> H160 {
	let p = third::libsec::PublicKey::parse_slice(id(k).as_ref(), None).expect("public key");
	H160::from_slice(&sp_io::hashing::keccak_256(&p.serialize()[1..])[12..])
}
fn set_message(keys: &[u8], set: u64) -> Vec<u8> {
	let mut v = vec![];
	v.extend(word(64));
	v.extend(word(set));
	v.extend(word(keys.len() as u64));
	for k in keys {
		v.extend(aword(eth_address(*k)));
	}
	v
}
fn xrpl_account(k: u8) -> [u8; 20] {
	simcrypto::ripemd160(&sp_io::hashing::sha2_256(id(k).as_ref()))
}
fn door_acc(nft: bool) -> [u8; 20] {
	[0xD0 + nft as u8; 20]
}
fn dest_acc(k: u8) -> [u8; 20] {
	[0xE0 + k; 20]
}
fn pct(a: u32, n: u32) -> u32 {
	if n == 0 || a >= n { 100 } else { a * 100 / n }
}
fn bridge_account() -> H160 {
	use sp_runtime::traits::AccountIdConversion;
	<Runtime as pallet_ethy::Config>::BridgePalletId::get().into_account_truncating()
}
use frame_support::traits::Get;
fn claim_result(r: u8) -> EventClaimResult {
	match r {
		0 => EventClaimResult::Valid,
		1 => EventClaimResult::DataProviderErr,
		2 => EventClaimResult::TxStatusFailed,
		3 => EventClaimResult::NoTxLogs,
		_ => EventClaimResult::UnexpectedData,
	}
}
fn call_result(r: u8) -> CheckedEthCallResult {
	match r {
		0..=2 => CheckedEthCallResult::Ok([r + 1; 32], 5 + r as u64, 9),
		3 => CheckedEthCallResult::ReturnDataEmpty,
		4 => CheckedEthCallResult::ReturnDataExceedsLimit,
		5 => CheckedEthCallResult::DataProviderErr,
		6 => CheckedEthCallResult::InvalidEthBlock,
		_ => CheckedEthCallResult::InvalidTimestamp,
	}
}
impl World {
	fn paused(&self) -> bool {
		self.manual || self.changing
	}
	fn keys(&self, k: &[u8]) -> Vec<u8> {
		k.iter().filter(|k| self.doors.contains(*k)).take(8).copied().collect()
	}
	/// consensus logs since the last look
	fn new_logs(&mut self) -> Vec<Log2> {
		let d = self.c.exec(|| System::digest().logs);
		let r = ethy_logs(&d[self.seen_logs..]);
		self.seen_logs = d.len();
		r
	}
	fn check_signed(&self, id: u64, eth: bool, data: &[u8], r: &Req) -> Res {
		let _ = id;
		match r {
			Req::Eth { src, dst, msg } => {
				check!("B03|B04", "content-differs", eth && *data == eth_digest(*src, *dst, msg, self.set_id, id), "request {id}: signed data differ from the message {r:?} for set {}", self.set_id);
			},
			Req::Pay { amount, to } => {
				let f = parse(data);
				check!("B03", "content-differs", !eth && f.is_some(), "request {id} is not an XRPL transaction");
				let f = f.unwrap().0;
				check!("B03", "content-differs", f.get(&(1, 2)).map(|x| be(x)) == Some(0) && f.get(&(6, 1)).map(|x| be(x)) == Some(*amount | 1 << 62) && f.get(&(8, 3)).map(|x| x.to_vec()) == Some(dest_acc(*to).to_vec()), "request {id}: {f:?} is not the payment asked for: {r:?}");
			},
			Req::List { nft, entries } => {
				let f = parse(data);
				check!("B04", "list-differs", !eth && f.is_some(), "request {id} is not an XRPL transaction");
				let f = f.unwrap().0;
				let mut got = BTreeSet::new();
				let mut n = 0;
				let e = f.get(&(15, 4)).cloned().unwrap_or_default();
				let mut i = 0;
				// { SignerWeight 1, Account }
				while i + 27 <= e.len() && e[i] == 0xEA + 1 {
					check!("B04", "list-differs", e[i + 1..i + 6] == [0x13, 0, 1, 0x81, 20], "request {id}: signer entry {:?}", &e[i..i + 27]);
					let mut a = [0; 20];
					a.copy_from_slice(&e[i + 6..i + 26]);
					got.insert(a);
					n += 1;
					i += 27;
				}
				check!("B04", "list-differs", got == *entries && n == entries.len(), "request {id} lists signers {got:?} ({n}), expected {entries:?}");
				check!("B04", "list-differs", f.get(&(1, 2)).map(|x| be(x)) == Some(12) && f.get(&(8, 1)).map(|x| x.to_vec()) == Some(door_acc(*nft).to_vec()), "request {id}: {f:?} is not the signer list of the door account");
				check!("B04", "quorum-differs", f.get(&(2, 35)).map(|x| be(x)) == Some((entries.len() as u64).saturating_sub(1)), "request {id}: quorum {:?} for {} signers", f.get(&(2, 35)), entries.len());
			},
		}
		Ok(())
	}
	fn fresh_id(&mut self, id: u64) -> Res {
		check!("B03", "id-not-increasing", self.last_id.map_or(true, |l| id > l), "event proof id {id} after {:?}", self.last_id);
		self.last_id = Some(id);
		Ok(())
	}
	/// `reqs` were made since event `ev`, with consensus logs `logs`: each is signed at once, or queued while paused
	fn requested(&mut self, reqs: Vec<Req>, logs: &mut std::collections::VecDeque<Log2>, ev: usize, st: &mut Stats, prop: &str) -> Res {
		if self.paused() {
			let ids: Vec<u64> = self.c.events_since(ev).iter().filter_map(|e| if let RuntimeEvent::EthBridge(pallet_ethy::Event::ProofDelayed { event_proof_id }) = e { Some(*event_proof_id) } else { None }).collect();
			check!(prop, "not-queued", ids.len() == reqs.len(), "{} requests while paused, queued: {ids:?}", reqs.len());
			for (id, r) in ids.into_iter().zip(reqs) {
				self.fresh_id(id)?;
				self.waiting.insert(id, r);
				st.count("request queued");
			}
			return Ok(());
		}
		for r in reqs {
			match logs.pop_front() {
				Some(Log2::Sign { eth, id, data }) => {
					self.fresh_id(id)?;
					self.check_signed(id, eth, &data, &r)?;
					st.hit("B03");
				},
				x => return Err(viol(prop, "not-signed", format!("request {r:?} was accepted and not signed: {x:?}"))),
			}
		}
		Ok(())
	}
	fn no_more(&self, logs: &std::collections::VecDeque<Log2>, what: &str) -> Res {
		if let Some(l) = logs.front() {
			let p = if self.changing { "B04|B03" } else { "B03|B04" };
			return Err(viol(p, if self.paused() { "signed-while-paused" } else { "unasked-request" }, format!("{what}: unexpected consensus log {l:?}")));
		}
		Ok(())
	}
	fn handover(&mut self, logs: &mut std::collections::VecDeque<Log2>, ev: usize, st: &mut Stats) -> Res {
		let next = self.next_notary.clone();
		let mut reqs = vec![Req::Eth { src: bridge_account(), dst: addr(self.contract), msg: set_message(&next, self.set_id + 1) }];
		let (a, b): (BTreeSet<u8>, BTreeSet<u8>) = (self.keys(&next).into_iter().collect(), self.xrpl_keys.iter().copied().collect());
		if a != b && self.door_ok {
			for nft in [false, true] {
				reqs.push(Req::List { nft, entries: a.iter().map(|k| xrpl_account(*k)).collect() });
			}
			st.count("signer list requested");
		}
		st.hit("B04");
		if self.manual {
			st.count("handover while paused by governance");
		}
		self.requested(reqs, logs, ev, st, "B04")?;
		self.changing = true;
		self.announced = true;
		self.next_change = None;
		Ok(())
	}
	fn switch(&mut self, keys: Vec<u8>, logs: &mut std::collections::VecDeque<Log2>, st: &mut Stats) -> Res {
		let want = (keys.clone(), self.set_id + 1, (keys.len() as u32 * THRESHOLD + 99) / 100);
		match logs.pop_front() {
			Some(Log2::Change(v, i, t)) => check_eq!("B04", "switch-differs", (v, i, t), want, "announced validator set"),
			x => return Err(viol("B04", "not-switched", format!("the switch to {want:?} was not announced: {x:?}"))),
		}
		st.hit("B04");
		self.set_id += 1;
		self.xrpl_keys = self.keys(&keys);
		self.notary = keys;
		self.changing = false;
		self.announced = false;
		Ok(())
	}
	fn routed_new(&mut self) -> Vec<stand_ins::Routed> {
		let all = self.c.peek(stand_ins::take_routed);
		let r = all[self.seen_routed.min(all.len())..].to_vec();
		self.seen_routed = all.len();
		r
	}
	fn answers_new(&mut self) -> Vec<stand_ins::Answer> {
		let all = self.c.peek(stand_ins::take_answers);
		let r = all[self.seen_answers.min(all.len())..].to_vec();
		self.seen_answers = all.len();
		r
	}
	fn begin(&mut self, st: &mut Stats) -> Res {
		self.c.begin(4000);
		st.time(4000);
		self.seen_logs = 0;
		let n = self.c.n;
		let mut logs: std::collections::VecDeque<Log2> = self.new_logs().into();
		if let Some(k) = self.finalise.remove(&n) {
			self.switch(k, &mut logs, st)?;
		}
		if self.next_change == Some(n) {
			self.handover(&mut logs, 0, st)?;
		}
		self.no_more(&logs, "block initialisation")?;
		// messages due
		let mut want = vec![];
		for i in self.sched.remove(&n).unwrap_or_default() {
			if let Some(k) = self.stale.get_mut(&i) {
				if *k > 0 {
					*k -= 1;
					st.count("void schedule entry");
					continue;
				}
			}
			let Some(cl) = self.claims.get(&i) else { continue };
			check!("B01", "executed-early", cl.due <= n, "message {i} would be handed over in block {n}, its challenge period ends in {}", cl.due);
			if matches!(cl.st, St::Challenged(_)) {
				self.sched.entry(n + self.period).or_default().push(i);
				st.count("challenged message postponed");
				continue;
			}
			want.push((i, cl.ver, cl.dest));
			self.claims.remove(&i);
			self.routed.insert(i);
			if self.floor.is_none() {
				self.floor = Some(i);
			}
			st.hit("B01");
		}
		let got = self.routed_new();
		for (j, g) in got.iter().enumerate() {
			let w = want.get(j).map(|(i, v, d)| (addr(9), dest(*d), payload(*i, *v)));
			check!("B01", "executed-differs", w.as_ref() == Some(&(g.0, g.1, g.2.clone())), "block {n}: message {g:?} was handed over, expected {w:?} (open: {:?})", self.claims.iter().filter(|c| c.1.st != St::Pending).collect::<Vec<_>>());
		}
		check!("B01", "not-executed", got.len() == want.len(), "block {n}: due messages {:?} were not handed over", &want[got.len()..]);
		self.balances("block initialisation")
	}
	fn end(&mut self, idle: Option<Weight>, st: &mut Stats) -> Res {
		self.c.end(idle)?;
		let d = ethy_logs(&self.c.last_digest);
		let mut signed = 0;
		// `seen_logs` counts the logs seen before the end of the block
		for l in &d[self.seen_logs.min(d.len())..] {
			match l {
				Log2::Sign { eth, id, data } if !self.paused() => {
					let Some(r) = self.waiting.remove(id) else { return Err(viol("B03", "unasked-request", format!("idle processing signed request {id} that was not waiting"))) };
					self.check_signed(*id, *eth, data, &r)?;
					signed += 1;
					st.hit("B03");
					st.count("queued request signed");
				},
				l => return Err(viol(if self.changing { "B04|B03" } else { "B03" }, "signed-while-paused", format!("idle processing logged {l:?}"))),
			}
		}
		if !self.paused() {
			check!("B03", "too-many-at-once", signed <= self.per_block as usize, "{signed} queued requests signed in a block, allowed {}", self.per_block);
			if idle.is_none() {
				check!("B03", "not-signed", signed == self.per_block as usize || self.waiting.is_empty(), "{signed} queued requests signed in a block with room for {}; waiting {:?}", self.per_block, self.waiting.keys());
			}
		}
		self.seen_routed = 0;
		self.seen_answers = 0;
		self.c.exec(|| {
			stand_ins::take_routed();
			stand_ins::take_answers();
		});
		Ok(())
	}
	fn balances(&mut self, what: &str) -> Res {
		for u in 1..=self.users {
			let b = self.c.bal(XRP, &acc(u));
			check_eq!("B02", "balance-differs", b, self.free[&u], "spendable XRP of account {u} after {what}");
		}
		Ok(())
	}
	/// next block at which something is due
	fn interesting(&self) -> Option<u32> {
		let n = self.c.n;
		self.sched.keys().chain(self.finalise.keys()).copied().chain(self.next_change).filter(|b| *b > n).min()
	}
	fn any_id(&self, r: &mut Rng) -> u64 {
		let open: Vec<u64> = self.claims.keys().copied().collect();
		if !open.is_empty() && r.chance(3, 4) { *r.pick(&open) } else { r.range(1, self.next_new + 3) }
	}
	fn deliver(&mut self, p: NotarizationPayload, sig: <AuthorityId as sp_runtime::RuntimeAppPublic>::Signature, signer: u8, fresh_sig: bool, gen: Option<u32>, st: &mut Stats, what: &str) -> Res {
		let idx = p.authority_index() as usize;
		let key = self.notary.get(idx).copied();
		let good = fresh_sig && key == Some(signer);
		let n = self.active.len() as u32;
		let call = Call::submit_notarization { payload: p.clone(), signature: sig };
		match p {
			NotarizationPayload::Event { event_claim_id: i, result, .. } => {
				let yes = matches!(result, EventClaimResult::Valid);
				let cl = self.claims.get(&i).cloned();
				let open = cl.as_ref().map_or(false, |c| matches!(c.st, St::Challenged(_)));
				let dup = cl.as_ref().map_or(false, |c| c.votes.contains_key(&signer));
				let mut votes = cl.as_ref().map(|c| c.votes.clone()).unwrap_or_default();
				votes.insert(signer, yes);
				let (y, v) = (votes.values().filter(|x| **x).count() as u32, votes.len() as u32);
				let (invalid, valid) = (pct(v - y, n) > 100 - THRESHOLD, pct(y, n) >= THRESHOLD);
				// nobody can be paid while there is no relayer: the claim stays open
				let stuck = !invalid && valid && self.relayer.is_none();
				let want = good && open && !dup && !stuck;
				let r = self.c.atomic("B02", "refusal-left-traces", Step::Unsigned(call.into()))?;
				st.op(what, r.is_ok());
				check!("B02", "vote-differs", r.is_ok() == want, "{what} by key {signer} as {idx} of {:?} on claim {i} ({cl:?}): {r:?}; genuine {good} open {open} repeated {dup} payable {}", self.notary, !stuck);
				if !want {
					return Ok(());
				}
				if let Some(g) = gen {
					if g != cl.as_ref().unwrap().gen {
						st.soft(viol("B02", "vote-on-earlier-claim-counted", format!("the vote that key {signer} signed on an earlier claim with id {i} was counted for the present claim")));
					}
				}
				st.hit("B02");
				let ev = self.c.events_since(0);
				let said_bad = ev.iter().any(|e| matches!(e, RuntimeEvent::EthBridge(pallet_ethy::Event::Invalid { event_claim_id }) if *event_claim_id == i));
				let status = self.c.exec(|| pallet_ethy::PendingClaimStatus::<Runtime>::get(i));
				let St::Challenged(ch) = cl.unwrap().st else { unreachable!() };
				if invalid {
					check!("B02", "not-judged-invalid", said_bad && status.is_none() && self.c.exec(|| !pallet_ethy::PendingEventClaims::<Runtime>::contains_key(i)), "claim {i}: {} of {n} against, not judged invalid ({status:?})", v - y);
					self.claims.remove(&i);
					// its place in the schedule is void
					*self.stale.entry(i).or_insert(0) += 1;
					*self.free.get_mut(&ch).unwrap() += BOND;
					if let Some(rl) = self.relayer.take() {
						*self.free.get_mut(&ch).unwrap() += self.bond.remove(&rl).unwrap_or(0);
					}
					st.count("claim judged invalid");
				} else if valid {
					check!("B02", "not-judged-valid", matches!(status, Some(EventClaimStatus::ProvenValid)), "claim {i}: {y} of {n} in favour, not judged valid ({status:?})");
					let rl = self.relayer.unwrap();
					*self.free.get_mut(&rl).unwrap() += BOND;
					let c = self.claims.get_mut(&i).unwrap();
					c.st = St::Valid;
					c.votes.clear();
					st.count("claim judged valid");
				} else {
					check!("B02", "judged-too-soon", matches!(status, Some(EventClaimStatus::Challenged)), "claim {i}: {y} in favour and {} against of {n}: now {status:?}", v - y);
					self.claims.get_mut(&i).unwrap().votes = votes;
				}
			},
			NotarizationPayload::Call { call_id: i, result, .. } => {
				let known = self.calls.contains_key(&i);
				let mut votes = self.calls.get(&i).cloned().unwrap_or_default();
				let dup = votes.contains_key(&signer);
				let want = good && known && !dup;
				let r = self.c.atomic("B05", "refusal-left-traces", Step::Unsigned(call.into()))?;
				st.op(what, r.is_ok());
				check!("B05", "vote-differs", r.is_ok() == want, "{what} by key {signer} as {idx} of {:?} on call {i}: {r:?}; genuine {good} open {known} repeated {dup}", self.notary);
				let ans = self.answers_new();
				if !want {
					check!("B05", "answered-without-vote", ans.is_empty(), "a refused vote had requests answered: {ans:?}");
					return Ok(());
				}
				votes.insert(signer, result);
				let count = |x: &CheckedEthCallResult| votes.values().filter(|v| *v == x).count() as u32;
				let agreed: Vec<_> = votes.values().filter(|x| pct(count(x), n) >= THRESHOLD).copied().collect();
				let left = n.saturating_sub(votes.len() as u32);
				let hopeless = left == 0 || !votes.values().any(|x| pct(count(x) + left, n) >= THRESHOLD);
				check!("B05", "answered-twice", ans.len() <= 1 && ans.iter().all(|a| a.0 == i && !self.answered.contains(&a.0)), "vote on call {i}: answers {ans:?}");
				match ans.first() {
					Some((_, Some(d))) => {
						check!("B05", "answer-not-agreed", agreed.contains(&CheckedEthCallResult::Ok(d.0, d.1, d.2)), "call {i} was answered with {d:?}; votes of {n}: {votes:?}");
						st.count("call answered");
					},
					Some((_, None)) => {
						check!("B05", "failed-though-open", agreed.iter().any(|a| !matches!(a, CheckedEthCallResult::Ok(..))) || (agreed.is_empty() && hopeless), "call {i} failed; votes of {n}: {votes:?}");
						st.count("call failed");
					},
					None => check!("B05", "not-answered", agreed.is_empty() && !hopeless, "call {i} not answered; votes of {n}: {votes:?}"),
				}
				if ans.is_empty() {
					self.calls.insert(i, votes);
				} else {
					self.calls.remove(&i);
					self.answered.insert(i);
					st.hit("B05");
					check!("B05", "not-removed", self.c.exec(|| !pallet_ethy::EthCallRequestInfo::<Runtime>::contains_key(i) && !pallet_ethy::EthCallRequests::<Runtime>::get().contains(&i)), "answered call {i} is still stored");
				}
			},
		}
		Ok(())
	}
	fn submit(&mut self, by: u64, i: u64, ver: u8, missing: bool, d: u8, st: &mut Stats, quiet: bool) -> Res {
		let data = event(i, addr(9), dest(d), &payload(i, ver));
		let mk = |m: bool| -> rt::RuntimeCall {
			if m { Call::submit_missing_event { tx_hash: H256::repeat_byte(ver), event: data.clone() }.into() } else { Call::submit_event { tx_hash: H256::repeat_byte(ver), event: data.clone() }.into() }
		};
		let r = if quiet { self.c.call(acc(by), mk(missing)).map_err(Some) } else { self.c.atomic("B01", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), mk(missing)))? };
		if !quiet {
			st.op(if missing { "submit-missing" } else { "submit" }, r.is_ok());
		}
		let due = self.c.n + self.period;
		let is_rel = self.relayer == Some(by);
		let fresh = !self.routed.contains(&i) && !self.claims.contains_key(&i);
		if r.is_ok() {
			check!("B01", "outsider", is_rel, "account {by} is not the relayer ({:?}) and submitted {i}", self.relayer);
			check!("B01", "repeated", fresh, "message {i} was accepted again; handed over already: {}, pending: {:?}", self.routed.contains(&i), self.claims.get(&i));
			self.sched.entry(due).or_default().push(i);
			let g = self.gens.entry(i).or_insert(0);
			*g += 1;
			self.claims.insert(i, Claim { ver, dest: d, st: St::Pending, votes: Default::default(), gen: *g, due });
			self.next_new = self.next_new.max(i + 1);
		} else if is_rel && fresh && self.floor.map_or(true, |f| i > f) && !self.exempt.iter().any(|(a, b)| *a <= i && i <= *b) && self.sched.get(&due).map_or(0, |v| v.len()) < 1000 {
			let other = mk(!missing);
			let o = self.c.peek(|| {
				use frame_support::traits::UnfilteredDispatchable;
				other.dispatch_bypass_filter(RawOrigin::Signed(acc(by)).into()).map(|_| ()).map_err(|e| e.error)
			});
			check!("B01", "never-executed-refused", o.is_ok(), "message {i} was never handed over and is not pending, but is refused: {r:?}, {o:?}");
		}
		Ok(())
	}
	fn rotate(&mut self, next: Vec<u8>, kind: u8, st: &mut Stats) -> Res {
		let (v, fin) = (self.queued.clone(), self.kind != 0);
		let q = if kind != 0 { next } else { v.clone() };
		self.session += 1;
		let (s, va, qa, vk, qk) = (self.session, v.iter().map(|k| vacc(*k)).collect::<Vec<_>>(), q.iter().map(|k| vacc(*k)).collect::<Vec<_>>(), v.iter().map(|k| id(*k)).collect::<Vec<_>>(), q.iter().map(|k| id(*k)).collect::<Vec<_>>());
		let ev = self.c.event_count();
		let r = self.c.run(move || {
			stand_ins::set_final_session(fin);
			EthBridge::on_before_session_ending();
			stand_ins::set_validators(&va);
			stand_ins::set_session(s);
			stand_ins::set_final_session(kind == 1);
			EthBridge::on_new_session(true, va.iter().zip(vk.iter().cloned()).collect::<Vec<_>>().into_iter(), qa.iter().zip(qk.iter().cloned()).collect::<Vec<_>>().into_iter());
			Ok(())
		});
		st.op("rotate", r.is_ok());
		let mut logs: std::collections::VecDeque<Log2> = self.new_logs().into();
		if fin {
			if self.announced {
				let k = self.next_notary.clone();
				self.switch(k, &mut logs, st)?;
				st.count("switch at the end of the session");
			} else {
				self.handover(&mut logs, ev, st)?;
				self.finalise.insert(self.c.n + 75, self.next_notary.clone());
				st.count("late switch");
			}
		}
		self.no_more(&logs, "end of the session")?;
		self.active = v;
		self.next_notary = q.clone();
		self.queued = q;
		self.kind = kind;
		if kind == 1 {
			self.next_change = Some(self.c.n + 3600 - 75);
		}
		Ok(())
	}
	fn advance(&mut self, to: u32, st: &mut Stats) -> Res {
		self.end(None, st)?;
		self.c.skip_to(to);
		st.time(4000 * (to - self.c.n) as u64);
		self.begin(st)
	}
	fn step_to_next(&mut self, st: &mut Stats) -> Res {
		let t = self.interesting().unwrap_or(self.c.n + 1);
		self.advance(t, st)
	}
	fn state_matches(&mut self) -> Res {
		let (nk, xk, si, bp) = self.c.exec(|| {
			(pallet_ethy::NotaryKeys::<Runtime>::get().iter().map(key_of).collect::<Vec<_>>(), pallet_ethy::NotaryXrplKeys::<Runtime>::get().iter().map(key_of).collect::<Vec<_>>(), pallet_ethy::NotarySetId::<Runtime>::get(), EthBridge::bridge_paused())
		});
		check_eq!("B04", "notary-keys-differ", nk, self.notary, "notary keys");
		check_eq!("B04", "set-id-differs", si, self.set_id, "notary set id");
		check!("B04", "xrpl-keys-differ", xk == self.xrpl_keys && xk.len() <= 8, "XRPL signers {xk:?}, expected {:?}", self.xrpl_keys);
		check_eq!("B03|B04", "pause-differs", bp, self.paused(), "bridge paused");
		let (mut todo, mut ask) = self.c.exec(|| (pallet_ethy::PendingClaimChallenges::<Runtime>::get().into_inner(), pallet_ethy::EthCallRequests::<Runtime>::get().into_inner()));
		todo.sort();
		ask.sort();
		let open: Vec<u64> = self.claims.iter().filter(|c| matches!(c.1.st, St::Challenged(_))).map(|c| *c.0).collect();
		check_eq!("B02", "to-notarize-differs", todo, open, "challenged messages that validators are asked to check");
		check_eq!("B05", "to-check-differs", ask, self.calls.keys().copied().collect::<Vec<_>>(), "Ethereum calls that validators are asked to make");
		Ok(())
	}
}
#[derive(Clone, Debug)]
enum Log2 {
	Sign { eth: bool, id: u64, data: Vec<u8> },
	Change(Vec<u8>, u64, u32),
	Other,
}
fn ethy_logs(d: &[sp_runtime::generic::DigestItem]) -> Vec<Log2> {
	d.iter()
		.filter_map(|l| match l {
			sp_runtime::generic::DigestItem::Consensus(e, b) if *e == ETHY_ENGINE_ID => Some(b),
			_ => None,
		})
		.map(|b| match ConsensusLog::<AuthorityId>::decode(&mut &b[..]) {
			Ok(ConsensusLog::OpaqueSigningRequest { chain_id, event_proof_id, data }) => Log2::Sign { eth: chain_id == seed_primitives::ethy::EthyChainId::Ethereum, id: event_proof_id, data },
			Ok(ConsensusLog::AuthoritiesChange(v)) => Log2::Change(v.validators.iter().map(key_of).collect(), v.id, v.proof_threshold),
			_ => Log2::Other,
		})
		.collect()
}
fn subset(r: &mut Rng, lo: u64, hi: u64) -> Vec<u8> {
	let n = r.range(lo, hi) as usize;
	let mut v: Vec<u8> = (0..POOL).collect();
	for i in 0..POOL as usize {
		let j = r.range(i as u64, POOL as u64 - 1) as usize;
		v.swap(i, j);
	}
	v.truncate(n);
	v
}
impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "ethy";
	const PROPS: &'static [&'static str] = &["B01", "B02", "B03", "B04", "B05", "R01"];
	const REAL: &'static [&'static str] = &["pallet-ethy", "pallet-xrpl-bridge (as a source of requests)", "pallet-assets-ext (bonds)", "event routers of the runtime", "runtime configuration", "seed-primitives"];
	const STUB: &'static [&'static str] = &["substrate (storage, executive, scheduler, assets)", "session and staking pallets (driver follows their call order)", "Ethereum and the off-chain workers (votes are generated)"];
	fn rule() -> &'static str {
		"an evaluation counts when a message came due (B01), a vote was counted (B02), a request was signed (B03), a handover or switch happened (B04) or a call was answered (B05)"
	}
	fn panic_prop(&self) -> String {
		self.prop.clone()
	}
	fn quick_runs() -> u64 {
		4000
	}
	fn new(seed: u64, prop: &str) -> Self {
		let mut r = Rng::new(seed);
		let users = r.range(3, 5);
		let each = *r.pick(&[250_000_000u128, 1_000_000_000_000]);
		let mut c = Chain::new(Cfg { accounts: users, root_each: 1_000_000, xrp_each: each });
		c.reexec = prop == "R01" || r.chance(1, 4);
		let small = r.chance(1, 3);
		let active = subset(&mut r, 1, if small { 4 } else { 10 });
		let doors: BTreeSet<u8> = subset(&mut r, 0, 12).into_iter().collect();
		let door_ok = !r.chance(1, 6);
		let period = r.range(2, 12) as u32;
		let ids: Vec<AuthorityId> = active.iter().map(|k| id(*k)).collect();
		let accs: Vec<AccountId> = active.iter().map(|k| vacc(*k)).collect();
		c.exec(|| {
			for k in &doors {
				pallet_ethy::XrplDoorSigners::<Runtime>::insert(id(*k), true);
			}
			EthBridge::on_genesis_session(accs.iter().zip(ids.iter().cloned()).collect::<Vec<_>>().into_iter());
			pallet_ethy::NextNotaryKeys::<Runtime>::put(pallet_ethy::NotaryKeys::<Runtime>::get());
			stand_ins::set_validators(&accs);
			pallet_ethy::ChallengePeriod::<Runtime>::put(period);
			pallet_ethy::ContractAddress::<Runtime>::put(addr(1));
			if door_ok {
				for (k, nft) in [(pallet_xrpl_bridge::types::XRPLDoorAccount::Main, false), (pallet_xrpl_bridge::types::XRPLDoorAccount::NFT, true)] {
					pallet_xrpl_bridge::DoorAddress::<Runtime>::insert(k, seed_primitives::xrpl::XrplAccountId::from(door_acc(nft)));
					XRPLBridge::set_ticket_sequence_current_allocation(RawOrigin::Root.into(), k, 1, 1, 1_000_000).unwrap();
				}
			}
		});
		let mut w = World {
			c,
			prop: prop.into(),
			users,
			free: (1..=users).map(|u| (u, each)).collect(),
			bond: Default::default(),
			relayer: None,
			claims: Default::default(),
			sched: Default::default(),
			stale: Default::default(),
			routed: Default::default(),
			exempt: vec![],
			late: Default::default(),
			floor: None,
			next_new: 1,
			gens: Default::default(),
			period,
			seen_routed: 0,
			sent: vec![],
			active: active.clone(),
			queued: active.clone(),
			kind: 0,
			session: 0,
			notary: active.clone(),
			next_notary: active,
			set_id: 0,
			manual: false,
			changing: false,
			announced: false,
			next_change: None,
			finalise: Default::default(),
			doors,
			xrpl_keys: vec![],
			contract: 1,
			door_ok,
			waiting: Default::default(),
			last_id: None,
			per_block: 5,
			seen_logs: 0,
			calls: Default::default(),
			answered: Default::default(),
			seen_answers: 0,
			faults: !r.chance(1, 6),
			bulky: r.chance(1, 4),
		};
		w.xrpl_keys = w.keys(&w.notary.clone());
		w.c.begin(4000);
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(20, 140) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let f = self.faults as u32;
		let p = |x: &str| (self.prop == x) as u32;
		let (b1, b2, b3, b4, b5) = (p("B01"), p("B02"), p("B03"), p("B04"), p("B05"));
		let u = self.users;
		if self.relayer.is_none() && r.chance(1, 4) {
			return match self.bond.keys().next() {
				Some(k) => Op::SetRelayer(*k),
				None => Op::Bond(r.range(1, u)),
			};
		}
		match r.weighted(&[14, 6 + 6 * b1, 2 * f, 2 + 3 * b2, 1 + 2 * b2, 1 + b2, 8 + 10 * b1 + 4 * b2, 4 * b1 * (self.bulky && self.next_new < 2600) as u32, b1, 3 + 6 * b2 + 4 * b1, 8 + 40 * b2 + 12 * b1, 1 + 3 * b2, 1 + 6 * b5, 2 + 50 * b5, 4 + 10 * b3 + 2 * b4, 2 + 4 * b3, 2 + 3 * b3, 1 + b3, 1, 3 + 8 * b4 + 2 * b2 + 2 * b5, 1 + 3 * b4, b4]) {
			0 => Op::Block { idle: if r.chance(1, 2) { 0 } else { r.below(60) as u8 * f as u8 }, fork: if f > 0 && r.chance(1, 8) { r.range(1, 200) as u8 } else { 0 } },
			1 => Op::Skip,
			2 => Op::Crash,
			3 => Op::Bond(r.range(1, u)),
			4 => Op::Unbond(r.range(1, u)),
			5 => Op::SetRelayer(r.range(1, u)),
			6 => {
				let by = if r.chance(1, 15) { r.range(1, u) } else { self.relayer.unwrap_or(1) };
				let new = self.next_new + if r.chance(1, 4) { r.below(4) } else { 0 };
				let i = if r.chance(2, 3) { new } else { r.range(1, self.next_new) };
				if b1 > 0 && self.next_new > 500 && r.chance(2, 3) {
					// late ones
					let m = self.c.exec(|| pallet_ethy::MissedMessageIds::<Runtime>::get());
					self.late.extend(m.iter().copied().filter(|_| r.chance(1, 4)));
					let i = match r.below(4) {
						0 => m.first().copied(),
						1 => m.last().copied(),
						2 if !m.is_empty() => Some(*r.pick(&m)),
						_ => {
							let l: Vec<u64> = self.late.iter().copied().collect();
							if l.is_empty() { None } else { Some(*r.pick(&l)) }
						},
					};
					if let Some(i) = i {
						self.late.insert(i);
						return Op::Submit { by, id: i, ver: r.below(200) as u8, missing: r.chance(7, 8), dest: r.below(3) as u8 };
					}
				}
				Op::Submit { by, id: i, ver: r.below(200) as u8, missing: r.chance(1, 6), dest: r.below(3) as u8 }
			},
			7 => Op::Bulk { from: self.next_new + r.below(3), count: r.range(400, 990) as u32, gap: r.below(60) },
			8 => {
				let a = r.range(1, self.next_new);
				Op::RemoveMissing(a, a + r.below(20))
			},
			9 => Op::Challenge { by: r.range(1, u), id: self.any_id(r) },
			10 => {
				let ch: Vec<u64> = self.claims.iter().filter(|c| matches!(c.1.st, St::Challenged(_))).map(|c| *c.0).collect();
				let id = if !ch.is_empty() && r.chance(9, 10) { *r.pick(&ch) } else { self.any_id(r) };
				Op::Vote { id, idx: r.below(self.notary.len() as u64 + 1) as u16, res: if r.chance(1, 2) { 0 } else { r.below(5) as u8 }, bad: if r.chance(1, 8) { r.range(1, 3) as u8 } else { 0 } }
			},
			11 => Op::Replay(r.below(1 << 20) as u32),
			12 => Op::Ask(r.below(9) as u8),
			13 => {
				let open: Vec<u64> = self.calls.keys().copied().collect();
				let top = if r.chance(1, 2) { 0 } else { r.below(8) as u8 };
				Op::CallVote { id: if !open.is_empty() && r.chance(9, 10) { *r.pick(&open) } else { r.below(4) }, idx: r.below(self.notary.len() as u64 + 1) as u16, res: top, bad: if r.chance(1, 10) { r.range(1, 3) as u8 } else { 0 } }
			},
			14 => Op::Send { len: if r.chance(1, 10) { r.range(3190, 3210) as u32 } else { r.below(120) as u32 }, k: r.below(9) as u8 },
			15 => Op::Withdraw { by: r.range(1, u), amount: r.range(1, 1_000_000) as u128 },
			16 => Op::Pause(r.chance(1, 3)),
			17 => Op::PerBlock(r.range(1, 8) as u8),
			18 => Op::Period(r.range(1, 14) as u32),
			19 => {
				let kind = r.weighted(&[2, 4, 1]) as u8;
				let mut next = subset(r, 1, 10);
				if r.chance(1, 3) {
					next = self.queued.clone();
					if r.chance(1, 2) && !next.is_empty() {
						let i = r.idx(next.len());
						next.swap(0, i);
					}
				}
				Op::Rotate { next, kind }
			},
			20 => Op::Doors((0..r.range(1, 4)).map(|_| (r.below(POOL as u64) as u8, r.chance(2, 3))).collect()),
			_ => Op::Contract(r.below(6) as u8),
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let ev = self.c.event_count();
		match op.clone() {
			Op::Block { idle, fork } => {
				let w = match idle {
					0 => None,
					k => {
						st.fault("starved idle processing");
						Some(Weight::from_parts((k as u64 - 1) * 40_000_000, 0))
					},
				};
				self.end(w, st)?;
				if fork > 0 {
					st.fault("abandoned fork");
					let k = fork as u64;
					self.c.abandoned_fork(|c| {
						let _ = c.run(move || EthBridge::send_event(&addr(1), &addr(2), &vec![1; k as usize]).map(|_| ()));
						if let Some(u) = c.exec(|| pallet_ethy::Relayer::<Runtime>::get()) {
							let _ = c.call(u, Call::submit_event { tx_hash: H256::zero(), event: event(k, addr(9), dest(1), &[1]) });
						}
					});
				}
				self.begin(st)?;
			},
			Op::Skip => {
				st.fault("blocks without traffic");
				self.step_to_next(st)?;
			},
			Op::Crash => {
				if self.c.reexec {
					st.fault("crash inside a block");
				}
				self.c.crash_and_redo()?;
			},
			Op::Bond(by) => {
				let r = self.c.atomic("B02", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), Call::deposit_relayer_bond {}.into()))?;
				st.op("bond", r.is_ok());
				let can = !self.bond.contains_key(&by) && self.free[&by] >= BOND;
				check!("B02", "bond-differs", r.is_ok() == can, "bond of account {by} holding {}, bonded {}: {r:?}", self.free[&by], self.bond.contains_key(&by));
				if r.is_ok() {
					check!("B02", "bonded-twice", !self.bond.contains_key(&by), "account {by} paid a relayer bond twice");
					self.bond.insert(by, BOND);
					*self.free.get_mut(&by).unwrap() = self.free[&by].checked_sub(BOND).ok_or_else(|| viol("B02", "bond-not-covered", "a bond was taken that the account cannot pay"))?;
				}
			},
			Op::Unbond(by) => {
				let r = self.c.atomic("B02", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), Call::withdraw_relayer_bond {}.into()))?;
				st.op("unbond", r.is_ok());
				let want = self.bond.contains_key(&by) && self.relayer != Some(by);
				check!("B02", "unbond-differs", r.is_ok() == want, "unbond by {by}, relayer {:?}, bonds {:?}: {r:?}", self.relayer, self.bond);
				if want {
					*self.free.get_mut(&by).unwrap() += self.bond.remove(&by).unwrap();
				}
			},
			Op::SetRelayer(by) => {
				let r = self.c.root(Call::set_relayer { relayer: acc(by) });
				st.op("set-relayer", r.is_ok());
				check!("B02", "relayer-without-bond", r.is_ok() == self.bond.contains_key(&by), "relayer {by} with bonds {:?}: {r:?}", self.bond);
				if r.is_ok() {
					self.relayer = Some(by);
				}
			},
			Op::Submit { by, id, ver, missing, dest } => self.submit(by, id, ver, missing, dest, st, false)?,
			Op::Bulk { from, count, gap } => {
				if let Some(by) = self.relayer {
					st.count("bulk of messages");
					for k in 0..count as u64 {
						if gap > 0 && k % (gap + 7) == 3 {
							continue;
						}
						self.submit(by, from + k, 1, false, 1, st, true)?;
					}
				}
			},
			Op::RemoveMissing(a, b) => {
				let r = self.c.root(Call::remove_missing_event_id { event_id_range: (a, b) });
				st.op("remove-missing", r.is_ok());
				if r.is_ok() {
					self.exempt.push((a, b));
				}
			},
			Op::Challenge { by, id: i } => {
				let r = self.c.atomic("B02", "refusal-left-traces", Step::Bypass(RawOrigin::Signed(acc(by)), Call::submit_challenge { event_claim_id: i }.into()))?;
				st.op("challenge", r.is_ok());
				let pending = self.claims.get(&i).map_or(false, |c| c.st == St::Pending);
				if r.is_ok() {
					check!("B02", "challenge-differs", pending, "challenge of {i} ({:?}) accepted", self.claims.get(&i));
					self.claims.get_mut(&i).unwrap().st = St::Challenged(by);
					*self.free.get_mut(&by).unwrap() = self.free[&by].checked_sub(BOND).ok_or_else(|| viol("B02", "bond-not-covered", "a bond was taken that the account cannot pay"))?;
				} else {
					check!("B02", "challenge-refused", !pending || self.free[&by] < BOND + 1000 || self.claims.values().filter(|c| matches!(c.st, St::Challenged(_))).count() >= 100, "challenge of {i} by {by} refused: {r:?}");
				}
			},
			Op::Vote { id: i, idx, res, bad } => {
				let real = self.notary.get(idx as usize).copied().unwrap_or(0);
				let p = NotarizationPayload::Event { event_claim_id: i, authority_index: idx, result: claim_result(res) };
				let signer = if bad == 1 { (real + 1) % POOL } else { real };
				let signed = if bad == 2 { NotarizationPayload::Event { event_claim_id: i, authority_index: idx, result: claim_result(if res == 0 { 1 } else { 0 }) } } else { p.clone() };
				let sig = pair(signer).sign(&if bad == 3 { vec![1, 2, 3] } else { signed.encode() });
				let gen = self.claims.get(&i).map(|c| c.gen).unwrap_or(0);
				if bad < 2 {
					self.sent.push((p.clone(), sig.clone(), signer, gen));
				} else {
					st.fault("forged vote");
				}
				self.deliver(p, sig, signer, bad < 2, None, st, "vote")?;
			},
			Op::Replay(k) => {
				if self.sent.is_empty() {
					return Ok(());
				}
				st.fault("vote delivered again");
				let (p, sig, signer, gen) = self.sent[k as usize % self.sent.len()].clone();
				self.deliver(p, sig, signer, true, Some(gen), st, "repeated-vote")?;
			},
			Op::Ask(k) => {
				let next = self.c.exec(|| pallet_ethy::NextEthCallId::<Runtime>::get());
				let r = self.c.run(move || {
					EthBridge::checked_eth_call(&addr(k), &[k; 30], 100, 200, 5);
					Ok(())
				});
				st.op("ask", r.is_ok());
				check!("B05", "call-id-reused", !self.calls.contains_key(&next) && !self.answered.contains(&next), "call id {next} given out again");
				let info = self.c.exec(|| pallet_ethy::EthCallRequestInfo::<Runtime>::get(next));
				check!("B05", "request-differs", info.as_ref().map_or(false, |i| i.target == addr(k) && i.input.as_slice() == [k; 30]), "the stored request {next} is not the one made");
				self.calls.insert(next, Default::default());
			},
			Op::CallVote { id: i, idx, res, bad } => {
				let real = self.notary.get(idx as usize).copied().unwrap_or(0);
				let p = NotarizationPayload::Call { call_id: i, authority_index: idx, result: call_result(res) };
				let signer = if bad == 1 { (real + 1) % POOL } else { real };
				let sig = pair(signer).sign(&if bad >= 2 { vec![bad] } else { p.encode() });
				if bad < 2 {
					self.sent.push((p.clone(), sig.clone(), signer, 0));
				} else {
					st.fault("forged vote");
				}
				self.deliver(p, sig, signer, bad < 2, None, st, "call-vote")?;
			},
			Op::Send { len, k } => {
				let msg = vec![k; len as usize];
				let m = msg.clone();
				let r = self.c.atomic("B03", "refusal-left-traces", Step::Fn(std::rc::Rc::new(move || EthBridge::send_event(&addr(k), &addr(k + 1), &m).map(|_| ()))))?;
				st.op("send", r.is_ok());
				check!("B03", "send-differs", r.is_ok() == (len <= 3200), "message of {len} bytes: {r:?}");
				let mut logs: std::collections::VecDeque<Log2> = self.new_logs().into();
				if r.is_ok() {
					self.requested(vec![Req::Eth { src: addr(k), dst: addr(k + 1), msg }], &mut logs, ev, st, "B03")?;
				}
				self.no_more(&logs, "send")?;
			},
			Op::Withdraw { by, amount } => {
				let to = (amount % 5) as u8;
				let r = self.c.atomic("B03", "refusal-left-traces", Step::Call(RawOrigin::Signed(acc(by)), XCall::withdraw { asset_id: XRP, amount, destination: dest_acc(to).into(), destination_tag: None }.into()))?;
				st.op("xrpl-withdraw", r.is_ok());
				let mut logs: std::collections::VecDeque<Log2> = self.new_logs().into();
				if r.is_ok() {
					self.requested(vec![Req::Pay { amount: amount as u64, to }], &mut logs, ev, st, "B03")?;
					// what a withdrawal costs is not this simulation's matter
					let b = self.c.bal(XRP, &acc(by));
					self.free.insert(by, b);
				}
				self.no_more(&logs, "withdrawal")?;
			},
			Op::Pause(p) => {
				let r = self.c.root(Call::set_bridge_paused { paused: p });
				st.op("pause", r.is_ok());
				if r.is_ok() {
					self.manual = p;
				}
			},
			Op::PerBlock(k) => {
				if self.c.root(Call::set_delayed_event_proofs_per_block { count: k }).is_ok() {
					self.per_block = k;
				}
			},
			Op::Period(k) => {
				if self.c.root(Call::set_challenge_period { blocks: k }).is_ok() {
					self.period = k;
				}
			},
			Op::Rotate { next, kind } => {
				if self.next_change.is_some() || !self.finalise.is_empty() {
					// the session is not over yet
					self.step_to_next(st)?;
				} else {
					self.rotate(next, kind, st)?;
				}
			},
			Op::Doors(v) => {
				let r = self.c.root(Call::set_xrpl_door_signers { new_signers: v.iter().map(|(k, b)| (id(*k), *b)).collect() });
				st.op("doors", r.is_ok());
				if r.is_ok() {
					for (k, b) in v {
						if b {
							self.doors.insert(k);
						} else {
							self.doors.remove(&k);
						}
					}
					self.xrpl_keys = self.keys(&self.notary.clone());
				}
			},
			Op::Contract(k) => {
				if self.c.root(Call::set_contract_address { contract_address: addr(k) }).is_ok() {
					self.contract = k;
				}
			},
		}
		let rest: std::collections::VecDeque<Log2> = self.new_logs().into();
		self.no_more(&rest, "operation")?;
		let rt = self.routed_new();
		check!("B01", "executed-outside", rt.is_empty(), "{op:?} had messages handed over: {rt:?}");
		let an = self.answers_new();
		check!("B05", "answered-without-vote", an.is_empty(), "{op:?} had requests answered: {an:?}");
		self.balances(&format!("{op:?}"))?;
		self.state_matches()?;
		st.state(self.claims.len() as u64 ^ (self.waiting.len() as u64) << 10 ^ self.set_id << 20 ^ (self.paused() as u64) << 30 ^ (self.relayer.unwrap_or(0)) << 32 ^ (self.calls.len() as u64) << 40 ^ (self.active.len() as u64) << 50);
		st.digest(self.c.hash());
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		// faults stop: the bridge is unpaused, sessions go on, every unchallenged message comes due
		self.apply(&Op::Pause(false), st)?;
		self.apply(&Op::Period(2000), st)?;
		for _ in 0..40 {
			if self.next_change.is_none() && self.finalise.is_empty() {
				break;
			}
			self.step_to_next(st)?;
		}
		if self.announced {
			self.apply(&Op::Rotate { next: vec![], kind: 0 }, st)?;
		}
		check!("B03|B04", "paused-for-ever", !self.paused(), "the bridge stays paused after the switch");
		for _ in 0..60 {
			let open = self.sched.values().flatten().any(|i| self.claims.get(i).map_or(false, |c| !matches!(c.st, St::Challenged(_))));
			if !open {
				break;
			}
			self.step_to_next(st)?;
		}
		let n = self.waiting.len();
		for _ in 0..n {
			self.apply(&Op::Block { idle: 0, fork: 0 }, st)?;
		}
		check!("B03", "never-signed", self.waiting.is_empty(), "requests never signed: {:?}", self.waiting);
		check!("B01", "never-executed", self.claims.values().all(|c| matches!(c.st, St::Challenged(_))), "messages never handed over: {:?}", self.claims);
		Ok(())
	}
}
fn main() {
	simkit::main::<World>()
}
