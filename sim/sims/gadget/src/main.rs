//! Event proofs (E01–E03): validators' nodes run the ethy gadget and its RPC server over a simulated
//! network, clock, finality and disk; an adversary holds some of the keys and sees all traffic.

use codec::{Decode, Encode};
use ethy_gadget_rpc::{EthyApiServer, EthyRpcHandler};
use nodekit::host::*;
use node::gossip::NetEvent;
use node::network::{PeerId, ProtocolName};
use node::rpc::SubscriptionSink;
use seed_primitives::ethy::{
	crypto::{AuthorityId, AuthoritySignature},
	ConsensusLog, EthyChainId, EventProof, ValidatorSet, VersionedEventProof, Witness, ETHY_ENGINE_ID, ETHY_KEY_TYPE,
};
use serde::{Deserialize, Serialize};
use simkit::*;
use sp_core::{crypto::Pair as _, H256};
use sp_runtime::generic::{Digest, DigestItem};
use sp_runtime::traits::Header as _;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
simkit::interpose!();

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NewReq {
	xrpl: bool,
	/// length of the data (32 is proper for Ethereum)
	len: u8,
	/// blocks its request is held back
	late: u8,
	tag: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// a block is finalised; with requests, perhaps another validator set (keys) or other XRPL signers
	Block { reqs: Vec<NewReq>, set: Option<Vec<u8>>, xrpl: Option<Vec<u8>> },
	/// a node learns that its chain is final some blocks further, at once
	Final { node: u8, by: u8 },
	/// everyone up to the tip, block by block
	AllFinal { order: u64 },
	Deliver { from: u8, to: u8 },
	Lose { from: u8, to: u8 },
	/// so many deliveries, finality steps and the like in a random order
	Mix { n: u8, seed: u64 },
	Time { ms: u32 },
	Cut { a: u8, b: u8 },
	Part { mask: u16 },
	Heal,
	Crash { node: u8 },
	Restart { node: u8, syncing: bool },
	Sync { node: u8, on: bool },
	Stall { node: u8, on: bool },
	Api { node: u8, fail: bool },
	Disk { node: u8, fail: bool },
	Byz { kind: u8, targets: u16, pick: u64 },
	Subscribe { node: u8 },
	/// faults stop: what was asked for must be proved
	Calm { seed: u64, noise: bool },
}
enum Ev {
	Net(NetEvent),
	Final(usize),
}
type Task = std::pin::Pin<Box<dyn Future<Output = ()> + Send>>;
struct Node {
	h: Handle,
	key: Option<usize>,
	up: bool,
	fut: Option<Task>,
	flag: Arc<Flag>,
	pending: VecDeque<Ev>,
	stalled: bool,
	rpc: Option<EthyRpcHandler<Handle, Sure, Block>>,
	sub: Option<SubscriptionSink>,
	/// proofs written while the subscription ran, in order
	told: Vec<u64>,
	stored: BTreeMap<(u8, u64), EventProof>,
	got: BTreeSet<Vec<u8>>,
	/// own witnesses: of this life, and ever
	own: BTreeSet<u64>,
	ever: BTreeMap<u64, [u8; 32]>,
	failed: BTreeSet<u64>,
	/// proved in this life
	done: BTreeSet<u64>,
	/// the runtime could not be asked at some point of this life
	blind: bool,
	/// the worker of this life began with this block final
	since: usize,
}
impl Node {
	/// received before, perhaps with something after it
	fn heard(&self, m: &[u8]) -> bool {
		self.got.range(m.to_vec()..).next().map_or(false, |g| g.starts_with(m))
	}
}
#[derive(Clone)]
struct Rec {
	req: Req,
	block: usize,
	/// an event with a higher number was asked for before
	out_of_order: bool,
}
struct World {
	chain: Arc<Mutex<ChainData>>,
	keys: Vec<(sp_core::ecdsa::Pair, AuthorityId)>,
	byz: Vec<usize>,
	nodes: Vec<Node>,
	cut: BTreeSet<(usize, usize)>,
	link: BTreeSet<(usize, usize)>,
	wire: BTreeMap<(usize, usize), VecDeque<Vec<u8>>>,
	seen: Vec<Vec<u8>>,
	next_id: u64,
	late: Vec<(usize, Req)>,
	recs: BTreeMap<u64, Rec>,
	max_id: Option<u64>,
	set_id: u64,
	now: u64,
}
fn seedname(i: usize) -> String {
	format!("//val{i}")
}
fn data_of(n: &NewReq) -> Vec<u8> {
	let mut v = Vec::new();
	while v.len() < n.len as usize {
		v.extend(simcrypto::sha2_256(&(n.tag, v.len() as u32).encode()));
	}
	v.truncate(n.len as usize);
	v
}
/// what a validator has to sign for a request
fn digest_of(r: &Req, key: &[u8; 33]) -> Option<[u8; 32]> {
	match r.chain {
		EthyChainId::Ethereum => r.data.clone().try_into().ok(),
		EthyChainId::Xrpl => {
			let mut v = b"SMT\0".to_vec();
			v.extend(&r.data);
			v.extend(simcrypto::ripemd160(&simcrypto::sha2_256(key)));
			Some(simcrypto::sha2_512(&v)[..32].try_into().unwrap())
		},
	}
}
fn raw(a: &AuthorityId) -> [u8; 33] {
	let s: &[u8] = a.as_ref();
	s.try_into().unwrap()
}
fn valid(sig: &AuthoritySignature, digest: &[u8; 32], key: &[u8; 33]) -> bool {
	let s: &[u8] = sig.as_ref();
	match simcrypto::secp256k1::decompress(key) {
		Some(k) => simcrypto::secp256k1::verify_rs(s[..64].try_into().unwrap(), digest, &k),
		None => false,
	}
}
fn eth_address(key: &[u8; 33]) -> [u8; 20] {
	let k = simcrypto::secp256k1::decompress(key).unwrap();
	simcrypto::keccak_256(&k)[12..].try_into().unwrap()
}
fn chain_no(c: EthyChainId) -> u8 {
	match c {
		EthyChainId::Ethereum => 1,
		EthyChainId::Xrpl => 2,
	}
}
fn need(n: usize) -> u32 {
	((n * 66 + 99) / 100) as u32
}
impl World {
	fn tip(&self) -> usize {
		self.chain.lock().unwrap().blocks.len() - 1
	}
	fn blk(&self, i: usize) -> Blk {
		self.chain.lock().unwrap().blocks[i].clone()
	}
	fn vset(&self, keys: &[usize]) -> VSet {
		ValidatorSet { validators: keys.iter().map(|k| self.keys[*k].1.clone()).collect(), id: self.set_id, proof_threshold: need(keys.len()) }
	}
	fn xset(&self, keys: &[usize]) -> VSet {
		ValidatorSet { validators: keys.iter().map(|k| self.keys[*k].1.clone()).collect(), id: self.set_id, proof_threshold: keys.len().saturating_sub(1) as u32 }
	}
	/// enough honest keys for a proof
	fn fair(&self, set: &[usize]) -> bool {
		let b = set.iter().filter(|k| self.byz.contains(k)).count();
		!set.is_empty() && set.len() - b >= need(set.len()) as usize
	}
	fn fair_x(&self, x: &[usize], set: &[usize]) -> bool {
		let b = x.iter().filter(|k| self.byz.contains(k)).count();
		x.iter().all(|k| set.contains(k)) && x.len() <= 8 && (x.is_empty() || x.len() - b >= (x.len() - 1).max(1))
	}
	fn key_no(&self, a: &AuthorityId) -> usize {
		self.keys.iter().position(|k| k.1 == *a).unwrap()
	}
	fn append(&mut self, reqs: Vec<Req>, set: VSet, xrpl: VSet, change: bool) {
		let mut c = self.chain.lock().unwrap();
		let n = c.blocks.len();
		let mut logs = vec![DigestItem::PreRuntime(*b"BABE", (n as u64).encode())];
		if change {
			logs.push(DigestItem::Consensus(ETHY_ENGINE_ID, ConsensusLog::<AuthorityId>::AuthoritiesChange(set.clone()).encode()));
		}
		for r in &reqs {
			logs.push(DigestItem::Consensus(ETHY_ENGINE_ID, ConsensusLog::<AuthorityId>::OpaqueSigningRequest { chain_id: r.chain, event_proof_id: r.id, data: r.data.clone() }.encode()));
		}
		let parent = c.blocks.last().map(|b| b.hash).unwrap_or_default();
		let header = Header::new(n as u32, Default::default(), H256::from_low_u64_be(n as u64), parent, Digest { logs });
		let hash = header.hash();
		c.by_hash.insert(hash, n);
		c.blocks.push(Blk { header, hash, reqs: reqs.clone(), set, xrpl });
		drop(c);
		for r in reqs {
			let ooo = self.max_id.map_or(false, |m| m > r.id);
			self.max_id = Some(self.max_id.map_or(r.id, |m| m.max(r.id)));
			self.recs.insert(r.id, Rec { req: r, block: n, out_of_order: ooo });
		}
	}
	fn start(&mut self, n: usize) {
		node_clear(&mut self.nodes[n]);
		let nd = &mut self.nodes[n];
		let ks = sp_keystore::testing::MemoryKeystore::new();
		if let Some(k) = nd.key {
			sp_keystore::Keystore::insert(&ks, ETHY_KEY_TYPE, &seedname(k), &[]).unwrap();
		}
		let (sender, stream) = ethy_gadget::notification::EthyEventProofStream::channel();
		let h = nd.h.clone();
		let spec: Box<dyn node::chain_spec::ChainSpec> = Box::new(Spec);
		let genesis = h.chain().blocks[0].hash;
		let name: ProtocolName = ethy_gadget::protocol_standard_name(&genesis, &spec);
		let _ = ethy_gadget::ethy_peers_set_config(name.clone());
		nd.fut = Some(Box::pin(ethy_gadget::start_ethy_gadget(ethy_gadget::EthyParams {
			client: Arc::new(h.clone()),
			backend: Arc::new(h.clone()),
			runtime: Arc::new(h.clone()),
			key_store: Some(Arc::new(ks)),
			network: h.clone(),
			sync_service: h.clone(),
			event_proof_sender: sender,
			prometheus_registry: Some(Default::default()),
			protocol_name: name,
			_phantom: std::marker::PhantomData,
		})));
		nd.rpc = Some(EthyRpcHandler::new(stream, Arc::new(h.clone()), Arc::new(h.clone()), Arc::new(Sure(h.clone()))));
		nd.up = true;
		nd.since = h.get().finalized;
		nd.flag.0.store(true, Ordering::SeqCst);
		let all: Vec<usize> = (0..=self.nodes.len()).filter(|m| *m != n).collect();
		for m in all {
			self.connect(n, m);
		}
	}
	fn crash(&mut self, n: usize) {
		if !self.nodes[n].up {
			return;
		}
		for m in (0..=self.nodes.len()).filter(|m| *m != n).collect::<Vec<_>>() {
			self.disconnect(n, m);
		}
		self.nodes[n].up = false;
		node_clear(&mut self.nodes[n]);
	}
	fn alive(&self, n: usize) -> bool {
		n == self.nodes.len() || self.nodes[n].up
	}
	fn connect(&mut self, a: usize, b: usize) {
		let p = (a.min(b), a.max(b));
		if a == b || self.link.contains(&p) || self.cut.contains(&p) || !self.alive(a) || !self.alive(b) {
			return;
		}
		self.link.insert(p);
		for (x, y) in [(a, b), (b, a)] {
			if x < self.nodes.len() {
				self.nodes[x].pending.push_back(Ev::Net(NetEvent::Opened(PeerId(y as u64))));
			}
		}
	}
	fn disconnect(&mut self, a: usize, b: usize) {
		let p = (a.min(b), a.max(b));
		if !self.link.remove(&p) {
			return;
		}
		for (x, y) in [(a, b), (b, a)] {
			self.wire.remove(&(x, y));
			if x < self.nodes.len() {
				self.nodes[x].pending.push_back(Ev::Net(NetEvent::Closed(PeerId(y as u64))));
			}
		}
	}
	/// the adversary's link is never cut
	fn cut(&mut self, a: usize, b: usize) {
		if a != b && a < self.nodes.len() && b < self.nodes.len() {
			self.cut.insert((a.min(b), a.max(b)));
			self.disconnect(a, b);
		}
	}
	fn heal(&mut self) {
		self.cut.clear();
		for a in 0..self.nodes.len() {
			for b in a + 1..=self.nodes.len() {
				self.connect(a, b);
			}
		}
	}
	/// gives a node what waits for it, one event at a time, for as long as it takes events
	fn feed(&mut self, n: usize, st: &mut Stats) -> Res {
		self.run(n, st)?;
		loop {
			let nd = &mut self.nodes[n];
			if !nd.up || nd.stalled || !nd.h.get().listening {
				return Ok(());
			}
			match nd.pending.pop_front() {
				None => return Ok(()),
				Some(Ev::Net(e)) => {
					if let NetEvent::Message(_, m) = &e {
						nd.got.insert(m.clone());
					}
					nd.h.push(e)
				},
				Some(Ev::Final(to)) => {
					if to > nd.h.get().finalized {
						nd.h.finalise(to)
					}
				},
			}
			self.run(n, st)?;
		}
	}
	fn run(&mut self, n: usize, st: &mut Stats) -> Res {
		let nd = &mut self.nodes[n];
		if !nd.up || nd.stalled {
			return Ok(());
		}
		let waker = Waker::from(nd.flag.clone());
		let mut turns = 0;
		while nd.flag.0.swap(false, Ordering::SeqCst) {
			turns += 1;
			check!("E02", "spins", turns < 10_000, "node {n}'s worker never comes to rest");
			let mut cx = Context::from_waker(&waker);
			let mut tasks = std::mem::take(&mut nd.h.get().tasks);
			tasks.retain_mut(|t| t.as_mut().poll(&mut cx).is_pending());
			nd.h.get().tasks.extend(tasks);
			if let Some(f) = nd.fut.as_mut() {
				if let Poll::Ready(()) = f.as_mut().poll(&mut cx) {
					nd.fut = None;
					return Err(viol("E02", "stopped", format!("node {n}'s worker ended")));
				}
			}
			let mut tasks = std::mem::take(&mut nd.h.get().tasks);
			tasks.retain_mut(|t| t.as_mut().poll(&mut cx).is_pending());
			nd.h.get().tasks.extend(tasks);
		}
		let (out, writes) = {
			let mut h = nd.h.get();
			if h.api_fail {
				nd.blind = true;
			}
			for k in std::mem::take(&mut h.refused) {
				// it is announced all the same
				if let Some(id) = k.get(5..13).map(|b| u64::from_be_bytes(b.try_into().unwrap())) {
					nd.failed.insert(id);
					nd.done.insert(id);
					if nd.sub.is_some() {
						nd.told.push(id);
					}
				}
			}
			(std::mem::take(&mut h.outbox), std::mem::take(&mut h.writes))
		};
		for (k, v) in writes {
			self.written(n, &k, &v, st)?;
		}
		for (to, m) in out {
			self.said(n, &m, st)?;
			let to = to.0 as usize;
			if self.link.contains(&(n.min(to), n.max(to))) {
				self.wire.entry((n, to)).or_default().push_back(m);
			}
		}
		Ok(())
	}
	/// E01: what is stored proves what the chain asked for
	fn written(&mut self, n: usize, k: &[u8], v: &[u8], st: &mut Stats) -> Res {
		st.hit("E01");
		st.count("proofs stored");
		check!("E01", "key", k.len() == 13 && k[..4] == ETHY_ENGINE_ID && !v.is_empty(), "node {n} wrote {k:?}");
		let id = u64::from_be_bytes(k[5..].try_into().unwrap());
		let p = match VersionedEventProof::decode(&mut &v[..]) {
			Ok(VersionedEventProof::V1(p)) => p,
			Err(_) => return Err(viol("E01", "format", "not a proof")),
		};
		let fin = self.nodes[n].h.get().finalized;
		let Some(r) = self.recs.get(&id).filter(|r| r.block <= fin).cloned() else {
			return Err(viol("E01", "unasked", format!("node {n} stored a proof for event {id} nobody asked for in its finalised chain")));
		};
		check_eq!("E01", "chain", k[4], chain_no(r.req.chain), "chain event {id} is stored under");
		check_eq!("E01", "event", p.event_id, id, "event in the proof stored as {id}");
		let b = self.blk(r.block);
		check_eq!("E01", "block", H256(p.block), b.hash, "block of event {id}");
		check_eq!("E01", "set-id", p.validator_set_id, b.set.id, "validator set of the proof of event {id}, asked for in block {}", r.block);
		let zero = digest_of(&r.req, &[0; 33]);
		check!("E01", "digest", Some(p.digest) == zero, "digest in the proof of event {id}");
		let mut last = None;
		let (mut all, mut x) = (0, 0);
		for (i, s) in &p.signatures {
			check!("E01", "signature-order", last.map_or(true, |l| l < *i), "signers of event {id} are not in strictly rising order: {:?}", p.signatures.iter().map(|s| s.0).collect::<Vec<_>>());
			last = Some(*i);
			let Some(a) = b.set.validators.get(*i as usize) else {
				return Err(viol("E01", "signer", format!("event {id}: no validator {i} in the set of its block")));
			};
			let key = raw(a);
			let d = digest_of(&r.req, &key).ok_or_else(|| viol("E01", "digest", "a proof for data nobody can sign"))?;
			check!("E01", "signature", valid(s, &d, &key), "event {id}, node {n}: the signature at {i} is not that validator's");
			all += 1;
			x += b.xrpl.validators.contains(a) as u32;
		}
		match r.req.chain {
			EthyChainId::Ethereum => check!("E01", "threshold", all >= b.set.proof_threshold.max(1), "event {id}, node {n}: {all} signatures, {} needed", b.set.proof_threshold),
			EthyChainId::Xrpl => check!("E01", "xrpl-threshold", x >= b.xrpl.proof_threshold.max(1), "event {id}, node {n}: {x} signatures of XRPL signers, {} needed", b.xrpl.proof_threshold),
		}
		let nd = &mut self.nodes[n];
		if nd.sub.is_some() {
			nd.told.push(id);
		}
		nd.done.insert(id);
		nd.stored.insert((k[4], id), p);
		st.mix(id ^ n as u64);
		Ok(())
	}
	/// E03: what a node says
	fn said(&mut self, n: usize, m: &[u8], st: &mut Stats) -> Res {
		let Ok(w) = Witness::decode(&mut &m[..]) else {
			return Err(viol("E03", "garbage", format!("node {n} sent what is no witness")));
		};
		st.hit("E03");
		st.mix(fnv(m));
		let me = self.nodes[n].key.map(|k| self.keys[k].1.clone());
		if Some(&w.authority_id) == me.as_ref() {
			let key = raw(&w.authority_id);
			let id = w.event_id;
			let fin = self.nodes[n].h.get().finalized;
			let Some(r) = self.recs.get(&id).filter(|r| r.block <= fin).cloned() else {
				if self.nodes[n].heard(m) {
					return Ok(());
				}
				return Err(viol("E03", "unasked", format!("node {n} signed event {id}, which nobody asked for")));
			};
			// its own words coming back relabelled are the adversary's
			if self.nodes[n].heard(m) {
				return Ok(());
			}
			let b = self.blk(r.block);
			check!("E03", "digest", digest_of(&r.req, &key) == Some(w.digest), "node {n} signed something else for event {id}");
			check_eq!("E03", "chain", chain_no(w.chain_id), chain_no(r.req.chain), "chain of event {id} in node {n}'s witness");
			check_eq!("E03", "block", w.block_number, r.block as u64, "block of event {id} in node {n}'s witness");
			check_eq!("E03", "set", w.validator_set_id, b.set.id, "validator set of event {id} in node {n}'s witness");
			check!("E03", "not-member", b.set.validators.contains(&w.authority_id), "node {n} signed event {id} although not in the set");
			check!("E03", "signature", valid(&w.signature, &w.digest, &key), "node {n}'s own signature for {id}");
			check!("E03", "old-block", r.block > self.nodes[n].since, "node {n} signed event {id} of a block final before it started");
			let nd = &mut self.nodes[n];
			let d = *nd.ever.entry(id).or_insert(w.digest);
			check_eq!("E03", "equivocation", w.digest, d, "node {n}'s two witnesses of event {id}");
			nd.own.insert(id);
		} else {
			check!("E03", "invented", self.nodes[n].heard(m), "node {n} sent a witness of {:?} it never received", w.authority_id);
			check!("E03", "forwards-forgery", valid(&w.signature, &w.digest, &raw(&w.authority_id)), "node {n} passed on a witness with a bad signature");
			let member = self.chain.lock().unwrap().blocks.iter().any(|b| b.set.validators.contains(&w.authority_id));
			check!("E03", "forwards-outsider", member, "node {n} passed on an outsider's witness");
		}
		Ok(())
	}
	fn deliver(&mut self, a: usize, b: usize, st: &mut Stats) -> Res {
		let Some(m) = self.wire.get_mut(&(a, b)).and_then(|q| q.pop_front()) else { return Ok(()) };
		if b == self.nodes.len() {
			self.seen.push(m);
			return Ok(());
		}
		self.nodes[b].pending.push_back(Ev::Net(NetEvent::Message(PeerId(a as u64), m)));
		self.feed(b, st)
	}
	fn finality(&mut self, n: usize, to: usize, st: &mut Stats) -> Res {
		if !self.nodes[n].up {
			return Ok(());
		}
		// nobody listens yet: the chain moves on without notice
		if self.nodes[n].h.get().finality.is_empty() {
			let mut h = self.nodes[n].h.get();
			h.finalized = h.finalized.max(to);
			return Ok(());
		}
		self.nodes[n].pending.push_back(Ev::Final(to));
		self.feed(n, st)
	}
	/// what the node's chain is or will be final up to
	fn ahead(&self, n: usize) -> usize {
		let nd = &self.nodes[n];
		nd.pending.iter().filter_map(|e| if let Ev::Final(t) = e { Some(*t) } else { None }).max().unwrap_or(0).max(nd.h.get().finalized)
	}
	fn wires(&self) -> Vec<(usize, usize)> {
		self.wire.iter().filter(|(_, q)| !q.is_empty()).map(|(k, _)| *k).collect()
	}
	fn mix(&mut self, k: usize, r: &mut Rng, st: &mut Stats) -> Res {
		for _ in 0..k {
			let w = self.wires();
			let behind: Vec<usize> = (0..self.nodes.len()).filter(|n| self.nodes[*n].up && self.ahead(*n) < self.tip()).collect();
			match r.below(8) {
				0 | 1 if !behind.is_empty() => {
					let n = *r.pick(&behind);
					let to = self.ahead(n) + 1 + if r.chance(1, 6) { r.idx(self.tip() - self.ahead(n)) } else { 0 };
					self.finality(n, to, st)?;
				},
				2 => self.time(r.range(1, 1500), r.next(), st)?,
				_ if !w.is_empty() => {
					let (a, b) = *r.pick(&w);
					self.deliver(a, b, st)?;
				},
				_ => {},
			}
		}
		Ok(())
	}
	/// delivers everything, in a random order
	fn settle(&mut self, r: &mut Rng, st: &mut Stats) -> Res {
		for n in 0..self.nodes.len() {
			self.feed(n, st)?;
		}
		let mut k = 0;
		loop {
			let w = self.wires();
			if w.is_empty() {
				return Ok(());
			}
			k += 1;
			check!("E02", "storm", k < 200_000, "the nodes never stop sending");
			let (a, b) = *r.pick(&w);
			self.deliver(a, b, st)?;
		}
	}
	fn time(&mut self, ms: u64, order: u64, st: &mut Stats) -> Res {
		simkit::env::advance_ns(ms * 1_000_000);
		self.now += ms;
		st.time(ms);
		node::timers::fire();
		let n = self.nodes.len();
		for i in 0..n {
			self.feed((i + order as usize) % n, st)?;
		}
		Ok(())
	}
	fn block(&mut self, reqs: &[NewReq], set: Option<&[u8]>, xrpl: Option<&[u8]>, st: &mut Stats) -> Vec<u64> {
		let old = self.blk(self.tip());
		let (mut vs, mut xs, mut change) = (old.set.clone(), old.xrpl.clone(), false);
		let nk = self.keys.len();
		let tidy = |v: &[u8]| {
			let mut o: Vec<usize> = vec![];
			v.iter().map(|k| *k as usize % nk).for_each(|k| if !o.contains(&k) { o.push(k) });
			o
		};
		if let Some(s) = set.map(tidy).filter(|s| self.fair(s)) {
			self.set_id += 1;
			vs = self.vset(&s);
			let x: Vec<usize> = match xrpl.map(tidy) {
				Some(x) if self.fair_x(&x, &s) => x,
				_ => {
					let x: Vec<usize> = s.iter().copied().filter(|k| xs.validators.contains(&self.keys[*k].1)).collect();
					if self.fair_x(&x, &s) { x } else { vec![] }
				},
			};
			xs = self.xset(&x);
			change = true;
			st.fault("validator set change");
		} else if let Some(x) = xrpl.map(tidy) {
			let s: Vec<usize> = vs.validators.iter().map(|a| self.key_no(a)).collect();
			if self.fair_x(&x, &s) {
				xs = self.xset(&x);
				st.fault("XRPL signers change");
			}
		}
		let here = self.tip() + 1;
		let mut out: Vec<Req> = vec![];
		let due: Vec<(usize, Req)> = std::mem::take(&mut self.late);
		for (at, r) in due {
			if at <= here { out.push(r) } else { self.late.push((at, r)) }
		}
		for q in reqs {
			let r = Req { chain: if q.xrpl { EthyChainId::Xrpl } else { EthyChainId::Ethereum }, id: self.next_id, data: data_of(q) };
			self.next_id += 1;
			if q.late > 0 {
				self.late.push((here + q.late as usize, r));
			} else {
				out.push(r);
			}
		}
		let ids = out.iter().map(|r| r.id).collect();
		self.append(out, vs, xs, change);
		ids
	}
	fn send_all(&mut self, targets: u16, m: Vec<u8>) {
		let z = self.nodes.len();
		for n in 0..z {
			if targets >> n & 1 == 1 && self.link.contains(&(n, z)) {
				self.wire.entry((z, n)).or_default().push_back(m.clone());
			}
		}
	}
	fn sign_as(&self, k: usize, digest: [u8; 32], id: u64, chain: EthyChainId, block: u64) -> Witness {
		Witness {
			digest,
			chain_id: chain,
			event_id: id,
			validator_set_id: self.set_id,
			authority_id: self.keys[k].1.clone(),
			signature: self.keys[k].0.sign_prehashed(&digest).into(),
			block_number: block,
		}
	}
	/// the adversary acts
	fn evil(&mut self, kind: u8, targets: u16, pick: u64, st: &mut Stats) {
		let mut r = Rng::new(pick);
		let seen: Vec<Witness> = self.seen.iter().rev().take(40).filter_map(|m| Witness::decode(&mut &m[..]).ok()).collect();
		let fin = self.tip() as u64;
		let known: Vec<Rec> = self.recs.values().rev().take(8).cloned().collect();
		let mut w: Option<Witness> = None;
		let mut name = "";
		match kind % 12 {
			0 | 1 if !seen.is_empty() => {
				let mut x = r.pick(&seen).clone();
				x.event_id = match r.below(3) {
					0 => self.next_id + r.below(4),
					1 if !known.is_empty() => r.pick(&known).req.id,
					_ => r.below(self.next_id + 1),
				};
				x.block_number = fin + 1;
				name = "witness relabelled with another event";
				w = Some(x);
			},
			2 if !seen.is_empty() => {
				let mut x = r.pick(&seen).clone();
				x.block_number = if r.chance(1, 2) { 0 } else { fin.saturating_sub(95 + r.below(10)) };
				name = "witness relabelled with an old block";
				w = Some(x);
			},
			3 if !seen.is_empty() => {
				let mut x = r.pick(&seen).clone();
				match r.below(3) {
					0 => x.chain_id = if x.chain_id == EthyChainId::Xrpl { EthyChainId::Ethereum } else { EthyChainId::Xrpl },
					1 => x.validator_set_id = x.validator_set_id.wrapping_add(r.range(1, 3)).wrapping_sub(2),
					_ => x.block_number = fin + 1 + r.below(6),
				}
				name = "witness relabelled with another chain, set or block";
				w = Some(x);
			},
			4 if !self.byz.is_empty() => {
				let k = *r.pick(&self.byz);
				let id = if known.is_empty() || r.chance(1, 3) { self.next_id + r.below(3) } else { r.pick(&known).req.id };
				let d = simcrypto::sha2_256(&pick.encode());
				name = "validator signs another digest";
				w = Some(self.sign_as(k, d, id, if r.chance(1, 2) { EthyChainId::Xrpl } else { EthyChainId::Ethereum }, fin));
			},
			5 | 6 if !self.byz.is_empty() && !known.is_empty() => {
				let k = *r.pick(&self.byz);
				let q = r.pick(&known).clone();
				name = "adversary's validator votes";
				w = digest_of(&q.req, &raw(&self.keys[k].1)).map(|d| self.sign_as(k, d, q.req.id, q.req.chain, q.block as u64));
			},
			7 if !seen.is_empty() => {
				// the same signature in its other form
				let mut x = r.pick(&seen).clone();
				let mut b: [u8; 65] = { let s: &[u8] = x.signature.as_ref(); s.try_into().unwrap() };
				let mut s = third::libsec::Signature(b[..64].try_into().unwrap());
				negate(&mut s.0);
				b[..64].copy_from_slice(&s.0);
				b[64] ^= 1;
				x.signature = sp_core::ecdsa::Signature::from_raw(b).into();
				name = "malleated signature";
				w = Some(x);
			},
			8 if !seen.is_empty() => {
				let mut m = r.pick(&seen).encode();
				match r.below(3) {
					0 => m.truncate(r.idx(m.len())),
					1 => m.extend([1, 2, 3]),
					_ => {
						let i = r.idx(m.len());
						m[i] ^= 1 << r.below(8)
					},
				}
				st.fault("damaged message");
				self.send_all(targets, m);
				return;
			},
			9 => {
				let p = sp_core::ecdsa::Pair::from_string("//outsider", None).unwrap();
				let d = simcrypto::sha2_256(&pick.encode());
				let q = known.first();
				let d = q.and_then(|q| digest_of(&q.req, &p.public().0)).unwrap_or(d);
				name = "outsider's witness";
				w = Some(Witness { digest: d, chain_id: EthyChainId::Ethereum, event_id: q.map_or(self.next_id, |q| q.req.id), validator_set_id: self.set_id, authority_id: p.public().into(), signature: p.sign_prehashed(&d).into(), block_number: fin });
			},
			10 if !seen.is_empty() => {
				// somebody else's signature under another name
				let mut x = r.pick(&seen).clone();
				x.authority_id = self.keys[r.idx(self.keys.len())].1.clone();
				name = "witness under another's name";
				w = Some(x);
			},
			_ if !seen.is_empty() => {
				name = "replayed message";
				w = Some(r.pick(&seen).clone());
			},
			_ => {},
		}
		if let Some(w) = w {
			st.fault(name);
			self.send_all(targets, w.encode());
		}
	}
	/// faults stop, time passes; then new requests must be proved everywhere
	fn calm(&mut self, seed: u64, noise: bool, st: &mut Stats) -> Res {
		let mut r = Rng::new(seed);
		let begun = self.tip();
		for n in 0..self.nodes.len() {
			self.nodes[n].stalled = false;
			let mut h = self.nodes[n].h.get();
			h.syncing = false;
			h.api_fail = false;
			h.aux_fail = false;
		}
		for n in 0..self.nodes.len() {
			if !self.nodes[n].up {
				self.start(n);
			}
		}
		self.heal();
		self.settle(&mut r, st)?;
		// nodes that waited for the sync to end
		for _ in 0..6 {
			self.time(1000, r.next(), st)?;
			self.settle(&mut r, st)?;
		}
		for n in 0..self.nodes.len() {
			while self.ahead(n) < self.tip() {
				let to = self.ahead(n) + 1;
				self.finality(n, to, st)?;
			}
		}
		self.settle(&mut r, st)?;
		// events whose signatures are all still held by somebody
		let now = self.blk(self.tip());
		let mut open: Vec<u64> = vec![];
		for (id, q) in &self.recs {
			let b = self.blk(q.block);
			let stored = self.nodes.iter().any(|n| n.stored.contains_key(&(chain_no(q.req.chain), *id)));
			if stored || q.block + 25 < begun || q.out_of_order || b.set != now.set || b.xrpl != now.xrpl {
				continue;
			}
			if self.nodes.iter().any(|n| n.failed.contains(id) || n.blind) {
				continue;
			}
			let signers: Vec<usize> = self.nodes.iter().filter(|n| n.own.contains(id)).filter_map(|n| n.key).collect();
			let x = signers.iter().filter(|k| b.xrpl.validators.contains(&self.keys[**k].1)).count() as u32;
			let enough = match q.req.chain {
				EthyChainId::Ethereum => signers.len() as u32 >= b.set.proof_threshold,
				EthyChainId::Xrpl => x >= b.xrpl.proof_threshold.max(1),
			};
			if enough {
				open.push(*id);
			}
		}
		if !open.is_empty() {
			st.count("calm periods with unproved events");
			for s in 0..200u64 {
				self.time(1000, r.next(), st)?;
				self.settle(&mut r, st)?;
				if s % 4 == 3 {
					self.block(&[], None, None, st);
					for n in 0..self.nodes.len() {
						let t = self.tip();
						self.finality(n, t, st)?;
					}
				}
				if open.iter().all(|id| self.anywhere(*id)) {
					break;
				}
			}
			for id in &open {
				st.hit("E02");
				check!("E02", "lost", self.anywhere(*id), "event {id} was signed by enough validators that stayed up, all are connected again for 200 s, and no node has a proof");
			}
		}
		// requests from here on
		self.block(&[], None, None, st);
		for n in 0..self.nodes.len() {
			let t = self.tip();
			self.finality(n, t, st)?;
		}
		self.settle(&mut r, st)?;
		let set = self.blk(self.tip());
		let mut asked = vec![];
		// events lower than all a node has completed are old to it
		let low: Vec<Option<u64>> = self.nodes.iter().map(|n| n.done.first().copied()).collect();
		for k in 0..3u64 {
			if noise {
				for _ in 0..4 {
					let (a, b, c) = (r.below(12) as u8, r.next() as u16, r.next());
					self.evil(a, b, c, st);
				}
			}
			let q = NewReq { xrpl: r.chance(1, 2) && !set.xrpl.validators.is_empty(), len: 32, late: 0, tag: seed ^ k };
			let ids = self.block(&[q], None, None, st);
			asked.extend(ids);
			let mut order: Vec<usize> = (0..self.nodes.len()).collect();
			for i in (1..order.len()).rev() {
				order.swap(i, r.idx(i + 1));
			}
			let t = self.tip();
			for n in order {
				self.finality(n, t, st)?;
				if noise && r.chance(1, 2) {
					let (a, b, c) = (r.below(12) as u8, r.next() as u16, r.next());
					self.evil(a, b, c, st);
				}
				let some = r.idx(6);
				for _ in 0..some {
					let w = self.wires();
					if !w.is_empty() {
						let (a, b) = *r.pick(&w);
						self.deliver(a, b, st)?;
					}
				}
			}
			self.time(r.range(100, 4000), r.next(), st)?;
		}
		self.settle(&mut r, st)?;
		for _ in 0..6 {
			self.time(2000, r.next(), st)?;
			self.settle(&mut r, st)?;
		}
		for id in asked {
			let q = self.recs[&id].clone();
			if digest_of(&q.req, &[0; 33]).is_none() || (q.req.chain == EthyChainId::Xrpl && self.blk(q.block).xrpl.validators.is_empty()) {
				continue;
			}
			if q.out_of_order && low.iter().any(|l| l.map_or(true, |l| l > id)) {
				continue;
			}
			for n in 0..self.nodes.len() {
				if q.out_of_order {
					st.count("late requests proved");
				}
				st.hit("E02");
				check!("E02", "not-proved", self.nodes[n].stored.contains_key(&(chain_no(q.req.chain), id)), "event {id} ({:?}): all nodes are up and connected, and node {n} has no proof", q.req.chain);
			}
		}
		for n in &mut self.nodes {
			n.blind = false;
		}
		Ok(())
	}
	fn anywhere(&self, id: u64) -> bool {
		self.nodes.iter().any(|n| n.stored.contains_key(&(1, id)) || n.stored.contains_key(&(2, id)))
	}
	/// E01 as clients see it
	fn read_all(&mut self, st: &mut Stats) -> Res {
		for n in 0..self.nodes.len() {
			let nd = &self.nodes[n];
			if !nd.up {
				continue;
			}
			let rpc = nd.rpc.as_ref().unwrap();
			for (id, q) in &self.recs {
				let b = self.blk(q.block);
				let e = rpc.get_event_proof(*id).map_err(|_| viol("E01", "rpc-error", "getEventProof failed"))?;
				let x = rpc.get_xrpl_tx_proof(*id).map_err(|_| viol("E01", "rpc-error", "getXrplTxProof failed"))?;
				check_eq!("E01", "rpc-missing", e.is_some(), nd.stored.contains_key(&(1, *id)), "whether node {n} serves event {id} for Ethereum");
				check_eq!("E01", "rpc-missing", x.is_some(), nd.stored.contains_key(&(2, *id)), "whether node {n} serves event {id} for XRPL");
				if let Some(e) = e {
					st.count("proofs served");
					self.eth_response(&serde_json::to_value(&e).unwrap(), q, &b)?;
				}
				if let Some(x) = x {
					st.count("proofs served");
					let v = serde_json::to_value(&x).unwrap();
					let (sigs, keys) = (bytes(&v["signatures"]), bytes(&v["validators"]));
					check_eq!("E01", "rpc-xrpl", (v["event_id"].as_u64(), v["validator_set_id"].as_u64(), v["block"].clone()), (Some(*id), Some(b.xrpl.id), serde_json::to_value(b.hash).unwrap()), "event, set and block of the XRPL proof of {id}");
					check_eq!("E01", "rpc-xrpl", sigs.len(), keys.len(), "signatures and signers of event {id}");
					check!("E01", "rpc-xrpl", sigs.len() as u32 >= b.xrpl.proof_threshold.max(1), "event {id}: {} XRPL signatures served, {} needed", sigs.len(), b.xrpl.proof_threshold);
					let mut once = BTreeSet::new();
					for (s, k) in sigs.iter().zip(&keys) {
						check!("E01", "rpc-xrpl", once.insert(k.clone()), "event {id}: a signer twice");
						check!("E01", "rpc-xrpl", b.xrpl.validators.iter().any(|a| raw(a)[..] == k[..]), "event {id}: signer {k:?} is no XRPL signer");
						let key: [u8; 33] = k[..].try_into().unwrap();
						let s = third::libsec::Signature::parse_der(s).map_err(|_| viol("E01", "rpc-xrpl", "not DER"))?;
						let mut low = s;
						low.normalize_s();
						check!("E01", "rpc-xrpl", low.0 == s.0, "event {id}: signature is not canonical");
						let d = digest_of(&q.req, &key).unwrap();
						let u = simcrypto::secp256k1::decompress(&key).unwrap();
						check!("E01", "rpc-xrpl", simcrypto::secp256k1::verify_rs(&s.0, &d, &u), "event {id}: served signature is not that signer's");
					}
				}
			}
			if let Some(s) = &nd.sub {
				let v = s.0.lock().unwrap().clone();
				let ids: Vec<u64> = v.iter().filter_map(|x| x["event_id"].as_u64()).collect();
				check_eq!("E01", "announced", ids, nd.told, "events node {n} announced, against those it stored");
				for x in &v {
					let Some(q) = x["event_id"].as_u64().and_then(|id| self.recs.get(&id)) else { continue };
					if q.req.chain == EthyChainId::Ethereum {
						self.eth_response(x, q, &self.blk(q.block))?;
					}
				}
			}
		}
		Ok(())
	}
	fn eth_response(&self, v: &serde_json::Value, q: &Rec, b: &Blk) -> Res {
		let id = q.req.id;
		check_eq!("E01", "rpc-eth", (v["event_id"].as_u64(), v["validator_set_id"].as_u64(), v["block"].clone()), (Some(id), Some(b.set.id), serde_json::to_value(b.hash).unwrap()), "event, set and block of the proof of {id}");
		let sigs = bytes(&v["signatures"]);
		let vals = v["validators"].as_array().cloned().unwrap_or_default();
		check_eq!("E01", "rpc-eth", (sigs.len(), vals.len()), (b.set.validators.len(), b.set.validators.len()), "signatures and validators of event {id}");
		let mut n = 0;
		for (i, a) in b.set.validators.iter().enumerate() {
			let key = raw(a);
			let want = hex::encode(eth_address(&key));
			check!("E01", "rpc-eth", vals[i].as_str().map_or(false, |s| s.to_lowercase().ends_with(&want)) || serde_json::to_string(&vals[i]).unwrap().to_lowercase().contains(&want), "event {id}: validator {i} is served as {}, not {want}", vals[i]);
			if sigs[i].iter().all(|b| *b == 0) {
				continue;
			}
			let s: [u8; 65] = sigs[i][..].try_into().unwrap_or([0; 65]);
			let d: [u8; 32] = q.req.data.clone().try_into().unwrap_or_default();
			let got = simcrypto::secp256k1::recover(&s, &d).ok();
			check!("E01", "rpc-eth", got == simcrypto::secp256k1::decompress(&key), "event {id}: ecrecover of signature {i} is not validator {i}");
			n += 1;
		}
		check!("E01", "rpc-eth", n >= b.set.proof_threshold.max(1), "event {id}: {n} signatures served, {} needed", b.set.proof_threshold);
		Ok(())
	}
}
struct Spec;
impl node::chain_spec::ChainSpec for Spec {}
fn node_clear(n: &mut Node) {
	n.fut = None;
	n.rpc = None;
	n.sub = None;
	n.told.clear();
	n.pending.clear();
	n.own.clear();
	n.done.clear();
	n.stalled = false;
	n.blind = false;
	let mut h = n.h.get();
	h.finality.clear();
	h.inbox.clear();
	h.outbox.clear();
	h.net_waker = None;
	h.listening = false;
	h.tasks.clear();
	h.api_fail = false;
	h.aux_fail = false;
	n.flag = Default::default();
}
fn bytes(v: &serde_json::Value) -> Vec<Vec<u8>> {
	v.as_array()
		.into_iter()
		.flatten()
		.map(|x| match x {
			serde_json::Value::String(s) => hex::decode(s.trim_start_matches("0x")).unwrap_or_default(),
			serde_json::Value::Array(a) => a.iter().map(|b| b.as_u64().unwrap_or(0) as u8).collect(),
			_ => vec![],
		})
		.collect()
}
fn negate(s: &mut [u8; 64]) {
	const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
	let mut br = 0i16;
	for i in (0..32).rev() {
		let mut d = N[i] as i16 - s[32 + i] as i16 - br;
		br = if d < 0 { d += 256; 1 } else { 0 };
		s[32 + i] = d as u8;
	}
}

impl Sim for World {
	type Op = Op;
	const NAME: &'static str = "gadget";
	const PROPS: &'static [&'static str] = &["E01", "E02", "E03", "R01"];
	const REAL: &'static [&'static str] = &["ethy-gadget (worker, gossip validator, witness record, keystore use)", "ethy-gadget-rpc", "seed-primitives"];
	const STUB: &'static [&'static str] = &["sc-network-gossip (reimplemented)", "sc-client-api, sp-blockchain, sc-utils, futures-timer, jsonrpsee", "network, finality, runtime API, auxiliary database", "secp256k1 and hashes (own implementation)", "xrpl-codec's multi-signing digest"];
	fn new(seed: u64, _prop: &str) -> Self {
		simkit::env::manual_clock();
		node::timers::clear();
		let mut r = Rng::new(seed ^ 0xe7);
		let nk = r.range(3, 6) as usize;
		let keys: Vec<_> = (0..nk)
			.map(|i| {
				let p = sp_core::ecdsa::Pair::from_string(&seedname(i), None).unwrap();
				let a: AuthorityId = p.public().into();
				(p, a)
			})
			.collect();
		let byz: Vec<usize> = if nk >= 4 && r.chance(2, 3) { vec![r.idx(nk)] } else { vec![] };
		let mut w = World {
			chain: Default::default(),
			keys,
			byz,
			nodes: vec![],
			cut: Default::default(),
			link: Default::default(),
			wire: Default::default(),
			seen: vec![],
			next_id: *r.pick(&[0, 1, 5, 1000]),
			late: vec![],
			recs: Default::default(),
			max_id: None,
			set_id: *r.pick(&[0, 0, 1, 7]),
			now: 0,
		};
		// a set with enough honest members, and some of them sign for XRPL
		let mut set: Vec<usize> = (0..nk).collect();
		for i in (1..nk).rev() {
			set.swap(i, r.idx(i + 1));
		}
		let cutto = r.range(2, nk as u64) as usize;
		let short: Vec<usize> = set[..cutto].to_vec();
		if w.fair(&short) {
			set = short;
		}
		let mut x: Vec<usize> = set.iter().copied().filter(|_| r.chance(3, 4)).collect();
		if !w.fair_x(&x, &set) {
			x.retain(|k| !w.byz.contains(k));
		}
		if !w.fair_x(&x, &set) {
			x.clear();
		}
		let (vs, xs) = (w.vset(&set), w.xset(&x));
		let base = *r.pick(&[1usize, 1, 3, 100]);
		for _ in 0..base {
			w.append(vec![], vs.clone(), xs.clone(), false);
		}
		let honest: Vec<usize> = (0..nk).filter(|k| !w.byz.contains(k)).collect();
		for key in honest.into_iter().map(Some).chain([None]) {
			let h = Handle { h: Default::default(), chain: w.chain.clone() };
			h.get().finalized = base - 1;
			w.nodes.push(Node {
				h, key, up: false, fut: None, flag: Default::default(), pending: Default::default(), stalled: false, rpc: None, sub: None, told: vec![],
				stored: Default::default(), got: Default::default(), own: Default::default(), ever: Default::default(), failed: Default::default(), done: Default::default(), blind: false, since: 0,
			});
		}
		for n in 0..w.nodes.len() {
			w.start(n);
		}
		w
	}
	fn steps(&self, r: &mut Rng) -> usize {
		r.range(15, 60) as usize
	}
	fn gen(&mut self, r: &mut Rng) -> Op {
		let n = self.nodes.len() as u64;
		let node = r.below(n) as u8;
		match r.weighted(&[22, 8, 12, 6, 2, 24, 6, 3, 3, 4, 4, 5, 2, 4, 2, 2, 14, 2, 3]) {
			0 => {
				let k = r.weighted(&[2, 5, 3, 1]);
				let reqs = (0..k)
					.map(|_| {
						let xrpl = r.chance(2, 5);
						NewReq { xrpl, len: if xrpl { r.range(1, 90) as u8 } else if r.chance(1, 25) { 31 } else { 32 }, late: if r.chance(1, 12) { r.range(1, 4) as u8 } else { 0 }, tag: r.next() }
					})
					.collect();
				let mut perm: Vec<u8> = (0..self.keys.len() as u8).collect();
				for i in (1..perm.len()).rev() {
					perm.swap(i, r.idx(i + 1));
				}
				let set = if r.chance(1, 9) { Some(perm[..r.range(1, perm.len() as u64) as usize].to_vec()) } else { None };
				let xrpl = if r.chance(1, 10) { Some(perm.iter().copied().filter(|_| r.chance(1, 2)).collect()) } else { None };
				Op::Block { reqs, set, xrpl }
			},
			1 => Op::Final { node, by: r.range(1, 4) as u8 },
			2 => Op::AllFinal { order: r.next() },
			3 => Op::Deliver { from: r.below(n + 1) as u8, to: r.below(n + 1) as u8 },
			4 => Op::Lose { from: r.below(n + 1) as u8, to: r.below(n) as u8 },
			5 => Op::Mix { n: r.range(3, 60) as u8, seed: r.next() },
			6 => Op::Time { ms: *r.pick(&[10, 800, 1200, 4000, 20_000, 180_000]) },
			7 => Op::Cut { a: node, b: r.below(n) as u8 },
			8 => Op::Part { mask: r.next() as u16 },
			9 => Op::Heal,
			10 => Op::Crash { node },
			11 => Op::Restart { node: self.nodes.iter().position(|n| !n.up).unwrap_or(node as usize) as u8, syncing: r.chance(1, 3) },
			12 => Op::Sync { node, on: r.chance(1, 2) },
			13 => Op::Stall { node, on: r.chance(1, 2) },
			14 => Op::Api { node, fail: r.chance(1, 2) },
			15 => Op::Disk { node, fail: r.chance(1, 2) },
			16 => Op::Byz { kind: r.below(12) as u8, targets: if r.chance(1, 2) { u16::MAX } else { r.next() as u16 }, pick: r.next() },
			17 => Op::Subscribe { node },
			_ => Op::Calm { seed: r.next(), noise: r.chance(2, 3) },
		}
	}
	fn apply(&mut self, op: &Op, st: &mut Stats) -> Res {
		let nn = self.nodes.len();
		let at = |x: u8| x as usize % nn;
		st.op(&format!("{op:?}").split([' ', '{']).next().unwrap_or(""), true);
		match op {
			Op::Block { reqs, set, xrpl } => {
				self.block(reqs, set.as_deref(), xrpl.as_deref(), st);
				self.time(4000, 0, st)?;
			},
			Op::Final { node, by } => {
				let n = at(*node);
				let to = (self.ahead(n) + *by as usize).min(self.tip());
				if to > self.ahead(n) + 1 {
					st.fault("finality skips blocks");
				}
				if to > self.ahead(n) {
					self.finality(n, to, st)?;
				}
			},
			Op::AllFinal { order } => {
				for i in 0..nn {
					let n = (i + *order as usize % nn) % nn;
					while self.nodes[n].up && self.ahead(n) < self.tip() {
						let to = self.ahead(n) + 1;
						self.finality(n, to, st)?;
					}
				}
			},
			Op::Deliver { from, to } => self.deliver(*from as usize % (nn + 1), *to as usize % (nn + 1), st)?,
			Op::Lose { from, to } => {
				if let Some(q) = self.wire.get_mut(&(*from as usize % (nn + 1), at(*to))) {
					if q.pop_front().is_some() {
						st.fault("message lost");
					}
				}
			},
			Op::Mix { n, seed } => self.mix(*n as usize, &mut Rng::new(*seed), st)?,
			Op::Time { ms } => self.time(*ms as u64, 0, st)?,
			Op::Cut { a, b } => {
				st.fault("link cut");
				self.cut(at(*a), at(*b));
			},
			Op::Part { mask } => {
				st.fault("partition");
				for a in 0..nn {
					for b in a + 1..nn {
						if (mask >> a ^ mask >> b) & 1 == 1 {
							self.cut(a, b);
						}
					}
				}
			},
			Op::Heal => self.heal(),
			Op::Crash { node } => {
				if self.nodes[at(*node)].up {
					st.fault("crash");
				}
				self.crash(at(*node));
			},
			Op::Restart { node, syncing } => {
				let n = at(*node);
				if !self.nodes[n].up {
					self.nodes[n].h.get().syncing = *syncing;
					self.start(n);
					self.feed(n, st)?;
				}
			},
			Op::Sync { node, on } => {
				st.fault("major sync");
				self.nodes[at(*node)].h.get().syncing = *on;
			},
			Op::Stall { node, on } => {
				st.fault("stalled node");
				self.nodes[at(*node)].stalled = *on;
				self.feed(at(*node), st)?;
			},
			Op::Api { node, fail } => {
				st.fault("runtime cannot be asked");
				let n = at(*node);
				self.nodes[n].h.get().api_fail = *fail;
				self.nodes[n].blind |= *fail;
			},
			Op::Disk { node, fail } => {
				st.fault("database refuses writes");
				self.nodes[at(*node)].h.get().aux_fail = *fail;
			},
			Op::Byz { kind, targets, pick } => self.evil(*kind, *targets, *pick, st),
			Op::Subscribe { node } => {
				let nd = &mut self.nodes[at(*node)];
				if nd.up && nd.sub.is_none() {
					let s = SubscriptionSink::default();
					let _ = nd.rpc.as_ref().unwrap().subscribe_event_proofs(s.clone());
					nd.sub = Some(s);
					nd.told.clear();
					nd.flag.0.store(true, Ordering::SeqCst);
					self.feed(at(*node), st)?;
				}
			},
			Op::Calm { seed, noise } => self.calm(*seed, *noise, st)?,
		}
		for n in 0..nn {
			self.run(n, st)?;
		}
		if matches!(op, Op::Calm { .. }) {
			self.read_all(st)?;
		}
		let mut h = 0u64;
		for n in &self.nodes {
			h = h.rotate_left(7) ^ fnv(&(n.stored.keys().map(|k| *k).collect::<Vec<_>>(), n.own.len() as u32, n.up, n.stalled, n.h.get().finalized as u32, n.pending.len() as u32).encode());
		}
		h ^= fnv(&(self.tip() as u32, self.link.len() as u32, self.wire.values().map(|q| q.len() as u32).collect::<Vec<_>>()).encode());
		st.state(h);
		st.digest(h);
		Ok(())
	}
	fn finish(&mut self, st: &mut Stats) -> Res {
		self.calm(0x77 ^ self.next_id, true, st)?;
		self.read_all(st)
	}
	fn panic_prop(&self) -> String {
		"E02".into()
	}
	fn quick_runs() -> u64 {
		9000
	}
	fn thorough_runs() -> u64 {
		150_000
	}
	fn rule() -> &'static str {
		"an evaluation is one simulated run of a network of 3 to 7 nodes (validators, candidates, an observer) with an adversary; it counts for E01 when a proof was stored, for E02 when faults had stopped and requests were waited for, for E03 when a node sent a witness"
	}
}
fn main() {
	simkit::main::<World>();
}
