//! A node's surroundings for the ethy gadget, and a small network of nodes for demonstrations.
pub mod host;
pub use codec::{Decode, Encode};
pub use host::*;
pub use node::gossip::NetEvent;
pub use node::network::PeerId;
pub use seed_primitives::ethy::{
	crypto::{AuthorityId, AuthoritySignature},
	ConsensusLog, EthyChainId, EventProof, ValidatorSet, VersionedEventProof, Witness, ETHY_ENGINE_ID, ETHY_KEY_TYPE,
};
use sp_core::{crypto::Pair as _, H256};
use sp_runtime::generic::{Digest, DigestItem};
use sp_runtime::traits::Header as _;
use std::collections::BTreeSet;
use std::future::Future;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Spec;
impl node::chain_spec::ChainSpec for Spec {}
pub struct Peer {
	pub h: Handle,
	fut: Option<std::pin::Pin<Box<dyn Future<Output = ()> + Send>>>,
	flag: Arc<Flag>,
	pub rpc: ethy_gadget_rpc::EthyRpcHandler<Handle, Sure, Block>,
	pub ended: bool,
}
/// nodes 0.. hold the keys 0..; all are connected unless muted
pub struct Rig {
	pub chain: Arc<Mutex<ChainData>>,
	pub keys: Vec<(sp_core::ecdsa::Pair, AuthorityId)>,
	pub peers: Vec<Peer>,
	/// messages on these ways are lost
	pub mute: BTreeSet<(usize, usize)>,
	/// all that was sent
	pub said: Vec<(usize, Vec<u8>)>,
	pub set: VSet,
	pub xrpl: VSet,
}
impl Rig {
	/// `keys` keys, the first `nodes` of which have a node; the first `validators` are the set
	pub fn new(keys: usize, nodes: usize, validators: usize) -> Rig {
		let keys: Vec<_> = (0..keys)
			.map(|i| {
				let p = sp_core::ecdsa::Pair::from_string(&format!("//val{i}"), None).unwrap();
				let a: AuthorityId = p.public().into();
				(p, a)
			})
			.collect();
		let mut r = Rig { chain: Default::default(), keys, peers: vec![], mute: Default::default(), said: vec![], set: ValidatorSet::empty(), xrpl: ValidatorSet::empty() };
		let all: Vec<usize> = (0..validators).collect();
		r.set = r.vset(&all, 1);
		r.xrpl = r.xset(&all, 1);
		r.block(vec![], false);
		for n in 0..nodes {
			let h = Handle { h: Default::default(), chain: r.chain.clone() };
			let p = r.boot(n, h);
			r.peers.push(p);
		}
		r.connect();
		r
	}
	pub fn vset(&self, keys: &[usize], id: u64) -> VSet {
		ValidatorSet { validators: keys.iter().map(|k| self.keys[*k].1.clone()).collect(), id, proof_threshold: ((keys.len() * 66 + 99) / 100) as u32 }
	}
	pub fn xset(&self, keys: &[usize], id: u64) -> VSet {
		ValidatorSet { validators: keys.iter().map(|k| self.keys[*k].1.clone()).collect(), id, proof_threshold: keys.len().saturating_sub(1) as u32 }
	}
	fn boot(&self, n: usize, h: Handle) -> Peer {
		let ks = sp_keystore::testing::MemoryKeystore::new();
		sp_keystore::Keystore::insert(&ks, ETHY_KEY_TYPE, &format!("//val{n}"), &[]).unwrap();
		let (sender, stream) = ethy_gadget::notification::EthyEventProofStream::channel();
		let spec: Box<dyn node::chain_spec::ChainSpec> = Box::new(Spec);
		let name: node::network::ProtocolName = ethy_gadget::protocol_standard_name(&h.chain().blocks[0].hash, &spec);
		let fut = Box::pin(ethy_gadget::start_ethy_gadget(ethy_gadget::EthyParams {
			client: Arc::new(h.clone()),
			backend: Arc::new(h.clone()),
			runtime: Arc::new(h.clone()),
			key_store: Some(Arc::new(ks)),
			network: h.clone(),
			sync_service: h.clone(),
			event_proof_sender: sender,
			prometheus_registry: Some(Default::default()),
			protocol_name: name,
			_phantom: std::marker::PhantomData,
		}));
		let rpc = ethy_gadget_rpc::EthyRpcHandler::new(stream, Arc::new(h.clone()), Arc::new(h.clone()), Arc::new(Sure(h.clone())));
		let flag: Arc<Flag> = Default::default();
		flag.0.store(true, Ordering::SeqCst);
		Peer { h, fut: Some(fut), flag, rpc, ended: false }
	}
	fn connect(&mut self) {
		for a in 0..self.peers.len() {
			self.run(a);
			for b in (0..self.peers.len()).filter(|b| *b != a) {
				self.peers[a].h.push(NetEvent::Opened(PeerId(b as u64)));
				self.run(a);
			}
			// the stranger
			self.peers[a].h.push(NetEvent::Opened(PeerId(99)));
			self.run(a);
		}
	}
	/// a crash and a restart: the database and the finalised chain stay
	pub fn restart(&mut self, n: usize) {
		let h = self.peers[n].h.clone();
		{
			let mut g = h.get();
			g.finality.clear();
			g.inbox.clear();
			g.outbox.clear();
			g.tasks.clear();
			g.net_waker = None;
		}
		self.peers[n] = self.boot(n, h);
		self.run(n);
		for b in (0..self.peers.len()).filter(|b| *b != n) {
			self.peers[b].h.push(NetEvent::Closed(PeerId(n as u64)));
			self.run(b);
			self.peers[b].h.push(NetEvent::Opened(PeerId(n as u64)));
			self.peers[n].h.push(NetEvent::Opened(PeerId(b as u64)));
			self.run(b);
			self.run(n);
		}
	}
	/// appends a block with the rig's present sets, returns its number
	pub fn block(&mut self, reqs: Vec<Req>, change: bool) -> usize {
		let mut c = self.chain.lock().unwrap();
		let n = c.blocks.len();
		let mut logs = vec![];
		if change {
			logs.push(DigestItem::Consensus(ETHY_ENGINE_ID, ConsensusLog::<AuthorityId>::AuthoritiesChange(self.set.clone()).encode()));
		}
		for r in &reqs {
			logs.push(DigestItem::Consensus(ETHY_ENGINE_ID, ConsensusLog::<AuthorityId>::OpaqueSigningRequest { chain_id: r.chain, event_proof_id: r.id, data: r.data.clone() }.encode()));
		}
		let parent = c.blocks.last().map(|b| b.hash).unwrap_or_default();
		let header = Header::new(n as u32, Default::default(), H256::from_low_u64_be(n as u64), parent, Digest { logs });
		let hash = header.hash();
		c.by_hash.insert(hash, n);
		c.blocks.push(Blk { header, hash, reqs, set: self.set.clone(), xrpl: self.xrpl.clone() });
		n
	}
	/// a request of 32 bytes for Ethereum
	pub fn eth(id: u64) -> Req {
		Req { chain: EthyChainId::Ethereum, id, data: vec![id as u8 + 1; 32] }
	}
	pub fn xrp(id: u64) -> Req {
		Req { chain: EthyChainId::Xrpl, id, data: vec![id as u8 + 1; 40] }
	}
	/// a validator's witness of an Ethereum request
	pub fn witness(&self, key: usize, id: u64, digest: [u8; 32], block: u64) -> Witness {
		Witness { digest, chain_id: EthyChainId::Ethereum, event_id: id, validator_set_id: self.set.id, authority_id: self.keys[key].1.clone(), signature: self.keys[key].0.sign_prehashed(&digest).into(), block_number: block }
	}
	pub fn finalise(&mut self, n: usize, to: usize) {
		self.run(n);
		self.peers[n].h.finalise(to);
		self.run(n);
	}
	/// a stranger's message
	pub fn tell(&mut self, n: usize, m: Vec<u8>) {
		self.peers[n].h.push(NetEvent::Message(PeerId(99), m));
		self.run(n);
	}
	fn run(&mut self, n: usize) {
		let p = &mut self.peers[n];
		let waker = Waker::from(p.flag.clone());
		let mut turns = 0;
		while p.flag.0.swap(false, Ordering::SeqCst) && turns < 10_000 {
			turns += 1;
			if let Some(f) = p.fut.as_mut() {
				if let Poll::Ready(()) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
					p.fut = None;
					p.ended = true;
				}
			}
		}
	}
	/// delivers until nobody sends any more
	pub fn deliver(&mut self) {
		for _ in 0..10_000 {
			let mut any = false;
			for a in 0..self.peers.len() {
				self.run(a);
				let out = std::mem::take(&mut self.peers[a].h.get().outbox);
				for (to, m) in out {
					any = true;
					self.said.push((a, m.clone()));
					let b = to.0 as usize;
					if b < self.peers.len() && !self.mute.contains(&(a, b)) {
						self.peers[b].h.push(NetEvent::Message(PeerId(a as u64), m));
						self.run(b);
					}
				}
			}
			if !any {
				return;
			}
		}
	}
	pub fn proof(&self, n: usize, r: &Req) -> Option<EventProof> {
		let mut k = ETHY_ENGINE_ID.to_vec();
		k.push(match r.chain { EthyChainId::Ethereum => 1, EthyChainId::Xrpl => 2 });
		k.extend(r.id.to_be_bytes());
		let v = self.peers[n].h.get().aux.get(&k).cloned()?;
		match VersionedEventProof::decode(&mut &v[..]) {
			Ok(VersionedEventProof::V1(p)) => Some(p),
			_ => None,
		}
	}
}
