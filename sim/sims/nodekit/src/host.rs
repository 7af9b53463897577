//! One node's surroundings: its view of the finalised chain, its database, network and RPC server.
use futures::channel::mpsc::{unbounded, UnboundedSender};
use node::blockchain::{Error, HeaderBackend, Info, Result as BResult};
use node::client::*;
use node::gossip::{NetEvent, Network, Syncing};
use node::network::PeerId;
use seed_primitives::ethy::{crypto::AuthorityId, EthyApi, EthyChainId, ValidatorSet};
use sp_api::{ApiError, ApiRef, ProvideRuntimeApi};
use sp_core::H256;
use sp_runtime::generic;
use sp_runtime::traits::{BlakeTwo256, Header as _};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

pub type Header = generic::Header<u32, BlakeTwo256>;
pub type Block = generic::Block<Header, sp_runtime::OpaqueExtrinsic>;
pub type VSet = ValidatorSet<AuthorityId>;

#[derive(Clone, Debug)]
pub struct Req {
	pub chain: EthyChainId,
	pub id: u64,
	pub data: Vec<u8>,
}
#[derive(Clone)]
pub struct Blk {
	pub header: Header,
	pub hash: H256,
	pub reqs: Vec<Req>,
	pub set: VSet,
	pub xrpl: VSet,
}
/// the finalised chain, block 0 first
#[derive(Default)]
pub struct ChainData {
	pub blocks: Vec<Blk>,
	pub by_hash: BTreeMap<H256, usize>,
}

#[derive(Default)]
pub struct Host {
	pub finalized: usize,
	/// survives a crash
	pub aux: BTreeMap<Vec<u8>, Vec<u8>>,
	pub writes: Vec<(Vec<u8>, Vec<u8>)>,
	pub aux_fail: bool,
	/// keys of the writes that failed
	pub refused: Vec<Vec<u8>>,
	pub api_fail: bool,
	pub syncing: bool,
	/// the worker has last been told that the node is not syncing: it takes events
	pub listening: bool,
	pub finality: Vec<UnboundedSender<FinalityNotification<Block>>>,
	pub inbox: VecDeque<NetEvent>,
	pub net_waker: Option<Waker>,
	pub outbox: Vec<(PeerId, Vec<u8>)>,
	pub tasks: Vec<node::rpc::Task>,
}
#[derive(Clone)]
pub struct Handle {
	pub h: Arc<Mutex<Host>>,
	pub chain: Arc<Mutex<ChainData>>,
}
impl Handle {
	pub fn get(&self) -> MutexGuard<'_, Host> {
		self.h.lock().unwrap_or_else(|e| e.into_inner())
	}
	pub fn chain(&self) -> MutexGuard<'_, ChainData> {
		self.chain.lock().unwrap_or_else(|e| e.into_inner())
	}
	/// a message or a peer's coming or going
	pub fn push(&self, e: NetEvent) {
		let w = {
			let mut h = self.get();
			h.inbox.push_back(e);
			h.net_waker.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
	/// the node's chain is final up to there; a notification for the last block only
	pub fn finalise(&self, upto: usize) {
		let b = self.chain().blocks[upto].clone();
		let mut h = self.get();
		h.finalized = upto;
		let n = FinalityNotification { hash: b.hash, header: b.header, tree_route: Arc::new([]), stale_heads: Arc::new([]) };
		h.finality.retain(|s| s.unbounded_send(n.clone()).is_ok());
	}
}
impl HeaderBackend<Block> for Handle {
	fn header(&self, hash: H256) -> BResult<Option<Header>> {
		let c = self.chain();
		Ok(c.by_hash.get(&hash).map(|i| c.blocks[*i].header.clone()))
	}
	fn info(&self) -> Info<Block> {
		let f = self.get().finalized;
		let c = self.chain();
		let b = &c.blocks[f];
		Info { best_hash: b.hash, best_number: f as u32, genesis_hash: c.blocks[0].hash, finalized_hash: b.hash, finalized_number: f as u32 }
	}
	fn number(&self, hash: H256) -> BResult<Option<u32>> {
		Ok(self.header(hash)?.map(|h| *h.number()))
	}
	fn hash(&self, n: u32) -> BResult<Option<H256>> {
		Ok(self.chain().blocks.get(n as usize).map(|b| b.hash))
	}
}
impl AuxStore for Handle {
	fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> BResult<()> {
		let mut h = self.get();
		if h.aux_fail {
			for (k, _) in insert {
				h.refused.push(k.to_vec());
			}
			return Err(Error::Backend("disk full".into()));
		}
		for (k, v) in insert {
			h.aux.insert(k.to_vec(), v.to_vec());
			h.writes.push((k.to_vec(), v.to_vec()));
		}
		for k in delete {
			h.aux.remove(*k);
			h.writes.push((k.to_vec(), vec![]));
		}
		Ok(())
	}
	fn get_aux(&self, key: &[u8]) -> BResult<Option<Vec<u8>>> {
		Ok(self.get().aux.get(key).cloned())
	}
}
impl Backend<Block> for Handle {
	type Blockchain = Handle;
	fn blockchain(&self) -> &Handle {
		self
	}
}
impl BlockchainEvents<Block> for Handle {
	fn finality_notification_stream(&self) -> FinalityNotifications<Block> {
		let (a, b) = unbounded();
		self.get().finality.push(a);
		b
	}
}
impl Finalizer<Block, Handle> for Handle {}
/// the runtime, as the worker (`sure`: and the RPC server) sees it
pub struct Api {
	pub h: Handle,
	pub sure: bool,
}
impl Api {
	fn at(&self, at: H256) -> Result<Blk, ApiError> {
		let bad = !self.sure && self.h.get().api_fail;
		let c = self.h.chain();
		match c.by_hash.get(&at) {
			Some(i) if !bad => Ok(c.blocks[*i].clone()),
			_ => Err(ApiError::UnknownBlock("no state".into())),
		}
	}
}
impl EthyApi<Block> for Api {
	fn validator_set(&self, at: H256) -> Result<VSet, ApiError> {
		self.at(at).map(|b| b.set)
	}
	fn xrpl_signers(&self, at: H256) -> Result<VSet, ApiError> {
		self.at(at).map(|b| b.xrpl)
	}
}
impl ProvideRuntimeApi<Block> for Handle {
	type Api = Api;
	fn runtime_api<'a>(&'a self) -> ApiRef<'a, Api> {
		Api { h: self.clone(), sure: false }.into()
	}
}
pub struct Sure(pub Handle);
impl ProvideRuntimeApi<Block> for Sure {
	type Api = Api;
	fn runtime_api<'a>(&'a self) -> ApiRef<'a, Api> {
		Api { h: self.0.clone(), sure: true }.into()
	}
}
impl Network<Block> for Handle {
	fn send(&self, to: PeerId, m: Vec<u8>) {
		self.get().outbox.push((to, m));
	}
	fn poll_event(&self, cx: &mut Context<'_>) -> Poll<Option<NetEvent>> {
		let mut h = self.get();
		match h.inbox.pop_front() {
			Some(e) => Poll::Ready(Some(e)),
			None => {
				h.net_waker = Some(cx.waker().clone());
				Poll::Pending
			},
		}
	}
}
impl Syncing<Block> for Handle {}
impl node::consensus::SyncOracle for Handle {
	fn is_major_syncing(&self) -> bool {
		let mut h = self.get();
		h.listening = !h.syncing;
		h.syncing
	}
	fn is_offline(&self) -> bool {
		false
	}
}
impl node::rpc::Spawn for Handle {
	fn spawn(&self, _: &'static str, _: Option<&'static str>, f: node::rpc::Task) {
		self.get().tasks.push(f);
	}
}
#[derive(Default)]
pub struct Flag(pub AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, Ordering::SeqCst);
	}
}
