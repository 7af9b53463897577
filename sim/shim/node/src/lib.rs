//! Stand-ins for the client side of substrate (sc-*), driven by a simulator: every message, timer
//! and database write goes through a hook of the running simulation.
#![allow(clippy::all)]
pub mod gossip;

pub mod timers {
	//! `futures-timer` on the simulated clock: a delay is done once the clock has reached it; the
	//! simulator wakes what is due with [`fire`].
	use std::cell::RefCell;
	use std::future::Future;
	use std::pin::Pin;
	use std::task::{Context, Poll, Waker};
	use std::time::{Duration, Instant};
	thread_local! {
		static WAITING: RefCell<Vec<(Instant, Waker)>> = RefCell::new(Vec::new());
	}
	pub struct Delay(Instant);
	impl Delay {
		pub fn new(d: Duration) -> Self {
			Delay(Instant::now() + d)
		}
		pub fn reset(&mut self, d: Duration) {
			self.0 = Instant::now() + d;
		}
	}
	impl Future for Delay {
		type Output = ();
		fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
			if Instant::now() >= self.0 {
				return Poll::Ready(());
			}
			WAITING.with(|w| {
				let mut w = w.borrow_mut();
				if !w.iter().any(|(t, k)| *t == self.0 && k.will_wake(cx.waker())) {
					w.push((self.0, cx.waker().clone()));
				}
			});
			Poll::Pending
		}
	}
	/// when the next delay ends
	pub fn next() -> Option<Instant> {
		WAITING.with(|w| w.borrow().iter().map(|x| x.0).min())
	}
	/// wakes whatever is due now
	pub fn fire() {
		let now = Instant::now();
		let due: Vec<Waker> = WAITING.with(|w| {
			let mut w = w.borrow_mut();
			let (d, k): (Vec<_>, Vec<_>) = w.drain(..).partition(|x| x.0 <= now);
			*w = k;
			d.into_iter().map(|x| x.1).collect()
		});
		due.into_iter().for_each(|k| k.wake());
	}
	pub fn clear() {
		WAITING.with(|w| w.borrow_mut().clear());
	}
}

pub mod chain_spec {
	pub trait ChainSpec {
		fn fork_id(&self) -> Option<&str> {
			None
		}
	}
}

pub mod blockchain {
	use substrate::runtime::traits::{Block as BlockT, Header as HeaderT, NumberFor};
	#[derive(Debug)]
	pub enum Error {
		UnknownBlock(String),
		Backend(String),
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for Error {}
	pub type Result<T> = std::result::Result<T, Error>;
	#[derive(Debug, Clone)]
	pub struct Info<Block: BlockT> {
		pub best_hash: Block::Hash,
		pub best_number: NumberFor<Block>,
		pub genesis_hash: Block::Hash,
		pub finalized_hash: Block::Hash,
		pub finalized_number: NumberFor<Block>,
	}
	pub trait HeaderBackend<Block: BlockT>: Send + Sync {
		fn header(&self, hash: Block::Hash) -> Result<Option<Block::Header>>;
		fn info(&self) -> Info<Block>;
		fn number(&self, hash: Block::Hash) -> Result<Option<<Block::Header as HeaderT>::Number>>;
		fn hash(&self, number: NumberFor<Block>) -> Result<Option<Block::Hash>>;
		fn expect_header(&self, hash: Block::Hash) -> Result<Block::Header> {
			self.header(hash)?.ok_or_else(|| Error::UnknownBlock(format!("Expect header: {hash:?}")))
		}
	}
}

pub mod consensus {
	pub trait SyncOracle: Send + Sync {
		fn is_major_syncing(&self) -> bool;
		fn is_offline(&self) -> bool;
	}
}

pub mod client {
	use crate::blockchain::{HeaderBackend, Result};
	use std::sync::Arc;
	use substrate::runtime::traits::Block as BlockT;
	pub trait AuxStore {
		fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> Result<()>;
		fn get_aux(&self, key: &[u8]) -> Result<Option<Vec<u8>>>;
	}
	pub trait Backend<Block: BlockT>: AuxStore + Send + Sync {
		type Blockchain: HeaderBackend<Block>;
		fn blockchain(&self) -> &Self::Blockchain;
		fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> Result<()> {
			AuxStore::insert_aux(self, insert, delete)
		}
		fn get_aux(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
			AuxStore::get_aux(self, key)
		}
	}
	pub mod backend {
		pub use super::{AuxStore, Backend};
	}
	#[derive(Debug)]
	pub struct FinalityNotification<Block: BlockT> {
		pub hash: Block::Hash,
		pub header: Block::Header,
		pub tree_route: Arc<[Block::Hash]>,
		pub stale_heads: Arc<[Block::Hash]>,
	}
	impl<Block: BlockT> Clone for FinalityNotification<Block> {
		fn clone(&self) -> Self {
			Self { hash: self.hash.clone(), header: self.header.clone(), tree_route: self.tree_route.clone(), stale_heads: self.stale_heads.clone() }
		}
	}
	pub type FinalityNotifications<Block> = futures::channel::mpsc::UnboundedReceiver<FinalityNotification<Block>>;
	pub trait BlockchainEvents<Block: BlockT> {
		fn finality_notification_stream(&self) -> FinalityNotifications<Block>;
	}
	pub trait Finalizer<Block: BlockT, B: Backend<Block>> {}
}

pub mod network {
	#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct PeerId(pub u64);
	#[derive(Debug, Clone, PartialEq, Eq, Hash)]
	pub enum ProtocolName {
		Static(&'static str),
		OnHeap(std::sync::Arc<str>),
	}
	pub mod config {
		#[derive(Clone, Debug)]
		pub struct NonDefaultSetConfig {
			pub name: super::ProtocolName,
			pub max: u64,
			pub slots: (u32, u32),
		}
		impl NonDefaultSetConfig {
			pub fn new(name: super::ProtocolName, max: u64) -> Self {
				Self { name, max, slots: (0, 0) }
			}
			pub fn allow_non_reserved(&mut self, i: u32, o: u32) {
				self.slots = (i, o);
			}
		}
	}
}

pub mod notifications {
	//! sc-utils: the notification hub of proofs
	use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
	use std::sync::{Arc, Mutex};
	pub trait TracingKeyStr {
		const TRACING_KEY: &'static str;
	}
	type Sinks<T> = Arc<Mutex<Vec<UnboundedSender<T>>>>;
	pub struct NotificationSender<T>(Sinks<T>);
	impl<T> Clone for NotificationSender<T> {
		fn clone(&self) -> Self {
			Self(self.0.clone())
		}
	}
	impl<T: Clone> NotificationSender<T> {
		pub fn notify<E>(&self, payload: impl FnOnce() -> Result<T, E>) -> Result<(), E> {
			let mut s = self.0.lock().unwrap();
			s.retain(|x| !x.is_closed());
			if s.is_empty() {
				return Ok(());
			}
			let p = payload()?;
			s.retain(|x| x.unbounded_send(p.clone()).is_ok());
			Ok(())
		}
	}
	pub struct NotificationStream<T, K>(Sinks<T>, std::marker::PhantomData<K>);
	impl<T, K> Clone for NotificationStream<T, K> {
		fn clone(&self) -> Self {
			Self(self.0.clone(), Default::default())
		}
	}
	impl<T, K: TracingKeyStr> NotificationStream<T, K> {
		pub fn channel() -> (NotificationSender<T>, Self) {
			let s: Sinks<T> = Default::default();
			(NotificationSender(s.clone()), Self(s, Default::default()))
		}
		pub fn subscribe(&self, _warn: usize) -> UnboundedReceiver<T> {
			let (a, b) = unbounded();
			self.0.lock().unwrap().push(a);
			b
		}
	}
	pub mod notification {
		pub use super::*;
	}
}

pub mod prometheus {
	use std::sync::{Arc, Mutex};
	#[derive(Debug)]
	pub struct PrometheusError(pub String);
	#[derive(Clone, Default)]
	pub struct Registry(pub Arc<Mutex<Vec<String>>>);
	#[derive(Clone, Default, Debug)]
	pub struct U64;
	macro_rules! metric { ($n:ident) => {
		#[derive(Clone)]
		pub struct $n<T>(String, Arc<std::sync::atomic::AtomicU64>, std::marker::PhantomData<T>);
		impl<T> $n<T> {
			pub fn new(name: &str, _help: &str) -> Result<Self, PrometheusError> {
				Ok(Self(name.into(), Default::default(), Default::default()))
			}
			pub fn get(&self) -> u64 { self.1.load(std::sync::atomic::Ordering::Relaxed) }
			pub fn set(&self, v: u64) { self.1.store(v, std::sync::atomic::Ordering::Relaxed) }
			pub fn inc(&self) { self.1.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
		}
		impl<T> Named for $n<T> { fn name(&self) -> String { self.0.clone() } }
	} }
	pub trait Named {
		fn name(&self) -> String;
	}
	metric!(Counter);
	metric!(Gauge);
	pub fn register<T: Named>(m: T, r: &Registry) -> Result<T, PrometheusError> {
		let mut v = r.0.lock().unwrap();
		if v.contains(&m.name()) {
			return Err(PrometheusError(m.name()));
		}
		v.push(m.name());
		Ok(m)
	}
}

pub mod rpc {
	//! jsonrpsee and sc-rpc, as far as a handler can tell
	use std::future::Future;
	use std::pin::Pin;
	use std::sync::{Arc, Mutex};
	#[derive(Debug)]
	pub struct Error(pub String);
	pub type RpcResult<T> = Result<T, Error>;
	#[derive(Debug)]
	pub struct SubscriptionEmptyError;
	/// what a subscriber has been sent
	#[derive(Clone, Default)]
	pub struct SubscriptionSink(pub Arc<Mutex<Vec<serde_json::Value>>>);
	impl SubscriptionSink {
		pub async fn pipe_from_stream<S, T>(&mut self, mut s: S)
		where
			S: futures::Stream<Item = T> + Unpin,
			T: serde::Serialize,
		{
			use futures::StreamExt;
			while let Some(x) = s.next().await {
				self.0.lock().unwrap().push(serde_json::to_value(&x).unwrap());
			}
		}
	}
	pub type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
	pub trait Spawn: Send + Sync {
		fn spawn(&self, name: &'static str, group: Option<&'static str>, f: Task);
	}
	pub type SubscriptionTaskExecutor = Arc<dyn Spawn>;
}
