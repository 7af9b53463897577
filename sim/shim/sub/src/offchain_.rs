//! sp_core::offchain: offchain worker host functions behind a simulator-controlled provider.
use codec::{Decode, Encode, MaxEncodedLen};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

pub const STORAGE_PREFIX: &[u8] = b"storage";

#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
#[repr(C)]
pub enum StorageKind {
	PERSISTENT = 1,
	LOCAL = 2,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Encode, Decode, MaxEncodedLen)]
pub struct Timestamp(u64);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Encode, Decode)]
pub struct Duration(u64);
impl Duration {
	pub const fn from_millis(m: u64) -> Self {
		Duration(m)
	}
	pub fn millis(&self) -> u64 {
		self.0
	}
}
impl Timestamp {
	pub fn from_unix_millis(m: u64) -> Self {
		Timestamp(m)
	}
	pub fn unix_millis(&self) -> u64 {
		self.0
	}
	pub fn add(&self, d: Duration) -> Timestamp {
		Timestamp(self.0.saturating_add(d.0))
	}
	pub fn sub(&self, d: Duration) -> Timestamp {
		Timestamp(self.0.saturating_sub(d.0))
	}
	pub fn diff(&self, o: &Self) -> Duration {
		Duration(self.0.saturating_sub(o.0))
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
pub struct HttpRequestId(pub u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
pub enum HttpError {
	DeadlineReached,
	IoError,
	Invalid,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
pub enum HttpRequestStatus {
	DeadlineReached,
	IoError,
	Invalid,
	Finished(u16),
}

/// What the simulated world answers to one HTTP request.
#[derive(Debug, Clone)]
pub enum HttpOutcome {
	/// status, body
	Reply(u16, Vec<u8>),
	/// body is cut after n bytes by an I/O error
	Truncated(u16, Vec<u8>, usize),
	Timeout,
	IoError,
	/// sending fails at once
	Refused,
}
pub struct HttpReq {
	pub method: String,
	pub uri: String,
	pub headers: Vec<(String, String)>,
	pub body: Vec<u8>,
}

/// Per node offchain context (persistent local storage survives a crash; everything else not).
#[derive(Default)]
pub struct OffchainState {
	pub persistent_storage: BTreeMap<Vec<u8>, Vec<u8>>,
	pub local_storage: BTreeMap<Vec<u8>, Vec<u8>>,
	pub requests: BTreeMap<u16, (HttpReqState, Option<HttpOutcome>, usize)>,
	pub next_request: u16,
	pub expected_requests: VecDeque<testing::PendingRequest>,
	pub timestamp: u64,
	pub seed: [u8; 32],
	pub seed_counter: u64,
	pub is_validator: bool,
	pub handler: Option<Box<dyn FnMut(&HttpReqState) -> HttpOutcome + Send + Sync>>,
	pub submitted: Vec<Vec<u8>>,
	pub fail_submit: bool,
	pub http_log: u64,
}
#[derive(Debug, Clone, Default)]
pub struct HttpReqState {
	pub method: String,
	pub uri: String,
	pub headers: Vec<(String, String)>,
	pub body: Vec<u8>,
}
impl OffchainState {
	pub fn expect_request(&mut self, r: testing::PendingRequest) {
		self.expected_requests.push_back(r);
	}
}
pub type Shared = Arc<crate::misc::RwLock<OffchainState>>;

pub mod testing {
	use super::*;
	pub use super::OffchainState;
	#[derive(Clone)]
	pub struct TestOffchainExt(pub Shared);
	impl TestOffchainExt {
		pub fn new() -> (Self, Shared) {
			let s: Shared = Arc::new(crate::misc::RwLock::new(OffchainState { is_validator: true, ..Default::default() }));
			(Self(s.clone()), s)
		}
		pub fn with_offchain_db<D>(_d: D) -> (Self, Shared) {
			Self::new()
		}
	}
	#[derive(Clone)]
	pub struct TestTransactionPoolExt(pub Arc<crate::misc::RwLock<PoolState>>);
	#[derive(Default)]
	pub struct PoolState {
		pub transactions: Vec<Vec<u8>>,
	}
	impl TestTransactionPoolExt {
		pub fn new() -> (Self, Arc<crate::misc::RwLock<PoolState>>) {
			let s = Arc::new(crate::misc::RwLock::new(PoolState::default()));
			(Self(s.clone()), s)
		}
	}
	#[derive(Debug, Default, PartialEq, Clone)]
	pub struct PendingRequest {
		pub method: String,
		pub uri: String,
		pub meta: Vec<u8>,
		pub sent: bool,
		pub headers: Vec<(String, String)>,
		pub body: Vec<u8>,
		pub written: Vec<u8>,
		pub response: Option<Vec<u8>>,
		pub read: usize,
		pub response_headers: Vec<(String, String)>,
	}
}

pub struct OffchainDbExt(pub Shared);
pub struct OffchainWorkerExt(pub Shared);
pub struct TransactionPoolExt(pub Arc<crate::misc::RwLock<testing::PoolState>>);
impl OffchainDbExt {
	pub fn new(e: testing::TestOffchainExt) -> Self {
		Self(e.0)
	}
}
impl OffchainWorkerExt {
	pub fn new(e: testing::TestOffchainExt) -> Self {
		Self(e.0)
	}
}
impl TransactionPoolExt {
	pub fn new(e: testing::TestTransactionPoolExt) -> Self {
		Self(e.0)
	}
}
