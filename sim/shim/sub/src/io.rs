//! sp_io: host functions over a per-thread simulated state.
use crate::offchain_ as off;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub use crypto::EcdsaVerifyError;

type Journal = Vec<(Vec<u8>, Option<Vec<u8>>)>;
#[derive(Clone, Default)]
pub struct Overlay {
	pub map: BTreeMap<Vec<u8>, Vec<u8>>,
	journals: Vec<Journal>,
	pub reads: u64,
	pub writes: u64,
}
impl Overlay {
	fn set(&mut self, k: &[u8], v: Option<Vec<u8>>) {
		self.writes += 1;
		let old = match v {
			Some(v) => self.map.insert(k.to_vec(), v),
			None => self.map.remove(k),
		};
		if let Some(j) = self.journals.last_mut() {
			j.push((k.to_vec(), old));
		}
	}
	fn start(&mut self) {
		self.journals.push(vec![]);
	}
	fn commit(&mut self) {
		let j = self.journals.pop().expect("transaction");
		if let Some(p) = self.journals.last_mut() {
			p.extend(j);
		}
	}
	fn rollback(&mut self) {
		let j = self.journals.pop().expect("transaction");
		for (k, old) in j.into_iter().rev() {
			match old {
				Some(v) => self.map.insert(k, v),
				None => self.map.remove(&k),
			};
		}
	}
}
struct Ctx {
	overlay: Overlay,
	ext: HashMap<TypeId, Arc<dyn Any>>,
}
thread_local! {
	static CTX: RefCell<Vec<Ctx>> = RefCell::new(vec![]);
}
fn with<R>(f: impl FnOnce(&mut Overlay) -> R) -> R {
	CTX.with(|c| {
		let mut c = c.borrow_mut();
		let c = c.last_mut().expect("Externalities not provided in this environment");
		f(&mut c.overlay)
	})
}
fn ext<E: 'static>() -> Option<Arc<E>> {
	CTX.with(|c| c.borrow().last().and_then(|c| c.ext.get(&TypeId::of::<E>()).cloned()).and_then(|a| unsafe_downcast::<E>(a)))
}
fn unsafe_downcast<E: 'static>(a: Arc<dyn Any>) -> Option<Arc<E>> {
	if (*a).is::<E>() {
		let p = Arc::into_raw(a) as *const E;
		// SAFETY: the concrete type was checked just above.
		Some(unsafe { Arc::from_raw(p) })
	} else {
		None
	}
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug, Default)]
pub struct StorageData(pub Vec<u8>);

/// Stand-in for `sp_state_machine::TestExternalities`.
#[derive(Clone, Default)]
pub struct TestExternalities {
	pub overlay: Overlay,
	ext: HashMap<TypeId, Arc<dyn Any>>,
}
impl TestExternalities {
	pub fn new(s: crate::runtime::Storage) -> Self {
		Self { overlay: Overlay { map: s.top.clone(), ..Default::default() }, ext: Default::default() }
	}
	pub fn new_empty() -> Self {
		Self::default()
	}
	pub fn register_extension<E: Any>(&mut self, e: E) {
		self.ext.insert(TypeId::of::<E>(), Arc::new(e));
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let c = Ctx { overlay: std::mem::take(&mut self.overlay), ext: self.ext.clone() };
		struct Guard<'a>(&'a mut TestExternalities);
		impl<'a> Drop for Guard<'a> {
			fn drop(&mut self) {
				if let Some(c) = CTX.with(|x| x.borrow_mut().pop()) {
					self.0.overlay = c.overlay;
				}
			}
		}
		CTX.with(|x| x.borrow_mut().push(c));
		let _g = Guard(self);
		let r = f();
		r
	}
	pub fn commit_all(&mut self) -> Result<(), ()> {
		Ok(())
	}
	pub fn persist_offchain_overlay(&mut self) {}
	/// A digest of the whole state.
	pub fn state_hash(&self) -> u64 {
		map_hash(&self.overlay.map)
	}
	/// The state as a copy on its own, without the registered extensions.
	pub fn snapshot(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
		self.overlay.map.clone()
	}
	pub fn from_map(m: BTreeMap<Vec<u8>, Vec<u8>>) -> Self {
		Self { overlay: Overlay { map: m, ..Default::default() }, ext: Default::default() }
	}
	/// The same externalities over another state.
	pub fn with_map(&self, m: BTreeMap<Vec<u8>, Vec<u8>>) -> Self {
		Self { overlay: Overlay { map: m, ..Default::default() }, ext: self.ext.clone() }
	}
	/// Open transactions left behind by a panic are rolled back.
	pub fn abort_open_transactions(&mut self) {
		while !self.overlay.journals.is_empty() {
			self.overlay.rollback()
		}
	}
}
pub fn map_hash(m: &BTreeMap<Vec<u8>, Vec<u8>>) -> u64 {
	let mut h: u64 = 0xcbf29ce484222325;
	let mut feed = |b: &[u8]| {
		for x in b {
			h ^= *x as u64;
			h = h.wrapping_mul(0x100000001b3);
		}
		h ^= 0xff;
		h = h.wrapping_mul(0x100000001b3);
	};
	for (k, v) in m {
		feed(k);
		feed(v);
	}
	h
}
impl From<crate::runtime::Storage> for TestExternalities {
	fn from(s: crate::runtime::Storage) -> Self {
		Self::new(s)
	}
}
pub type BasicExternalities = TestExternalities;
/// hash of the state of the running execution
pub fn current_state_hash() -> u64 {
	with(|o| map_hash(&o.map))
}
pub fn current_snapshot() -> BTreeMap<Vec<u8>, Vec<u8>> {
	with(|o| o.map.clone())
}
pub fn in_externalities() -> bool {
	CTX.with(|c| !c.borrow().is_empty())
}
pub fn transaction_depth() -> usize {
	with(|o| o.journals.len())
}

pub mod storage {
	use super::with;
	pub fn get(k: &[u8]) -> Option<bytes_like::Bytes> {
		raw_get(k).map(bytes_like::Bytes)
	}
	pub fn raw_get(k: &[u8]) -> Option<Vec<u8>> {
		with(|o| {
			o.reads += 1;
			o.map.get(k).cloned()
		})
	}
	pub fn set(k: &[u8], v: &[u8]) {
		with(|o| o.set(k, Some(v.to_vec())))
	}
	pub fn clear(k: &[u8]) {
		with(|o| o.set(k, None))
	}
	pub fn exists(k: &[u8]) -> bool {
		with(|o| o.map.contains_key(k))
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		use std::ops::Bound::*;
		with(|o| o.map.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|x| x.0.clone()))
	}
	pub fn root(_v: u8) -> Vec<u8> {
		let m = with(|o| super::map_hash(&o.map));
		simcrypto::blake2_256(&m.to_le_bytes()).to_vec()
	}
	/// `(maybe_cursor, removed)`
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> (bool, u32) {
		let keys: Vec<Vec<u8>> = with(|o| o.map.range(p.to_vec()..).take_while(|x| x.0.starts_with(p)).map(|x| x.0.clone()).collect());
		let mut n = 0;
		for k in keys.iter() {
			if limit.map_or(false, |l| n >= l) {
				return (true, n);
			}
			clear(k);
			n += 1;
		}
		(false, n)
	}
	pub fn keys_with_prefix(p: &[u8]) -> Vec<Vec<u8>> {
		with(|o| o.map.range(p.to_vec()..).take_while(|x| x.0.starts_with(p)).map(|x| x.0.clone()).collect())
	}
	pub fn start_transaction() {
		with(|o| o.start())
	}
	pub fn commit_transaction() {
		with(|o| o.commit())
	}
	pub fn rollback_transaction() {
		with(|o| o.rollback())
	}
	pub mod bytes_like {
		#[derive(Clone, Debug, PartialEq, Eq)]
		pub struct Bytes(pub Vec<u8>);
		impl std::ops::Deref for Bytes {
			type Target = Vec<u8>;
			fn deref(&self) -> &Vec<u8> {
				&self.0
			}
		}
		impl AsRef<[u8]> for Bytes {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
	}
}
pub mod hashing {
	pub use simcrypto::{blake2_128, blake2_256, keccak_256, keccak_512, sha2_256, twox_128, twox_256, twox_64};
}
pub mod misc {
	pub fn print_utf8(_: &[u8]) {}
	pub fn print_num(_: u64) {}
}
pub mod crypto {
	use crate::core_::{crypto::Pair as _, ecdsa, ed25519};
	use simcrypto::secp256k1;
	#[derive(Clone, Copy, Debug, PartialEq, Eq, codec::Encode, codec::Decode)]
	pub enum EcdsaVerifyError {
		BadRS,
		BadV,
		BadSignature,
	}
	fn rec(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
		secp256k1::recover(sig, msg).map_err(|e| match e {
			secp256k1::RecErr::BadRS => EcdsaVerifyError::BadRS,
			secp256k1::RecErr::BadV => EcdsaVerifyError::BadV,
			secp256k1::RecErr::BadSignature => EcdsaVerifyError::BadSignature,
		})
	}
	pub fn secp256k1_ecdsa_recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
		rec(sig, msg)
	}
	pub fn secp256k1_ecdsa_recover_compressed(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 33], EcdsaVerifyError> {
		rec(sig, msg).map(|p| secp256k1::compress(&p))
	}
	pub fn ed25519_verify(s: &ed25519::Signature, m: &[u8], p: &ed25519::Public) -> bool {
		ed25519::Pair::verify(s, m, p)
	}
	pub fn sr25519_verify(s: &ed25519::Signature, m: &[u8], p: &ed25519::Public) -> bool {
		ed25519::Pair::verify(s, m, p)
	}
	pub fn ecdsa_verify(s: &ecdsa::Signature, m: &[u8], p: &ecdsa::Public) -> bool {
		ecdsa::Pair::verify(s, m, p)
	}
	pub fn ecdsa_verify_prehashed(s: &ecdsa::Signature, m: &[u8; 32], p: &ecdsa::Public) -> bool {
		ecdsa::Pair::verify_prehashed(s, m, p)
	}
	use crate::core_::crypto::KeyTypeId;
	fn ks() -> crate::keystore::KeystorePtr {
		super::ext::<crate::keystore::KeystoreExt>().expect("keystore extension").0.clone()
	}
	pub fn ecdsa_public_keys(id: KeyTypeId) -> Vec<ecdsa::Public> {
		ks().ecdsa_public_keys(id)
	}
	pub fn ecdsa_generate(id: KeyTypeId, seed: Option<Vec<u8>>) -> ecdsa::Public {
		let s = seed.map(|s| String::from_utf8(s).unwrap());
		ks().ecdsa_generate_new(id, s.as_deref()).unwrap()
	}
	pub fn ecdsa_sign(id: KeyTypeId, p: &ecdsa::Public, m: &[u8]) -> Option<ecdsa::Signature> {
		ks().ecdsa_sign(id, p, m).ok().flatten()
	}
	pub fn ecdsa_sign_prehashed(id: KeyTypeId, p: &ecdsa::Public, m: &[u8; 32]) -> Option<ecdsa::Signature> {
		ks().ecdsa_sign_prehashed(id, p, m).ok().flatten()
	}
}
pub mod offchain {
	use super::{ext, off};
	use off::*;
	fn st() -> Option<Shared> {
		ext::<OffchainWorkerExt>().map(|e| e.0.clone()).or_else(|| ext::<OffchainDbExt>().map(|e| e.0.clone()))
	}
	fn w<R>(f: impl FnOnce(&mut OffchainState) -> R) -> R {
		let s = st().expect("offchain extension");
		let mut g = s.write();
		f(&mut g)
	}
	pub fn is_validator() -> bool {
		w(|s| s.is_validator)
	}
	pub fn submit_transaction(data: Vec<u8>) -> Result<(), ()> {
		if let Some(s) = st() {
			if s.read().fail_submit {
				return Err(());
			}
		}
		let p = ext::<TransactionPoolExt>().expect("transaction pool extension");
		p.0.write().transactions.push(data);
		Ok(())
	}
	pub fn timestamp() -> Timestamp {
		w(|s| Timestamp::from_unix_millis(s.timestamp))
	}
	pub fn sleep_until(t: Timestamp) {
		w(|s| s.timestamp = s.timestamp.max(t.unix_millis()))
	}
	pub fn random_seed() -> [u8; 32] {
		w(|s| {
			s.seed_counter += 1;
			let mut v = s.seed.to_vec();
			v.extend_from_slice(&s.seed_counter.to_le_bytes());
			simcrypto::blake2_256(&v)
		})
	}
	fn db<R>(k: StorageKind, f: impl FnOnce(&mut std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> R) -> R {
		w(|s| match k {
			StorageKind::PERSISTENT => f(&mut s.persistent_storage),
			StorageKind::LOCAL => f(&mut s.local_storage),
		})
	}
	pub fn local_storage_set(k: StorageKind, key: &[u8], v: &[u8]) {
		db(k, |m| drop(m.insert(key.to_vec(), v.to_vec())))
	}
	pub fn local_storage_clear(k: StorageKind, key: &[u8]) {
		db(k, |m| drop(m.remove(key)))
	}
	pub fn local_storage_get(k: StorageKind, key: &[u8]) -> Option<Vec<u8>> {
		db(k, |m| m.get(key).cloned())
	}
	pub fn local_storage_compare_and_set(k: StorageKind, key: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		db(k, |m| {
			if m.get(key).map(|x| &x[..]) == old.as_deref() {
				m.insert(key.to_vec(), new.to_vec());
				true
			} else {
				false
			}
		})
	}
	pub fn http_request_start(method: &str, uri: &str, _meta: &[u8]) -> Result<HttpRequestId, ()> {
		w(|s| {
			let id = s.next_request;
			s.next_request = s.next_request.wrapping_add(1);
			s.requests.insert(id, (HttpReqState { method: method.into(), uri: uri.into(), ..Default::default() }, None, 0));
			Ok(HttpRequestId(id))
		})
	}
	pub fn http_request_add_header(id: HttpRequestId, n: &str, v: &str) -> Result<(), ()> {
		w(|s| s.requests.get_mut(&id.0).map(|r| r.0.headers.push((n.into(), v.into()))).ok_or(()))
	}
	pub fn http_request_write_body(id: HttpRequestId, chunk: &[u8], _d: Option<Timestamp>) -> Result<(), HttpError> {
		w(|s| {
			let r = s.requests.get_mut(&id.0).ok_or(HttpError::Invalid)?;
			if !chunk.is_empty() {
				r.0.body.extend_from_slice(chunk);
				return Ok(());
			}
			let req = r.0.clone();
			s.http_log += 1;
			let out = if let Some(h) = s.handler.as_mut() {
				h(&req)
			} else if let Some(e) = s.expected_requests.pop_front() {
				assert_eq!(e.method, req.method, "unexpected offchain http method");
				assert_eq!(e.uri, req.uri, "unexpected offchain http uri");
				assert_eq!(String::from_utf8_lossy(&e.body), String::from_utf8_lossy(&req.body), "unexpected offchain http body");
				match e.response {
					Some(b) => HttpOutcome::Reply(200, b),
					None => HttpOutcome::Timeout,
				}
			} else {
				HttpOutcome::IoError
			};
			if let HttpOutcome::Refused = out {
				return Err(HttpError::IoError);
			}
			s.requests.get_mut(&id.0).unwrap().1 = Some(out);
			Ok(())
		})
	}
	pub fn http_response_wait(ids: &[HttpRequestId], d: Option<Timestamp>) -> Vec<HttpRequestStatus> {
		w(|s| {
			ids.iter()
				.map(|id| match s.requests.get(&id.0).and_then(|r| r.1.clone()) {
					None => HttpRequestStatus::Invalid,
					Some(HttpOutcome::Reply(c, _)) | Some(HttpOutcome::Truncated(c, _, _)) => HttpRequestStatus::Finished(c),
					Some(HttpOutcome::Timeout) => {
						if let Some(d) = d {
							s.timestamp = s.timestamp.max(d.unix_millis());
						}
						HttpRequestStatus::DeadlineReached
					},
					Some(HttpOutcome::IoError) | Some(HttpOutcome::Refused) => HttpRequestStatus::IoError,
				})
				.collect()
		})
	}
	pub fn http_response_headers(_id: HttpRequestId) -> Vec<(Vec<u8>, Vec<u8>)> {
		vec![]
	}
	pub fn http_response_read_body(id: HttpRequestId, buf: &mut [u8], _d: Option<Timestamp>) -> Result<u32, HttpError> {
		w(|s| {
			let r = s.requests.get_mut(&id.0).ok_or(HttpError::Invalid)?;
			let (b, cut) = match &r.1 {
				Some(HttpOutcome::Reply(_, b)) => (b, usize::MAX),
				Some(HttpOutcome::Truncated(_, b, n)) => (b, *n),
				_ => return Err(HttpError::IoError),
			};
			let end = b.len().min(cut);
			if r.2 >= end && end < b.len() {
				return Err(HttpError::IoError);
			}
			let n = (end - r.2).min(buf.len());
			buf[..n].copy_from_slice(&b[r.2..r.2 + n]);
			r.2 += n;
			if n == 0 {
				s.requests.remove(&id.0);
			}
			Ok(n as u32)
		})
	}
}
pub mod offchain_index {
	pub fn set(_k: &[u8], _v: &[u8]) {}
	pub fn clear(_k: &[u8]) {}
}
