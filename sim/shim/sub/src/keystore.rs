//! sp_keystore
use crate::core_::{crypto::*, ecdsa, ed25519};
use std::sync::Arc;
#[derive(Debug)]
pub enum Error {
	KeyNotSupported(KeyTypeId),
	ValidationError(String),
	Unavailable,
	Other(String),
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for Error {}
pub trait Keystore: Send + Sync {
	fn ecdsa_public_keys(&self, id: KeyTypeId) -> Vec<ecdsa::Public>;
	fn ecdsa_generate_new(&self, id: KeyTypeId, seed: Option<&str>) -> Result<ecdsa::Public, Error>;
	fn ecdsa_sign(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8]) -> Result<Option<ecdsa::Signature>, Error>;
	fn ecdsa_sign_prehashed(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error>;
	fn ed25519_generate_new(&self, _id: KeyTypeId, _seed: Option<&str>) -> Result<ed25519::Public, Error> {
		Err(Error::Unavailable)
	}
	fn insert(&self, id: KeyTypeId, suri: &str, public: &[u8]) -> Result<(), ()>;
	fn keys(&self, id: KeyTypeId) -> Result<Vec<Vec<u8>>, Error>;
	fn has_keys(&self, p: &[(Vec<u8>, KeyTypeId)]) -> bool;
}
pub type KeystorePtr = Arc<dyn Keystore>;
pub struct KeystoreExt(pub KeystorePtr);
impl KeystoreExt {
	pub fn new<T: Keystore + 'static>(k: T) -> Self {
		Self(Arc::new(k))
	}
}
impl<T: Keystore + ?Sized> Keystore for Arc<T> {
	fn ecdsa_public_keys(&self, id: KeyTypeId) -> Vec<ecdsa::Public> {
		(**self).ecdsa_public_keys(id)
	}
	fn ecdsa_generate_new(&self, id: KeyTypeId, seed: Option<&str>) -> Result<ecdsa::Public, Error> {
		(**self).ecdsa_generate_new(id, seed)
	}
	fn ecdsa_sign(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8]) -> Result<Option<ecdsa::Signature>, Error> {
		(**self).ecdsa_sign(id, p, msg)
	}
	fn ecdsa_sign_prehashed(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error> {
		(**self).ecdsa_sign_prehashed(id, p, msg)
	}
	fn insert(&self, id: KeyTypeId, suri: &str, public: &[u8]) -> Result<(), ()> {
		(**self).insert(id, suri, public)
	}
	fn keys(&self, id: KeyTypeId) -> Result<Vec<Vec<u8>>, Error> {
		(**self).keys(id)
	}
	fn has_keys(&self, p: &[(Vec<u8>, KeyTypeId)]) -> bool {
		(**self).has_keys(p)
	}
}
pub mod testing {
	use super::*;
	use std::collections::BTreeMap;
	use std::sync::Mutex;
	#[derive(Default, Clone)]
	pub struct MemoryKeystore {
		keys: Arc<Mutex<BTreeMap<(KeyTypeId, Vec<u8>), ecdsa::Pair>>>,
		counter: Arc<Mutex<u64>>,
	}
	impl MemoryKeystore {
		pub fn new() -> Self {
			Self::default()
		}
		fn add(&self, id: KeyTypeId, p: ecdsa::Pair) -> ecdsa::Public {
			let pk = p.public();
			self.keys.lock().unwrap().insert((id, pk.0.to_vec()), p);
			pk
		}
	}
	impl Keystore for MemoryKeystore {
		fn ecdsa_public_keys(&self, id: KeyTypeId) -> Vec<ecdsa::Public> {
			self.keys.lock().unwrap().iter().filter(|x| x.0 .0 == id).map(|x| x.1.public()).collect()
		}
		fn ecdsa_generate_new(&self, id: KeyTypeId, seed: Option<&str>) -> Result<ecdsa::Public, Error> {
			let p = match seed {
				Some(s) => ecdsa::Pair::from_string(s, None).map_err(|_| Error::ValidationError("seed".into()))?,
				None => {
					let mut c = self.counter.lock().unwrap();
					*c += 1;
					ecdsa::Pair::from_string(&format!("//memorykeystore{}", *c), None).unwrap()
				},
			};
			Ok(self.add(id, p))
		}
		fn ecdsa_sign(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8]) -> Result<Option<ecdsa::Signature>, Error> {
			Ok(self.keys.lock().unwrap().get(&(id, p.0.to_vec())).map(|k| k.sign(msg)))
		}
		fn ecdsa_sign_prehashed(&self, id: KeyTypeId, p: &ecdsa::Public, msg: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error> {
			Ok(self.keys.lock().unwrap().get(&(id, p.0.to_vec())).map(|k| k.sign_prehashed(msg)))
		}
		fn insert(&self, id: KeyTypeId, suri: &str, _public: &[u8]) -> Result<(), ()> {
			let p = ecdsa::Pair::from_string(suri, None).map_err(|_| ())?;
			self.add(id, p);
			Ok(())
		}
		fn keys(&self, id: KeyTypeId) -> Result<Vec<Vec<u8>>, Error> {
			Ok(self.keys.lock().unwrap().keys().filter(|x| x.0 == id).map(|x| x.1.clone()).collect())
		}
		fn has_keys(&self, p: &[(Vec<u8>, KeyTypeId)]) -> bool {
			let k = self.keys.lock().unwrap();
			p.iter().all(|(b, id)| k.contains_key(&(*id, b.clone())))
		}
	}
}
