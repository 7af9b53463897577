//! sp_core
pub use crate::bounded::{self, *};
pub use codec::{self, Decode, Encode, MaxEncodedLen};
pub use frame_macros::RuntimeDebug;
pub use primitive_types::{BigEndianHash, H128, H160, H256, H32, H512, H64, U128, U256, U512};
pub use serde;
pub mod hashing {
	pub use simcrypto::{blake2_128, blake2_256, blake2_512, blake2_64, keccak_256, keccak_512, sha2_256, sha2_512, twox_128, twox_256, twox_64};
}
pub use hashing::*;
pub use crypto::*;
pub use hash_db_like::Hasher;
pub mod hash_db_like {
	pub trait Hasher: Sync + Send {
		type Out;
		const LENGTH: usize;
		fn hash(x: &[u8]) -> Self::Out;
	}
}
#[derive(PartialEq, Eq, Clone, Default, Debug, Encode, Decode)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes {
	fn from(v: Vec<u8>) -> Self {
		Bytes(v)
	}
}
impl std::ops::Deref for Bytes {
	type Target = [u8];
	fn deref(&self) -> &[u8] {
		&self.0
	}
}
impl serde::Serialize for Bytes {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&format!("0x{}", hex::encode(&self.0)))
	}
}
impl<'de> serde::Deserialize<'de> for Bytes {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = String::deserialize(d)?;
		hex::decode(s.trim_start_matches("0x")).map(Bytes).map_err(serde::de::Error::custom)
	}
}

pub mod hexdisplay {
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> {
		pub fn from<R: AsBytesRef + ?Sized>(d: &'a R) -> Self {
			HexDisplay(d.as_bytes_ref())
		}
	}
	impl<'a> std::fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			f.write_str(&hex::encode(self.0))
		}
	}
	impl<'a> std::fmt::Debug for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			f.write_str(&hex::encode(self.0))
		}
	}
	pub trait AsBytesRef {
		fn as_bytes_ref(&self) -> &[u8];
	}
	impl AsBytesRef for [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<'a> AsBytesRef for &'a [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for Vec<u8> {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<const N: usize> AsBytesRef for [u8; N] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	macro_rules! a { ($($t:ty),*) => { $( impl AsBytesRef for $t { fn as_bytes_ref(&self) -> &[u8] { &self.0[..] } } )* } }
	a!(crate::sp_core::H160, crate::sp_core::H256, crate::sp_core::H512, crate::sp_core::ecdsa::Public, crate::sp_core::ecdsa::Signature, crate::sp_core::ed25519::Public, crate::sp_core::ed25519::Signature);
	pub fn ascii_format(b: &[u8]) -> String {
		format!("{b:?}")
	}
}

pub mod crypto {
	use codec::{Decode, Encode, MaxEncodedLen};
	use std::fmt;
	#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, Debug, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub struct KeyTypeId(pub [u8; 4]);
	impl From<u32> for KeyTypeId {
		fn from(x: u32) -> Self {
			Self(x.to_le_bytes())
		}
	}
	impl From<KeyTypeId> for u32 {
		fn from(x: KeyTypeId) -> Self {
			u32::from_le_bytes(x.0)
		}
	}
	#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
	pub struct CryptoTypeId(pub [u8; 4]);
	pub mod key_types {
		use super::KeyTypeId;
		pub const BABE: KeyTypeId = KeyTypeId(*b"babe");
		pub const DUMMY: KeyTypeId = KeyTypeId(*b"dumy");
		pub const ACCOUNT: KeyTypeId = KeyTypeId(*b"acco");
	}
	pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
		const LEN: usize;
		fn from_slice(data: &[u8]) -> Result<Self, ()> {
			Self::try_from(data)
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_slice().to_vec()
		}
		fn as_slice(&self) -> &[u8] {
			self.as_ref()
		}
	}
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
	pub trait CryptoType {
		type Pair: Pair;
	}
	pub trait Derive: Sized {}
	pub trait Public: CryptoType + ByteArray + Derive + PartialEq + Eq + Clone + Send + Sync {}
	#[derive(Clone, Debug, PartialEq)]
	pub enum SecretStringError {
		InvalidFormat,
		InvalidSeed,
		InvalidSeedLength,
		InvalidPath,
	}
	pub const DEV_MINI: [u8; 32] = [
		0xfa, 0xc7, 0x95, 0x9d, 0xbf, 0xe7, 0x2f, 0x05, 0x2e, 0x5a, 0x0c, 0x3c, 0x8d, 0x65, 0x30, 0xf2, 0x02, 0xb0, 0x2f, 0xd8, 0xf9, 0xf5, 0xca, 0x35, 0x80, 0xec, 0x8d, 0xeb, 0x77, 0x97,
		0x47, 0x9e,
	];
	pub trait Pair: CryptoType + Sized + Clone + Send + Sync + 'static {
		type Public: Public + std::hash::Hash;
		type Seed: Default + AsRef<[u8]> + AsMut<[u8]> + Clone;
		type Signature: AsRef<[u8]>;
		const DERIVE_TAG: &'static str;
		fn generate() -> (Self, Self::Seed) {
			let mut s = Self::Seed::default();
			let r = primitive_types::H256::random();
			s.as_mut().copy_from_slice(&r.0);
			(Self::from_seed(&s), s)
		}
		fn from_seed(seed: &Self::Seed) -> Self {
			Self::from_seed_slice(seed.as_ref()).expect("seed length")
		}
		fn from_seed_slice(seed: &[u8]) -> Result<Self, SecretStringError>;
		fn sign(&self, message: &[u8]) -> Self::Signature;
		fn verify<M: AsRef<[u8]>>(sig: &Self::Signature, message: M, pubkey: &Self::Public) -> bool;
		fn public(&self) -> Self::Public;
		fn to_raw_vec(&self) -> Vec<u8>;
		fn from_string(s: &str, _password: Option<&str>) -> Result<Self, SecretStringError> {
			let (root, path) = match s.find('/') {
				Some(p) => (&s[..p], &s[p..]),
				None => (s, ""),
			};
			let mut seed: [u8; 32] = if root.is_empty() || !root.starts_with("0x") {
				if root.is_empty() { DEV_MINI } else { simcrypto::blake2_256(root.as_bytes()) }
			} else {
				hex::decode(&root[2..]).map_err(|_| SecretStringError::InvalidSeed)?.try_into().map_err(|_| SecretStringError::InvalidSeedLength)?
			};
			for j in path.split("//").filter(|x| !x.is_empty()) {
				let enc = match j.parse::<u64>() {
					Ok(n) => n.encode(),
					Err(_) => j.encode(),
				};
				let mut cc = [0u8; 32];
				if enc.len() > 32 {
					cc = simcrypto::blake2_256(&enc)
				} else {
					cc[..enc.len()].copy_from_slice(&enc)
				}
				seed = simcrypto::blake2_256(&(Self::DERIVE_TAG, seed, cc).encode());
			}
			Self::from_seed_slice(&seed)
		}
	}
	pub trait Ss58Codec: Sized {
		fn to_ss58check(&self) -> String;
	}
	pub struct AccountId32Tag;
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, MaxEncodedLen, Hash)]
	pub struct AccountId32([u8; 32]);
	impl AccountId32 {
		pub const fn new(x: [u8; 32]) -> Self {
			Self(x)
		}
	}
	impl fmt::Debug for AccountId32 {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			write!(f, "{}", hex::encode(self.0))
		}
	}
	impl From<[u8; 32]> for AccountId32 {
		fn from(x: [u8; 32]) -> Self {
			Self(x)
		}
	}
	impl AsRef<[u8; 32]> for AccountId32 {
		fn as_ref(&self) -> &[u8; 32] {
			&self.0
		}
	}
	impl AsRef<[u8]> for AccountId32 {
		fn as_ref(&self) -> &[u8] {
			&self.0
		}
	}
	pub trait IsWrappedBy<Outer>: From<Outer> + Into<Outer> {
		fn from_ref(outer: &Outer) -> &Self;
		fn from_mut(outer: &mut Outer) -> &mut Self;
	}
	pub trait Wraps: Sized {
		type Inner: IsWrappedBy<Self>;
		fn as_inner_ref(&self) -> &Self::Inner {
			Self::Inner::from_ref(self)
		}
	}
	pub use secrecy_like::ExposeSecret;
	mod secrecy_like {
		pub trait ExposeSecret<T> {
			fn expose_secret(&self) -> &T;
		}
	}
}

#[macro_export]
macro_rules! __crypto_bytes {
	($name:ident, $n:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, codec::Encode, codec::Decode, codec::MaxEncodedLen)]
		pub struct $name(pub [u8; $n]);
		impl $name {
			pub const fn from_raw(d: [u8; $n]) -> Self {
				Self(d)
			}
			pub fn from_full(_d: &[u8]) -> Result<Self, ()> {
				Err(())
			}
			pub fn from_slice(d: &[u8]) -> Option<Self> {
				d.try_into().ok().map(Self)
			}
			pub fn as_array_ref(&self) -> &[u8; $n] {
				&self.0
			}
			pub fn to_vec(&self) -> Vec<u8> {
				self.0.to_vec()
			}
		}
		impl Default for $name {
			fn default() -> Self {
				Self([0u8; $n])
			}
		}
		impl std::fmt::Debug for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				f.write_str(&hex::encode(self.0))
			}
		}
		impl std::fmt::Display for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				f.write_str(&hex::encode(self.0))
			}
		}
		impl AsRef<[u8]> for $name {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsRef<[u8; $n]> for $name {
			fn as_ref(&self) -> &[u8; $n] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $name {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl std::ops::Deref for $name {
			type Target = [u8];
			fn deref(&self) -> &[u8] {
				&self.0
			}
		}
		impl<'a> TryFrom<&'a [u8]> for $name {
			type Error = ();
			fn try_from(d: &[u8]) -> Result<Self, ()> {
				d.try_into().map(Self).map_err(|_| ())
			}
		}
		impl From<[u8; $n]> for $name {
			fn from(d: [u8; $n]) -> Self {
				Self(d)
			}
		}
		impl From<$name> for [u8; $n] {
			fn from(d: $name) -> [u8; $n] {
				d.0
			}
		}
		impl serde::Serialize for $name {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&hex::encode(self.0))
			}
		}
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = <String as serde::Deserialize>::deserialize(d)?;
				let v = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
				Self::try_from(&v[..]).map_err(|_| serde::de::Error::custom("length"))
			}
		}
	};
}

pub mod ecdsa {
	use super::crypto::*;
	use simcrypto::secp256k1;
	pub const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*b"ecds");
	crate::__crypto_bytes!(Public, 33);
	crate::__crypto_bytes!(Signature, 65);
	pub type Seed = [u8; 32];
	impl ByteArray for Public {
		const LEN: usize = 33;
	}
	impl Derive for Public {}
	impl super::crypto::Public for Public {}
	impl CryptoType for Public {
		type Pair = Pair;
	}
	impl CryptoType for Signature {
		type Pair = Pair;
	}
	impl CryptoType for Pair {
		type Pair = Pair;
	}
	impl UncheckedFrom<[u8; 33]> for Public {
		fn unchecked_from(x: [u8; 33]) -> Self {
			Public(x)
		}
	}
	impl UncheckedFrom<[u8; 65]> for Signature {
		fn unchecked_from(x: [u8; 65]) -> Self {
			Signature(x)
		}
	}
	impl Signature {
		pub fn recover<M: AsRef<[u8]>>(&self, m: M) -> Option<Public> {
			self.recover_prehashed(&simcrypto::blake2_256(m.as_ref()))
		}
		pub fn recover_prehashed(&self, m: &[u8; 32]) -> Option<Public> {
			secp256k1::recover(&self.0, m).ok().map(|p| Public(secp256k1::compress(&p)))
		}
	}
	#[derive(Clone)]
	pub struct Pair {
		secret: [u8; 32],
		public: Public,
	}
	impl std::fmt::Debug for Pair {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			write!(f, "Pair({})", self.public)
		}
	}
	impl Pair {
		pub fn seed(&self) -> Seed {
			self.secret
		}
		pub fn from_legacy_string(s: &str, p: Option<&str>) -> Pair {
			<Self as super::crypto::Pair>::from_string(s, p).unwrap()
		}
		pub fn sign_prehashed(&self, m: &[u8; 32]) -> Signature {
			Signature(secp256k1::sign(&self.secret, m).expect("valid key"))
		}
		pub fn verify_prehashed(sig: &Signature, m: &[u8; 32], p: &Public) -> bool {
			sig.recover_prehashed(m).map_or(false, |x| x == *p)
		}
	}
	impl super::crypto::Pair for Pair {
		type Public = Public;
		type Seed = Seed;
		type Signature = Signature;
		const DERIVE_TAG: &'static str = "Secp256k1HDKD";
		fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> {
			let secret: [u8; 32] = s.try_into().map_err(|_| SecretStringError::InvalidSeedLength)?;
			let p = secp256k1::public(&secret).ok_or(SecretStringError::InvalidSeed)?;
			Ok(Pair { secret, public: Public(secp256k1::compress(&p)) })
		}
		fn sign(&self, m: &[u8]) -> Signature {
			self.sign_prehashed(&simcrypto::blake2_256(m))
		}
		fn verify<M: AsRef<[u8]>>(sig: &Signature, m: M, p: &Public) -> bool {
			sig.recover(m).map_or(false, |x| x == *p)
		}
		fn public(&self) -> Public {
			self.public
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.secret.to_vec()
		}
	}
}

pub mod ed25519 {
	use super::crypto::*;
	pub const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*b"ed25");
	crate::__crypto_bytes!(Public, 32);
	crate::__crypto_bytes!(Signature, 64);
	pub type Seed = [u8; 32];
	impl ByteArray for Public {
		const LEN: usize = 32;
	}
	impl Derive for Public {}
	impl super::crypto::Public for Public {}
	impl CryptoType for Public {
		type Pair = Pair;
	}
	impl CryptoType for Signature {
		type Pair = Pair;
	}
	impl CryptoType for Pair {
		type Pair = Pair;
	}
	impl UncheckedFrom<[u8; 32]> for Public {
		fn unchecked_from(x: [u8; 32]) -> Self {
			Public(x)
		}
	}
	#[derive(Clone)]
	pub struct Pair {
		secret: [u8; 32],
		public: Public,
	}
	impl super::crypto::Pair for Pair {
		type Public = Public;
		type Seed = Seed;
		type Signature = Signature;
		const DERIVE_TAG: &'static str = "Ed25519HDKD";
		fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> {
			let secret: [u8; 32] = s.try_into().map_err(|_| SecretStringError::InvalidSeedLength)?;
			Ok(Pair { secret, public: Public(simcrypto::ed25519::public(&secret)) })
		}
		fn sign(&self, m: &[u8]) -> Signature {
			Signature(simcrypto::ed25519::sign(&self.secret, m))
		}
		fn verify<M: AsRef<[u8]>>(sig: &Signature, m: M, p: &Public) -> bool {
			simcrypto::ed25519::verify(&sig.0, m.as_ref(), &p.0)
		}
		fn public(&self) -> Public {
			self.public
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.secret.to_vec()
		}
	}
}
/// Stand-in with the sr25519 type shapes (ed25519 inside); nothing in the repository verifies it.
pub mod sr25519 {
	pub use super::ed25519::*;
}

pub mod offchain {
	pub use crate::offchain_::*;
}
pub mod testing {
	pub use crate::sp_keystore::testing::*;
	pub struct TaskExecutor;
}
pub mod traits {
	pub trait SpawnNamed {}
	pub trait CodeExecutor {}
}
pub mod storage {
	pub use crate::io::StorageData;
	#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
	pub struct StorageKey(pub Vec<u8>);
	pub mod well_known_keys {
		pub const CODE: &[u8] = b":code";
		pub const HEAP_PAGES: &[u8] = b":heappages";
		pub const EXTRINSIC_INDEX: &[u8] = b":extrinsic_index";
	}
}
