//! Small crates: sp_std, sp_api, sp_application_crypto, sp_staking, sp_session and a lock type.
pub use parking_lot::RwLock;

pub mod sp_std {
	pub use std::*;
	pub use std::{boxed, cell, collections, fmt, marker, rc, str, sync, vec};
	pub mod alloc {
		pub use std::*;
	}
	pub mod prelude {
		pub use std::borrow::ToOwned;
		pub use std::boxed::Box;
		pub use std::clone::Clone;
		pub use std::cmp::{Eq, PartialEq, Reverse};
		pub use std::iter::IntoIterator;
		pub use std::vec;
		pub use std::vec::Vec;
	}
	pub mod collections_like {}
	#[derive(Default)]
	pub struct Writer(Vec<u8>);
	impl core::fmt::Write for Writer {
		fn write_str(&mut self, s: &str) -> core::fmt::Result {
			self.0.extend(s.as_bytes());
			Ok(())
		}
	}
	impl Writer {
		pub fn into_inner(self) -> Vec<u8> {
			self.0
		}
		pub fn inner(&self) -> &Vec<u8> {
			&self.0
		}
	}
	pub use crate::if_std;
}
#[macro_export]
macro_rules! if_std {
	($($t:tt)*) => { $($t)* };
}

pub mod sp_api {
	pub use crate::runtime::generic::BlockId;
	pub use crate::runtime::traits::{Block as BlockT, Hash as HashT, HashFor, HashingFor, Header as HeaderT, NumberFor};
	pub use codec::{self, Decode, Encode};
	#[derive(Debug)]
	pub enum ApiError {
		Application(Box<dyn std::error::Error + Send + Sync>),
		StateBackendIsNotTrie,
		UnknownBlock(String),
	}
	impl std::fmt::Display for ApiError {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			write!(f, "{:?}", self)
		}
	}
	impl std::error::Error for ApiError {}
	pub struct ApiRef<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);
	impl<'a, T> From<T> for ApiRef<'a, T> {
		fn from(t: T) -> Self {
			ApiRef(t, std::marker::PhantomData)
		}
	}
	impl<'a, T> std::ops::Deref for ApiRef<'a, T> {
		type Target = T;
		fn deref(&self) -> &T {
			&self.0
		}
	}
	impl<'a, T> std::ops::DerefMut for ApiRef<'a, T> {
		fn deref_mut(&mut self) -> &mut T {
			&mut self.0
		}
	}
	pub trait ProvideRuntimeApi<B: BlockT> {
		type Api;
		fn runtime_api<'a>(&'a self) -> ApiRef<'a, Self::Api>;
	}
	pub trait ApiExt<B: BlockT> {}
	pub trait Core<B: BlockT> {}
	pub trait Metadata<B: BlockT> {}
	pub use crate::decl_runtime_apis;
}
/// `decl_runtime_apis!`: the client-side trait (`fn f(&self, at: Hash, ..) -> Result<R, ApiError>`).
#[macro_export]
macro_rules! decl_runtime_apis {
	() => {};
	($(#[$a:meta])* $vis:vis trait $name:ident $(<$($g:ident $(: $b:path)?),*>)? { $($body:tt)* } $($rest:tt)*) => {
		$crate::__runtime_api_trait!{ [$(#[$a])* $vis $name] [$($($g $(: $b)?),*)?] $($body)* }
		$crate::decl_runtime_apis!($($rest)*);
	};
	($(#[$a:meta])* $vis:vis trait $name:ident <$($g:ident),*> where $($w:ident : $wb:path),* $(,)? { $($body:tt)* } $($rest:tt)*) => {
		$crate::__runtime_api_trait!{ [$(#[$a])* $vis $name] [$($g),*] $($body)* }
		$crate::decl_runtime_apis!($($rest)*);
	};
}
#[macro_export]
macro_rules! __runtime_api_trait {
	([$(#[$a:meta])* $vis:vis $name:ident] [$($g:ident $(: $b:path)?),*] $($(#[$fa:meta])* fn $f:ident ( $($arg:ident : $t:ty),* $(,)? ) $(-> $r:ty)? ;)*) => {
		$(#[$a])* $vis trait $name<Block: $crate::sp_api::BlockT $(, $g $(: $b)?)*> {
			$( $(#[$fa])* fn $f(&self, at: Block::Hash $(, $arg: $t)*) -> core::result::Result<$crate::__or_unit!($($r)?), $crate::sp_api::ApiError>; )*
		}
	};
}
#[macro_export]
macro_rules! __or_unit {
	() => { () };
	($t:ty) => { $t };
}

pub mod sp_application_crypto {
	pub use crate::core_::crypto::{ByteArray, CryptoType, CryptoTypeId, IsWrappedBy, KeyTypeId, Pair, UncheckedFrom, Wraps, key_types};
	pub use crate::core_::{self as core_like, ecdsa, ed25519, sr25519, RuntimeDebug};
	pub use crate::{app_crypto, with_pair};
	use codec::{Codec, EncodeLike};
	use std::fmt::Debug;
	pub trait AppPublic: ByteArray + Clone + Ord + Debug + Codec {}
	impl<T: ByteArray + Clone + Ord + Debug + Codec> AppPublic for T {}
	pub trait AppCrypto: 'static + Sized {
		const ID: KeyTypeId;
		const CRYPTO_ID: CryptoTypeId;
		type Public;
		type Signature;
		type Pair;
	}
	pub trait RuntimePublic: Sized {}
	pub trait RuntimeAppPublic: Sized {
		const ID: KeyTypeId;
		const CRYPTO_ID: CryptoTypeId;
		type Signature: Debug + Eq + PartialEq + Clone + Codec;
		fn all() -> Vec<Self>;
		fn generate_pair(seed: Option<Vec<u8>>) -> Self;
		fn sign<M: AsRef<[u8]>>(&self, msg: &M) -> Option<Self::Signature>;
		fn verify<M: AsRef<[u8]>>(&self, msg: &M, sig: &Self::Signature) -> bool;
		fn to_raw_vec(&self) -> Vec<u8>;
	}
	pub trait BoundToRuntimeAppPublic {
		type Public: RuntimeAppPublic;
	}
	pub trait AppSignature {}
	impl BoundToRuntimeAppPublic for () {
		type Public = NoKey;
	}
	pub struct NoKey;
	impl RuntimeAppPublic for NoKey {
		const ID: KeyTypeId = KeyTypeId(*b"none");
		const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*b"none");
		type Signature = ();
		fn all() -> Vec<Self> {
			vec![]
		}
		fn generate_pair(_: Option<Vec<u8>>) -> Self {
			NoKey
		}
		fn sign<M: AsRef<[u8]>>(&self, _: &M) -> Option<()> {
			None
		}
		fn verify<M: AsRef<[u8]>>(&self, _: &M, _: &()) -> bool {
			false
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			vec![]
		}
	}
	pub mod app_reexports {}
}
#[macro_export]
macro_rules! with_pair {
	($($t:tt)*) => { $($t)* };
}
/// `app_crypto!(ecdsa, KEY)`
#[macro_export]
macro_rules! app_crypto {
	($m:ident, $key:expr) => {
		#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, $crate::codec::Encode, $crate::codec::Decode, $crate::codec::MaxEncodedLen)]
		pub struct Public($crate::sp_core::$m::Public);
		#[derive(Clone, PartialEq, Eq, Hash, $crate::codec::Encode, $crate::codec::Decode)]
		pub struct Signature($crate::sp_core::$m::Signature);
		#[derive(Clone)]
		pub struct Pair($crate::sp_core::$m::Pair);
		const _: () = {
			use $crate::sp_application_crypto::{AppCrypto, RuntimeAppPublic, IsWrappedBy, ByteArray, CryptoType, CryptoTypeId, KeyTypeId};
			impl core::fmt::Debug for Public { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&self.0, f) } }
			impl core::fmt::Display for Public { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&self.0, f) } }
			impl core::fmt::Debug for Signature { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&self.0, f) } }
			impl From<$crate::sp_core::$m::Public> for Public { fn from(x: $crate::sp_core::$m::Public) -> Self { Self(x) } }
			impl From<Public> for $crate::sp_core::$m::Public { fn from(x: Public) -> Self { x.0 } }
			impl From<$crate::sp_core::$m::Signature> for Signature { fn from(x: $crate::sp_core::$m::Signature) -> Self { Self(x) } }
			impl From<Signature> for $crate::sp_core::$m::Signature { fn from(x: Signature) -> Self { x.0 } }
			impl From<$crate::sp_core::$m::Pair> for Pair { fn from(x: $crate::sp_core::$m::Pair) -> Self { Self(x) } }
			impl From<Pair> for $crate::sp_core::$m::Pair { fn from(x: Pair) -> Self { x.0 } }
			impl IsWrappedBy<Public> for $crate::sp_core::$m::Public { fn from_ref(o: &Public) -> &Self { &o.0 } fn from_mut(o: &mut Public) -> &mut Self { &mut o.0 } }
			impl AsRef<$crate::sp_core::$m::Public> for Public { fn as_ref(&self) -> &$crate::sp_core::$m::Public { &self.0 } }
			impl AsRef<[u8]> for Public { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
			impl AsMut<[u8]> for Public { fn as_mut(&mut self) -> &mut [u8] { self.0.as_mut() } }
			impl AsRef<$crate::sp_core::$m::Signature> for Signature { fn as_ref(&self) -> &$crate::sp_core::$m::Signature { &self.0 } }
			impl AsRef<[u8]> for Signature { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
			impl core::ops::Deref for Signature { type Target = [u8]; fn deref(&self) -> &[u8] { self.0.as_ref() } }
			impl core::ops::Deref for Public { type Target = [u8]; fn deref(&self) -> &[u8] { self.0.as_ref() } }
			impl<'a> TryFrom<&'a [u8]> for Public { type Error = (); fn try_from(d: &'a [u8]) -> core::result::Result<Self, ()> { <$crate::sp_core::$m::Public>::try_from(d).map(Into::into).map_err(|_| ()) } }
			impl TryFrom<Vec<u8>> for Signature { type Error = (); fn try_from(d: Vec<u8>) -> core::result::Result<Self, ()> { <$crate::sp_core::$m::Signature>::try_from(&d[..]).map(Into::into).map_err(|_| ()) } }
			impl<'a> TryFrom<&'a [u8]> for Signature { type Error = (); fn try_from(d: &'a [u8]) -> core::result::Result<Self, ()> { <$crate::sp_core::$m::Signature>::try_from(d).map(Into::into).map_err(|_| ()) } }
			impl ByteArray for Public { const LEN: usize = <$crate::sp_core::$m::Public as ByteArray>::LEN; }
			impl $crate::serde::Serialize for Public { fn serialize<S: $crate::serde::Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> { $crate::serde::Serialize::serialize(&self.0, s) } }
			impl<'de> $crate::serde::Deserialize<'de> for Public { fn deserialize<D: $crate::serde::Deserializer<'de>>(d: D) -> core::result::Result<Self, D::Error> { <$crate::sp_core::$m::Public as $crate::serde::Deserialize>::deserialize(d).map(Self) } }
			impl AppCrypto for Public { const ID: KeyTypeId = $key; const CRYPTO_ID: CryptoTypeId = $crate::sp_core::$m::CRYPTO_ID; type Public = Public; type Signature = Signature; type Pair = Pair; }
			impl AppCrypto for Signature { const ID: KeyTypeId = $key; const CRYPTO_ID: CryptoTypeId = $crate::sp_core::$m::CRYPTO_ID; type Public = Public; type Signature = Signature; type Pair = Pair; }
			impl AppCrypto for Pair { const ID: KeyTypeId = $key; const CRYPTO_ID: CryptoTypeId = $crate::sp_core::$m::CRYPTO_ID; type Public = Public; type Signature = Signature; type Pair = Pair; }
			impl RuntimeAppPublic for Public {
				const ID: KeyTypeId = $key;
				const CRYPTO_ID: CryptoTypeId = $crate::sp_core::$m::CRYPTO_ID;
				type Signature = Signature;
				fn all() -> Vec<Self> { $crate::sp_io::crypto::ecdsa_public_keys($key).into_iter().map(Self).collect() }
				fn generate_pair(s: Option<Vec<u8>>) -> Self { Self($crate::sp_io::crypto::ecdsa_generate($key, s)) }
				fn sign<M: AsRef<[u8]>>(&self, msg: &M) -> Option<Signature> { $crate::sp_io::crypto::ecdsa_sign($key, &self.0, msg.as_ref()).map(Signature) }
				fn verify<M: AsRef<[u8]>>(&self, msg: &M, sig: &Signature) -> bool { $crate::sp_io::crypto::ecdsa_verify(&sig.0, msg.as_ref(), &self.0) }
				fn to_raw_vec(&self) -> Vec<u8> { AsRef::<[u8]>::as_ref(&self.0).to_vec() }
			}
			impl CryptoType for Public { type Pair = Pair; }
			impl CryptoType for Signature { type Pair = Pair; }
			impl CryptoType for Pair { type Pair = Pair; }
		};
		impl Pair {
			#[allow(dead_code)]
			pub fn inner(&self) -> &$crate::sp_core::$m::Pair { &self.0 }
		}
		impl $crate::sp_core::crypto::Public for Public {}
		impl $crate::sp_core::crypto::Derive for Public {}
		impl $crate::sp_core::crypto::Pair for Pair {
			type Public = Public;
			type Seed = <$crate::sp_core::$m::Pair as $crate::sp_core::crypto::Pair>::Seed;
			type Signature = Signature;
			const DERIVE_TAG: &'static str = <$crate::sp_core::$m::Pair as $crate::sp_core::crypto::Pair>::DERIVE_TAG;
			fn from_seed_slice(s: &[u8]) -> Result<Self, $crate::sp_core::crypto::SecretStringError> { <$crate::sp_core::$m::Pair as $crate::sp_core::crypto::Pair>::from_seed_slice(s).map(Self) }
			fn sign(&self, m: &[u8]) -> Signature { Signature($crate::sp_core::crypto::Pair::sign(&self.0, m)) }
			fn verify<M: AsRef<[u8]>>(sig: &Signature, m: M, p: &Public) -> bool { <$crate::sp_core::$m::Pair as $crate::sp_core::crypto::Pair>::verify(&sig.0, m, &p.0) }
			fn public(&self) -> Public { Public($crate::sp_core::crypto::Pair::public(&self.0)) }
			fn to_raw_vec(&self) -> Vec<u8> { $crate::sp_core::crypto::Pair::to_raw_vec(&self.0) }
		}
	};
}

pub mod sp_staking {
	pub type EraIndex = u32;
	pub type SessionIndex = u32;
	pub mod currency_to_vote {
		pub struct SaturatingCurrencyToVote;
		pub struct U128CurrencyToVote;
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, codec::Encode, codec::Decode)]
	pub struct Page;
	pub trait OnStakingUpdate {}
	pub mod offence {}
}
pub mod sp_session {
	pub type ValidatorCount = u32;
}
