//! frame_support (root).
pub mod dispatch;
pub mod storage;
pub mod traits;
pub mod weights;

pub use crate::arith;
pub use crate::bounded;
pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use crate::bounded_vec;
pub use crate::io as sp_io;
pub use crate::misc::sp_std;
pub use crate::runtime as sp_runtime;
pub use crate::runtime::{RuntimeDebug, StateVersion};
pub use crate::core_ as sp_core;
pub use crate::misc::sp_staking;
pub use codec;
pub use frame_macros::{
	construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError,
	PartialEqNoBound, RuntimeDebugNoBound,
};
pub use log;
pub use scale_info;
pub use serde;
pub use crate::paste_;
pub use storage::{
	types as storage_types, Blake2_128, Blake2_128Concat, Blake2_256, Identity, IterableStorageDoubleMap, IterableStorageMap, ReversibleStorageHasher, StorageDoubleMap,
	StorageHasher, StorageMap, StoragePrefixedMap, StorageValue, Twox128, Twox256, Twox64Concat,
};
pub use weights as weights_;
pub use dispatch::RawOrigin;

use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Never {}
impl Encode for Never {
	fn encode_to<O: codec::Output + ?Sized>(&self, _d: &mut O) {}
}
impl Decode for Never {
	fn decode<I: codec::Input>(_: &mut I) -> Result<Self, codec::Error> {
		Err("never".into())
	}
}

pub trait Parameter: Codec + EncodeLike + Clone + Eq + Debug {}
impl<T: Codec + EncodeLike + Clone + Eq + Debug> Parameter for T {}

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, MaxEncodedLen)]
pub struct PalletId(pub [u8; 8]);
impl crate::runtime::traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}

pub mod unsigned {
	pub use crate::runtime::traits::ValidateUnsigned;
	pub use crate::runtime::transaction_validity::{TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction};
}
pub mod error {
	pub use crate::runtime::traits::{BadOrigin, LookupError};
}
pub mod instances {}
pub mod inherent {}
pub mod migration {
	use crate::support::storage::unhashed;
	use codec::*;
	fn key(module: &[u8], item: &[u8], hash: &[u8]) -> Vec<u8> {
		let mut k = crate::support::storage::storage_prefix(module, item).to_vec();
		k.extend_from_slice(hash);
		k
	}
	pub fn put_storage_value<T: Encode>(module: &[u8], item: &[u8], hash: &[u8], v: T) {
		unhashed::put(&key(module, item, hash), &v)
	}
	pub fn get_storage_value<T: Decode>(module: &[u8], item: &[u8], hash: &[u8]) -> Option<T> {
		unhashed::get(&key(module, item, hash))
	}
	pub fn have_storage_value(module: &[u8], item: &[u8], hash: &[u8]) -> bool {
		unhashed::exists(&key(module, item, hash))
	}
	pub fn take_storage_value<T: Decode>(module: &[u8], item: &[u8], hash: &[u8]) -> Option<T> {
		unhashed::take(&key(module, item, hash))
	}
	pub fn clear_storage_prefix(module: &[u8], item: &[u8], hash: &[u8], limit: Option<u32>, c: Option<&[u8]>) -> crate::support::MultiRemovalResults {
		unhashed::clear_prefix(&key(module, item, hash), limit, c)
	}
}

#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_). Got {:#?}", is),
		}
	};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y));
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	($x:expr, $y:expr $(,)?) => {
		$crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y)
	};
}
#[macro_export]
macro_rules! assert_err_with_weight {
	($x:expr, $y:expr, $w:expr $(,)?) => {
		if let Err(dispatch_err_with_post) = $x {
			$crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y);
		} else {
			panic!("expected Err(_), got Ok(_).")
		}
	};
}
#[macro_export]
macro_rules! assert_storage_noop {
	($x:expr) => {
		let h = $crate::sp_io::current_state_hash();
		$x;
		assert_eq!(h, $crate::sp_io::current_state_hash(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr, $y:expr $(,)?) => {
		let h = $crate::sp_io::current_state_hash();
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::sp_io::current_state_hash(), "storage has been mutated");
	};
}
/// `parameter_types!`: constants, `static`s (thread local) and `storage` values.
#[macro_export]
macro_rules! parameter_types {
	() => {};
	($(#[$a:meta])* $vis:vis const $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
		$(#[$a])* $vis struct $name;
		#[allow(unused)]
		impl $name { pub const fn get() -> $t { $v } }
		impl<_I: From<$t>> $crate::support::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::support::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
		$crate::parameter_types!($($rest)*);
	};
	($(#[$a:meta])* $vis:vis $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
		$(#[$a])* $vis struct $name;
		#[allow(unused)]
		impl $name { pub fn get() -> $t { $v } }
		impl<_I: From<$t>> $crate::support::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::support::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
		$crate::parameter_types!($($rest)*);
	};
	($(#[$a:meta])* $vis:vis static $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
		$(#[$a])* $vis struct $name;
		#[allow(unused)]
		impl $name {
			fn __key() -> &'static std::thread::LocalKey<std::cell::RefCell<$t>> {
				std::thread_local! { static X: std::cell::RefCell<$t> = std::cell::RefCell::new($v); }
				&X
			}
			pub fn get() -> $t { Self::__key().with(|v| v.borrow().clone()) }
			pub fn set(t: $t) { Self::__key().with(|v| *v.borrow_mut() = t) }
			pub fn mutate<R, F: FnOnce(&mut $t) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
		}
		impl<_I: From<$t>> $crate::support::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		$crate::parameter_types!($($rest)*);
	};
}
#[macro_export]
macro_rules! ord_parameter_types {
	($($t:tt)*) => { $crate::parameter_types!($($t)*); };
}
#[macro_export]
macro_rules! defensive {
	($($t:tt)*) => { debug_assert!(false, "defensive") };
}
pub use crate::{
	assert_err, assert_err_ignore_postinfo, assert_err_with_weight, assert_noop, assert_ok, assert_storage_noop, defensive, ensure, fail, ord_parameter_types, parameter_types,
};

pub mod genesis_builder_helper {}
pub mod crypto {
	pub mod ecdsa {
		pub trait ECDSAExt {
			fn to_eth_address(&self) -> Result<[u8; 20], ()>;
		}
		impl ECDSAExt for crate::core_::ecdsa::Public {
			fn to_eth_address(&self) -> Result<[u8; 20], ()> {
				let u = simcrypto::secp256k1::decompress(&self.0).ok_or(())?;
				let h = simcrypto::keccak_256(&u);
				let mut r = [0; 20];
				r.copy_from_slice(&h[12..]);
				Ok(r)
			}
		}
	}
}

pub mod pallet_prelude {
	pub use super::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays, DispatchErrorWithPostInfo};
	pub use super::storage::bounded_vec_like::*;
	pub use super::storage::types::{CountedStorageMap, OptionQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery};
	pub use super::storage::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, StorageHasher, Twox128, Twox256, Twox64Concat};
	pub use super::traits::{
		BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet,
	};
	pub use super::unsigned::ValidateUnsigned;
	pub use super::weights::Weight;
	pub use super::{ensure, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound};
	pub use crate::runtime::traits::{MaybeSerializeDeserialize, Member};
	pub use crate::runtime::transaction_validity::{
		InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction,
		ValidTransaction,
	};
	pub use codec::{Decode, Encode, MaxEncodedLen};
	pub use super::{BoundedVec, WeakBoundedVec};
	pub use scale_info::TypeInfo;
	pub use std::marker::PhantomData;
}

pub mod __private {
	pub use frame_macros::construct_next;
	pub use crate::io::hashing::twox_128;
	pub use codec;
	pub use std::string::String;
	use super::unsigned::*;
	use codec::*;
	pub fn execute_with_storage(s: &mut crate::runtime::Storage, f: impl FnOnce()) {
		let mut e = crate::io::TestExternalities::from_map(std::mem::take(&mut s.top));
		e.execute_with(f);
		s.top = e.snapshot();
	}
	macro_rules! uninhabited { ($($n:ident),*) => { $(
		pub struct $n<P>(super::Never, std::marker::PhantomData<fn() -> P>);
		impl<P> Clone for $n<P> { fn clone(&self) -> Self { match self.0 {} } }
		impl<P> PartialEq for $n<P> { fn eq(&self, _: &Self) -> bool { match self.0 {} } }
		impl<P> Eq for $n<P> {}
		impl<P> std::fmt::Debug for $n<P> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {} } }
		impl<P> Encode for $n<P> { fn encode_to<O: Output + ?Sized>(&self, _: &mut O) { match self.0 {} } }
		impl<P> Decode for $n<P> { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Err("never".into()) } }
	)* } }
	uninhabited!(NoEvent, NoOrigin);
	pub struct NoGenesis<P>(std::marker::PhantomData<fn() -> P>);
	impl<P> Default for NoGenesis<P> {
		fn default() -> Self {
			Self(Default::default())
		}
	}
	impl<P> super::traits::BuildGenesisConfig for NoGenesis<P> {
		fn build(&self) {}
	}
	pub trait PalletParts {
		type Call;
		type Event;
		type Origin;
		type Genesis: Default + super::traits::BuildGenesisConfig;
		const STORAGES: &'static [&'static str];
		fn validate_unsigned(_s: TransactionSource, _c: &Self::Call) -> TransactionValidity {
			Err(UnknownTransaction::NoUnsignedValidator.into())
		}
		fn pre_dispatch_unsigned(_c: &Self::Call) -> Result<(), TransactionValidityError> {
			Err(UnknownTransaction::NoUnsignedValidator.into())
		}
	}
}
