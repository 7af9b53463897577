//! frame_support::storage
use crate::io::storage as raw;
use crate::runtime::{DispatchError, TransactionalError};
use codec::{Decode, Encode, EncodeLike, FullCodec, FullEncode};

pub use crate::bounded::Get;

pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
		raw::raw_get(k).and_then(|v| T::decode(&mut &v[..]).ok())
	}
	pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T {
		get(k).unwrap_or_default()
	}
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) {
		raw::set(k, &v.encode())
	}
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> {
		let r = get(k);
		if r.is_some() {
			kill(k)
		}
		r
	}
	pub fn kill(k: &[u8]) {
		raw::clear(k)
	}
	pub fn exists(k: &[u8]) -> bool {
		raw::exists(k)
	}
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
		raw::raw_get(k)
	}
	pub fn put_raw(k: &[u8], v: &[u8]) {
		raw::set(k, v)
	}
	pub fn clear_prefix(p: &[u8], maybe_limit: Option<u32>, _c: Option<&[u8]>) -> crate::support::MultiRemovalResults {
		let (more, n) = raw::clear_prefix(p, maybe_limit);
		crate::support::MultiRemovalResults { maybe_cursor: more.then(|| p.to_vec()), backend: n, unique: n, loops: n }
	}
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TransactionOutcome<T> {
	Commit(T),
	Rollback(T),
}
const TRANSACTIONAL_LIMIT: usize = 255;
pub fn with_transaction<T, E: From<DispatchError>>(f: impl FnOnce() -> TransactionOutcome<Result<T, E>>) -> Result<T, E> {
	if crate::io::transaction_depth() >= TRANSACTIONAL_LIMIT {
		return Err(DispatchError::from(TransactionalError::LimitReached).into());
	}
	with_transaction_unchecked(f)
}
pub fn with_transaction_unchecked<R>(f: impl FnOnce() -> TransactionOutcome<R>) -> R {
	raw::start_transaction();
	struct Guard(bool);
	impl Drop for Guard {
		fn drop(&mut self) {
			if self.0 {
				raw::rollback_transaction()
			}
		}
	}
	let mut g = Guard(true);
	let r = f();
	g.0 = false;
	match r {
		TransactionOutcome::Commit(r) => {
			raw::commit_transaction();
			r
		},
		TransactionOutcome::Rollback(r) => {
			raw::rollback_transaction();
			r
		},
	}
}
pub fn with_storage_layer<T, E: From<DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	with_transaction(|| match f() {
		Ok(r) => TransactionOutcome::Commit(Ok(r)),
		Err(e) => TransactionOutcome::Rollback(Err(e)),
	})
}
pub fn in_storage_layer<T, E: From<DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	if crate::io::transaction_depth() > 0 {
		f()
	} else {
		with_storage_layer(f)
	}
}
pub fn is_transactional() -> bool {
	crate::io::transaction_depth() > 0
}
pub mod transactional {
	pub use super::{in_storage_layer, is_transactional, with_storage_layer, with_transaction, with_transaction_unchecked, TransactionOutcome};
}
pub fn storage_prefix(p: &[u8], s: &[u8]) -> [u8; 32] {
	let mut r = [0u8; 32];
	r[..16].copy_from_slice(&simcrypto::twox_128(p));
	r[16..].copy_from_slice(&simcrypto::twox_128(s));
	r
}

pub trait StorageHasher: 'static {
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
macro_rules! hashers { ($($n:ident $o:ty, $x:ident => $e:expr;)*) => { $(
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct $n;
	impl StorageHasher for $n { type Output = $o; fn hash($x: &[u8]) -> $o { $e } }
)* } }
hashers! {
	Identity Vec<u8>, x => x.to_vec();
	Twox64Concat Vec<u8>, x => { let mut v = simcrypto::twox_64(x).to_vec(); v.extend_from_slice(x); v };
	Blake2_128Concat Vec<u8>, x => { let mut v = simcrypto::blake2_128(x).to_vec(); v.extend_from_slice(x); v };
	Twox128 [u8; 16], x => simcrypto::twox_128(x);
	Twox256 [u8; 32], x => simcrypto::twox_256(x);
	Blake2_128 [u8; 16], x => simcrypto::blake2_128(x);
	Blake2_256 [u8; 32], x => simcrypto::blake2_256(x);
}
impl ReversibleStorageHasher for Identity {
	fn reverse(x: &[u8]) -> &[u8] {
		x
	}
}
impl ReversibleStorageHasher for Twox64Concat {
	fn reverse(x: &[u8]) -> &[u8] {
		&x[8.min(x.len())..]
	}
}
impl ReversibleStorageHasher for Blake2_128Concat {
	fn reverse(x: &[u8]) -> &[u8] {
		&x[16.min(x.len())..]
	}
}

/// Marker traits with the names of the storage traits.
pub trait StorageValue<T> {}
pub trait StorageMap<K, V> {}
pub trait StorageDoubleMap<A, B, V> {}
pub trait IterableStorageMap<K, V> {}
pub trait IterableStorageDoubleMap<A, B, V> {}
pub trait StoragePrefixedMap<V> {}
pub trait StorageDecodeLength {}

pub trait StorageAppend<Item: Encode> {}
impl<T: Encode> StorageAppend<T> for Vec<T> {}
impl StorageAppend<crate::runtime::generic::DigestItem> for crate::runtime::generic::Digest {}
pub trait StorageTryAppend<Item> {
	fn try_append_item(&mut self, i: Item) -> Result<(), ()>;
}
impl<T, S: Get<u32>> StorageTryAppend<T> for crate::bounded::BoundedVec<T, S> {
	fn try_append_item(&mut self, i: T) -> Result<(), ()> {
		self.try_push(i).map_err(|_| ())
	}
}
impl<T, S: Get<u32>> StorageTryAppend<T> for crate::bounded::WeakBoundedVec<T, S> {
	fn try_append_item(&mut self, i: T) -> Result<(), ()> {
		self.try_push(i).map_err(|_| ())
	}
}
pub trait TryAppendVec {}

/// Iterator over a prefix that tolerates removal while iterating, as the host one does.
pub struct PrefixIterator<T, F = fn(&[u8], &[u8]) -> Option<T>> {
	prefix: Vec<u8>,
	prev: Vec<u8>,
	drain: bool,
	f: F,
	_p: std::marker::PhantomData<T>,
}
impl<T, F: FnMut(&[u8], &[u8]) -> Option<T>> PrefixIterator<T, F> {
	pub fn new_with(prefix: Vec<u8>, prev: Vec<u8>, drain: bool, f: F) -> Self {
		Self { prefix, prev, drain, f, _p: Default::default() }
	}
	pub fn last_raw_key(&self) -> &[u8] {
		&self.prev
	}
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
}
impl<T, F: FnMut(&[u8], &[u8]) -> Option<T>> Iterator for PrefixIterator<T, F> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let k = raw::next_key(&self.prev)?;
			if !k.starts_with(&self.prefix) {
				return None;
			}
			self.prev = k.clone();
			let v = raw::raw_get(&k)?;
			if self.drain {
				raw::clear(&k);
			}
			if let Some(x) = (self.f)(&k[self.prefix.len()..], &v) {
				return Some(x);
			}
		}
	}
}
pub type KeyPrefixIterator<T> = PrefixIterator<T>;

pub mod types {
	use super::*;
	use crate::bounded::GetDefault;
	use crate::support::traits::StorageInstance;
	use std::marker::PhantomData as P;
	pub trait QueryKindTrait<Value, OnEmpty> {
		type Query: 'static;
		fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
		fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
	}
	pub struct OptionQuery;
	impl<V: 'static> QueryKindTrait<V, GetDefault> for OptionQuery {
		type Query = Option<V>;
		fn from_optional_value_to_query(v: Option<V>) -> Option<V> {
			v
		}
		fn from_query_to_optional_value(v: Option<V>) -> Option<V> {
			v
		}
	}
	pub struct ValueQuery;
	impl<V: 'static, OnEmpty: Get<V>> QueryKindTrait<V, OnEmpty> for ValueQuery {
		type Query = V;
		fn from_optional_value_to_query(v: Option<V>) -> V {
			v.unwrap_or_else(|| OnEmpty::get())
		}
		fn from_query_to_optional_value(v: V) -> Option<V> {
			Some(v)
		}
	}
	pub trait CountedStorageMapInstance: StorageInstance {
		type CounterPrefix: StorageInstance;
	}
	fn prefix<I: StorageInstance>() -> Vec<u8> {
		storage_prefix(I::pallet_prefix().as_bytes(), I::STORAGE_PREFIX.as_bytes()).to_vec()
	}
	fn read<V: Decode, Q: QueryKindTrait<V, O>, O>(k: &[u8]) -> Q::Query {
		Q::from_optional_value_to_query(unhashed::get(k))
	}
	fn mutate_raw<V: Decode + Encode, Q: QueryKindTrait<V, O>, O, R, E>(k: &[u8], f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
		let mut v = read::<V, Q, O>(k);
		let r = f(&mut v);
		if r.is_ok() {
			match Q::from_query_to_optional_value(v) {
				Some(v) => unhashed::put(k, &v),
				None => unhashed::kill(k),
			}
		}
		r
	}
	fn append_raw(k: &[u8], item: Vec<u8>) {
		// length prefix + items; an undecodable value is replaced, as the host does
		let mut items: Vec<u8> = vec![];
		let mut len = 0u32;
		if let Some(v) = raw::raw_get(k) {
			let mut i = &v[..];
			if let Ok(c) = codec::Compact::<u32>::decode(&mut i) {
				len = c.0;
				items = i.to_vec();
			}
		}
		let mut out = codec::Compact(len + 1).encode();
		out.extend(items);
		out.extend(item);
		raw::set(k, &out);
	}
	fn decode_len_raw(k: &[u8]) -> Option<usize> {
		let v = raw::raw_get(k)?;
		codec::Compact::<u32>::decode(&mut &v[..]).ok().map(|c| c.0 as usize)
	}
	enum Never {}

	pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(P<(Prefix, Value, QueryKind, OnEmpty)>);
	impl<Prefix: StorageInstance, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O> StorageValue<Prefix, V, Q, O> {
		pub fn hashed_key() -> [u8; 32] {
			storage_prefix(Prefix::pallet_prefix().as_bytes(), Prefix::STORAGE_PREFIX.as_bytes())
		}
		pub fn exists() -> bool {
			raw::exists(&Self::hashed_key())
		}
		pub fn get() -> Q::Query {
			read::<V, Q, O>(&Self::hashed_key())
		}
		pub fn try_get() -> Result<V, ()> {
			unhashed::get(&Self::hashed_key()).ok_or(())
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			raw::set(&Self::hashed_key(), &v.encode())
		}
		pub fn set(v: Q::Query) {
			match Q::from_query_to_optional_value(v) {
				Some(v) => Self::put(v),
				None => Self::kill(),
			}
		}
		pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
			match Self::try_mutate(|v| Ok::<R, Never>(f(v))) {
				Ok(r) => r,
				Err(_) => unreachable!(),
			}
		}
		pub fn mutate_extant<R: Default, F: FnOnce(&mut V) -> R>(f: F) -> R {
			let k = Self::hashed_key();
			match unhashed::get::<V>(&k) {
				Some(mut v) => {
					let r = f(&mut v);
					unhashed::put(&k, &v);
					r
				},
				None => R::default(),
			}
		}
		pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
			mutate_raw::<V, Q, O, R, E>(&Self::hashed_key(), f)
		}
		pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> {
			mutate_raw::<V, OptionQuery, GetDefault, R, E>(&Self::hashed_key(), f)
		}
		pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
			match Self::try_mutate_exists(|v| Ok::<R, Never>(f(v))) {
				Ok(r) => r,
				Err(_) => unreachable!(),
			}
		}
		pub fn kill() {
			raw::clear(&Self::hashed_key())
		}
		pub fn take() -> Q::Query {
			let k = Self::hashed_key();
			let v = unhashed::get::<V>(&k);
			if v.is_some() {
				raw::clear(&k);
			}
			Q::from_optional_value_to_query(v)
		}
		pub fn append<I: Encode, EI: EncodeLike<I>>(i: EI)
		where
			V: StorageAppend<I>,
		{
			append_raw(&Self::hashed_key(), i.encode())
		}
		pub fn try_append<I>(i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I> + Default,
		{
			let mut v: V = unhashed::get(&Self::hashed_key()).unwrap_or_default();
			v.try_append_item(i)?;
			unhashed::put(&Self::hashed_key(), &v);
			Ok(())
		}
		pub fn decode_len() -> Option<usize> {
			decode_len_raw(&Self::hashed_key())
		}
		pub fn translate<Old: Decode, F: FnOnce(Option<Old>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
			let k = Self::hashed_key();
			let old = match raw::raw_get(&k) {
				Some(r) => Some(Old::decode(&mut &r[..]).map_err(|_| ())?),
				None => None,
			};
			let n = f(old);
			match &n {
				Some(v) => unhashed::put(&k, v),
				None => unhashed::kill(&k),
			}
			Ok(n)
		}
	}

	pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(P<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
	impl<Prefix: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<Prefix, H, K, V, Q, O, M> {
		pub fn final_prefix() -> [u8; 32] {
			storage_prefix(Prefix::pallet_prefix().as_bytes(), Prefix::STORAGE_PREFIX.as_bytes())
		}
		pub fn prefix_hash() -> [u8; 32] {
			Self::final_prefix()
		}
		pub fn module_prefix() -> &'static [u8] {
			Prefix::pallet_prefix().as_bytes()
		}
		pub fn storage_prefix() -> &'static [u8] {
			Prefix::STORAGE_PREFIX.as_bytes()
		}
		pub fn hashed_key_for<KA: EncodeLike<K>>(k: KA) -> Vec<u8> {
			let mut r = prefix::<Prefix>();
			r.extend_from_slice(H::hash(&k.encode()).as_ref());
			r
		}
		pub fn contains_key<KA: EncodeLike<K>>(k: KA) -> bool {
			raw::exists(&Self::hashed_key_for(k))
		}
		pub fn get<KA: EncodeLike<K>>(k: KA) -> Q::Query {
			read::<V, Q, O>(&Self::hashed_key_for(k))
		}
		pub fn try_get<KA: EncodeLike<K>>(k: KA) -> Result<V, ()> {
			unhashed::get(&Self::hashed_key_for(k)).ok_or(())
		}
		pub fn set<KA: EncodeLike<K>>(k: KA, q: Q::Query) {
			match Q::from_query_to_optional_value(q) {
				Some(v) => Self::insert(k, v),
				None => Self::remove(k),
			}
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
			let (x, y) = (raw::raw_get(&a), raw::raw_get(&b));
			let w = |k: &[u8], v: Option<Vec<u8>>| match v {
				Some(v) => raw::set(k, &v),
				None => raw::clear(k),
			};
			w(&a, y);
			w(&b, x);
		}
		pub fn insert<KA: EncodeLike<K>, VA: EncodeLike<V>>(k: KA, v: VA) {
			raw::set(&Self::hashed_key_for(k), &v.encode())
		}
		pub fn remove<KA: EncodeLike<K>>(k: KA) {
			raw::clear(&Self::hashed_key_for(k))
		}
		pub fn mutate<KA: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: KA, f: F) -> R {
			match Self::try_mutate(k, |v| Ok::<R, Never>(f(v))) {
				Ok(r) => r,
				Err(_) => unreachable!(),
			}
		}
		pub fn mutate_extant<KA: EncodeLike<K>, R: Default, F: FnOnce(&mut V) -> R>(k: KA, f: F) -> R {
			let k = Self::hashed_key_for(k);
			match unhashed::get::<V>(&k) {
				Some(mut v) => {
					let r = f(&mut v);
					unhashed::put(&k, &v);
					r
				},
				None => R::default(),
			}
		}
		pub fn try_mutate<KA: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: KA, f: F) -> Result<R, E> {
			mutate_raw::<V, Q, O, R, E>(&Self::hashed_key_for(k), f)
		}
		pub fn mutate_exists<KA: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: KA, f: F) -> R {
			match Self::try_mutate_exists(k, |v| Ok::<R, Never>(f(v))) {
				Ok(r) => r,
				Err(_) => unreachable!(),
			}
		}
		pub fn try_mutate_exists<KA: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: KA, f: F) -> Result<R, E> {
			let k = Self::hashed_key_for(k);
			let mut v = unhashed::get::<V>(&k);
			let r = f(&mut v);
			if r.is_ok() {
				match v {
					Some(v) => unhashed::put(&k, &v),
					None => unhashed::kill(&k),
				}
			}
			r
		}
		pub fn take<KA: EncodeLike<K>>(k: KA) -> Q::Query {
			Q::from_optional_value_to_query(unhashed::take::<V>(&Self::hashed_key_for(k)))
		}
		pub fn append<I: Encode, EI: EncodeLike<I>, KA: EncodeLike<K>>(k: KA, i: EI)
		where
			V: StorageAppend<I>,
		{
			append_raw(&Self::hashed_key_for(k), i.encode())
		}
		pub fn try_append<KA: EncodeLike<K>, I>(k: KA, i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I> + Default,
		{
			let k = Self::hashed_key_for(k);
			let mut v: V = unhashed::get(&k).unwrap_or_default();
			v.try_append_item(i)?;
			unhashed::put(&k, &v);
			Ok(())
		}
		pub fn decode_len<KA: EncodeLike<K>>(k: KA) -> Option<usize> {
			decode_len_raw(&Self::hashed_key_for(k))
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> crate::support::MultiRemovalResults {
			unhashed::clear_prefix(&prefix::<Prefix>(), Some(limit), None)
		}
		pub fn remove_all(limit: Option<u32>) -> KillRes {
			let (m, n) = raw::clear_prefix(&prefix::<Prefix>(), limit);
			if m {
				KillRes::SomeRemaining(n)
			} else {
				KillRes::AllRemoved(n)
			}
		}
		pub fn iter_values() -> PrefixIterator<V> {
			PrefixIterator::new_with(prefix::<Prefix>(), prefix::<Prefix>(), false, |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(mut f: F) {
			for k in raw::keys_with_prefix(&prefix::<Prefix>()) {
				if let Some(o) = unhashed::get::<Old>(&k) {
					match f(o) {
						Some(v) => unhashed::put(&k, &v),
						None => unhashed::kill(&k),
					}
				}
			}
		}
	}
	pub enum KillRes {
		AllRemoved(u32),
		SomeRemaining(u32),
	}
	impl<Prefix: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<Prefix, H, K, V, Q, O, M> {
		pub fn iter() -> PrefixIterator<(K, V)> {
			Self::iter_from(prefix::<Prefix>())
		}
		pub fn iter_from(start: Vec<u8>) -> PrefixIterator<(K, V)> {
			PrefixIterator::new_with(prefix::<Prefix>(), start, false, |k, v| Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_from_key(k: impl EncodeLike<K>) -> PrefixIterator<(K, V)> {
			Self::iter_from(Self::hashed_key_for(k))
		}
		pub fn iter_keys() -> PrefixIterator<K> {
			Self::iter_keys_from(prefix::<Prefix>())
		}
		pub fn iter_keys_from(start: Vec<u8>) -> PrefixIterator<K> {
			PrefixIterator::new_with(prefix::<Prefix>(), start, false, |k, _| K::decode(&mut H::reverse(k)).ok())
		}
		pub fn iter_keys_from_key(k: impl EncodeLike<K>) -> PrefixIterator<K> {
			Self::iter_keys_from(Self::hashed_key_for(k))
		}
		pub fn drain() -> PrefixIterator<(K, V)> {
			Self::iter().drain()
		}
		pub fn translate<Old: Decode, F: FnMut(K, Old) -> Option<V>>(mut f: F) {
			let p = prefix::<Prefix>();
			for k in raw::keys_with_prefix(&p) {
				if let (Some(o), Ok(key)) = (unhashed::get::<Old>(&k), K::decode(&mut H::reverse(&k[p.len()..]))) {
					match f(key, o) {
						Some(v) => unhashed::put(&k, &v),
						None => unhashed::kill(&k),
					}
				}
			}
		}
	}

	pub struct StorageDoubleMap<Prefix, H1, K1, H2, K2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(P<(Prefix, H1, K1, H2, K2, Value, QueryKind, OnEmpty, MaxValues)>);
	impl<Prefix: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageDoubleMap<Prefix, H1, K1, H2, K2, V, Q, O, M> {
		pub fn final_prefix() -> [u8; 32] {
			storage_prefix(Prefix::pallet_prefix().as_bytes(), Prefix::STORAGE_PREFIX.as_bytes())
		}
		fn p1(k: Vec<u8>) -> Vec<u8> {
			let mut r = prefix::<Prefix>();
			r.extend_from_slice(H1::hash(&k).as_ref());
			r
		}
		pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
			let mut r = Self::p1(a.encode());
			r.extend_from_slice(H2::hash(&b.encode()).as_ref());
			r
		}
		pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
			raw::exists(&Self::hashed_key_for(a, b))
		}
		pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			read::<V, Q, O>(&Self::hashed_key_for(a, b))
		}
		pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
			unhashed::get(&Self::hashed_key_for(a, b)).ok_or(())
		}
		pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
			match Q::from_query_to_optional_value(q) {
				Some(v) => Self::insert(a, b, v),
				None => Self::remove(a, b),
			}
		}
		pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, VA: EncodeLike<V>>(a: A, b: B, v: VA) {
			raw::set(&Self::hashed_key_for(a, b), &v.encode())
		}
		pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
			raw::clear(&Self::hashed_key_for(a, b))
		}
		pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			Q::from_optional_value_to_query(unhashed::take::<V>(&Self::hashed_key_for(a, b)))
		}
		pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
			match Self::try_mutate(a, b, |v| Ok::<R, Never>(f(v))) {
				Ok(r) => r,
				Err(_) => unreachable!(),
			}
		}
		pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
			mutate_raw::<V, Q, O, R, E>(&Self::hashed_key_for(a, b), f)
		}
		pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
			match Self::try_mutate_exists(a, b, |v| Ok::<R, Never>(f(v))) {
				Ok(r) => r,
				Err(_) => unreachable!(),
			}
		}
		pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
			let k = Self::hashed_key_for(a, b);
			let mut v = unhashed::get::<V>(&k);
			let r = f(&mut v);
			if r.is_ok() {
				match v {
					Some(v) => unhashed::put(&k, &v),
					None => unhashed::kill(&k),
				}
			}
			r
		}
		pub fn append<I: Encode, EI: EncodeLike<I>, A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, i: EI)
		where
			V: StorageAppend<I>,
		{
			append_raw(&Self::hashed_key_for(a, b), i.encode())
		}
		pub fn try_append<A: EncodeLike<K1>, B: EncodeLike<K2>, I>(a: A, b: B, i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I> + Default,
		{
			let k = Self::hashed_key_for(a, b);
			let mut v: V = unhashed::get(&k).unwrap_or_default();
			v.try_append_item(i)?;
			unhashed::put(&k, &v);
			Ok(())
		}
		pub fn decode_len<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Option<usize> {
			decode_len_raw(&Self::hashed_key_for(a, b))
		}
		pub fn clear_prefix(a: impl EncodeLike<K1>, limit: u32, _c: Option<&[u8]>) -> crate::support::MultiRemovalResults {
			unhashed::clear_prefix(&Self::p1(a.encode()), Some(limit), None)
		}
		pub fn remove_prefix(a: impl EncodeLike<K1>, limit: Option<u32>) -> KillRes {
			let (m, n) = raw::clear_prefix(&Self::p1(a.encode()), limit);
			if m {
				KillRes::SomeRemaining(n)
			} else {
				KillRes::AllRemoved(n)
			}
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> crate::support::MultiRemovalResults {
			unhashed::clear_prefix(&prefix::<Prefix>(), Some(limit), None)
		}
		pub fn iter_prefix_values(a: impl EncodeLike<K1>) -> PrefixIterator<V> {
			let p = Self::p1(a.encode());
			PrefixIterator::new_with(p.clone(), p, false, |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn iter_values() -> PrefixIterator<V> {
			PrefixIterator::new_with(prefix::<Prefix>(), prefix::<Prefix>(), false, |_, v| V::decode(&mut &v[..]).ok())
		}
		pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(mut f: F) {
			for k in raw::keys_with_prefix(&prefix::<Prefix>()) {
				if let Some(o) = unhashed::get::<Old>(&k) {
					match f(o) {
						Some(v) => unhashed::put(&k, &v),
						None => unhashed::kill(&k),
					}
				}
			}
		}
	}
	impl<Prefix: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageDoubleMap<Prefix, H1, K1, H2, K2, V, Q, O, M> {
		fn keys(k: &[u8]) -> Option<(K1, K2)> {
			let mut i = H1::reverse(k);
			let a = K1::decode(&mut i).ok()?;
			let mut j = H2::reverse(i);
			Some((a, K2::decode(&mut j).ok()?))
		}
		pub fn iter_prefix(a: impl EncodeLike<K1>) -> PrefixIterator<(K2, V)> {
			let p = Self::p1(a.encode());
			PrefixIterator::new_with(p.clone(), p, false, |k, v| Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_prefix_from(a: impl EncodeLike<K1>, start: Vec<u8>) -> PrefixIterator<(K2, V)> {
			PrefixIterator::new_with(Self::p1(a.encode()), start, false, |k, v| Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?)))
		}
		pub fn iter_key_prefix(a: impl EncodeLike<K1>) -> PrefixIterator<K2> {
			let p = Self::p1(a.encode());
			PrefixIterator::new_with(p.clone(), p, false, |k, _| K2::decode(&mut H2::reverse(k)).ok())
		}
		pub fn drain_prefix(a: impl EncodeLike<K1>) -> PrefixIterator<(K2, V)> {
			Self::iter_prefix(a).drain()
		}
		pub fn iter() -> PrefixIterator<(K1, K2, V)> {
			Self::iter_from(prefix::<Prefix>())
		}
		pub fn iter_from(start: Vec<u8>) -> PrefixIterator<(K1, K2, V)> {
			PrefixIterator::new_with(prefix::<Prefix>(), start, false, |k, v| Self::keys(k).and_then(|(a, b)| Some((a, b, V::decode(&mut &v[..]).ok()?))))
		}
		pub fn iter_keys() -> PrefixIterator<(K1, K2)> {
			PrefixIterator::new_with(prefix::<Prefix>(), prefix::<Prefix>(), false, |k, _| Self::keys(k))
		}
		pub fn drain() -> PrefixIterator<(K1, K2, V)> {
			Self::iter().drain()
		}
		pub fn translate<Old: Decode, F: FnMut(K1, K2, Old) -> Option<V>>(mut f: F) {
			let p = prefix::<Prefix>();
			for k in raw::keys_with_prefix(&p) {
				if let (Some(o), Some((a, b))) = (unhashed::get::<Old>(&k), Self::keys(&k[p.len()..])) {
					match f(a, b, o) {
						Some(v) => unhashed::put(&k, &v),
						None => unhashed::kill(&k),
					}
				}
			}
		}
	}

	pub struct CountedStorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(P<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
	impl<Prefix: CountedStorageMapInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> CountedStorageMap<Prefix, H, K, V, Q, O, M> {
		fn ck() -> Vec<u8> {
			prefix::<Prefix::CounterPrefix>()
		}
		pub fn count() -> u32 {
			unhashed::get_or_default(&Self::ck())
		}
		pub fn get<KA: EncodeLike<K>>(k: KA) -> Q::Query {
			StorageMap::<Prefix, H, K, V, Q, O, M>::get(k)
		}
		pub fn contains_key<KA: EncodeLike<K>>(k: KA) -> bool {
			StorageMap::<Prefix, H, K, V, Q, O, M>::contains_key(k)
		}
		pub fn insert<KA: EncodeLike<K> + Clone, VA: EncodeLike<V>>(k: KA, v: VA) {
			if !Self::contains_key(k.clone()) {
				unhashed::put(&Self::ck(), &(Self::count() + 1));
			}
			StorageMap::<Prefix, H, K, V, Q, O, M>::insert(k, v)
		}
		pub fn remove<KA: EncodeLike<K> + Clone>(k: KA) {
			if Self::contains_key(k.clone()) {
				unhashed::put(&Self::ck(), &(Self::count() - 1));
			}
			StorageMap::<Prefix, H, K, V, Q, O, M>::remove(k)
		}
		pub fn iter() -> PrefixIterator<(K, V)> {
			StorageMap::<Prefix, H, K, V, Q, O, M>::iter()
		}
	}

	impl<Prefix, V, Q, O> super::StorageValue<V> for StorageValue<Prefix, V, Q, O> {}
	impl<Prefix, H, K, V, Q, O, M> super::StorageMap<K, V> for StorageMap<Prefix, H, K, V, Q, O, M> {}
	impl<Prefix, H1, K1, H2, K2, V, Q, O, M> super::StorageDoubleMap<K1, K2, V> for StorageDoubleMap<Prefix, H1, K1, H2, K2, V, Q, O, M> {}
}
pub mod bounded_vec_like {}
pub mod bounded_vec {
	pub use crate::bounded::BoundedVec;
}
pub mod child {}
