//! sp_core::bounded (bounded-collections semantics)
use codec::{Decode, Encode, EncodeLike, Input, MaxEncodedLen, Output};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::ops::{Deref, Index, IndexMut};
use std::slice::SliceIndex;

pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
macro_rules! consts { ($($n:ident $t:ty),*) => { $(
	#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
	pub struct $n<const T: $t>;
	impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
	impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
	impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
)* } }
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128);

pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
impl<T, I: ExactSizeIterator<Item = T>, S: Get<u32>> TryCollect<BoundedVec<T, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedVec<T, S>, Self::Error> {
		if self.len() > S::get() as usize {
			Err("iterator length too big")
		} else {
			Ok(BoundedVec(self.collect(), PhantomData))
		}
	}
}

macro_rules! common_vec { ($name:ident) => {
	pub struct $name<T, S>(pub(crate) Vec<T>, pub(crate) PhantomData<S>);
	impl<T: std::fmt::Debug, S> std::fmt::Debug for $name<T, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple(stringify!($name)).field(&self.0).finish() } }
	impl<T: Clone, S> Clone for $name<T, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
	impl<T, S> Default for $name<T, S> { fn default() -> Self { Self(Vec::new(), PhantomData) } }
	impl<T: PartialEq, S1, S2> PartialEq<$name<T, S2>> for $name<T, S1> { fn eq(&self, o: &$name<T, S2>) -> bool { self.0 == o.0 } }
	impl<T: PartialEq, S> PartialEq<Vec<T>> for $name<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
	impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for $name<T, S> { fn eq(&self, o: &&'a [T]) -> bool { self.0.as_slice() == *o } }
	impl<T: PartialEq, S> PartialEq<[T]> for $name<T, S> { fn eq(&self, o: &[T]) -> bool { self.0.as_slice() == o } }
	impl<T: Eq, S> Eq for $name<T, S> {}
	impl<T: PartialOrd, S> PartialOrd for $name<T, S> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
	impl<T: Ord, S> Ord for $name<T, S> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
	impl<T: std::hash::Hash, S> std::hash::Hash for $name<T, S> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
	impl<T, S> Deref for $name<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsRef<[T]> for $name<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
	impl<T, S> AsRef<Vec<T>> for $name<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsMut<[T]> for $name<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
	impl<T, S, I: SliceIndex<[T]>> Index<I> for $name<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
	impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for $name<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
	impl<T, S> IntoIterator for $name<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
	impl<'a, T, S> IntoIterator for &'a $name<T, S> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
	impl<'a, T, S> IntoIterator for &'a mut $name<T, S> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
	impl<T, S> From<$name<T, S>> for Vec<T> { fn from(x: $name<T, S>) -> Vec<T> { x.0 } }
	impl<T: Encode, S> Encode for $name<T, S> { fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) } }
	impl<T: Encode, S> EncodeLike for $name<T, S> {}
	impl<T: Encode, S> EncodeLike<Vec<T>> for $name<T, S> {}
	impl<T, S> codec::DecodeLength for $name<T, S> { fn len(b: &[u8]) -> Result<usize, codec::Error> { <Vec<T> as codec::DecodeLength>::len(b) } }
	impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for $name<T, S> { fn max_encoded_len() -> usize { 5usize.saturating_add((S::get() as usize).saturating_mul(T::max_encoded_len())) } }
	impl<T: serde::Serialize, S> serde::Serialize for $name<T, S> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(z) } }
	impl<T, S> $name<T, S> {
		pub fn into_inner(self) -> Vec<T> { self.0 }
		pub fn as_slice(&self) -> &[T] { &self.0 }
		pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.0 }
		pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
		pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
		pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
		pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, f: F) { self.0.retain_mut(f) }
		pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
		pub fn pop(&mut self) -> Option<T> { self.0.pop() }
		pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.iter_mut() }
		pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
		pub fn first_mut(&mut self) -> Option<&mut T> { self.0.first_mut() }
		pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> { self.0.get_mut(i) }
		pub fn split_off(&mut self, at: usize) -> Self { Self(self.0.split_off(at), PhantomData) }
		pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> { self.0.drain(r) }
		pub fn sort(&mut self) where T: Ord { self.0.sort() }
		pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.0.sort_by(f) }
		pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
		pub fn sort_unstable_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_unstable_by_key(f) }
		pub fn reverse(&mut self) { self.0.reverse() }
		pub fn swap(&mut self, a: usize, b: usize) { self.0.swap(a, b) }
		pub fn clear(&mut self) { self.0.clear() }
	}
	impl<T, S: Get<u32>> $name<T, S> {
		pub fn bound() -> usize { S::get() as usize }
		pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
		pub fn with_capacity(n: usize) -> Self { Self(Vec::with_capacity(n.min(Self::bound())), PhantomData) }
		pub fn try_push(&mut self, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.push(t); Ok(()) } else { Err(t) } }
		pub fn force_push(&mut self, t: T) { self.try_push(t).ok().expect("bound") }
		pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.insert(i, t); Ok(()) } else { Err(t) } }
		pub fn force_insert(&mut self, i: usize, t: T) { self.try_insert(i, t).ok().expect("bound") }
		pub fn try_extend(&mut self, w: impl IntoIterator<Item = T>) -> Result<(), ()> {
			let old = self.0.len();
			self.0.extend(w);
			if self.0.len() > Self::bound() { self.0.truncate(old); Err(()) } else { Ok(()) }
		}
		pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if o.len().saturating_add(self.0.len()) > Self::bound() { Err(()) } else { self.0.append(o); Ok(()) } }
		pub fn try_mutate(mut self, mut m: impl FnMut(&mut Vec<T>)) -> Option<Self> { m(&mut self.0); (self.0.len() <= Self::bound()).then(move || self) }
		pub fn try_resize(&mut self, n: usize, v: T) -> Result<(), ()> where T: Clone { if n > Self::bound() { Err(()) } else { self.0.resize(n, v); Ok(()) } }
	}
} }
common_vec!(BoundedVec);
common_vec!(WeakBoundedVec);

impl<T, S> BoundedVec<T, S> {
	pub fn new() -> Self {
		Self::default()
	}
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(S::get() as usize);
		Self(v, PhantomData)
	}
	fn unchecked_from(v: Vec<T>) -> Self {
		Self(v, PhantomData)
	}
	pub fn slice_to_bounded(s: &[T]) -> Self
	where
		T: Clone,
	{
		Self::truncate_from(s.to_vec())
	}
	pub fn force_insert_keep_right(&mut self, i: usize, e: T) -> Result<Option<T>, T> {
		if S::get() as usize == 0 || i > self.0.len() {
			return Err(e);
		}
		if self.0.len() < Self::bound() {
			self.0.insert(i, e);
			Ok(None)
		} else {
			if i == 0 {
				return Err(e);
			}
			let r = self.0.remove(0);
			self.0.insert(i - 1, e);
			Ok(Some(r))
		}
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(t: Vec<T>) -> Result<Self, Vec<T>> {
		if t.len() <= S::get() as usize {
			Ok(Self::unchecked_from(t))
		} else {
			Err(t)
		}
	}
}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let v = Vec::<T>::decode(i)?;
		if v.len() > S::get() as usize {
			return Err("BoundedVec exceeds its limit".into());
		}
		Ok(Self(v, PhantomData))
	}
}
impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = Vec::<T>::deserialize(d)?;
		if v.len() > S::get() as usize {
			return Err(serde::de::Error::custom("out of bounds"));
		}
		Ok(Self(v, PhantomData))
	}
}
impl<T, S: Get<u32>> WeakBoundedVec<T, S> {
	pub fn force_from<M: Into<Option<&'static str>>>(t: Vec<T>, _s: M) -> Self {
		Self(t, PhantomData)
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for WeakBoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(t: Vec<T>) -> Result<Self, Vec<T>> {
		if t.len() <= S::get() as usize {
			Ok(Self(t, PhantomData))
		} else {
			Err(t)
		}
	}
}
impl<T: Decode, S: Get<u32>> Decode for WeakBoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		Ok(Self(Vec::<T>::decode(i)?, PhantomData))
	}
}

pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> {
	type Target = BTreeMap<K, V>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<K: Ord, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		Self(BTreeMap::new(), PhantomData)
	}
}
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for BoundedBTreeMap<K, V, S> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < Self::bound() || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
	pub fn remove(&mut self, k: &K) -> Option<V> {
		self.0.remove(k)
	}
	pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
		self.0.get_mut(k)
	}
	pub fn into_inner(self) -> BTreeMap<K, V> {
		self.0
	}
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> {
		self.0.iter_mut()
	}
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	type Error = ();
	fn try_from(m: BTreeMap<K, V>) -> Result<Self, ()> {
		if m.len() <= S::get() as usize {
			Ok(Self(m, PhantomData))
		} else {
			Err(())
		}
	}
}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = std::collections::btree_map::IntoIter<K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<K: Encode + Ord, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.0.encode_to(o)
	}
}
impl<K: Encode + Ord, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let m = BTreeMap::decode(i)?;
		if m.len() > S::get() as usize {
			return Err("BoundedBTreeMap exceeds its limit".into());
		}
		Ok(Self(m, PhantomData))
	}
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		5 + S::get() as usize * (K::max_encoded_len() + V::max_encoded_len())
	}
}
pub struct BoundedBTreeSet<K, S>(BTreeSet<K>, PhantomData<S>);
impl<K, S> Deref for BoundedBTreeSet<K, S> {
	type Target = BTreeSet<K>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<K: Ord, S> Default for BoundedBTreeSet<K, S> {
	fn default() -> Self {
		Self(BTreeSet::new(), PhantomData)
	}
}
impl<K: Clone, S> Clone for BoundedBTreeSet<K, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K: std::fmt::Debug, S> std::fmt::Debug for BoundedBTreeSet<K, S> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: PartialEq, S> PartialEq for BoundedBTreeSet<K, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq, S> Eq for BoundedBTreeSet<K, S> {}
impl<K: Ord, S: Get<u32>> BoundedBTreeSet<K, S> {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn try_insert(&mut self, k: K) -> Result<bool, K> {
		if self.0.len() < S::get() as usize || self.0.contains(&k) {
			Ok(self.0.insert(k))
		} else {
			Err(k)
		}
	}
	pub fn remove(&mut self, k: &K) -> bool {
		self.0.remove(k)
	}
	pub fn into_inner(self) -> BTreeSet<K> {
		self.0
	}
}
impl<K: Encode + Ord, S> Encode for BoundedBTreeSet<K, S> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.0.encode_to(o)
	}
}
impl<K: Encode + Ord, S> EncodeLike for BoundedBTreeSet<K, S> {}
impl<K: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<K, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let m = BTreeSet::decode(i)?;
		if m.len() > S::get() as usize {
			return Err("BoundedBTreeSet exceeds its limit".into());
		}
		Ok(Self(m, PhantomData))
	}
}
impl<K: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<K, S> {
	fn max_encoded_len() -> usize {
		5 + S::get() as usize * K::max_encoded_len()
	}
}
#[macro_export]
macro_rules! bounded_vec {
	($($x:tt)*) => {{ $crate::sp_core::bounded::BoundedVec::truncate_from(vec![$($x)*]) }};
}
pub use crate::bounded_vec;
