//! SCALE codec (shim, wire compatible for the types used).
pub extern crate alloc;
use alloc::{borrow::Cow, boxed::Box, collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque}, rc::Rc, string::String, sync::Arc, vec::Vec};
use core::marker::PhantomData;

pub use codec_derive::{CompactAs, Decode, Encode, MaxEncodedLen};

#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Error {
	desc: Cow<'static, str>,
}
impl From<&'static str> for Error {
	fn from(d: &'static str) -> Self {
		Error { desc: Cow::Borrowed(d) }
	}
}
impl From<String> for Error {
	fn from(d: String) -> Self {
		Error { desc: Cow::Owned(d) }
	}
}
impl core::fmt::Display for Error {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		f.write_str(&self.desc)
	}
}
impl std::error::Error for Error {}
impl Error {
	pub fn chain(self, _d: impl Into<Cow<'static, str>>) -> Self {
		self
	}
}

pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		Ok(())
	}
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into());
		}
		let l = into.len();
		into.copy_from_slice(&self[..l]);
		*self = &self[l..];
		Ok(())
	}
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.0.read_exact(into).map_err(|_| "io error".into())
	}
}

pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, byte: u8) {
		self.write(&[byte]);
	}
	fn push<V: Encode + ?Sized>(&mut self, value: &V)
	where
		Self: Sized,
	{
		value.encode_to(self);
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, bytes: &[u8]) {
		self.extend_from_slice(bytes)
	}
}

pub trait Encode {
	fn size_hint(&self) -> usize {
		0
	}
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		self.using_encoded(|buf| dest.write(buf));
	}
	fn encode(&self) -> Vec<u8> {
		let mut r = Vec::with_capacity(self.size_hint());
		self.encode_to(&mut r);
		r
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		self.encode().len()
	}
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
		Self::decode(input).map(|_| ())
	}
	fn encoded_fixed_size() -> Option<usize> {
		None
	}
}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait DecodeAll: Sized {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() { Ok(r) } else { Err("Input buffer has still data left after decoding!".into()) }
	}
}
pub trait DecodeLimit: Sized {
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
	fn decode_with_depth_limit<I: Input>(_l: u32, input: &mut I) -> Result<Self, Error> {
		T::decode(input)
	}
	fn decode_all_with_depth_limit(_l: u32, input: &mut &[u8]) -> Result<Self, Error> {
		T::decode_all(input)
	}
}
pub trait DecodeLength {
	fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait FullCodec: Decode + FullEncode {}
impl<T: Decode + FullEncode> FullCodec for T {}
pub trait MaxEncodedLen {
	fn max_encoded_len() -> usize;
}
pub trait ConstEncodedLen: MaxEncodedLen {}
pub trait WrapperTypeEncode: core::ops::Deref {}
pub trait WrapperTypeDecode: Sized {
	type Wrapped: Into<Self>;
}
pub trait KeyedVec {
	fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8>;
}
impl<T: Encode> KeyedVec for T {
	fn to_keyed_vec(&self, p: &[u8]) -> Vec<u8> {
		let mut v = p.to_vec();
		self.encode_to(&mut v);
		v
	}
}
pub trait Joiner {
	fn and<V: Encode + Sized>(self, value: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Encode>(mut self, v: &V) -> Self {
		v.encode_to(&mut self);
		self
	}
}

// ---- compact
#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Debug, Default)]
pub struct Compact<T>(pub T);
pub struct CompactRef<'a, T>(pub &'a T);
impl<T> From<T> for Compact<T> {
	fn from(t: T) -> Self {
		Compact(t)
	}
}
pub trait HasCompact: Sized {
	fn encode_compact_to<O: Output + ?Sized>(&self, o: &mut O);
	fn decode_compact<I: Input>(i: &mut I) -> Result<Self, Error>;
}
fn enc_compact<O: Output + ?Sized>(v: u128, o: &mut O) {
	if v < 1 << 6 {
		o.push_byte((v as u8) << 2)
	} else if v < 1 << 14 {
		o.write(&(((v as u16) << 2) | 1).to_le_bytes())
	} else if v < 1 << 30 {
		o.write(&(((v as u32) << 2) | 2).to_le_bytes())
	} else {
		let bytes = 16 - (v.leading_zeros() / 8) as usize;
		o.push_byte(3 + ((bytes - 4) << 2) as u8);
		o.write(&v.to_le_bytes()[..bytes]);
	}
}
fn dec_compact<I: Input>(i: &mut I) -> Result<u128, Error> {
	let b = i.read_byte()?;
	Ok(match b & 3 {
		0 => (b >> 2) as u128,
		1 => {
			let r = (u16::from_le_bytes([b, i.read_byte()?]) >> 2) as u128;
			if r < 1 << 6 {
				return Err("U: out of range".into());
			}
			r
		},
		2 => {
			let mut x = [b, 0, 0, 0];
			i.read(&mut x[1..])?;
			let r = (u32::from_le_bytes(x) >> 2) as u128;
			if r < 1 << 14 {
				return Err("U: out of range".into());
			}
			r
		},
		_ => {
			let n = (b >> 2) as usize + 4;
			if n > 16 {
				return Err("unexpected prefix decoding Compact".into());
			}
			let mut x = [0u8; 16];
			i.read(&mut x[..n])?;
			let r = u128::from_le_bytes(x);
			if x[n - 1] == 0 || r < 1 << 30 {
				return Err("U: out of range".into());
			}
			r
		},
	})
}
macro_rules! hc { ($($t:ty),*) => { $(
	impl HasCompact for $t {
		fn encode_compact_to<O: Output + ?Sized>(&self, o: &mut O) { enc_compact(*self as u128, o) }
		fn decode_compact<I: Input>(i: &mut I) -> Result<Self, Error> { <$t>::try_from(dec_compact(i)?).map_err(|_| "out of range".into()) }
	}
	impl From<Compact<$t>> for $t { fn from(c: Compact<$t>) -> $t { c.0 } }
)* } }
hc!(u8, u16, u32, u64, u128);
impl HasCompact for () {
	fn encode_compact_to<O: Output + ?Sized>(&self, _: &mut O) {}
	fn decode_compact<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}
impl<T: HasCompact> Encode for Compact<T> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.0.encode_compact_to(o)
	}
}
impl<'a, T: HasCompact> Encode for CompactRef<'a, T> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.0.encode_compact_to(o)
	}
}
impl<T: HasCompact> EncodeLike for Compact<T> {}
impl<T: HasCompact> Decode for Compact<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		T::decode_compact(i).map(Compact)
	}
}
impl<T: HasCompact> MaxEncodedLen for Compact<T> {
	fn max_encoded_len() -> usize {
		17
	}
}

// ---- primitives
macro_rules! prim { ($($t:ty),*) => { $(
	impl Encode for $t {
		fn size_hint(&self) -> usize { core::mem::size_of::<$t>() }
		fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { o.write(&self.to_le_bytes()) }
	}
	impl EncodeLike for $t {}
	impl Decode for $t { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut b = [0u8; core::mem::size_of::<$t>()]; i.read(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
	impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { core::mem::size_of::<$t>() } }
)* } }
prim!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
impl Encode for bool {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		o.push_byte(*self as u8)
	}
}
impl EncodeLike for bool {}
impl Decode for bool {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}
impl<T: ?Sized> Encode for PhantomData<T> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl Encode for core::convert::Infallible {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl EncodeLike for core::convert::Infallible {}
impl Decode for core::convert::Infallible {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Err("infallible".into())
	}
}

macro_rules! wrap { ($($t:ident),*) => { $(
	impl<T: Encode + ?Sized> Encode for $t<T> { fn size_hint(&self) -> usize { (**self).size_hint() } fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { (**self).encode_to(o) } }
	impl<T: Encode> EncodeLike for $t<T> {}
	impl<T: Encode> EncodeLike<T> for $t<T> {}
	impl<T: Decode> Decode for $t<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { T::decode(i).map($t::new) } }
	impl<T: MaxEncodedLen> MaxEncodedLen for $t<T> { fn max_encoded_len() -> usize { T::max_encoded_len() } }
)* } }
wrap!(Box, Rc, Arc);
impl<'a, T: Encode + ?Sized> Encode for &'a T {
	fn size_hint(&self) -> usize {
		(**self).size_hint()
	}
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		(**self).encode_to(o)
	}
}
impl<'a, T: Encode + ?Sized> Encode for &'a mut T {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		(**self).encode_to(o)
	}
}
impl<'a, T: Encode> EncodeLike for &'a T {}
impl<'a, T: Encode> EncodeLike<T> for &'a T {}
impl<'a, 'b, T: Encode> EncodeLike<T> for &'a &'b T {}
impl<'a, T: Encode> EncodeLike for &'a mut T {}
impl<'a, T: Encode> EncodeLike<T> for &'a mut T {}
impl<'a, T: Encode + ?Sized + alloc::borrow::ToOwned> Encode for Cow<'a, T> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		(**self).encode_to(o)
	}
}

impl<T: Encode> Encode for Option<T> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		match self {
			Some(t) => {
				o.push_byte(1);
				t.encode_to(o)
			},
			None => o.push_byte(0),
		}
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(i)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_add(1)
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		match self {
			Ok(t) => {
				o.push_byte(0);
				t.encode_to(o)
			},
			Err(e) => {
				o.push_byte(1);
				e.encode_to(o)
			},
		}
	}
}
impl<T: Encode, E: Encode> EncodeLike for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(Ok(T::decode(i)?)),
			1 => Ok(Err(E::decode(i)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T: MaxEncodedLen, E: MaxEncodedLen> MaxEncodedLen for Result<T, E> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().max(E::max_encoded_len()).saturating_add(1)
	}
}

impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		for x in self {
			x.encode_to(o)
		}
	}
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let mut v = Vec::with_capacity(N);
		for _ in 0..N {
			v.push(T::decode(i)?);
		}
		v.try_into().map_err(|_| "array".into())
	}
}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_mul(N)
	}
}

impl<T: Encode> Encode for [T] {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		enc_compact(self.len() as u128, o);
		for x in self {
			x.encode_to(o)
		}
	}
}
impl Encode for str {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.as_bytes().encode_to(o)
	}
}
impl Encode for String {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.as_bytes().encode_to(o)
	}
}
impl EncodeLike for String {}
impl<'a> EncodeLike<String> for &'a str {}
impl Decode for String {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(i)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
fn dec_len<I: Input>(i: &mut I) -> Result<usize, Error> {
	Ok(u32::decode_compact(i)? as usize)
}
impl<T: Encode> Encode for Vec<T> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.as_slice().encode_to(o)
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<'a, T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &'a [T] {}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = dec_len(i)?;
		let cap = match i.remaining_len()? {
			Some(r) => n.min(r),
			None => n.min(1024),
		};
		let mut v = Vec::with_capacity(cap);
		for _ in 0..n {
			v.push(T::decode(i)?);
		}
		Ok(v)
	}
}
macro_rules! coll { ($($t:ident [$($b:tt)*]),*) => { $(
	impl<T: Encode $($b)*> Encode for $t<T> { fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { enc_compact(self.len() as u128, o); for x in self.iter() { x.encode_to(o) } } }
	impl<T: Encode $($b)*> EncodeLike for $t<T> {}
	impl<T: Decode $($b)*> Decode for $t<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Vec::<T>::decode(i)?.into_iter().collect()) } }
)* } }
coll!(VecDeque[], BTreeSet[+ Ord], LinkedList[], BinaryHeap[+ Ord]);
impl<K: Encode + Ord, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		enc_compact(self.len() as u128, o);
		for (k, v) in self {
			k.encode_to(o);
			v.encode_to(o)
		}
	}
}
impl<K: Encode + Ord, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Vec::<(K, V)>::decode(i)?.into_iter().collect())
	}
}
impl<T> DecodeLength for Vec<T> {
	fn len(mut b: &[u8]) -> Result<usize, Error> {
		dec_len(&mut b)
	}
}
impl<T> DecodeLength for BTreeSet<T> {
	fn len(mut b: &[u8]) -> Result<usize, Error> {
		dec_len(&mut b)
	}
}
impl<T> DecodeLength for VecDeque<T> {
	fn len(mut b: &[u8]) -> Result<usize, Error> {
		dec_len(&mut b)
	}
}
impl<K, T> DecodeLength for BTreeMap<K, T> {
	fn len(mut b: &[u8]) -> Result<usize, Error> {
		dec_len(&mut b)
	}
}

macro_rules! tuples { ($( ($($t:ident $u:ident $n:tt),*) )*) => { $(
	impl<$($t: Encode),*> Encode for ($($t,)*) { fn encode_to<O: Output + ?Sized>(&self, _o: &mut O) { $( self.$n.encode_to(_o); )* } }
	impl<$($t: EncodeLike<$u>, $u: Encode),*> EncodeLike<($($u,)*)> for ($($t,)*) {}
	impl<$($t: Decode),*> Decode for ($($t,)*) { fn decode<In: Input>(_i: &mut In) -> Result<Self, Error> { Ok(($($t::decode(_i)?,)*)) } }
	impl<$($t: MaxEncodedLen),*> MaxEncodedLen for ($($t,)*) { fn max_encoded_len() -> usize { 0usize $( .saturating_add($t::max_encoded_len()) )* } }
)* } }
tuples! {
	()
	(A A1 0)
	(A A1 0, B B1 1)
	(A A1 0, B B1 1, C C1 2)
	(A A1 0, B B1 1, C C1 2, D D1 3)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10, M M1 11)
}
impl Encode for core::time::Duration {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.as_secs().encode_to(o);
		self.subsec_nanos().encode_to(o)
	}
}
impl EncodeLike for core::time::Duration {}
impl Decode for core::time::Duration {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(core::time::Duration::new(u64::decode(i)?, u32::decode(i)?))
	}
}
macro_rules! nz { ($($t:ty, $p:ty);*) => { $(
	impl Encode for $t { fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { self.get().encode_to(o) } }
	impl EncodeLike for $t {}
	impl Decode for $t { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { <$t>::new(<$p>::decode(i)?).ok_or("zero".into()) } }
	impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { core::mem::size_of::<$t>() } }
)* } }
nz!(core::num::NonZeroU32, u32; core::num::NonZeroU64, u64);
impl<T: Encode> Encode for core::ops::Range<T> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.start.encode_to(o);
		self.end.encode_to(o)
	}
}
impl<T: Decode> Decode for core::ops::Range<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(T::decode(i)?..T::decode(i)?)
	}
}
