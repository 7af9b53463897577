//! Fixed size hashes and big integers (shim).
use codec::{Decode, Encode, EncodeLike, Error as CErr, Input, MaxEncodedLen, Output};
use core::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FromHexError;
impl fmt::Display for FromHexError {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str("invalid hex")
	}
}
impl std::error::Error for FromHexError {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FromDecStrErr {
	InvalidCharacter,
	InvalidLength,
}
pub type FromStrRadixErr = FromHexError;

pub fn unhex(s: &str) -> Option<Vec<u8>> {
	let s = s.strip_prefix("0x").unwrap_or(s);
	if s.len() % 2 != 0 {
		return None;
	}
	(0..s.len() / 2).map(|i| s.get(2 * i..2 * i + 2).and_then(|b| u8::from_str_radix(b, 16).ok())).collect()
}
pub fn tohex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 2);
	for x in b {
		s.push_str(&format!("{:02x}", x));
	}
	s
}

#[macro_export]
macro_rules! impl_fixed_hash_serde {
	($name:ident, $n:expr) => {
		impl serde::Serialize for $name {
			fn serialize<S: serde::Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> {
				s.serialize_str(&format!("0x{}", $crate::tohex(&self.0)))
			}
		}
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> core::result::Result<Self, D::Error> {
				let s = <String as serde::Deserialize>::deserialize(d)?;
				let v = $crate::unhex(&s).ok_or_else(|| <D::Error as serde::de::Error>::custom("invalid hex"))?;
				let a: [u8; $n] = v.try_into().map_err(|_| <D::Error as serde::de::Error>::custom("invalid length"))?;
				Ok($name(a))
			}
		}
	};
}

macro_rules! hash {
	($name:ident, $n:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
		#[repr(transparent)]
		pub struct $name(pub [u8; $n]);
		impl Default for $name {
			fn default() -> Self {
				$name([0; $n])
			}
		}
		impl $name {
			pub const fn zero() -> Self {
				$name([0; $n])
			}
			pub const fn repeat_byte(b: u8) -> Self {
				$name([b; $n])
			}
			pub const fn len_bytes() -> usize {
				$n
			}
			pub fn from_slice(s: &[u8]) -> Self {
				assert_eq!(s.len(), $n);
				let mut r = [0; $n];
				r.copy_from_slice(s);
				$name(r)
			}
			pub const fn as_fixed_bytes(&self) -> &[u8; $n] {
				&self.0
			}
			pub fn to_fixed_bytes(self) -> [u8; $n] {
				self.0
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_bytes_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
			pub fn is_zero(&self) -> bool {
				self.0.iter().all(|x| *x == 0)
			}
			pub fn assign_from_slice(&mut self, s: &[u8]) {
				self.0.copy_from_slice(s)
			}
			pub fn from_low_u64_be(v: u64) -> Self {
				let mut r = [0u8; $n];
				let b = v.to_be_bytes();
				let l = if $n < 8 { $n } else { 8 };
				r[$n - l..].copy_from_slice(&b[8 - l..]);
				$name(r)
			}
			pub fn from_low_u64_le(v: u64) -> Self {
				Self::from_low_u64_be(v.swap_bytes())
			}
			pub fn from_low_u64_ne(v: u64) -> Self {
				Self::from_low_u64_be(v.swap_bytes())
			}
			pub fn to_low_u64_be(&self) -> u64 {
				let mut b = [0u8; 8];
				let l = if $n < 8 { $n } else { 8 };
				b[8 - l..].copy_from_slice(&self.0[$n - l..]);
				u64::from_be_bytes(b)
			}
			/// simulated: a fixed value, the code under test must not depend on it
			pub fn random() -> Self {
				$name([0x5a; $n])
			}
			pub fn covers(&self, b: &Self) -> bool {
				self.0.iter().zip(b.0.iter()).all(|(x, y)| x & y == *y)
			}
		}
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				write!(f, "0x{}", tohex(&self.0))
			}
		}
		impl fmt::Display for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				let h = tohex(&self.0);
				write!(f, "0x{}…{}", &h[..4.min(h.len())], &h[h.len().saturating_sub(4)..])
			}
		}
		impl fmt::LowerHex for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				if f.alternate() {
					f.write_str("0x")?;
				}
				f.write_str(&tohex(&self.0))
			}
		}
		impl AsRef<[u8]> for $name {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $name {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl From<[u8; $n]> for $name {
			fn from(a: [u8; $n]) -> Self {
				$name(a)
			}
		}
		impl<'a> From<&'a [u8; $n]> for $name {
			fn from(a: &'a [u8; $n]) -> Self {
				$name(*a)
			}
		}
		impl From<$name> for [u8; $n] {
			fn from(a: $name) -> Self {
				a.0
			}
		}
		impl core::str::FromStr for $name {
			type Err = FromHexError;
			fn from_str(s: &str) -> Result<Self, Self::Err> {
				let v = unhex(s).ok_or(FromHexError)?;
				let a: [u8; $n] = v.try_into().map_err(|_| FromHexError)?;
				Ok($name(a))
			}
		}
		impl<I: core::slice::SliceIndex<[u8]>> core::ops::Index<I> for $name {
			type Output = I::Output;
			fn index(&self, i: I) -> &I::Output {
				&self.0[i]
			}
		}
		impl<I: core::slice::SliceIndex<[u8]>> core::ops::IndexMut<I> for $name {
			fn index_mut(&mut self, i: I) -> &mut I::Output {
				&mut self.0[i]
			}
		}
		impl core::ops::BitXor for $name {
			type Output = Self;
			fn bitxor(mut self, o: Self) -> Self {
				for i in 0..$n {
					self.0[i] ^= o.0[i]
				}
				self
			}
		}
		impl core::ops::BitOr for $name {
			type Output = Self;
			fn bitor(mut self, o: Self) -> Self {
				for i in 0..$n {
					self.0[i] |= o.0[i]
				}
				self
			}
		}
		impl core::ops::BitAnd for $name {
			type Output = Self;
			fn bitand(mut self, o: Self) -> Self {
				for i in 0..$n {
					self.0[i] &= o.0[i]
				}
				self
			}
		}
		impl Encode for $name {
			fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
				o.write(&self.0)
			}
		}
		impl EncodeLike for $name {}
		impl Decode for $name {
			fn decode<I: Input>(i: &mut I) -> Result<Self, CErr> {
				let mut b = [0; $n];
				i.read(&mut b)?;
				Ok($name(b))
			}
		}
		impl MaxEncodedLen for $name {
			fn max_encoded_len() -> usize {
				$n
			}
		}
		impl_fixed_hash_serde!($name, $n);
	};
}
hash!(H32, 4);
hash!(H64, 8);
hash!(H128, 16);
hash!(H160, 20);
hash!(H256, 32);
hash!(H264, 33);
hash!(H512, 64);
hash!(H520, 65);
hash!(Bloom, 256);

impl From<H160> for H256 {
	fn from(h: H160) -> H256 {
		let mut r = [0u8; 32];
		r[12..].copy_from_slice(&h.0);
		H256(r)
	}
}
impl From<H256> for H160 {
	fn from(h: H256) -> H160 {
		H160::from_slice(&h.0[12..])
	}
}

macro_rules! uint {
	($name:ident, $n:expr, $bytes:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
		#[repr(transparent)]
		pub struct $name(pub [u64; $n]);
		impl $name {
			pub const MAX: $name = $name([u64::MAX; $n]);
			pub const fn zero() -> Self {
				$name([0; $n])
			}
			pub fn one() -> Self {
				let mut r = [0; $n];
				r[0] = 1;
				$name(r)
			}
			pub const fn max_value() -> Self {
				$name([u64::MAX; $n])
			}
			pub const fn min_value() -> Self {
				$name([0; $n])
			}
			pub fn is_zero(&self) -> bool {
				self.0.iter().all(|x| *x == 0)
			}
			pub fn low_u32(&self) -> u32 {
				self.0[0] as u32
			}
			pub fn low_u64(&self) -> u64 {
				self.0[0]
			}
			pub fn low_u128(&self) -> u128 {
				self.0[0] as u128 | ((if $n > 1 { self.0[1 % $n] } else { 0 } as u128) << 64)
			}
			pub fn as_u32(&self) -> u32 {
				if self.bits() > 32 {
					panic!("Integer overflow when casting to u32")
				}
				self.0[0] as u32
			}
			pub fn as_u64(&self) -> u64 {
				if self.bits() > 64 {
					panic!("Integer overflow when casting to u64")
				}
				self.0[0]
			}
			pub fn as_u128(&self) -> u128 {
				if self.bits() > 128 {
					panic!("Integer overflow when casting to u128")
				}
				self.low_u128()
			}
			pub fn as_usize(&self) -> usize {
				self.as_u64() as usize
			}
			pub fn bits(&self) -> usize {
				for i in (0..$n).rev() {
					if self.0[i] != 0 {
						return 64 * (i + 1) - self.0[i].leading_zeros() as usize;
					}
				}
				0
			}
			pub fn leading_zeros(&self) -> u32 {
				($n * 64 - self.bits()) as u32
			}
			pub fn trailing_zeros(&self) -> u32 {
				for i in 0..$n {
					if self.0[i] != 0 {
						return 64 * i as u32 + self.0[i].trailing_zeros();
					}
				}
				$n * 64
			}
			pub fn bit(&self, i: usize) -> bool {
				i < $n * 64 && self.0[i / 64] >> (i % 64) & 1 == 1
			}
			pub fn byte(&self, i: usize) -> u8 {
				(self.0[i / 8] >> ((i % 8) * 8)) as u8
			}
			pub fn overflowing_add(self, o: Self) -> (Self, bool) {
				let mut r = [0u64; $n];
				let mut c = 0u128;
				for i in 0..$n {
					let t = self.0[i] as u128 + o.0[i] as u128 + c;
					r[i] = t as u64;
					c = t >> 64;
				}
				($name(r), c != 0)
			}
			pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
				let mut r = [0u64; $n];
				let mut b = false;
				for i in 0..$n {
					let (t, b1) = self.0[i].overflowing_sub(o.0[i]);
					let (t, b2) = t.overflowing_sub(b as u64);
					r[i] = t;
					b = b1 | b2;
				}
				($name(r), b)
			}
			pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
				let mut r = [0u64; 2 * $n];
				for i in 0..$n {
					let mut c = 0u128;
					for j in 0..$n {
						let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
						r[i + j] = t as u64;
						c = t >> 64;
					}
					r[i + $n] = c as u64;
				}
				let mut lo = [0u64; $n];
				lo.copy_from_slice(&r[..$n]);
				($name(lo), r[$n..].iter().any(|x| *x != 0))
			}
			pub fn checked_add(self, o: Self) -> Option<Self> {
				let (r, f) = self.overflowing_add(o);
				if f { None } else { Some(r) }
			}
			pub fn checked_sub(self, o: Self) -> Option<Self> {
				let (r, f) = self.overflowing_sub(o);
				if f { None } else { Some(r) }
			}
			pub fn checked_mul(self, o: Self) -> Option<Self> {
				let (r, f) = self.overflowing_mul(o);
				if f { None } else { Some(r) }
			}
			pub fn saturating_add(self, o: Self) -> Self {
				self.checked_add(o).unwrap_or(Self::MAX)
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				self.checked_sub(o).unwrap_or(Self::zero())
			}
			pub fn saturating_mul(self, o: Self) -> Self {
				self.checked_mul(o).unwrap_or(Self::MAX)
			}
			pub fn div_mod(self, o: Self) -> (Self, Self) {
				assert!(!o.is_zero(), "division by zero");
				if self < o {
					return (Self::zero(), self);
				}
				let mut q = Self::zero();
				let mut r = Self::zero();
				for i in (0..self.bits()).rev() {
					let top = r.bit($n * 64 - 1);
					r = r << 1usize;
					if self.bit(i) {
						r.0[0] |= 1;
					}
					if top || r >= o {
						r = r.overflowing_sub(o).0;
						q.0[i / 64] |= 1 << (i % 64);
					}
				}
				(q, r)
			}
			pub fn checked_div(self, o: Self) -> Option<Self> {
				if o.is_zero() { None } else { Some(self.div_mod(o).0) }
			}
			pub fn checked_rem(self, o: Self) -> Option<Self> {
				if o.is_zero() { None } else { Some(self.div_mod(o).1) }
			}
			pub fn overflowing_pow(self, e: Self) -> (Self, bool) {
				let mut r = Self::one();
				let mut ov = false;
				for i in (0..e.bits()).rev() {
					let (t, f) = r.overflowing_mul(r);
					r = t;
					ov |= f;
					if e.bit(i) {
						let (t, f) = r.overflowing_mul(self);
						r = t;
						ov |= f;
					}
				}
				(r, ov)
			}
			pub fn checked_pow(self, e: Self) -> Option<Self> {
				let (r, f) = self.overflowing_pow(e);
				if f { None } else { Some(r) }
			}
			pub fn pow(self, e: Self) -> Self {
				self.checked_pow(e).expect("arithmetic operation overflow")
			}
			pub fn exp10(n: usize) -> Self {
				Self::from(10u64).pow(Self::from(n as u64))
			}
			pub fn integer_sqrt(&self) -> Self {
				if self.is_zero() {
					return *self;
				}
				let mut x = Self::one() << ((self.bits() + 1) / 2);
				if x.is_zero() {
					x = Self::MAX;
				}
				loop {
					let y = x.checked_add(self.div_mod(x).0).map(|t| t >> 1usize).unwrap_or_else(|| (x >> 1usize) + (self.div_mod(x).0 >> 1usize));
					if y >= x {
						return x;
					}
					x = y;
				}
			}
			pub fn abs_diff(self, o: Self) -> Self {
				if self > o { self - o } else { o - self }
			}
			pub fn from_big_endian(b: &[u8]) -> Self {
				assert!(b.len() <= $bytes);
				let mut r = [0u64; $n];
				for (i, x) in b.iter().rev().enumerate() {
					r[i / 8] |= (*x as u64) << ((i % 8) * 8);
				}
				$name(r)
			}
			pub fn from_little_endian(b: &[u8]) -> Self {
				let mut v = b.to_vec();
				v.reverse();
				Self::from_big_endian(&v)
			}
			pub fn to_big_endian(&self, out: &mut [u8]) {
				for i in 0..$bytes {
					out[$bytes - 1 - i] = (self.0[i / 8] >> ((i % 8) * 8)) as u8;
				}
			}
			pub fn to_little_endian(&self, out: &mut [u8]) {
				for i in 0..$bytes {
					out[i] = (self.0[i / 8] >> ((i % 8) * 8)) as u8;
				}
			}
			pub fn be_bytes(&self) -> [u8; $bytes] {
				let mut b = [0u8; $bytes];
				self.to_big_endian(&mut b);
				b
			}
			pub fn from_dec_str(s: &str) -> Result<Self, FromDecStrErr> {
				let mut r = Self::zero();
				for c in s.bytes() {
					if !c.is_ascii_digit() {
						return Err(FromDecStrErr::InvalidCharacter);
					}
					r = r
						.checked_mul(Self::from(10u64))
						.and_then(|x| x.checked_add(Self::from((c - b'0') as u64)))
						.ok_or(FromDecStrErr::InvalidLength)?;
				}
				Ok(r)
			}
		}
		impl PartialOrd for $name {
			fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
				Some(self.cmp(o))
			}
		}
		impl Ord for $name {
			fn cmp(&self, o: &Self) -> core::cmp::Ordering {
				for i in (0..$n).rev() {
					if self.0[i] != o.0[i] {
						return self.0[i].cmp(&o.0[i]);
					}
				}
				core::cmp::Ordering::Equal
			}
		}
		impl fmt::Display for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				let mut s = Vec::new();
				let mut x = *self;
				let ten = Self::from(10u64);
				while !x.is_zero() {
					let (q, r) = x.div_mod(ten);
					s.push(b'0' + r.0[0] as u8);
					x = q;
				}
				if s.is_empty() {
					s.push(b'0');
				}
				s.reverse();
				f.pad_integral(true, "", core::str::from_utf8(&s).unwrap())
			}
		}
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				fmt::Display::fmt(self, f)
			}
		}
		impl fmt::LowerHex for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				let h = tohex(&self.be_bytes());
				let h = h.trim_start_matches('0');
				if f.alternate() {
					f.write_str("0x")?;
				}
				f.write_str(if h.is_empty() { "0" } else { h })
			}
		}
		impl core::ops::Shl<usize> for $name {
			type Output = Self;
			fn shl(self, s: usize) -> Self {
				let mut r = [0u64; $n];
				let (w, b) = (s / 64, s % 64);
				for i in w..$n {
					r[i] = self.0[i - w] << b;
					if b > 0 && i > w {
						r[i] |= self.0[i - w - 1] >> (64 - b);
					}
				}
				$name(r)
			}
		}
		impl core::ops::Shr<usize> for $name {
			type Output = Self;
			fn shr(self, s: usize) -> Self {
				let mut r = [0u64; $n];
				let (w, b) = (s / 64, s % 64);
				if w < $n {
					for i in 0..$n - w {
						r[i] = self.0[i + w] >> b;
						if b > 0 && i + w + 1 < $n {
							r[i] |= self.0[i + w + 1] << (64 - b);
						}
					}
				}
				$name(r)
			}
		}
		impl core::ops::Shl<u32> for $name { type Output = Self; fn shl(self, s: u32) -> Self { self << s as usize } }
		impl core::ops::Shr<u32> for $name { type Output = Self; fn shr(self, s: u32) -> Self { self >> s as usize } }
		impl core::ops::Shl<i32> for $name { type Output = Self; fn shl(self, s: i32) -> Self { self << s as usize } }
		impl core::ops::Shr<i32> for $name { type Output = Self; fn shr(self, s: i32) -> Self { self >> s as usize } }
		impl core::ops::BitAnd for $name { type Output = Self; fn bitand(mut self, o: Self) -> Self { for i in 0..$n { self.0[i] &= o.0[i] } self } }
		impl core::ops::BitOr for $name { type Output = Self; fn bitor(mut self, o: Self) -> Self { for i in 0..$n { self.0[i] |= o.0[i] } self } }
		impl core::ops::BitXor for $name { type Output = Self; fn bitxor(mut self, o: Self) -> Self { for i in 0..$n { self.0[i] ^= o.0[i] } self } }
		impl core::ops::Not for $name { type Output = Self; fn not(mut self) -> Self { for i in 0..$n { self.0[i] = !self.0[i] } self } }
		impl<T: Into<$name>> core::ops::Add<T> for $name { type Output = Self; fn add(self, o: T) -> Self { self.checked_add(o.into()).expect("arithmetic operation overflow") } }
		impl<T: Into<$name>> core::ops::Sub<T> for $name { type Output = Self; fn sub(self, o: T) -> Self { self.checked_sub(o.into()).expect("arithmetic operation overflow") } }
		impl<T: Into<$name>> core::ops::Mul<T> for $name { type Output = Self; fn mul(self, o: T) -> Self { self.checked_mul(o.into()).expect("arithmetic operation overflow") } }
		impl<T: Into<$name>> core::ops::Div<T> for $name { type Output = Self; fn div(self, o: T) -> Self { self.div_mod(o.into()).0 } }
		impl<T: Into<$name>> core::ops::Rem<T> for $name { type Output = Self; fn rem(self, o: T) -> Self { self.div_mod(o.into()).1 } }
		impl<T: Into<$name>> core::ops::AddAssign<T> for $name { fn add_assign(&mut self, o: T) { *self = *self + o } }
		impl<T: Into<$name>> core::ops::SubAssign<T> for $name { fn sub_assign(&mut self, o: T) { *self = *self - o } }
		impl<T: Into<$name>> core::ops::MulAssign<T> for $name { fn mul_assign(&mut self, o: T) { *self = *self * o } }
		impl<T: Into<$name>> core::ops::DivAssign<T> for $name { fn div_assign(&mut self, o: T) { *self = *self / o } }
		impl core::iter::Sum for $name { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
		impl<'a> From<&'a $name> for $name { fn from(x: &'a $name) -> Self { *x } }
		impl From<[u8; $bytes]> for $name { fn from(b: [u8; $bytes]) -> Self { Self::from_big_endian(&b) } }
		impl<'a> From<&'a [u8; $bytes]> for $name { fn from(b: &'a [u8; $bytes]) -> Self { Self::from_big_endian(b) } }
		impl<'a> From<&'a [u8]> for $name { fn from(b: &'a [u8]) -> Self { Self::from_big_endian(b) } }
		impl From<bool> for $name { fn from(b: bool) -> Self { Self::from(b as u64) } }
		impl From<$name> for [u8; $bytes] { fn from(b: $name) -> Self { b.be_bytes() } }
		impl<'a> From<&'a str> for $name { fn from(s: &'a str) -> Self { s.parse().expect("hex") } }
		impl core::str::FromStr for $name {
			type Err = FromHexError;
			fn from_str(s: &str) -> Result<Self, FromHexError> {
				let s = s.strip_prefix("0x").unwrap_or(s);
				let p = if s.len() % 2 == 1 { format!("0{}", s) } else { s.to_string() };
				let v = unhex(&p).ok_or(FromHexError)?;
				if v.len() > $bytes { return Err(FromHexError) }
				Ok(Self::from_big_endian(&v))
			}
		}
		impl Encode for $name { fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { let mut b = [0u8; $bytes]; self.to_little_endian(&mut b); o.write(&b) } }
		impl EncodeLike for $name {}
		impl Decode for $name { fn decode<I: Input>(i: &mut I) -> Result<Self, CErr> { let mut b = [0; $bytes]; i.read(&mut b)?; Ok(Self::from_little_endian(&b)) } }
		impl MaxEncodedLen for $name { fn max_encoded_len() -> usize { $bytes } }
		impl serde::Serialize for $name { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{:#x}", self)) } }
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = String::deserialize(d)?;
				if !s.starts_with("0x") { return Err(serde::de::Error::custom("invalid hex prefix")) }
				s.parse().map_err(|_| serde::de::Error::custom("invalid hex"))
			}
		}
		uint_from!($name, u8, u16, u32, u64, usize);
		uint_froms!($name, i8, i16, i32, i64, isize);
		impl TryFrom<$name> for u128 { type Error = &'static str; fn try_from(u: $name) -> Result<u128, &'static str> { if u.bits() > 128 { Err("integer overflow when casting to u128") } else { Ok(u.low_u128()) } } }
	};
}
macro_rules! uint_from { ($name:ident, $($t:ty),*) => { $(
	impl From<$t> for $name { fn from(x: $t) -> Self { let mut r = Self::zero(); r.0[0] = x as u64; r } }
	impl TryFrom<$name> for $t { type Error = &'static str; fn try_from(u: $name) -> Result<$t, &'static str> { if u.bits() > core::mem::size_of::<$t>() * 8 { Err("integer overflow when casting") } else { Ok(u.0[0] as $t) } } }
)* } }
macro_rules! uint_froms { ($name:ident, $($t:ty),*) => { $(
	impl From<$t> for $name { fn from(x: $t) -> Self { if x < 0 { panic!("Unsigned integer can't be created from negative value") } let mut r = Self::zero(); r.0[0] = x as u64; r } }
)* } }
uint!(U64, 1, 8);
uint!(U128, 2, 16);
uint!(U256, 4, 32);
uint!(U512, 8, 64);
macro_rules! from128 { ($($n:ident),*) => { $( impl From<u128> for $n { fn from(x: u128) -> Self { let mut r = Self::zero(); r.0[0] = x as u64; r.0[1] = (x >> 64) as u64; r } } )* } }
from128!(U128, U256, U512);
impl From<U256> for U512 {
	fn from(x: U256) -> U512 {
		let mut r = [0; 8];
		r[..4].copy_from_slice(&x.0);
		U512(r)
	}
}
impl TryFrom<U512> for U256 {
	type Error = &'static str;
	fn try_from(x: U512) -> Result<U256, &'static str> {
		if x.bits() > 256 {
			return Err("overflow");
		}
		let mut r = [0; 4];
		r.copy_from_slice(&x.0[..4]);
		Ok(U256(r))
	}
}
impl U256 {
	pub fn full_mul(self, o: U256) -> U512 {
		U512::from(self) * U512::from(o)
	}
}
impl From<U64> for U256 {
	fn from(x: U64) -> U256 {
		U256::from(x.0[0])
	}
}
impl codec::HasCompact for U256 {
	fn encode_compact_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.encode_to(o)
	}
	fn decode_compact<I: Input>(i: &mut I) -> Result<Self, CErr> {
		Self::decode(i)
	}
}

pub trait BigEndianHash {
	type Uint;
	fn from_uint(v: &Self::Uint) -> Self;
	fn into_uint(&self) -> Self::Uint;
}
impl BigEndianHash for H256 {
	type Uint = U256;
	fn from_uint(v: &U256) -> Self {
		H256(v.be_bytes())
	}
	fn into_uint(&self) -> U256 {
		U256::from_big_endian(&self.0)
	}
}
impl BigEndianHash for H512 {
	type Uint = U512;
	fn from_uint(v: &U512) -> Self {
		H512(v.be_bytes())
	}
	fn into_uint(&self) -> U512 {
		U512::from_big_endian(&self.0)
	}
}
pub type Address = H160;
pub type Secret = H256;

#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn arith() {
		let a = U256::from(u128::MAX);
		assert_eq!(a * a, (U256::MAX - U256::from(u128::MAX) * U256::from(2u8)));
		assert_eq!((a * a).integer_sqrt(), a);
		assert_eq!(U256::from_dec_str("115792089237316195423570985008687907853269984665640564039457584007913129639935").unwrap(), U256::MAX);
		assert_eq!(U256::MAX.to_string(), "115792089237316195423570985008687907853269984665640564039457584007913129639935");
		assert_eq!((U256::MAX / U256::from(7u8)) * U256::from(7u8) + U256::MAX % U256::from(7u8), U256::MAX);
		assert_eq!(U256::MAX.integer_sqrt(), a);
	}
}
