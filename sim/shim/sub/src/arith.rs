//! sp_arithmetic
use codec::{Decode, Encode, HasCompact, MaxEncodedLen};
use primitive_types::U256;
use serde::{Deserialize, Serialize};

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum SignedRounding {
	High,
	Low,
	NearestPrefHigh,
	NearestPrefLow,
	Major,
	Minor,
	NearestPrefMajor,
	NearestPrefMinor,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize, Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}

pub mod traits {
	use super::ArithmeticError;
	use codec::HasCompact;
	pub use num_traits::{checked_pow, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub, One, Signed, Unsigned, Zero};
	use primitive_types::{U256, U512};
	use std::ops::*;

	pub trait IntegerSquareRoot {
		fn integer_sqrt_checked(&self) -> Option<Self>
		where
			Self: Sized;
		fn integer_sqrt(&self) -> Self
		where
			Self: Sized,
		{
			self.integer_sqrt_checked().expect("positive")
		}
	}
	macro_rules! isq { ($($t:ty),*) => { $( impl IntegerSquareRoot for $t { fn integer_sqrt_checked(&self) -> Option<Self> { let r = U256::from(*self as u128).integer_sqrt(); Some(r.low_u128() as $t) } } )* } }
	isq!(u8, u16, u32, u64, u128, usize);

	pub trait UniqueSaturatedFrom<T: Sized>: Sized {
		fn unique_saturated_from(t: T) -> Self;
	}
	pub trait UniqueSaturatedInto<T: Sized>: Sized {
		fn unique_saturated_into(self) -> T;
	}
	impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
		fn unique_saturated_from(t: T) -> Self {
			S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
		}
	}
	impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
		fn unique_saturated_into(self) -> T {
			self.try_into().unwrap_or_else(|_| Bounded::max_value())
		}
	}
	pub trait SaturatedConversion {
		fn saturated_from<T>(t: T) -> Self
		where
			Self: UniqueSaturatedFrom<T>,
		{
			<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
		}
		fn saturated_into<T>(self) -> T
		where
			Self: UniqueSaturatedInto<T>,
		{
			<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
		}
	}
	impl<T: Sized> SaturatedConversion for T {}

	pub trait Saturating {
		fn saturating_add(self, rhs: Self) -> Self;
		fn saturating_sub(self, rhs: Self) -> Self;
		fn saturating_mul(self, rhs: Self) -> Self;
		fn saturating_pow(self, exp: usize) -> Self;
		fn saturating_less_one(self) -> Self
		where
			Self: One + Sized,
		{
			self.saturating_sub(One::one())
		}
		fn saturating_plus_one(self) -> Self
		where
			Self: One + Sized,
		{
			self.saturating_add(One::one())
		}
		fn saturating_inc(&mut self)
		where
			Self: One + Clone,
		{
			let o = Self::one();
			*self = self.clone().saturating_add(o);
		}
		fn saturating_dec(&mut self)
		where
			Self: One + Clone,
		{
			let o = Self::one();
			*self = self.clone().saturating_sub(o);
		}
		fn saturating_accrue(&mut self, amount: Self)
		where
			Self: One + Clone,
		{
			*self = self.clone().saturating_add(amount);
		}
		fn saturating_reduce(&mut self, amount: Self)
		where
			Self: One + Clone,
		{
			*self = self.clone().saturating_sub(amount);
		}
	}
	impl<T: Clone + Zero + One + CheckedMul + PartialOrd + Bounded + num_traits::Saturating> Saturating for T {
		fn saturating_add(self, o: Self) -> Self {
			<Self as num_traits::Saturating>::saturating_add(self, o)
		}
		fn saturating_sub(self, o: Self) -> Self {
			<Self as num_traits::Saturating>::saturating_sub(self, o)
		}
		fn saturating_mul(self, o: Self) -> Self {
			self.checked_mul(&o).unwrap_or_else(|| if (self < T::zero()) != (o < T::zero()) { Bounded::min_value() } else { Bounded::max_value() })
		}
		fn saturating_pow(self, exp: usize) -> Self {
			let neg = self < T::zero() && exp % 2 != 0;
			checked_pow(self, exp).unwrap_or_else(|| if neg { Bounded::min_value() } else { Bounded::max_value() })
		}
	}
	pub trait CheckedConversion {
		fn checked_from<T>(t: T) -> Option<Self>
		where
			Self: TryFrom<T>,
		{
			<Self as TryFrom<T>>::try_from(t).ok()
		}
		fn checked_into<T>(self) -> Option<T>
		where
			Self: TryInto<T>,
		{
			<Self as TryInto<T>>::try_into(self).ok()
		}
	}
	impl<T: Sized> CheckedConversion for T {}
	pub trait Scale<Other> {
		type Output;
		fn mul(self, o: Other) -> Self::Output;
		fn div(self, o: Other) -> Self::Output;
		fn rem(self, o: Other) -> Self::Output;
	}
	macro_rules! scale { ($s:ident : $($o:ident),*) => { $( impl Scale<$o> for $s {
		type Output = Self;
		fn mul(self, o: $o) -> Self { self * (o as Self) }
		fn div(self, o: $o) -> Self { self / (o as Self) }
		fn rem(self, o: $o) -> Self { self % (o as Self) }
	} )* } }
	scale!(u128: u128, u64, u32, u16, u8);
	scale!(u64: u64, u32, u16, u8);
	scale!(u32: u32, u16, u8);
	macro_rules! ens { ($($tr:ident $f:ident $ck:ident $ctr:ident $tra:ident $fa:ident $e:expr),*) => { $(
		pub trait $tr: $ctr + PartialOrd + Copy { fn $f(self, v: Self) -> Result<Self, ArithmeticError> { self.$ck(&v).ok_or($e) } }
		impl<T: $ctr + PartialOrd + Copy> $tr for T {}
		pub trait $tra: $tr { fn $fa(&mut self, v: Self) -> Result<(), ArithmeticError> { *self = self.$f(v)?; Ok(()) } }
		impl<T: $tr> $tra for T {}
	)* } }
	ens!(EnsureAdd ensure_add checked_add CheckedAdd EnsureAddAssign ensure_add_assign ArithmeticError::Overflow,
		EnsureSub ensure_sub checked_sub CheckedSub EnsureSubAssign ensure_sub_assign ArithmeticError::Underflow,
		EnsureMul ensure_mul checked_mul CheckedMul EnsureMulAssign ensure_mul_assign ArithmeticError::Overflow,
		EnsureDiv ensure_div checked_div CheckedDiv EnsureDivAssign ensure_div_assign ArithmeticError::DivisionByZero);
	pub trait EnsureFrom<T>: TryFrom<T> {
		fn ensure_from(t: T) -> Result<Self, ArithmeticError> {
			Self::try_from(t).map_err(|_| ArithmeticError::Overflow)
		}
	}
	impl<T, S: TryFrom<T>> EnsureFrom<T> for S {}
	pub trait EnsureInto<T>: TryInto<T> {
		fn ensure_into(self) -> Result<T, ArithmeticError> {
			self.try_into().map_err(|_| ArithmeticError::Overflow)
		}
	}
	impl<T, S: TryInto<T>> EnsureInto<T> for S {}

	macro_rules! base { ($name:ident: $($b:tt)*) => { pub trait $name: $($b)* {} impl<T: $($b)*> $name for T {} } }
	base!(BaseArithmetic: From<u8> + Zero + One + IntegerSquareRoot + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
		+ Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self>
		+ Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem
		+ Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone
		+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
		+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32>
		+ UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>);
	base!(AtLeast8Bit: BaseArithmetic + From<u8>);
	base!(AtLeast16Bit: BaseArithmetic + From<u16>);
	base!(AtLeast32Bit: BaseArithmetic + From<u16> + From<u32>);
	base!(AtLeast8BitUnsigned: AtLeast8Bit + Unsigned);
	base!(AtLeast16BitUnsigned: AtLeast16Bit + Unsigned);
	base!(AtLeast32BitUnsigned: AtLeast32Bit + Unsigned);
	base!(MultiplyArg: Clone + Rem<Self, Output = Self> + Div<Self, Output = Self> + Mul<Self, Output = Self> + Add<Self, Output = Self> + Unsigned);
	base!(RationalArg: Clone + Ord + Div<Self, Output = Self> + Rem<Self, Output = Self> + AddAssign<Self> + Unsigned + Zero + One);

	pub trait Identity<T> {}
	pub trait SaturatingPow {}
	// local "Convert" helpers
	pub fn u512(x: U256) -> U512 {
		U512::from(x)
	}
}
use traits::*;

pub trait PerThing: Sized + Copy + Default + Eq + Ord + core::fmt::Debug + Encode + Decode + Saturating2 + MaxEncodedLen {
	type Inner: BaseArithmetic + Unsigned + Copy + Into<u128> + core::fmt::Debug;
	type Upper;
	const ACCURACY: Self::Inner;
	fn zero() -> Self {
		Self::from_parts(Self::Inner::zero())
	}
	fn one() -> Self {
		Self::from_parts(Self::ACCURACY)
	}
	fn is_zero(&self) -> bool {
		self.deconstruct() == Self::Inner::zero()
	}
	fn is_one(&self) -> bool {
		self.deconstruct() == Self::ACCURACY
	}
	fn from_percent(x: Self::Inner) -> Self {
		let a: u128 = x.into();
		Self::from_rational(a.min(100), 100u128)
	}
	fn from_float(x: f64) -> Self {
		let x = x.max(0.).min(1.);
		let acc: u128 = Self::ACCURACY.into();
		Self::from_parts(((x * acc as f64) as u128).unique_saturated_into())
	}
	fn square(self) -> Self {
		let p: u128 = self.deconstruct().into();
		let a: u128 = Self::ACCURACY.into();
		Self::from_rational(p * p, a * a)
	}
	fn left_from_one(self) -> Self {
		Self::from_parts(Self::ACCURACY - self.deconstruct())
	}
	fn mul_floor<N>(self, b: N) -> N
	where
		N: MultiplyArg + UniqueSaturatedInto<Self::Inner>,
		Self::Inner: Into<N>,
	{
		mul_round::<N, Self>(b, self.deconstruct(), Rounding::Down)
	}
	fn mul_ceil<N>(self, b: N) -> N
	where
		N: MultiplyArg + UniqueSaturatedInto<Self::Inner>,
		Self::Inner: Into<N>,
	{
		mul_round::<N, Self>(b, self.deconstruct(), Rounding::Up)
	}
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn from_rational<N>(p: N, q: N) -> Self
	where
		N: RationalArg + TryInto<Self::Inner> + TryInto<u128>,
		Self::Inner: Into<N>,
	{
		Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| Self::one())
	}
	fn from_rational_with_rounding<N>(p: N, q: N, r: Rounding) -> Result<Self, ()>
	where
		N: RationalArg + TryInto<Self::Inner> + TryInto<u128>,
		Self::Inner: Into<N>,
	{
		if q.is_zero() || p > q {
			return Err(());
		}
		let max: N = Self::ACCURACY.into();
		let mut factor = div_rounded(q.clone(), max, Rounding::Up);
		if factor < N::one() {
			factor = N::one();
		}
		let q: u128 = div_rounded(q, factor.clone(), r).try_into().map_err(|_| ())?;
		let p: u128 = div_rounded(p, factor, r).try_into().map_err(|_| ())?;
		let part = div_rounded(p * Into::<u128>::into(Self::ACCURACY), q, r);
		Ok(Self::from_parts(part.unique_saturated_into()))
	}
	fn from_rational_approximation<N>(p: N, q: N) -> Self
	where
		N: RationalArg + TryInto<Self::Inner> + TryInto<u128>,
		Self::Inner: Into<N>,
	{
		Self::from_rational(p, q)
	}
}
pub trait Saturating2 {}
fn div_rounded<N: RationalArg>(n: N, d: N, r: Rounding) -> N {
	let mut o = n.clone() / d.clone();
	let rem = n % d.clone();
	let up = match r {
		Rounding::Up => !rem.is_zero(),
		Rounding::Down => false,
		Rounding::NearestPrefDown => rem > d / (N::one() + N::one()),
		Rounding::NearestPrefUp => {
			let two = N::one() + N::one();
			rem >= d.clone() / two.clone() + d % two
		},
	};
	if up {
		o += N::one();
	}
	o
}
fn mul_round<N, P: PerThing>(x: N, part: P::Inner, r: Rounding) -> N
where
	N: MultiplyArg + UniqueSaturatedInto<P::Inner>,
	P::Inner: Into<N>,
{
	let max: N = P::ACCURACY.into();
	let part_n: N = part.into();
	let rem: P::Inner = (x.clone() % max.clone()).unique_saturated_into();
	let m: u128 = Into::<u128>::into(P::ACCURACY);
	let rm = Into::<u128>::into(rem) * Into::<u128>::into(part);
	let mut c = rm / m;
	let k = rm % m;
	let up = match r {
		Rounding::Down => false,
		Rounding::Up => k > 0,
		Rounding::NearestPrefDown => k > m / 2,
		Rounding::NearestPrefUp => k >= m / 2 + m % 2,
	};
	if up {
		c += 1;
	}
	let c: P::Inner = UniqueSaturatedInto::<P::Inner>::unique_saturated_into(c);
	(x / max) * part_n + c.into()
}

macro_rules! perthing {
	($name:ident, $inner:ty, $upper:ty, $acc:expr) => {
		#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, MaxEncodedLen, Hash, Serialize, Deserialize)]
		pub struct $name($inner);
		impl core::fmt::Debug for $name {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
				write!(f, concat!(stringify!($name), "({}/{})"), self.0, $acc as u64)
			}
		}
		impl Saturating2 for $name {}
		impl PerThing for $name {
			type Inner = $inner;
			type Upper = $upper;
			const ACCURACY: $inner = $acc;
			fn deconstruct(self) -> $inner {
				self.0
			}
			fn from_parts(p: $inner) -> Self {
				Self(if p > $acc { $acc } else { p })
			}
		}
		impl $name {
			pub const ACCURACY: $inner = $acc;
			pub const fn from_percent(x: $inner) -> Self {
				Self(((if x > 100 { 100 } else { x }) as u128 * ($acc as u128) / 100) as $inner)
			}
			pub const fn from_perthousand(x: $inner) -> Self {
				Self(((if x as u128 > 1000 { 1000 } else { x as u128 }) * ($acc as u128) / 1000) as $inner)
			}
			pub const fn one() -> Self {
				Self($acc)
			}
			pub const fn zero() -> Self {
				Self(0)
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub const fn is_one(&self) -> bool {
				self.0 == $acc
			}
			pub const fn deconstruct(self) -> $inner {
				self.0
			}
			pub const fn from_parts(p: $inner) -> Self {
				Self(if p > $acc { $acc } else { p })
			}
			pub fn from_float(x: f64) -> Self {
				<Self as PerThing>::from_float(x)
			}
			pub fn square(self) -> Self {
				<Self as PerThing>::square(self)
			}
			pub const fn left_from_one(self) -> Self {
				Self($acc - self.0)
			}
			pub fn from_rational<N>(p: N, q: N) -> Self
			where
				N: RationalArg + TryInto<$inner> + TryInto<u128>,
				$inner: Into<N>,
			{
				<Self as PerThing>::from_rational(p, q)
			}
			pub fn from_rational_with_rounding<N>(p: N, q: N, r: Rounding) -> Result<Self, ()>
			where
				N: RationalArg + TryInto<$inner> + TryInto<u128>,
				$inner: Into<N>,
			{
				<Self as PerThing>::from_rational_with_rounding(p, q, r)
			}
			pub fn mul_floor<N: MultiplyArg + UniqueSaturatedInto<$inner>>(self, b: N) -> N
			where
				$inner: Into<N>,
			{
				PerThing::mul_floor(self, b)
			}
			pub fn mul_ceil<N: MultiplyArg + UniqueSaturatedInto<$inner>>(self, b: N) -> N
			where
				$inner: Into<N>,
			{
				PerThing::mul_ceil(self, b)
			}
			pub fn saturating_add(self, o: Self) -> Self {
				Self::from_parts(self.0.saturating_add(o.0))
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				Self(self.0.saturating_sub(o.0))
			}
			pub fn saturating_mul(self, o: Self) -> Self {
				Self::from_rational(self.0 as u128 * o.0 as u128, $acc as u128 * $acc as u128)
			}
			pub fn checked_add(&self, o: &Self) -> Option<Self> {
				self.0.checked_add(o.0).filter(|x| *x <= $acc).map(Self)
			}
			pub fn checked_sub(&self, o: &Self) -> Option<Self> {
				self.0.checked_sub(o.0).map(Self)
			}
			pub fn int_div(self, o: Self) -> $inner {
				self.0 / o.0
			}
		}
		impl HasCompact for $name {
			fn encode_compact_to<O: codec::Output + ?Sized>(&self, o: &mut O) {
				self.0.encode_compact_to(o)
			}
			fn decode_compact<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> {
				Ok(Self::from_parts(<$inner>::decode_compact(i)?))
			}
		}
		impl<N: MultiplyArg + UniqueSaturatedInto<$inner>> core::ops::Mul<N> for $name
		where
			$inner: Into<N>,
		{
			type Output = N;
			fn mul(self, b: N) -> N {
				mul_round::<N, Self>(b, self.0, Rounding::NearestPrefDown)
			}
		}
		impl core::ops::Add for $name {
			type Output = Self;
			fn add(self, o: Self) -> Self {
				Self::from_parts(self.0 + o.0)
			}
		}
		impl core::ops::Sub for $name {
			type Output = Self;
			fn sub(self, o: Self) -> Self {
				Self(self.0 - o.0)
			}
		}
		impl core::ops::Div for $name {
			type Output = Self;
			fn div(self, o: Self) -> Self {
				Self::from_rational(self.0 as u128, o.0 as u128)
			}
		}
		impl core::ops::Mul<$name> for $name {
			type Output = $name;
			fn mul(self, o: $name) -> $name {
				self.saturating_mul(o)
			}
		}
	};
}
// `Mul<Self>` conflicts with the blanket only if Self: MultiplyArg, which it is not.
macro_rules! perthing_all { ($($n:ident $i:ty, $u:ty, $a:expr;)*) => { $( perthing!($n, $i, $u, $a); )* } }
perthing_all! {
	Percent u8, u16, 100;
	PerU16 u16, u32, 65535;
	Permill u32, u64, 1_000_000;
	Perbill u32, u64, 1_000_000_000;
	Perquintill u64, u128, 1_000_000_000_000_000_000;
}

pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg2 + Into<u128Like> {}
#[allow(non_camel_case_types)]
pub struct u128Like(pub u128);
pub trait CheckedNeg2 {}
macro_rules! fpo { ($($t:ty),*) => { $( impl From<$t> for u128Like { fn from(x: $t) -> u128Like { u128Like(x as u128) } } impl CheckedNeg2 for $t {} impl FixedPointOperand for $t {} )* } }
fpo!(u128, u64, u32, u16, u8);

pub trait FixedPointNumber: Sized + Copy {
	const DIV: u128;
	fn saturating_from_integer<N: Into<u128Like>>(n: N) -> Self;
	fn saturating_from_rational<N: Into<u128Like>, D: Into<u128Like>>(n: N, d: D) -> Self;
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N>;
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N;
}
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, MaxEncodedLen, Hash)]
pub struct FixedU128(u128);
impl core::fmt::Debug for FixedU128 {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "FixedU128({}.{:018})", self.0 / Self::DIV, self.0 % Self::DIV)
	}
}
impl FixedU128 {
	pub const DIV: u128 = 1_000_000_000_000_000_000;
	pub const fn from_inner(i: u128) -> Self {
		Self(i)
	}
	pub const fn into_inner(self) -> u128 {
		self.0
	}
	pub const fn from_u32(n: u32) -> Self {
		Self(n as u128 * Self::DIV)
	}
	pub const fn from_rational(n: u128, d: u128) -> Self {
		Self(n * Self::DIV / d)
	}
	pub fn zero() -> Self {
		Self(0)
	}
	pub fn one() -> Self {
		Self(Self::DIV)
	}
	pub fn checked_from_rational(n: u128, d: u128) -> Option<Self> {
		if d == 0 {
			return None;
		}
		(U256::from(n) * U256::from(Self::DIV) / U256::from(d)).try_into().ok().map(Self)
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		Self((U256::from(self.0) * U256::from(o.0) / U256::from(Self::DIV)).try_into().unwrap_or(u128::MAX))
	}
	pub fn saturating_add(self, o: Self) -> Self {
		Self(self.0.saturating_add(o.0))
	}
	pub fn saturating_sub(self, o: Self) -> Self {
		Self(self.0.saturating_sub(o.0))
	}
}
impl FixedPointNumber for FixedU128 {
	const DIV: u128 = 1_000_000_000_000_000_000;
	fn saturating_from_integer<N: Into<u128Like>>(n: N) -> Self {
		Self(n.into().0.saturating_mul(FixedU128::DIV))
	}
	fn saturating_from_rational<N: Into<u128Like>, D: Into<u128Like>>(n: N, d: D) -> Self {
		FixedU128::checked_from_rational(n.into().0, d.into().0).unwrap_or(Self(u128::MAX))
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let n: u128 = Into::<u128Like>::into(n).0;
		let r: u128 = (U256::from(self.0) * U256::from(n) / U256::from(FixedU128::DIV)).try_into().ok()?;
		r.try_into().ok()
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		self.checked_mul_int(n).unwrap_or_else(Bounded::max_value)
	}
}
impl core::ops::Add for FixedU128 {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self(self.0 + o.0)
	}
}
impl core::ops::Sub for FixedU128 {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self(self.0 - o.0)
	}
}
impl core::ops::Mul for FixedU128 {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		self.saturating_mul(o)
	}
}
impl core::ops::Div for FixedU128 {
	type Output = Self;
	fn div(self, o: Self) -> Self {
		FixedU128::checked_from_rational(self.0, o.0).expect("overflow")
	}
}

pub mod helpers_128bit {
	use super::{Rounding, U256};
	pub fn sqrt(n: u128) -> u128 {
		U256::from(n).integer_sqrt().low_u128()
	}
	pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
		if c == 0 {
			return None;
		}
		let (q, rem) = (U256::from(a) * U256::from(b)).div_mod(U256::from(c));
		let c = U256::from(c);
		let up = match r {
			Rounding::Down => false,
			Rounding::Up => !rem.is_zero(),
			Rounding::NearestPrefDown => rem > c / U256::from(2u8),
			Rounding::NearestPrefUp => rem >= c / U256::from(2u8) + c % U256::from(2u8),
		};
		let q = if up { q + U256::one() } else { q };
		q.try_into().ok()
	}
	pub fn multiply_by_rational(a: u128, b: u128, c: u128) -> Option<u128> {
		multiply_by_rational_with_rounding(a, b, c, Rounding::Down)
	}
}
pub use helpers_128bit::multiply_by_rational;
pub mod per_things {
	pub use super::*;
}
pub mod biguint {}
