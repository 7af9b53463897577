//! frame_support::weights
use codec::{Decode, Encode, MaxEncodedLen};
use serde::{Deserialize, Serialize};
#[derive(Encode, Decode, MaxEncodedLen, Copy, Clone, Eq, PartialEq, Debug, Default, Hash, Serialize, Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
impl Weight {
	pub const MAX: Self = Self { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
	}
	pub fn checked_mul(self, s: u64) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_mul(s)?, proof_size: self.proof_size.checked_mul(s)? })
	}
	pub fn checked_div_per_component(self, o: &Self) -> Option<u64> {
		let mut r = u64::MAX;
		let mut any = false;
		if o.ref_time != 0 {
			r = r.min(self.ref_time / o.ref_time);
			any = true;
		}
		if o.proof_size != 0 {
			r = r.min(self.proof_size / o.proof_size);
			any = true;
		}
		any.then_some(r)
	}
	pub const fn add_ref_time(self, s: u64) -> Self {
		Self { ref_time: self.ref_time + s, ..self }
	}
	pub const fn add_proof_size(self, s: u64) -> Self {
		Self { proof_size: self.proof_size + s, ..self }
	}
	pub const fn sub_ref_time(self, s: u64) -> Self {
		Self { ref_time: self.ref_time - s, ..self }
	}
	pub const fn sub_proof_size(self, s: u64) -> Self {
		Self { proof_size: self.proof_size - s, ..self }
	}
	pub const fn add(self, s: u64) -> Self {
		Self { ref_time: self.ref_time + s, proof_size: self.proof_size + s }
	}
	pub const fn sub(self, s: u64) -> Self {
		Self { ref_time: self.ref_time - s, proof_size: self.proof_size - s }
	}
	pub const fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub const fn without_ref_time(self) -> Self {
		Self { ref_time: 0, ..self }
	}
	pub const fn without_proof_size(self) -> Self {
		Self { proof_size: 0, ..self }
	}
	pub const fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
	pub fn min(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub const fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub const fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn any_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time || self.proof_size <= o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub fn any_eq(self, o: Self) -> bool {
		self.ref_time == o.ref_time || self.proof_size == o.proof_size
	}
	pub fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
}
impl crate::arith::traits::Zero for Weight {
	fn zero() -> Self {
		Self::zero()
	}
	fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
}
impl std::ops::Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl std::ops::Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
impl std::ops::AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o
	}
}
impl std::ops::SubAssign for Weight {
	fn sub_assign(&mut self, o: Self) {
		*self = *self - o
	}
}
impl<T: std::ops::Mul<u64, Output = u64> + Copy> std::ops::Mul<T> for Weight {
	type Output = Self;
	fn mul(self, s: T) -> Self {
		Self { ref_time: s * self.ref_time, proof_size: s * self.proof_size }
	}
}
impl<T: Copy + Into<u64>> std::ops::Div<T> for Weight {
	type Output = Self;
	fn div(self, s: T) -> Self {
		Self { ref_time: self.ref_time / s.into(), proof_size: self.proof_size / s.into() }
	}
}
impl std::ops::Mul<Weight> for u64 {
	type Output = Weight;
	fn mul(self, w: Weight) -> Weight {
		w * self
	}
}
macro_rules! pmul { ($($t:ident),*) => { $( impl std::ops::Mul<Weight> for crate::arith::$t { type Output = Weight; fn mul(self, w: Weight) -> Weight { Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size } } } )* } }
pmul!(Perbill, Percent, Permill);
impl std::fmt::Display for Weight {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}
impl std::iter::Sum for Weight {
	fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
		i.fold(Self::zero(), |a, b| a + b)
	}
}
impl From<u64> for Weight {
	fn from(x: u64) -> Self {
		Self::from_parts(x, x)
	}
}

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub fn reads_writes(self, r: u64, w: u64) -> Weight {
		self.reads(r).saturating_add(self.writes(w))
	}
}
pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	macro_rules! c { ($($n:ident $t:ty = $e:expr;)*) => { $( pub struct $n; impl $n { pub fn get() -> $t { $e } } impl<I: From<$t>> crate::bounded::Get<I> for $n { fn get() -> I { I::from($e) } } impl crate::bounded::TypedGet for $n { type Type = $t; fn get() -> $t { $e } } )* } }
	c! {
		RocksDbWeight RuntimeDbWeight = RuntimeDbWeight { read: 25_000_000, write: 100_000_000 };
		ParityDbWeight RuntimeDbWeight = RuntimeDbWeight { read: 8_000_000, write: 50_000_000 };
		ExtrinsicBaseWeight Weight = Weight::from_parts(113_638_000, 0);
		BlockExecutionWeight Weight = Weight::from_parts(381_015_000, 0);
	}
}
pub trait WeightToFee {
	type Balance;
	fn weight_to_fee(w: &Weight) -> Self::Balance;
}
pub trait OnUnbalancedLike {}
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: crate::runtime::traits::BaseArithmetic + From<u32> + Copy + crate::runtime::traits::Unsigned> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		crate::arith::traits::SaturatedConversion::saturated_into(w.ref_time())
	}
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: crate::runtime::traits::BaseArithmetic + From<u32> + Copy + crate::runtime::traits::Unsigned, M: crate::bounded::Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		let x: T = crate::arith::traits::SaturatedConversion::saturated_into(w.ref_time());
		crate::arith::traits::Saturating::saturating_mul(x, M::get())
	}
}
pub struct WeightMeter {
	consumed: Weight,
	limit: Weight,
}
impl WeightMeter {
	pub fn from_limit(limit: Weight) -> Self {
		Self { consumed: Weight::zero(), limit }
	}
	pub fn with_limit(limit: Weight) -> Self {
		Self::from_limit(limit)
	}
	pub fn max_limit() -> Self {
		Self::from_limit(Weight::MAX)
	}
	pub fn new() -> Self {
		Self::max_limit()
	}
	pub fn consumed(&self) -> Weight {
		self.consumed
	}
	pub fn remaining(&self) -> Weight {
		self.limit.saturating_sub(self.consumed)
	}
	pub fn can_accrue(&self, w: Weight) -> bool {
		self.consumed.checked_add(&w).map_or(false, |t| t.all_lte(self.limit))
	}
	pub fn check_accrue(&mut self, w: Weight) -> bool {
		self.can_accrue(w) && {
			self.consumed = self.consumed.saturating_add(w);
			true
		}
	}
	pub fn can_consume(&self, w: Weight) -> bool {
		self.can_accrue(w)
	}
	pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> {
		self.check_accrue(w).then_some(()).ok_or(())
	}
}
pub use super::dispatch::{DispatchClass, Pays};
