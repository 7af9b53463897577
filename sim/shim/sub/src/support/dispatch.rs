//! frame_support::dispatch
pub use super::traits::{CallMetadata, GetCallIndex, GetCallMetadata, GetCallName, UnfilteredDispatchable};
pub use super::weights::Weight;
pub use crate::runtime::traits::{Dispatchable, DispatchInfoOf as _DispatchInfoOf};
pub use crate::runtime::{DispatchError, DispatchResult, RuntimeDebug};
pub use codec::{Codec, Decode, Encode, EncodeLike, HasCompact, Input, MaxEncodedLen, Output};
pub use crate::support::traits::GetStorageVersion;
use crate::runtime::{self as sp_runtime};
use serde::{Deserialize, Serialize};
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub use super::traits::Callable;
pub use super::Parameter;
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;

#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(o: Option<A>) -> Self {
		match o {
			Some(x) => RawOrigin::Signed(x),
			None => RawOrigin::None,
		}
	}
}
impl<A> RawOrigin<A> {
	pub fn as_signed(&self) -> Option<&A> {
		match self {
			RawOrigin::Signed(x) => Some(x),
			_ => None,
		}
	}
}

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode)]
pub enum Pays {
	Yes,
	No,
}
impl Default for Pays {
	fn default() -> Self {
		Self::Yes
	}
}
impl From<Pays> for PostDispatchInfo {
	fn from(p: Pays) -> Self {
		Self { actual_weight: None, pays_fee: p }
	}
}
#[derive(PartialEq, Eq, Clone, Copy, Encode, Decode, Debug, Serialize, Deserialize)]
pub enum DispatchClass {
	Normal,
	Operational,
	Mandatory,
}
impl Default for DispatchClass {
	fn default() -> Self {
		Self::Normal
	}
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational]
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
impl GetDispatchInfo for () {
	fn get_dispatch_info(&self) -> DispatchInfo {
		DispatchInfo::default()
	}
}
impl<C: GetDispatchInfo, E> GetDispatchInfo for sp_runtime::testing::TestXt<C, E> {
	fn get_dispatch_info(&self) -> DispatchInfo {
		self.call.get_dispatch_info()
	}
}
impl<A, C: GetDispatchInfo, E> GetDispatchInfo for sp_runtime::generic::CheckedExtrinsic<A, C, E> {
	fn get_dispatch_info(&self) -> DispatchInfo {
		self.function.get_dispatch_info()
	}
}
impl<A, C: GetDispatchInfo, S, E> GetDispatchInfo for sp_runtime::generic::UncheckedExtrinsic<A, C, S, E> {
	fn get_dispatch_info(&self) -> DispatchInfo {
		self.function.get_dispatch_info()
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_unspent(&self, i: &DispatchInfo) -> Weight {
		i.weight - self.calc_actual_weight(i)
	}
	pub fn calc_actual_weight(&self, i: &DispatchInfo) -> Weight {
		match self.actual_weight {
			Some(w) => w.min(i.weight),
			None => i.weight,
		}
	}
	pub fn pays_fee(&self, i: &DispatchInfo) -> Pays {
		if i.pays_fee == Pays::No || self.pays_fee == Pays::No {
			Pays::No
		} else {
			Pays::Yes
		}
	}
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Self::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(w: Option<Weight>) -> Self {
		Self { actual_weight: w, pays_fee: Default::default() }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from(x: (Option<Weight>, Pays)) -> Self {
		Self { actual_weight: x.0, pays_fee: x.1 }
	}
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() }
	}
}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Weight {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.calc_actual_weight(i)
}
pub fn extract_actual_pays_fee(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Pays {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.pays_fee(i)
}
pub trait WeighData<T> {
	fn weigh_data(&self, t: T) -> Weight;
}
pub trait ClassifyDispatch<T> {
	fn classify_dispatch(&self, t: T) -> DispatchClass;
}
pub trait PaysFee<T> {
	fn pays_fee(&self, t: T) -> Pays;
}
macro_rules! w { ($t:ty, $s:ident => $w:expr, $c:expr, $p:expr) => {
	impl<T> WeighData<T> for $t { fn weigh_data(&self, _: T) -> Weight { let $s = self; $w } }
	impl<T> ClassifyDispatch<T> for $t { fn classify_dispatch(&self, _: T) -> DispatchClass { let $s = self; $c } }
	impl<T> PaysFee<T> for $t { fn pays_fee(&self, _: T) -> Pays { let $s = self; $p } }
} }
w!(Weight, s => *s, { let _ = s; DispatchClass::Normal }, { let _ = s; Pays::Yes });
w!(u64, s => Weight::from_parts(*s, 0), { let _ = s; DispatchClass::Normal }, { let _ = s; Pays::Yes });
w!((Weight, DispatchClass), s => s.0, s.1, { let _ = s; Pays::Yes });
w!((Weight, DispatchClass, Pays), s => s.0, s.1, s.2);
w!((Weight, Pays), s => s.0, { let _ = s; DispatchClass::Normal }, s.1);
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, MaxEncodedLen)]
pub struct PerDispatchClass<T> {
	normal: T,
	operational: T,
	mandatory: T,
}
impl<T> PerDispatchClass<T> {
	pub fn new(f: impl Fn(DispatchClass) -> T) -> Self {
		Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) }
	}
	pub fn get(&self, c: DispatchClass) -> &T {
		match c {
			DispatchClass::Normal => &self.normal,
			DispatchClass::Operational => &self.operational,
			DispatchClass::Mandatory => &self.mandatory,
		}
	}
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut T {
		match c {
			DispatchClass::Normal => &mut self.normal,
			DispatchClass::Operational => &mut self.operational,
			DispatchClass::Mandatory => &mut self.mandatory,
		}
	}
}
impl PerDispatchClass<Weight> {
	pub fn total(&self) -> Weight {
		self.normal.saturating_add(self.operational).saturating_add(self.mandatory)
	}
}
