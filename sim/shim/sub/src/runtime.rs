//! sp_runtime
pub use crate::arith::{self as sp_arithmetic_mod, traits as arith_traits, *};
pub use crate::arith::traits::{SaturatedConversion, Saturating};
pub use crate::bounded::{self, BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
pub use crate::core_::{
	self as sp_core,
	crypto::{AccountId32, CryptoTypeId, KeyTypeId, key_types},
};
pub use crate::bounded_vec;
pub use codec;
use codec::{Codec, Decode, Encode, MaxEncodedLen};
pub use frame_macros::RuntimeDebug;
pub use scale_info;
use serde::{Deserialize, Serialize};
pub use serde;
pub use std as sp_std_;
use std::fmt;
pub use crate::misc::sp_application_crypto as app_crypto;
pub use app_crypto::{BoundToRuntimeAppPublic, RuntimeAppPublic};
pub use crate::misc::sp_application_crypto::AppCrypto as _AppCrypto;

pub type ConsensusEngineId = [u8; 4];
pub type EncodedJustification = Vec<u8>;
pub type Justification = (ConsensusEngineId, EncodedJustification);
#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode)]
pub struct Justifications(pub Vec<Justification>);

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize, Deserialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	#[serde(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize, Deserialize)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
impl From<TransactionalError> for &'static str {
	fn from(e: TransactionalError) -> &'static str {
		match e {
			TransactionalError::LimitReached => "Too many transactional layers have been spawned",
			TransactionalError::NoLayer => "A transactional layer was expected, but does not exist",
		}
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize, Deserialize)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
impl From<TokenError> for &'static str {
	fn from(e: TokenError) -> &'static str {
		match e {
			TokenError::FundsUnavailable => "Funds are unavailable",
			TokenError::OnlyProvider => "Account that must exist would die",
			TokenError::BelowMinimum => "Account cannot exist with the funds that would be given",
			TokenError::CannotCreate => "Account cannot be created",
			TokenError::UnknownAsset => "The asset in question is unknown",
			TokenError::Frozen => "Funds exist but are frozen",
			TokenError::Unsupported => "Operation is not supported by the asset",
			TokenError::CannotCreateHold => "Account cannot be created for recording amount on hold",
			TokenError::NotExpendable => "Account that is desired to remain would die",
			TokenError::Blocked => "Account cannot receive the assets",
		}
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, Serialize)]
pub enum DispatchError {
	Other(
		#[codec(skip)]
		&'static str,
	),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(m) => DispatchError::Module(ModuleError { message: None, ..m }),
			x => x,
		}
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		use DispatchError::*;
		match e {
			Other(m) => m,
			CannotLookup => "Cannot lookup",
			BadOrigin => "Bad origin",
			Module(m) => m.message.unwrap_or("Unknown module error"),
			ConsumerRemaining => "Consumer remaining",
			NoProviders => "No providers",
			TooManyConsumers => "Too many consumers",
			Token(e) => e.into(),
			Arithmetic(e) => e.into(),
			Transactional(e) => e.into(),
			Exhausted => "Resources exhausted",
			Corruption => "State corrupt",
			Unavailable => "Resource unavailable",
			RootNotAllowed => "Root not allowed",
		}
	}
}
impl fmt::Display for DispatchError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str((*self).into())
	}
}
impl From<&'static str> for DispatchError {
	fn from(e: &'static str) -> Self {
		Self::Other(e)
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		Self::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		Self::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		Self::Transactional(e)
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		Self::BadOrigin
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		Self::CannotLookup
	}
}
pub type DispatchResult = Result<(), DispatchError>;
pub type TryRuntimeError = DispatchError;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type ApplyExtrinsicResultWithInfo<T> = Result<DispatchResultWithInfo<T>, transaction_validity::TransactionValidityError>;
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug)]
pub struct DispatchErrorWithPostInfo<Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> {
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where
	T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default,
	E: Into<DispatchError>,
{
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
impl<T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> From<DispatchErrorWithPostInfo<T>> for &'static str {
	fn from(e: DispatchErrorWithPostInfo<T>) -> &'static str {
		e.error.into()
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StateVersion {
	V0,
	V1,
}

#[derive(Default, Clone, Debug)]
pub struct Storage {
	pub top: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
}
pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Default::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, storage: &mut Storage) -> Result<(), String>;
}

#[derive(PartialEq, Eq, Clone, Default, Encode, Decode)]
pub struct OpaqueExtrinsic(pub Vec<u8>);
impl OpaqueExtrinsic {
	pub fn from_bytes(b: &[u8]) -> Result<Self, codec::Error> {
		Self::decode(&mut &b[..])
	}
}
impl fmt::Debug for OpaqueExtrinsic {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{}", hex::encode(&self.0))
	}
}
impl traits::Extrinsic for OpaqueExtrinsic {
	type Call = ();
	type SignaturePayload = ();
}
impl Serialize for OpaqueExtrinsic {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&hex::encode(&self.0))
	}
}
impl<'de> Deserialize<'de> for OpaqueExtrinsic {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = String::deserialize(d)?;
		hex::decode(s).map(OpaqueExtrinsic).map_err(serde::de::Error::custom)
	}
}
pub enum ExtrinsicInclusionMode {
	AllExtrinsics,
	OnlyInherents,
}
pub fn print(_: impl traits::Printable) {}

pub mod curve {
	use super::*;
	#[derive(PartialEq, Eq, Debug)]
	pub struct PiecewiseLinear<'a> {
		pub points: &'a [(Perbill, Perbill)],
		pub maximum: Perbill,
	}
	impl<'a> PiecewiseLinear<'a> {
		pub const fn new_stub() -> Self {
			Self { points: &[], maximum: Perbill::from_percent(10) }
		}
	}
}

pub mod traits {
	use super::*;
	pub use crate::arith::traits::*;
	pub use crate::bounded::{ConstBool, ConstI128, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TryCollect, TypedGet};
	pub use crate::core_::hash_db_like::Hasher;
	pub use crate::support::traits::IsType as _IsType;
	use crate::core_::H256;
	pub trait IsMember<M> {
		fn is_member(m: &M) -> bool;
	}
	pub trait MaybeDisplay: fmt::Display {}
	impl<T: fmt::Display> MaybeDisplay for T {}
	pub trait MaybeFromStr: std::str::FromStr {}
	impl<T: std::str::FromStr> MaybeFromStr for T {}
	pub trait MaybeSerialize: Serialize {}
	impl<T: Serialize> MaybeSerialize for T {}
	pub trait MaybeSerializeDeserialize: serde::de::DeserializeOwned + Serialize {}
	impl<T: serde::de::DeserializeOwned + Serialize> MaybeSerializeDeserialize for T {}
	pub trait MaybeHash: std::hash::Hash {}
	impl<T: std::hash::Hash> MaybeHash for T {}
	pub trait Member: Send + Sync + Sized + fmt::Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	pub trait Printable {}
	impl<T: ?Sized> Printable for T {}
	pub trait SimpleBitOps: Sized + std::ops::BitOr<Self, Output = Self> + std::ops::BitAnd<Self, Output = Self> {}
	impl<T: Sized + std::ops::BitOr<Self, Output = Self> + std::ops::BitAnd<Self, Output = Self>> SimpleBitOps for T {}
	pub trait CheckEqual {}
	impl<T> CheckEqual for T {}
	pub trait Clear {
		fn is_clear(&self) -> bool;
		fn clear() -> Self;
	}

	#[derive(PartialEq, Eq, Copy, Clone, Debug)]
	pub struct BadOrigin;
	impl From<BadOrigin> for &'static str {
		fn from(_: BadOrigin) -> &'static str {
			"Bad origin"
		}
	}
	#[derive(PartialEq, Eq, Copy, Clone, Debug)]
	pub struct LookupError;
	impl From<LookupError> for &'static str {
		fn from(_: LookupError) -> &'static str {
			"Can not lookup"
		}
	}

	pub trait Lazy<T: ?Sized> {
		fn get(&mut self) -> &T;
	}
	impl<'a> Lazy<[u8]> for &'a [u8] {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	pub trait IdentifyAccount {
		type AccountId;
		fn into_account(self) -> Self::AccountId;
	}
	impl IdentifyAccount for AccountId32 {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	pub trait Verify {
		type Signer: IdentifyAccount;
		fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
	}
	macro_rules! sigs { ($($m:ident),*) => { $(
		impl IdentifyAccount for crate::core_::$m::Public { type AccountId = Self; fn into_account(self) -> Self { self } }
		impl Verify for crate::core_::$m::Signature {
			type Signer = crate::core_::$m::Public;
			fn verify<L: Lazy<[u8]>>(&self, mut msg: L, signer: &crate::core_::$m::Public) -> bool { <crate::core_::$m::Pair as crate::core_::crypto::Pair>::verify(self, msg.get(), signer) }
		}
	)* } }
	sigs!(ecdsa, ed25519);
	pub trait AppVerify {
		type AppPublic;
	}
	pub trait EnsureOrigin2 {}

	pub trait StaticLookup {
		type Source: Codec + Clone + PartialEq + fmt::Debug;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	pub struct IdentityLookup<T>(std::marker::PhantomData<T>);
	impl<T: Codec + Clone + PartialEq + fmt::Debug> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(x: T) -> Result<T, LookupError> {
			Ok(x)
		}
		fn unlookup(x: T) -> T {
			x
		}
	}
	impl<T> Default for IdentityLookup<T> {
		fn default() -> Self {
			Self(std::marker::PhantomData)
		}
	}
	impl<T> Lookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(&self, x: T) -> Result<T, LookupError> {
			Ok(x)
		}
	}
	pub trait Lookup {
		type Source;
		type Target;
		fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
	}
	pub trait BlockNumberProvider {
		type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned;
		fn current_block_number() -> Self::BlockNumber;
	}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_: A) -> B {
			Default::default()
		}
	}
	pub trait ConvertBack<A, B>: Convert<A, B> {
		fn convert_back(b: B) -> A;
	}
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(a: T) -> T {
			a
		}
	}
	pub struct ConvertInto;
	impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
		fn convert(a: A) -> B {
			a.into()
		}
	}
	pub trait MaybeEquivalence<A, B> {
		fn convert(a: &A) -> Option<B>;
		fn convert_back(b: &B) -> Option<A>;
	}
	pub trait Morph<A> {
		type Outcome;
		fn morph(a: A) -> Self::Outcome;
	}
	pub trait TryMorph<A> {
		type Outcome;
		fn try_morph(a: A) -> Result<Self::Outcome, ()>;
	}

	pub trait HashOutput: Member + MaybeSerializeDeserialize + fmt::Debug + fmt::Display + SimpleBitOps + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Codec + codec::EncodeLike + MaxEncodedLen {}
	impl<T: Member + MaybeSerializeDeserialize + fmt::Debug + fmt::Display + SimpleBitOps + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Codec + codec::EncodeLike + MaxEncodedLen> HashOutput for T {}
	pub trait Hash: 'static + fmt::Debug + Clone + Eq + PartialEq + Send + Sync {
		type Output: HashOutput;
		fn hash(s: &[u8]) -> Self::Output;
		fn hash_of<S: Encode + ?Sized>(s: &S) -> Self::Output {
			Encode::using_encoded(s, Self::hash)
		}
		fn ordered_trie_root(input: Vec<Vec<u8>>, _v: StateVersion) -> Self::Output {
			Self::hash(&input.encode())
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Serialize, Deserialize)]
	pub struct BlakeTwo256;
	#[derive(PartialEq, Eq, Clone, Debug, Serialize, Deserialize)]
	pub struct Keccak256;
	impl Hash for BlakeTwo256 {
		type Output = H256;
		fn hash(s: &[u8]) -> H256 {
			H256(simcrypto::blake2_256(s))
		}
	}
	impl Hash for Keccak256 {
		type Output = H256;
		fn hash(s: &[u8]) -> H256 {
			H256(simcrypto::keccak_256(s))
		}
	}
	impl Hasher for BlakeTwo256 {
		type Out = H256;
		const LENGTH: usize = 32;
		fn hash(s: &[u8]) -> H256 {
			<Self as Hash>::hash(s)
		}
	}
	pub type HashingFor<B> = <<B as Block>::Header as Header>::Hashing;
	pub type HashFor<B> = <B as Block>::Hash;
	pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;
	pub trait Header: Clone + Send + Sync + Codec + Eq + fmt::Debug + 'static {
		type Number: Member
			+ MaybeSerializeDeserialize
			+ std::hash::Hash
			+ Copy
			+ fmt::Display
			+ AtLeast32BitUnsigned
			+ std::str::FromStr
			+ Default
			+ Codec
			+ codec::EncodeLike
			+ MaxEncodedLen
			+ scale_info::TypeInfo;
		type Hash: HashOutput + scale_info::TypeInfo;
		type Hashing: Hash<Output = Self::Hash>;
		fn new(number: Self::Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: generic::Digest) -> Self;
		fn number(&self) -> &Self::Number;
		fn set_number(&mut self, n: Self::Number);
		fn extrinsics_root(&self) -> &Self::Hash;
		fn state_root(&self) -> &Self::Hash;
		fn parent_hash(&self) -> &Self::Hash;
		fn digest(&self) -> &generic::Digest;
		fn digest_mut(&mut self) -> &mut generic::Digest;
		fn hash(&self) -> Self::Hash {
			<Self::Hashing as Hash>::hash_of(self)
		}
	}
	pub trait Block: Clone + Codec + Eq + fmt::Debug + 'static {
		type Extrinsic: Clone + fmt::Debug + Eq + Codec + Extrinsic + 'static;
		type Header: Header<Hash = Self::Hash>;
		type Hash: HashOutput + scale_info::TypeInfo;
		fn header(&self) -> &Self::Header;
		fn extrinsics(&self) -> &[Self::Extrinsic];
		fn deconstruct(self) -> (Self::Header, Vec<Self::Extrinsic>);
		fn new(h: Self::Header, e: Vec<Self::Extrinsic>) -> Self;
		fn hash(&self) -> Self::Hash {
			self.header().hash()
		}
	}
	pub trait Extrinsic: Sized {
		type Call;
		type SignaturePayload;
		fn is_signed(&self) -> Option<bool> {
			None
		}
		fn new(_call: Self::Call, _s: Option<Self::SignaturePayload>) -> Option<Self> {
			None
		}
	}
	pub trait ExtrinsicMetadata {
		const VERSION: u8;
		type SignedExtensions: SignedExtension;
	}
	pub trait Checkable<Context>: Sized {
		type Checked;
		fn check(self, c: &Context) -> Result<Self::Checked, transaction_validity::TransactionValidityError>;
	}
	pub trait Dispatchable {
		type RuntimeOrigin: fmt::Debug;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable;
		fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
	}
	impl Dispatchable for () {
		type RuntimeOrigin = ();
		type Config = ();
		type Info = ();
		type PostInfo = ();
		fn dispatch(self, _: ()) -> DispatchResultWithInfo<()> {
			panic!("This implementation should not be used for actual dispatch.");
		}
	}
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;

	use transaction_validity::*;
	pub trait SignedExtension: Codec + fmt::Debug + Sync + Send + Clone + Eq + PartialEq {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call: Dispatchable;
		type AdditionalSigned: Encode;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
		fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
		fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(call, info, len).map(|_| ())
		}
		fn post_dispatch(_pre: Option<Self::Pre>, _info: &DispatchInfoOf<Self::Call>, _post: &PostDispatchInfoOf<Self::Call>, _len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
			Ok(())
		}
	}
	macro_rules! tup { ($($t:ident $n:tt),*) => {
		#[allow(non_snake_case)]
		impl<AccountId, Call: Dispatchable, $($t: SignedExtension<AccountId = AccountId, Call = Call>),*> SignedExtension for ($($t,)*) {
			const IDENTIFIER: &'static str = "Tuple";
			type AccountId = AccountId;
			type Call = Call;
			type AdditionalSigned = ($($t::AdditionalSigned,)*);
			type Pre = ($($t::Pre,)*);
			fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> { Ok(($(self.$n.additional_signed()?,)*)) }
			fn validate(&self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let v = ValidTransaction::default();
				$( let v = v.combine_with(self.$n.validate(who, call, info, len)?); )*
				Ok(v)
			}
			fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
				Ok(($( self.$n.pre_dispatch(who, call, info, len)?, )*))
			}
			fn validate_unsigned(call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let v = ValidTransaction::default();
				$( let v = v.combine_with($t::validate_unsigned(call, info, len)?); )*
				Ok(v)
			}
			fn pre_dispatch_unsigned(call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<(), TransactionValidityError> {
				$( $t::pre_dispatch_unsigned(call, info, len)?; )*
				Ok(())
			}
			fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Call>, post: &PostDispatchInfoOf<Call>, len: usize, r: &DispatchResult) -> Result<(), TransactionValidityError> {
				match pre {
					Some(x) => { $( $t::post_dispatch(Some(x.$n), info, post, len, r)?; )* },
					None => { $( $t::post_dispatch(None, info, post, len, r)?; )* },
				}
				Ok(())
			}
		}
	} }
	tup!(A 0);
	tup!(A 0, B 1);
	tup!(A 0, B 1, C 2);
	tup!(A 0, B 1, C 2, D 3);
	tup!(A 0, B 1, C 2, D 3, E 4);
	tup!(A 0, B 1, C 2, D 3, E 4, F 5);
	tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
	tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
	tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
	tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);

	pub trait Applyable: Sized + Send + Sync {
		type Call: Dispatchable;
		fn call_ref(&self) -> &Self::Call;
		fn validate<V: ValidateUnsigned<Call = Self::Call>>(&self, source: TransactionSource, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity;
		fn apply<V: ValidateUnsigned<Call = Self::Call>>(self, info: &DispatchInfoOf<Self::Call>, len: usize) -> super::ApplyExtrinsicResultWithInfo<PostDispatchInfoOf<Self::Call>>;
	}
	pub trait GetRuntimeBlockType {
		type RuntimeBlock: Block;
	}
	pub trait GetNodeBlockType {
		type NodeBlock: Block;
	}
	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ()).map_err(Into::into)
		}
		fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
	}
	pub trait OpaqueKeys: Clone {
		type KeyTypeIdProviders;
		fn key_ids() -> &'static [KeyTypeId];
		fn get_raw(&self, i: KeyTypeId) -> &[u8];
	}

	pub struct TrailingZeroInput<'a>(pub &'a [u8]);
	impl<'a> TrailingZeroInput<'a> {
		pub fn new(d: &'a [u8]) -> Self {
			Self(d)
		}
		pub fn zeroes() -> Self {
			Self(&[])
		}
	}
	impl<'a> codec::Input for TrailingZeroInput<'a> {
		fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> {
			Ok(None)
		}
		fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> {
			let n = into.len().min(self.0.len());
			into[..n].copy_from_slice(&self.0[..n]);
			for i in &mut into[n..] {
				*i = 0;
			}
			self.0 = &self.0[n..];
			Ok(())
		}
	}
	pub trait AccountIdConversion<AccountId>: Sized {
		fn into_account_truncating(&self) -> AccountId {
			self.into_sub_account_truncating(&())
		}
		fn try_into_account(&self) -> Option<AccountId> {
			self.try_into_sub_account(&())
		}
		fn try_from_account(a: &AccountId) -> Option<Self> {
			Self::try_from_sub_account::<()>(a).map(|x| x.0)
		}
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
		fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
		fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
	}
	pub trait TypeId {
		const TYPE_ID: [u8; 4];
	}
	impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
			(Id::TYPE_ID, self, sub).using_encoded(|b| T::decode(&mut TrailingZeroInput(b))).expect("All byte sequences are valid `AccountIds`; qed")
		}
		fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
			let enc = (Id::TYPE_ID, self, sub).encode();
			let mut i = TrailingZeroInput(&enc);
			let acc = T::decode(&mut i).ok()?;
			i.0.is_empty().then_some(acc)
		}
		fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
			x.using_encoded(|d| {
				if d.len() < 4 || d[0..4] != Id::TYPE_ID {
					return None;
				}
				let mut c = &d[4..];
				let r = Decode::decode(&mut c).ok()?;
				c.iter().all(|x| *x == 0).then_some(r)
			})
		}
	}
	pub trait Saturating3 {}
}

pub mod transaction_validity {
	use super::*;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		Custom(u8),
		BadMandatory,
		MandatoryValidation,
		BadSigner,
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	impl TransactionValidityError {
		pub fn exhausted_resources(&self) -> bool {
			matches!(self, Self::Invalid(InvalidTransaction::ExhaustsResources))
		}
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(e: InvalidTransaction) -> Self {
			Self::Invalid(e)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(e: UnknownTransaction) -> Self {
			Self::Unknown(e)
		}
	}
	impl From<traits::LookupError> for TransactionValidityError {
		fn from(_: traits::LookupError) -> Self {
			Self::Unknown(UnknownTransaction::CannotLookup)
		}
	}
	impl From<InvalidTransaction> for &'static str {
		fn from(_: InvalidTransaction) -> &'static str {
			"invalid transaction"
		}
	}
	impl From<TransactionValidityError> for &'static str {
		fn from(_: TransactionValidityError) -> &'static str {
			"transaction validity error"
		}
	}
	impl std::fmt::Display for TransactionValidityError {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for TransactionValidityError {}
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(e: InvalidTransaction) -> Self {
			Err(TransactionValidityError::Invalid(e))
		}
	}
	impl From<UnknownTransaction> for TransactionValidity {
		fn from(e: UnknownTransaction) -> Self {
			Err(TransactionValidityError::Unknown(e))
		}
	}
	#[derive(Copy, Clone, PartialEq, Eq, Encode, Decode, Debug)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug)]
	pub struct ValidTransaction {
		pub priority: u64,
		pub requires: Vec<Vec<u8>>,
		pub provides: Vec<Vec<u8>>,
		pub longevity: u64,
		pub propagate: bool,
	}
	impl Default for ValidTransaction {
		fn default() -> Self {
			Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true }
		}
	}
	impl From<ValidTransactionBuilder> for TransactionValidity {
		fn from(b: ValidTransactionBuilder) -> Self {
			b.build()
		}
	}
	impl From<ValidTransactionBuilder> for ValidTransaction {
		fn from(b: ValidTransactionBuilder) -> Self {
			b.validity
		}
	}
	impl ValidTransaction {
		pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder {
			ValidTransactionBuilder { prefix: Some(prefix), validity: Default::default() }
		}
		pub fn combine_with(mut self, mut o: ValidTransaction) -> Self {
			Self {
				priority: self.priority.saturating_add(o.priority),
				requires: {
					self.requires.append(&mut o.requires);
					self.requires
				},
				provides: {
					self.provides.append(&mut o.provides);
					self.provides
				},
				longevity: self.longevity.min(o.longevity),
				propagate: self.propagate && o.propagate,
			}
		}
	}
	#[derive(Default, Clone, Debug)]
	pub struct ValidTransactionBuilder {
		prefix: Option<&'static str>,
		validity: ValidTransaction,
	}
	impl ValidTransactionBuilder {
		pub fn priority(mut self, p: u64) -> Self {
			self.validity.priority = p;
			self
		}
		pub fn longevity(mut self, p: u64) -> Self {
			self.validity.longevity = p;
			self
		}
		pub fn propagate(mut self, p: bool) -> Self {
			self.validity.propagate = p;
			self
		}
		fn tag(&self, t: impl Encode) -> Vec<u8> {
			match self.prefix {
				Some(p) => (p, t).encode(),
				None => t.encode(),
			}
		}
		pub fn and_requires(mut self, t: impl Encode) -> Self {
			let t = self.tag(t);
			self.validity.requires.push(t);
			self
		}
		pub fn and_provides(mut self, t: impl Encode) -> Self {
			let t = self.tag(t);
			self.validity.provides.push(t);
			self
		}
		pub fn combine_with(mut self, v: ValidTransaction) -> Self {
			self.validity = self.validity.combine_with(v);
			self
		}
		pub fn build(self) -> TransactionValidity {
			Ok(self.validity)
		}
	}
}

pub mod generic {
	use super::*;
	use super::traits::{self, Block as BlockT, Header as HeaderT, *};
	#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, Default, Serialize, Deserialize)]
	pub struct Digest {
		pub logs: Vec<DigestItem>,
	}
	impl Digest {
		pub fn logs(&self) -> &[DigestItem] {
			&self.logs
		}
		pub fn push(&mut self, i: DigestItem) {
			self.logs.push(i)
		}
		pub fn pop(&mut self) -> Option<DigestItem> {
			self.logs.pop()
		}
		pub fn log<T: ?Sized, F: Fn(&DigestItem) -> Option<&T>>(&self, p: F) -> Option<&T> {
			self.logs().iter().find_map(p)
		}
		pub fn convert_first<T, F: Fn(&DigestItem) -> Option<T>>(&self, p: F) -> Option<T> {
			self.logs().iter().find_map(p)
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Serialize, Deserialize)]
	pub enum DigestItem {
		PreRuntime(ConsensusEngineId, Vec<u8>),
		Consensus(ConsensusEngineId, Vec<u8>),
		Seal(ConsensusEngineId, Vec<u8>),
		Other(Vec<u8>),
		RuntimeEnvironmentUpdated,
	}
	impl Encode for DigestItem {
		fn encode_to<O: codec::Output + ?Sized>(&self, d: &mut O) {
			match self {
				DigestItem::Other(v) => {
					d.push_byte(0);
					v.encode_to(d)
				},
				DigestItem::Consensus(i, v) => {
					d.push_byte(4);
					(i, v).encode_to(d)
				},
				DigestItem::Seal(i, v) => {
					d.push_byte(5);
					(i, v).encode_to(d)
				},
				DigestItem::PreRuntime(i, v) => {
					d.push_byte(6);
					(i, v).encode_to(d)
				},
				DigestItem::RuntimeEnvironmentUpdated => d.push_byte(8),
			}
		}
	}
	impl codec::EncodeLike for DigestItem {}
	impl Decode for DigestItem {
		fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> {
			Ok(match i.read_byte()? {
				0 => DigestItem::Other(Decode::decode(i)?),
				4 => DigestItem::Consensus(Decode::decode(i)?, Decode::decode(i)?),
				5 => DigestItem::Seal(Decode::decode(i)?, Decode::decode(i)?),
				6 => DigestItem::PreRuntime(Decode::decode(i)?, Decode::decode(i)?),
				8 => DigestItem::RuntimeEnvironmentUpdated,
				_ => return Err("digest item".into()),
			})
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum OpaqueDigestItemId<'a> {
		PreRuntime(&'a ConsensusEngineId),
		Consensus(&'a ConsensusEngineId),
		Seal(&'a ConsensusEngineId),
		Other,
	}
	impl DigestItem {
		pub fn as_pre_runtime(&self) -> Option<(ConsensusEngineId, &[u8])> {
			match self {
				DigestItem::PreRuntime(i, v) => Some((*i, v)),
				_ => None,
			}
		}
		pub fn as_consensus(&self) -> Option<(ConsensusEngineId, &[u8])> {
			match self {
				DigestItem::Consensus(i, v) => Some((*i, v)),
				_ => None,
			}
		}
		pub fn try_as_raw(&self, id: OpaqueDigestItemId<'_>) -> Option<&[u8]> {
			match (id, self) {
				(OpaqueDigestItemId::Consensus(w), DigestItem::Consensus(v, s)) | (OpaqueDigestItemId::Seal(w), DigestItem::Seal(v, s)) | (OpaqueDigestItemId::PreRuntime(w), DigestItem::PreRuntime(v, s)) if v == w => Some(&s[..]),
				(OpaqueDigestItemId::Other, DigestItem::Other(s)) => Some(&s[..]),
				_ => None,
			}
		}
		pub fn try_to<T: Decode>(&self, id: OpaqueDigestItemId<'_>) -> Option<T> {
			self.try_as_raw(id).and_then(|mut x| Decode::decode(&mut x).ok())
		}
		pub fn consensus_try_to<T: Decode>(&self, id: &ConsensusEngineId) -> Option<T> {
			self.try_to(OpaqueDigestItemId::Consensus(id))
		}
	}

	#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, Serialize, Deserialize)]
	#[serde(bound = "Number: serde::Serialize + serde::de::DeserializeOwned")]
	pub struct Header<Number, H: traits::Hash> {
		pub parent_hash: H::Output,
		pub number: Number,
		pub state_root: H::Output,
		pub extrinsics_root: H::Output,
		pub digest: Digest,
	}
	impl<Number, H> HeaderT for Header<Number, H>
	where
		Number: Member + MaybeSerializeDeserialize + std::hash::Hash + Copy + fmt::Display + AtLeast32BitUnsigned + std::str::FromStr + Default + Codec + codec::EncodeLike + MaxEncodedLen + scale_info::TypeInfo,
		H: traits::Hash,
	{
		type Number = Number;
		type Hash = H::Output;
		type Hashing = H;
		fn new(number: Number, extrinsics_root: H::Output, state_root: H::Output, parent_hash: H::Output, digest: Digest) -> Self {
			Self { parent_hash, number, state_root, extrinsics_root, digest }
		}
		fn number(&self) -> &Number {
			&self.number
		}
		fn set_number(&mut self, n: Number) {
			self.number = n
		}
		fn extrinsics_root(&self) -> &H::Output {
			&self.extrinsics_root
		}
		fn state_root(&self) -> &H::Output {
			&self.state_root
		}
		fn parent_hash(&self) -> &H::Output {
			&self.parent_hash
		}
		fn digest(&self) -> &Digest {
			&self.digest
		}
		fn digest_mut(&mut self) -> &mut Digest {
			&mut self.digest
		}
	}
	#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug)]
	pub struct Block<H, E> {
		pub header: H,
		pub extrinsics: Vec<E>,
	}
	impl<H: HeaderT, E: Clone + fmt::Debug + Eq + Codec + Extrinsic + 'static> BlockT for Block<H, E> {
		type Extrinsic = E;
		type Header = H;
		type Hash = <H as HeaderT>::Hash;
		fn header(&self) -> &H {
			&self.header
		}
		fn extrinsics(&self) -> &[E] {
			&self.extrinsics
		}
		fn deconstruct(self) -> (H, Vec<E>) {
			(self.header, self.extrinsics)
		}
		fn new(header: H, extrinsics: Vec<E>) -> Self {
			Self { header, extrinsics }
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug)]
	pub struct SignedBlock<B> {
		pub block: B,
		pub justifications: Option<Justifications>,
	}
	pub enum BlockId<B: BlockT> {
		Hash(B::Hash),
		Number(NumberFor<B>),
	}
	impl<B: BlockT> BlockId<B> {
		pub fn hash(h: B::Hash) -> Self {
			BlockId::Hash(h)
		}
		pub fn number(h: NumberFor<B>) -> Self {
			BlockId::Number(h)
		}
	}
	impl<B: BlockT> Clone for BlockId<B> {
		fn clone(&self) -> Self {
			match self {
				BlockId::Hash(h) => BlockId::Hash(*h),
				BlockId::Number(h) => BlockId::Number(*h),
			}
		}
	}
	impl<B: BlockT> fmt::Debug for BlockId<B> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			f.write_str("BlockId")
		}
	}

	pub type Period = u64;
	pub type Phase = u64;
	#[derive(PartialEq, Eq, Clone, Copy, Debug, Encode, Decode)]
	pub enum Era {
		Immortal,
		Mortal(Period, Phase),
	}
	impl Era {
		pub fn mortal(period: u64, current: u64) -> Self {
			let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16);
			let phase = current % period;
			let q = (period >> 12).max(1);
			Self::Mortal(period, phase / q * q)
		}
		pub fn immortal() -> Self {
			Self::Immortal
		}
		pub fn is_immortal(&self) -> bool {
			matches!(self, Self::Immortal)
		}
		pub fn birth(self, current: u64) -> u64 {
			match self {
				Self::Immortal => 0,
				Self::Mortal(p, ph) => (current.max(ph) - ph) / p * p + ph,
			}
		}
		pub fn death(self, current: u64) -> u64 {
			match self {
				Self::Immortal => u64::MAX,
				Self::Mortal(p, _) => self.birth(current) + p,
			}
		}
	}

	#[derive(PartialEq, Eq, Clone, Debug)]
	pub struct CheckedExtrinsic<AccountId, Call, Extra> {
		pub signed: Option<(AccountId, Extra)>,
		pub function: Call,
	}
	impl<AccountId, Call, Extra, Origin> traits::Applyable for CheckedExtrinsic<AccountId, Call, Extra>
	where
		AccountId: Member + fmt::Debug,
		Call: Member + traits::Dispatchable<RuntimeOrigin = Origin>,
		Extra: SignedExtension<AccountId = AccountId, Call = Call>,
		Origin: From<Option<AccountId>>,
	{
		type Call = Call;
		fn call_ref(&self) -> &Call {
			&self.function
		}
		fn validate<V: traits::ValidateUnsigned<Call = Call>>(&self, source: transaction_validity::TransactionSource, info: &traits::DispatchInfoOf<Call>, len: usize) -> transaction_validity::TransactionValidity {
			if let Some((ref id, ref extra)) = self.signed {
				Extra::validate(extra, id, &self.function, info, len)
			} else {
				let valid = Extra::validate_unsigned(&self.function, info, len)?;
				let u = V::validate_unsigned(source, &self.function)?;
				Ok(valid.combine_with(u))
			}
		}
		fn apply<V: traits::ValidateUnsigned<Call = Call>>(self, info: &traits::DispatchInfoOf<Call>, len: usize) -> super::ApplyExtrinsicResultWithInfo<traits::PostDispatchInfoOf<Call>> {
			let (maybe_who, maybe_pre) = if let Some((id, extra)) = self.signed {
				let pre = Extra::pre_dispatch(extra, &id, &self.function, info, len)?;
				(Some(id), Some(pre))
			} else {
				Extra::pre_dispatch_unsigned(&self.function, info, len)?;
				V::pre_dispatch(&self.function)?;
				(None, None)
			};
			let res = self.function.dispatch(Origin::from(maybe_who));
			let post = match res {
				Ok(i) => i,
				Err(ref e) => e.post_info,
			};
			Extra::post_dispatch(maybe_pre, info, &post, len, &res.map(|_| ()).map_err(|e| e.error))?;
			Ok(res)
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
		pub signature: Option<(Address, Signature, Extra)>,
		pub function: Call,
	}
	impl<Address, Call, Signature, Extra> UncheckedExtrinsic<Address, Call, Signature, Extra> {
		pub fn new_signed(function: Call, signed: Address, signature: Signature, extra: Extra) -> Self {
			Self { signature: Some((signed, signature, extra)), function }
		}
		pub fn new_unsigned(function: Call) -> Self {
			Self { signature: None, function }
		}
	}
	impl<Address, Call, Signature, Extra> Extrinsic for UncheckedExtrinsic<Address, Call, Signature, Extra> {
		type Call = Call;
		type SignaturePayload = (Address, Signature, Extra);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(function: Call, s: Option<Self::SignaturePayload>) -> Option<Self> {
			Some(Self { signature: s, function })
		}
	}
	/// What a signature commits to.
	pub struct SignedPayload<Call, Extra: SignedExtension>((Call, Extra, Extra::AdditionalSigned));
	impl<Call: Encode, Extra: SignedExtension> SignedPayload<Call, Extra> {
		pub fn new(call: Call, extra: Extra) -> Result<Self, transaction_validity::TransactionValidityError> {
			let a = extra.additional_signed()?;
			Ok(Self((call, extra, a)))
		}
		pub fn from_raw(call: Call, extra: Extra, a: Extra::AdditionalSigned) -> Self {
			Self((call, extra, a))
		}
		pub fn deconstruct(self) -> (Call, Extra, Extra::AdditionalSigned) {
			self.0
		}
		pub fn using<R>(&self, f: impl FnOnce(&[u8]) -> R) -> R {
			let e = self.0.encode();
			if e.len() > 256 {
				f(&simcrypto::blake2_256(&e))
			} else {
				f(&e)
			}
		}
	}
	impl<Address, AccountId, Call, Signature, Extra, L> Checkable<L> for UncheckedExtrinsic<Address, Call, Signature, Extra>
	where
		Address: Member + fmt::Debug,
		Call: Encode + Member,
		Signature: Member + traits::Verify,
		<Signature as traits::Verify>::Signer: IdentifyAccount<AccountId = AccountId>,
		Extra: SignedExtension<AccountId = AccountId>,
		AccountId: Member + fmt::Debug,
		L: Lookup<Source = Address, Target = AccountId>,
	{
		type Checked = CheckedExtrinsic<AccountId, Call, Extra>;
		fn check(self, l: &L) -> Result<Self::Checked, transaction_validity::TransactionValidityError> {
			Ok(match self.signature {
				Some((signed, signature, extra)) => {
					let signed = l.lookup(signed)?;
					let raw = SignedPayload::new(self.function, extra)?;
					if !raw.using(|p| signature.verify(p, &signed)) {
						return Err(transaction_validity::InvalidTransaction::BadProof.into());
					}
					let (function, extra, _) = raw.deconstruct();
					CheckedExtrinsic { signed: Some((signed, extra)), function }
				},
				None => CheckedExtrinsic { signed: None, function: self.function },
			})
		}
	}
}
pub use generic::{Digest, DigestItem};
pub type MultiAddressLike<A> = A;
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(AccountIndex),
	Raw(Vec<u8>),
}

pub mod testing {
	use super::*;
	use super::traits::*;
	pub type Header = generic::Header<u64, BlakeTwo256>;
	pub type Digest = generic::Digest;
	pub type DigestItem = generic::DigestItem;
	pub type Block<Xt> = generic::Block<Header, Xt>;
	#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug)]
	pub struct TestXt<Call, Extra> {
		pub signature: Option<(u64, Extra)>,
		pub call: Call,
	}
	impl<Call, Extra> TestXt<Call, Extra> {
		pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self {
			Self { call, signature }
		}
	}
	impl<Call, Extra> Extrinsic for TestXt<Call, Extra> {
		type Call = Call;
		type SignaturePayload = (u64, Extra);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(c: Call, s: Option<(u64, Extra)>) -> Option<Self> {
			Some(TestXt { signature: s, call: c })
		}
	}
	#[derive(Default, PartialEq, Eq, Clone, Encode, Decode, Debug, Hash, Serialize, Deserialize, PartialOrd, Ord, MaxEncodedLen)]
	pub struct UintAuthorityId(pub u64);
	impl From<u64> for UintAuthorityId {
		fn from(i: u64) -> Self {
			UintAuthorityId(i)
		}
	}
	impl UintAuthorityId {
		pub fn to_public_key<T: From<[u8; 32]>>(&self) -> T {
			let mut b = [0u8; 32];
			b[0..8].copy_from_slice(&self.0.to_le_bytes());
			T::from(b)
		}
	}
	impl AsRef<[u8]> for UintAuthorityId {
		fn as_ref(&self) -> &[u8] {
			// SAFETY: plain old data
			unsafe { std::slice::from_raw_parts(&self.0 as *const u64 as *const u8, 8) }
		}
	}
	#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug)]
	pub struct TestSignature(pub u64, pub Vec<u8>);
	impl super::RuntimeAppPublic for UintAuthorityId {
		const ID: KeyTypeId = key_types::DUMMY;
		const CRYPTO_ID: crate::core_::crypto::CryptoTypeId = crate::core_::crypto::CryptoTypeId(*b"dumm");
		type Signature = TestSignature;
		fn all() -> Vec<Self> {
			vec![]
		}
		fn generate_pair(_: Option<Vec<u8>>) -> Self {
			unimplemented!()
		}
		fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<TestSignature> {
			Some(TestSignature(self.0, m.as_ref().to_vec()))
		}
		fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &TestSignature) -> bool {
			s.0 == self.0 && s.1 == m.as_ref()
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			AsRef::<[u8]>::as_ref(self).to_vec()
		}
	}
	pub fn validate() {}
}

pub mod offchain {
	pub use crate::core_::offchain::*;
	pub mod storage {
		use super::StorageKind;
		use crate::io::offchain as h;
		use codec::{Decode, Encode};
		#[derive(Debug, PartialEq, Eq)]
		pub struct StorageRetrievalError;
		#[derive(Debug, PartialEq, Eq)]
		pub enum MutateStorageError<T, E> {
			ConcurrentModification(T),
			ValueFunctionFailed(E),
		}
		pub struct StorageValueRef<'a> {
			key: &'a [u8],
			kind: StorageKind,
		}
		impl<'a> StorageValueRef<'a> {
			pub fn persistent(key: &'a [u8]) -> Self {
				Self { key, kind: StorageKind::PERSISTENT }
			}
			pub fn local(key: &'a [u8]) -> Self {
				Self { key, kind: StorageKind::LOCAL }
			}
			pub fn set(&self, v: &impl Encode) {
				h::local_storage_set(self.kind, self.key, &v.encode())
			}
			pub fn clear(&mut self) {
				h::local_storage_clear(self.kind, self.key)
			}
			pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
				h::local_storage_get(self.kind, self.key).map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError)).transpose()
			}
			pub fn mutate<T: codec::Codec, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> {
				let raw = h::local_storage_get(self.kind, self.key);
				let dec = raw.as_ref().map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError)).transpose();
				let v = f(dec).map_err(MutateStorageError::ValueFunctionFailed)?;
				if h::local_storage_compare_and_set(self.kind, self.key, raw, &v.encode()) {
					Ok(v)
				} else {
					Err(MutateStorageError::ConcurrentModification(v))
				}
			}
		}
	}
	pub mod http {
		use super::*;
		use crate::io::offchain as h;
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub enum Method {
			Get,
			Post,
			Put,
			Patch,
			Delete,
		}
		impl AsRef<str> for Method {
			fn as_ref(&self) -> &str {
				match self {
					Method::Get => "GET",
					Method::Post => "POST",
					Method::Put => "PUT",
					Method::Patch => "PATCH",
					Method::Delete => "DELETE",
				}
			}
		}
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct Request<'a, B> {
			pub method: Method,
			pub url: &'a str,
			pub body: B,
			pub deadline: Option<Timestamp>,
			headers: Vec<(String, String)>,
		}
		impl<'a, T: Default> Default for Request<'a, T> {
			fn default() -> Self {
				Request { method: Method::Get, url: "http://localhost", headers: vec![], body: Default::default(), deadline: None }
			}
		}
		impl<'a> Request<'a, Vec<&'static [u8]>> {
			pub fn get(url: &'a str) -> Self {
				Request { method: Method::Get, url, headers: vec![], body: vec![], deadline: None }
			}
		}
		impl<'a, T> Request<'a, T> {
			pub fn post(url: &'a str, body: T) -> Self {
				Request { method: Method::Post, url, body, deadline: None, headers: vec![] }
			}
			pub fn method(mut self, m: Method) -> Self {
				self.method = m;
				self
			}
			pub fn body(mut self, b: T) -> Self {
				self.body = b;
				self
			}
			pub fn add_header(mut self, n: &str, v: &str) -> Self {
				self.headers.push((n.into(), v.into()));
				self
			}
			pub fn deadline(mut self, d: Timestamp) -> Self {
				self.deadline = Some(d);
				self
			}
		}
		impl<'a, I: AsRef<[u8]>, T: IntoIterator<Item = I>> Request<'a, T> {
			pub fn send(self) -> Result<PendingRequest, HttpError> {
				let id = h::http_request_start(self.method.as_ref(), self.url, &[]).map_err(|_| HttpError::IoError)?;
				for (n, v) in &self.headers {
					h::http_request_add_header(id, n, v).map_err(|_| HttpError::IoError)?;
				}
				for c in self.body.into_iter() {
					h::http_request_write_body(id, c.as_ref(), self.deadline)?;
				}
				h::http_request_write_body(id, &[], self.deadline)?;
				Ok(PendingRequest { id })
			}
		}
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub enum Error {
			DeadlineReached,
			IoError,
			Unknown,
		}
		#[derive(PartialEq, Eq, Debug)]
		pub struct PendingRequest {
			pub id: HttpRequestId,
		}
		pub type HttpResult = Result<Response, Error>;
		impl PendingRequest {
			pub fn wait(self) -> HttpResult {
				match self.try_wait(None) {
					Ok(r) => r,
					Err(_) => panic!("Since `None` is passed we will never get a deadline error; qed"),
				}
			}
			pub fn try_wait(self, d: impl Into<Option<Timestamp>>) -> Result<HttpResult, PendingRequest> {
				match h::http_response_wait(&[self.id], d.into())[0] {
					HttpRequestStatus::DeadlineReached => Err(self),
					HttpRequestStatus::Invalid => Ok(Err(Error::Unknown)),
					HttpRequestStatus::IoError => Ok(Err(Error::IoError)),
					HttpRequestStatus::Finished(code) => Ok(Ok(Response { id: self.id, code })),
				}
			}
		}
		#[derive(Debug)]
		pub struct Response {
			pub id: HttpRequestId,
			pub code: u16,
		}
		impl Response {
			pub fn body(&self) -> ResponseBody {
				ResponseBody { id: self.id, error: None, buffer: [0; 512], filled: None, position: 0, deadline: None }
			}
		}
		#[derive(Clone)]
		pub struct ResponseBody {
			id: HttpRequestId,
			error: Option<HttpError>,
			buffer: [u8; 512],
			filled: Option<usize>,
			position: usize,
			deadline: Option<Timestamp>,
		}
		impl ResponseBody {
			pub fn deadline(&mut self, d: impl Into<Option<Timestamp>>) {
				self.deadline = d.into();
				self.error = None;
			}
			pub fn error(&self) -> &Option<HttpError> {
				&self.error
			}
		}
		impl Iterator for ResponseBody {
			type Item = u8;
			fn next(&mut self) -> Option<u8> {
				if self.error.is_some() {
					return None;
				}
				if self.filled.is_none() {
					match h::http_response_read_body(self.id, &mut self.buffer, self.deadline) {
						Err(e) => {
							self.error = Some(e);
							return None;
						},
						Ok(0) => return None,
						Ok(n) => {
							self.position = 0;
							self.filled = Some(n as usize);
						},
					}
				}
				if Some(self.position) == self.filled {
					self.filled = None;
					return self.next();
				}
				let b = self.buffer[self.position];
				self.position += 1;
				Some(b)
			}
		}
	}
}
