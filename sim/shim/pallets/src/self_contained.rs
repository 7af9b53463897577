//! fp_self_contained.
use codec::{Decode, Encode};
use frame_support::dispatch::GetDispatchInfo;
use std::fmt::Debug;
use substrate::runtime::traits::*;
use substrate::runtime::transaction_validity::*;
use substrate::runtime::{generic, ApplyExtrinsicResultWithInfo, DispatchResultWithInfo};
pub trait SelfContainedCall: Dispatchable {
	type SignedInfo;
	fn is_self_contained(&self) -> bool;
	fn check_self_contained(&self) -> Option<Result<Self::SignedInfo, TransactionValidityError>>;
	fn validate_self_contained(&self, info: &Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<TransactionValidity>;
	fn pre_dispatch_self_contained(&self, info: &Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<Result<(), TransactionValidityError>>;
	fn apply_self_contained(self, info: Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<DispatchResultWithInfo<PostDispatchInfoOf<Self>>>;
}
#[derive(Clone, Eq, PartialEq, Debug)]
pub enum CheckedSignature<AccountId, Extra, SelfContainedSignedInfo> {
	Signed(AccountId, Extra),
	Unsigned,
	SelfContained(SelfContainedSignedInfo),
}
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct CheckedExtrinsic<AccountId, Call, Extra, SelfContainedSignedInfo> {
	pub signed: CheckedSignature<AccountId, Extra, SelfContainedSignedInfo>,
	pub function: Call,
}
impl<AccountId, Call, Extra, I, Origin> Applyable for CheckedExtrinsic<AccountId, Call, Extra, I>
where
	AccountId: Member + Debug,
	Call: Member + Dispatchable<RuntimeOrigin = Origin> + SelfContainedCall<SignedInfo = I>,
	Extra: SignedExtension<AccountId = AccountId, Call = Call>,
	Origin: From<Option<AccountId>>,
	I: Send + Sync + 'static,
{
	type Call = Call;
	fn call_ref(&self) -> &Call {
		&self.function
	}
	fn validate<V: ValidateUnsigned<Call = Call>>(&self, source: TransactionSource, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
		match &self.signed {
			CheckedSignature::Signed(id, extra) => Extra::validate(extra, id, &self.function, info, len),
			CheckedSignature::Unsigned => {
				let valid = Extra::validate_unsigned(&self.function, info, len)?;
				let u = V::validate_unsigned(source, &self.function)?;
				Ok(valid.combine_with(u))
			},
			CheckedSignature::SelfContained(i) => self.function.validate_self_contained(i, info, len).ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))?,
		}
	}
	fn apply<V: ValidateUnsigned<Call = Call>>(self, info: &DispatchInfoOf<Call>, len: usize) -> ApplyExtrinsicResultWithInfo<PostDispatchInfoOf<Call>> {
		match self.signed {
			CheckedSignature::Signed(id, extra) => generic::CheckedExtrinsic { signed: Some((id, extra)), function: self.function }.apply::<V>(info, len),
			CheckedSignature::Unsigned => generic::CheckedExtrinsic::<AccountId, Call, Extra> { signed: None, function: self.function }.apply::<V>(info, len),
			CheckedSignature::SelfContained(i) => {
				// If pre-dispatch fail, the block must be considered invalid
				self.function.pre_dispatch_self_contained(&i, info, len).ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))??;
				Ok(self.function.apply_self_contained(i, info, len).ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))?)
			},
		}
	}
}
impl<A: Encode, C: Encode, S: Encode, E: Encode> Encode for UncheckedExtrinsic<A, C, S, E> {
	fn encode_to<T: codec::Output + ?Sized>(&self, d: &mut T) {
		self.0.encode_to(d)
	}
}
impl<A: Decode, C: Decode, S: Decode, E: Decode> Decode for UncheckedExtrinsic<A, C, S, E> {
	fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> {
		Ok(Self(Decode::decode(i)?))
	}
}
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct UncheckedExtrinsic<Address, Call, Signature, Extra>(pub generic::UncheckedExtrinsic<Address, Call, Signature, Extra>);
impl<Address, Call, Signature, Extra> UncheckedExtrinsic<Address, Call, Signature, Extra> {
	pub fn new_signed(function: Call, signed: Address, signature: Signature, extra: Extra) -> Self {
		Self(generic::UncheckedExtrinsic::new_signed(function, signed, signature, extra))
	}
	pub fn new_unsigned(function: Call) -> Self {
		Self(generic::UncheckedExtrinsic::new_unsigned(function))
	}
}
impl<Address, Call, Signature, Extra> Extrinsic for UncheckedExtrinsic<Address, Call, Signature, Extra>
where
	Call: SelfContainedCall,
{
	type Call = Call;
	type SignaturePayload = (Address, Signature, Extra);
	fn is_signed(&self) -> Option<bool> {
		if self.0.function.is_self_contained() {
			Some(true)
		} else {
			self.0.is_signed()
		}
	}
	fn new(function: Call, s: Option<Self::SignaturePayload>) -> Option<Self> {
		generic::UncheckedExtrinsic::new(function, s).map(Self)
	}
}
impl<Address, AccountId, Call, Signature, Extra, L> Checkable<L> for UncheckedExtrinsic<Address, Call, Signature, Extra>
where
	Address: Member + Debug,
	Call: Encode + Member + SelfContainedCall,
	Signature: Member + Verify,
	<Signature as Verify>::Signer: IdentifyAccount<AccountId = AccountId>,
	Extra: SignedExtension<AccountId = AccountId>,
	AccountId: Member + Debug,
	L: Lookup<Source = Address, Target = AccountId>,
{
	type Checked = CheckedExtrinsic<AccountId, Call, Extra, <Call as SelfContainedCall>::SignedInfo>;
	fn check(self, l: &L) -> Result<Self::Checked, TransactionValidityError> {
		if self.0.function.is_self_contained() {
			match self.0.function.check_self_contained() {
				Some(info) => match info {
					Ok(info) => Ok(CheckedExtrinsic { signed: CheckedSignature::SelfContained(info), function: self.0.function }),
					_ => Err(InvalidTransaction::BadProof.into()),
				},
				None => Err(InvalidTransaction::BadProof.into()),
			}
		} else {
			let checked = Checkable::<L>::check(self.0, l)?;
			Ok(CheckedExtrinsic {
				signed: match checked.signed {
					Some((id, extra)) => CheckedSignature::Signed(id, extra),
					None => CheckedSignature::Unsigned,
				},
				function: checked.function,
			})
		}
	}
}
impl<Address, Call: GetDispatchInfo, Signature, Extra> GetDispatchInfo for UncheckedExtrinsic<Address, Call, Signature, Extra> {
	fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
		self.0.function.get_dispatch_info()
	}
}
