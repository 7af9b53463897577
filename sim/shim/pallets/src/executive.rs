//! frame_executive: block execution glue (no trie, no inherents).
use codec::{Codec, Encode};
use frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::*;
use frame_support::weights::Weight;
use frame_system::pallet_prelude::BlockNumberFor;
use std::marker::PhantomData;
use substrate::runtime::traits::*;
use substrate::runtime::transaction_validity::*;
use substrate::runtime::{generic, ApplyExtrinsicResult};
pub type CheckedOf<E, C> = <E as Checkable<C>>::Checked;
pub type CallOf<E, C> = <CheckedOf<E, C> as Applyable>::Call;
pub type OriginOf<E, C> = <CallOf<E, C> as Dispatchable>::RuntimeOrigin;
pub struct Executive<System, Block, Context, UnsignedValidator, AllPallets, OnRuntimeUpgrade = ()>(PhantomData<(System, Block, Context, UnsignedValidator, AllPallets, OnRuntimeUpgrade)>);
impl<System, B, Context, V, All, Up> Executive<System, B, Context, V, All, Up>
where
	System: frame_system::Config,
	B: Block,
	Context: Default,
	B::Extrinsic: Checkable<Context> + Codec,
	CheckedOf<B::Extrinsic, Context>: Applyable,
	CallOf<B::Extrinsic, Context>: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> + GetDispatchInfo,
	V: ValidateUnsigned<Call = CallOf<B::Extrinsic, Context>>,
	All: OnInitialize<BlockNumberFor<System>> + OnFinalize<BlockNumberFor<System>> + OnIdle<BlockNumberFor<System>>,
{
	pub fn validate_transaction(source: TransactionSource, uxt: B::Extrinsic, _h: B::Hash) -> TransactionValidity {
		let len = uxt.encode().len();
		frame_support::storage::with_transaction_unchecked(|| {
			let r = (|| {
				let xt = uxt.check(&Default::default())?;
				let info = xt_info::<B, Context>(&xt);
				xt.validate::<V>(source, &info, len)
			})();
			frame_support::storage::TransactionOutcome::Rollback(r)
		})
	}
	pub fn apply_extrinsic(uxt: B::Extrinsic) -> ApplyExtrinsicResult {
		let enc = uxt.encode();
		let len = enc.len();
		let xt = uxt.check(&Default::default())?;
		frame_system::Pallet::<System>::note_extrinsic(enc);
		let info = xt_info::<B, Context>(&xt);
		// an invalid extrinsic must leave no trace (the block author skips it)
		let r = frame_support::storage::with_transaction_unchecked(|| match xt.apply::<V>(&info, len) {
			Ok(r) => frame_support::storage::TransactionOutcome::Commit(Ok(r)),
			Err(e) => frame_support::storage::TransactionOutcome::Rollback(Err(e)),
		})?;
		frame_system::Pallet::<System>::note_applied_extrinsic(&r, info);
		Ok(r.map(|_| ()).map_err(|e| e.error))
	}
}
fn xt_info<B: Block, C>(xt: &CheckedOf<B::Extrinsic, C>) -> DispatchInfo
where
	B::Extrinsic: Checkable<C>,
	CheckedOf<B::Extrinsic, C>: Applyable,
	CallOf<B::Extrinsic, C>: GetDispatchInfo,
{
	xt.call_ref().get_dispatch_info()
}
