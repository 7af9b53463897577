//! pallet_utility: batch / batch_all / force_batch.
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::{IsType, IsSubType, OriginTrait, UnfilteredDispatchable};
use frame_system::pallet_prelude::*;
use substrate::runtime::traits::*;
use substrate::runtime::{DispatchError, DispatchResult};
pub use pallet::*;
pub trait WeightInfo {}
impl<T> WeightInfo for T {}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin>;
		type PalletsOrigin;
		type WeightInfo: WeightInfo;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		BatchInterrupted { index: u32, error: DispatchError },
		BatchCompleted,
		ItemCompleted,
	}
	#[pallet::error]
	pub enum Error<T> {
		TooManyCalls,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(10_000)]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
			for (i, c) in calls.into_iter().enumerate() {
				if let Err(e) = c.dispatch(origin.clone()) {
					Self::deposit_event(Event::BatchInterrupted { index: i as u32, error: e.error });
					return Ok(());
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(10_000)]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
			for c in calls {
				c.dispatch(origin.clone()).map_err(|e| e.error)?;
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(())
		}
	}
}
