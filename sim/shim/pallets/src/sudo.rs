//! pallet_sudo.
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::{IsType, UnfilteredDispatchable};
use frame_system::pallet_prelude::*;
use substrate::runtime::traits::*;
use substrate::runtime::{DispatchError, DispatchResult};
pub use pallet::*;
pub trait WeightInfo {}
impl<T> WeightInfo for T {}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo;
		type WeightInfo: WeightInfo;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Sudid { sudo_result: DispatchResult },
		KeyChanged { old_sudoer: Option<T::AccountId> },
		SudoAsDone { sudo_result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		RequireSudo,
	}
	#[pallet::storage]
	pub type Key<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(10_000)]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let sender = ensure_signed(origin)?;
			ensure!(Key::<T>::get().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			let res = call.dispatch_bypass_filter(frame_system::RawOrigin::Root.into());
			Self::deposit_event(Event::Sudid { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(10_000)]
		pub fn set_key(origin: OriginFor<T>, new: T::AccountId) -> DispatchResult {
			let sender = ensure_signed(origin)?;
			ensure!(Key::<T>::get().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			Self::deposit_event(Event::KeyChanged { old_sudoer: Key::<T>::get() });
			Key::<T>::put(new);
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(10_000)]
		pub fn sudo_as(origin: OriginFor<T>, who: T::AccountId, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let sender = ensure_signed(origin)?;
			ensure!(Key::<T>::get().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			let res = call.dispatch_bypass_filter(frame_system::RawOrigin::Signed(who).into());
			Self::deposit_event(Event::SudoAsDone { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(())
		}
	}
}
