//! pallet_timestamp: the clock is whatever the simulator sets for the block.
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::{Get, OnTimestampSet, Time, UnixTime};
use frame_system::pallet_prelude::*;
use substrate::arith::traits::*;
use substrate::runtime::traits::*;
pub use pallet::*;
pub trait WeightInfo {}
impl<T> WeightInfo for T {}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + Default + AtLeast32Bit + Scale<BlockNumberFor<Self>, Output = Self::Moment> + Copy + MaxEncodedLen;
		type OnTimestampSet: OnTimestampSet<Self::Moment>;
		type MinimumPeriod: Get<Self::Moment>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	#[pallet::storage]
	pub type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::from_parts(10_000, 0), DispatchClass::Mandatory))]
		pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult {
			ensure_none(origin)?;
			Now::<T>::put(now);
			T::OnTimestampSet::on_timestamp_set(now);
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn now() -> T::Moment {
		Now::<T>::get()
	}
	pub fn get() -> T::Moment {
		Now::<T>::get()
	}
	pub fn set_timestamp(now: T::Moment) {
		Now::<T>::put(now);
		T::OnTimestampSet::on_timestamp_set(now);
	}
}
impl<T: Config> Time for Pallet<T> {
	type Moment = T::Moment;
	fn now() -> T::Moment {
		Now::<T>::get()
	}
}
impl<T: Config> UnixTime for Pallet<T> {
	fn now() -> core::time::Duration {
		core::time::Duration::from_millis(Now::<T>::get().saturated_into::<u64>())
	}
}
