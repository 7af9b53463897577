//! pallet_scheduler: anonymous scheduling with an agenda per block, dispatched in on_initialize.
//! Simplification: no weight metering (MaximumWeight is taken as sufficient), no preimages lookups.
use codec::{Decode, Encode};
use frame_support::dispatch::*;
use frame_support::pallet_prelude::*;
use frame_support::traits::schedule::{self, DispatchTime, Period, Priority};
use frame_support::traits::{EnsureOrigin, Get, IsType, OriginTrait, PrivilegeCmp};
use frame_system::pallet_prelude::*;
use substrate::arith::traits::*;
use substrate::runtime::traits::*;
use substrate::runtime::{DispatchError, DispatchResult};
pub use pallet::*;
pub trait WeightInfo {}
impl<T> WeightInfo for T {}
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug)]
pub struct Scheduled<Call, BlockNumber, PalletsOrigin> {
	pub priority: u8,
	pub call: Call,
	pub maybe_periodic: Option<(BlockNumber, u32)>,
	pub origin: PalletsOrigin,
}
pub type ScheduledOf<T> = Scheduled<<T as Config>::RuntimeCall, BlockNumberFor<T>, <T as Config>::PalletsOrigin>;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin> + From<Self::PalletsOrigin> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
		type PalletsOrigin: From<frame_system::RawOrigin<Self::AccountId>> + codec::Codec + Clone + Eq + codec::EncodeLike + std::fmt::Debug;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>>;
		type MaximumWeight: Get<Weight>;
		type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type OriginPrivilegeCmp;
		type MaxScheduledPerBlock: Get<u32>;
		type WeightInfo: WeightInfo;
		type Preimages;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Scheduled { when: BlockNumberFor<T>, index: u32 },
		Canceled { when: BlockNumberFor<T>, index: u32 },
		Dispatched { task: (BlockNumberFor<T>, u32), id: Option<[u8; 32]>, result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		FailedToSchedule,
		NotFound,
		TargetBlockNumberInPast,
		RescheduleNoChange,
		Named,
	}
	#[pallet::storage]
	pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<Option<ScheduledOf<T>>>, ValueQuery>;
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(now: BlockNumberFor<T>) -> Weight {
			let mut agenda: Vec<(u32, ScheduledOf<T>)> = Agenda::<T>::take(now).into_iter().enumerate().filter_map(|(i, s)| s.map(|s| (i as u32, s))).collect();
			agenda.sort_by_key(|(_, s)| s.priority);
			for (i, s) in agenda {
				let origin = <T as Config>::RuntimeOrigin::from(s.origin.clone());
				let r = s.call.clone().dispatch(origin);
				Self::deposit_event(Event::Dispatched { task: (now, i), id: None, result: r.map(|_| ()).map_err(|e| e.error) });
				if let Some((period, count)) = s.maybe_periodic {
					let next = Scheduled { maybe_periodic: if count > 1 { Some((period, count - 1)) } else { None }, ..s };
					Agenda::<T>::append(now + period, Some(next));
				}
			}
			Weight::zero()
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(10_000)]
		pub fn schedule(origin: OriginFor<T>, when: BlockNumberFor<T>, maybe_periodic: Option<(BlockNumberFor<T>, u32)>, priority: u8, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin)?;
			Self::do_schedule(DispatchTime::At(when), maybe_periodic, priority, frame_system::RawOrigin::Root.into(), *call)?;
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(10_000)]
		pub fn cancel(origin: OriginFor<T>, when: BlockNumberFor<T>, index: u32) -> DispatchResult {
			T::ScheduleOrigin::ensure_origin(origin)?;
			Self::do_cancel((when, index))
		}
	}
}
impl<T: Config> Pallet<T> {
	fn resolve_time(when: DispatchTime<BlockNumberFor<T>>) -> Result<BlockNumberFor<T>, DispatchError> {
		let now = frame_system::Pallet::<T>::block_number();
		let when = match when {
			DispatchTime::At(x) => x,
			// The current block has already completed it's scheduled tasks, so
			// schedule the task at lest one block after this current block.
			DispatchTime::After(x) => now.saturating_add(x).saturating_add(One::one()),
		};
		if when <= now {
			return Err(Error::<T>::TargetBlockNumberInPast.into());
		}
		Ok(when)
	}
	fn do_schedule(when: DispatchTime<BlockNumberFor<T>>, maybe_periodic: Option<Period<BlockNumberFor<T>>>, priority: u8, origin: T::PalletsOrigin, call: <T as Config>::RuntimeCall) -> Result<(BlockNumberFor<T>, u32), DispatchError> {
		let when = Self::resolve_time(when)?;
		let maybe_periodic = maybe_periodic.filter(|p| p.1 > 1 && !p.0.is_zero()).map(|(p, c)| (p, c - 1));
		let index = Agenda::<T>::mutate(when, |a| -> Result<u32, DispatchError> {
			if a.iter().filter(|x| x.is_some()).count() as u32 >= T::MaxScheduledPerBlock::get() {
				return Err(DispatchError::Exhausted);
			}
			a.push(Some(Scheduled { priority, call, maybe_periodic, origin }));
			Ok(a.len() as u32 - 1)
		})?;
		Self::deposit_event(Event::Scheduled { when, index });
		Ok((when, index))
	}
	fn do_cancel((when, index): (BlockNumberFor<T>, u32)) -> DispatchResult {
		Agenda::<T>::try_mutate(when, |a| match a.get_mut(index as usize) {
			Some(s @ Some(_)) => {
				*s = None;
				Ok(())
			},
			_ => Err(Error::<T>::NotFound.into()),
		})
	}
}
impl<T: Config> schedule::v1::Anon<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T>
where
	(BlockNumberFor<T>, u32): MaxEncodedLen,
{
	type Address = (BlockNumberFor<T>, u32);
	fn schedule(when: DispatchTime<BlockNumberFor<T>>, p: Option<Period<BlockNumberFor<T>>>, pr: Priority, o: T::PalletsOrigin, c: <T as Config>::RuntimeCall) -> Result<Self::Address, DispatchError> {
		Self::do_schedule(when, p, pr, o, c)
	}
	fn cancel(a: Self::Address) -> Result<(), ()> {
		Self::do_cancel(a).map_err(|_| ())
	}
	fn reschedule((when, index): Self::Address, to: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> {
		let to = Self::resolve_time(to)?;
		let s = Agenda::<T>::mutate(when, |a| a.get_mut(index as usize).and_then(|s| s.take())).ok_or(Error::<T>::NotFound)?;
		Agenda::<T>::append(to, Some(s));
		Ok((to, Agenda::<T>::get(to).len() as u32 - 1))
	}
	fn next_dispatch_time((when, index): Self::Address) -> Result<BlockNumberFor<T>, ()> {
		Agenda::<T>::get(when).get(index as usize).ok_or(()).map(|_| when)
	}
}
