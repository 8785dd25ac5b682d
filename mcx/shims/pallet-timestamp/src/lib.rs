//! Stand-in for pallet-timestamp (not in this sandbox's registry): the stored time and its setter.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::OriginFor;
	use sp_runtime::traits::{AtLeast32Bit, Scale};

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter
			+ Default
			+ parity_scale_codec::HasCompact
			+ AtLeast32Bit
			+ Scale<frame_system::pallet_prelude::BlockNumberFor<Self>, Output = Self::Moment>
			+ Copy
			+ MaxEncodedLen
			+ scale_info::StaticTypeInfo;
		type MinimumPeriod: Get<Self::Moment>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult {
			frame_system::ensure_none(origin)?;
			Self::set_timestamp(now);
			Ok(())
		}
	}

	impl<T: Config> Pallet<T> {
		pub fn get() -> T::Moment {
			Now::<T>::get()
		}
		pub fn set_timestamp(now: T::Moment) {
			Now::<T>::put(now)
		}
	}
	impl<T: Config> frame_support::traits::Time for Pallet<T> {
		type Moment = T::Moment;
		fn now() -> T::Moment {
			Now::<T>::get()
		}
	}
}
