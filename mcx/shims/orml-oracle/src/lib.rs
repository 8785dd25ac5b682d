//! Stand-in for the oracle pallet: members feed values, at most once a block each, and what is read is what the
//! configured rule makes of all values fed.
pub use pallet::*;
use frame_support::traits::{Get, SortedMembers, Time};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::marker::PhantomData;

#[derive(Encode, Decode, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, TypeInfo, MaxEncodedLen)]
pub struct TimestampedValue<Value, Moment> {
	pub value: Value,
	pub timestamp: Moment,
}
pub type MomentOf<T, I> = <<T as Config<I>>::Time as Time>::Moment;
pub type TimestampedValueOf<T, I> = TimestampedValue<<T as Config<I>>::OracleValue, MomentOf<T, I>>;

pub trait CombineData<T: Config<I>, I: 'static> {
	fn combine_data(
		values: Vec<TimestampedValueOf<T, I>>,
		prev_value: Option<TimestampedValueOf<T, I>>,
	) -> Option<TimestampedValueOf<T, I>>;
}
/// The median of the values that have not expired, if there are enough of them.
pub struct DefaultCombineData<T, MinimumCount, ExpiresIn, I = ()>(PhantomData<(T, I, MinimumCount, ExpiresIn)>);
impl<T, I, MinimumCount, ExpiresIn> CombineData<T, I> for DefaultCombineData<T, MinimumCount, ExpiresIn, I>
where
	T: Config<I>,
	I: 'static,
	MinimumCount: Get<u32>,
	ExpiresIn: Get<MomentOf<T, I>>,
{
	fn combine_data(
		mut values: Vec<TimestampedValueOf<T, I>>,
		prev_value: Option<TimestampedValueOf<T, I>>,
	) -> Option<TimestampedValueOf<T, I>> {
		let (expires_in, now) = (ExpiresIn::get(), T::Time::now());
		values.retain(|x| x.timestamp + expires_in > now);
		if (values.len() as u32) < MinimumCount::get() {
			return prev_value;
		}
		values.sort_by(|a, b| a.value.cmp(&b.value));
		Some(values[values.len() / 2].clone())
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type OracleKey: Parameter + Member + Ord;
		type OracleValue: Parameter + Member + Ord;
		type MaxFeedValues: Get<u32>;
		type CombineData: CombineData<Self, I>;
		type Time: Time;
		type RootOperatorAccountId: Get<Self::AccountId>;
		type Members: SortedMembers<Self::AccountId>;
		type MaxHasDispatchedSize: Get<u32>;
	}
	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T, I = ()>(_);
	#[pallet::storage]
	pub type Values<T: Config<I>, I: 'static = ()> = StorageMap<_, Twox64Concat, T::OracleKey, TimestampedValueOf<T, I>>;
	#[pallet::storage]
	pub type RawValues<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Twox64Concat, T::AccountId, Twox64Concat, T::OracleKey, TimestampedValueOf<T, I>>;
	#[pallet::storage]
	pub type HasDispatched<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NoPermission,
		AlreadyFeeded,
	}
	#[pallet::hooks]
	impl<T: Config<I>, I: 'static> Hooks<BlockNumberFor<T>> for Pallet<T, I> {
		fn on_finalize(_: BlockNumberFor<T>) {
			HasDispatched::<T, I>::kill();
		}
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn feed_values(
			origin: OriginFor<T>,
			values: BoundedVec<(T::OracleKey, T::OracleValue), T::MaxFeedValues>,
		) -> DispatchResult {
			let who = match ensure_root(origin.clone()) {
				Ok(_) => T::RootOperatorAccountId::get(),
				Err(_) => ensure_signed(origin)?,
			};
			ensure!(T::Members::contains(&who) || who == T::RootOperatorAccountId::get(), Error::<T, I>::NoPermission);
			let mut fed = HasDispatched::<T, I>::get();
			ensure!(!fed.contains(&who), Error::<T, I>::AlreadyFeeded);
			fed.push(who.clone());
			HasDispatched::<T, I>::put(fed);
			let timestamp = T::Time::now();
			for (key, value) in values {
				RawValues::<T, I>::insert(&who, &key, TimestampedValue { value, timestamp });
				let raw = T::Members::sorted_members()
					.into_iter()
					.chain([T::RootOperatorAccountId::get()])
					.filter_map(|m| RawValues::<T, I>::get(m, &key))
					.collect();
				if let Some(v) = T::CombineData::combine_data(raw, Values::<T, I>::get(&key)) {
					Values::<T, I>::insert(&key, v);
				}
			}
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		pub fn agree(key: &T::OracleKey, value: T::OracleValue) {
			Values::<T, I>::insert(key, TimestampedValue { value, timestamp: T::Time::now() });
		}
		pub fn forget(key: &T::OracleKey) {
			Values::<T, I>::remove(key);
		}
	}
	impl<T: Config<I>, I: 'static> orml_traits::DataProvider<T::OracleKey, T::OracleValue> for Pallet<T, I> {
		fn get(key: &T::OracleKey) -> Option<T::OracleValue> {
			Values::<T, I>::get(key).map(|v| v.value)
		}
	}
	impl<T: Config<I>, I: 'static> frame_support::traits::ChangeMembers<T::AccountId> for Pallet<T, I> {
		fn change_members_sorted(_: &[T::AccountId], outgoing: &[T::AccountId], _: &[T::AccountId]) {
			for m in outgoing {
				let _ = RawValues::<T, I>::clear_prefix(m, u32::MAX, None);
			}
		}
	}
}
