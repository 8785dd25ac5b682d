//! Stand-in for pallet-xcm: its origin, query numbers and sending. Registered queries and sent messages
//! are kept in storage.
pub use pallet::*;
use xcm::v4::{prelude::*, Location};

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use sp_std::vec::Vec;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeOrigin: From<Origin> + From<<Self as frame_system::Config>::RuntimeOrigin>;
		type RuntimeCall: Parameter;
		type XcmRouter: SendXcm;
	}

	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T>(_);

	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		Xcm(Location),
		Response(Location),
	}

	#[pallet::storage]
	pub type QueryCounter<T: Config> = StorageValue<_, QueryId, ValueQuery>;
	/// responder, call and timeout of a query
	#[pallet::storage]
	pub type Queries<T: Config> = StorageMap<_, Blake2_128Concat, QueryId, (Location, Vec<u8>, BlockNumberFor<T>)>;
	/// destination and message, in the order of sending
	#[pallet::storage]
	pub type Sent<T: Config> = StorageValue<_, Vec<(Location, Vec<u8>)>, ValueQuery>;
	/// Sending fails while this is set.
	#[pallet::storage]
	pub type Blocked<T: Config> = StorageValue<_, bool, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn send(origin: OriginFor<T>, dest: Location, message: Vec<u8>) -> DispatchResult {
			ensure_root(origin)?;
			Sent::<T>::append((dest, message));
			Ok(())
		}
		/// Sends assets of the caller away: stands for all transfers.
		#[pallet::call_index(11)]
		#[pallet::weight(Weight::zero())]
		pub fn transfer_assets(origin: OriginFor<T>, dest: Location) -> DispatchResult {
			ensure_signed(origin)?;
			Sent::<T>::append((dest, Vec::<u8>::new()));
			Ok(())
		}
	}

	impl<T: Config> Pallet<T> {
		pub fn check_account() -> T::AccountId {
			use sp_runtime::traits::AccountIdConversion;
			frame_support::PalletId(*b"py/xcmch").into_account_truncating()
		}
		pub fn new_notify_query(
			responder: impl Into<Location>,
			notify: impl Into<<T as Config>::RuntimeCall>,
			timeout: BlockNumberFor<T>,
			_match_querier: impl Into<Location>,
		) -> QueryId {
			QueryCounter::<T>::mutate(|q| {
				let r = *q;
				*q = q.saturating_add(1);
				let call: <T as Config>::RuntimeCall = notify.into();
				Queries::<T>::insert(r, (responder.into(), call.encode(), timeout));
				r
			})
		}
		pub fn send_xcm(
			_interior: impl Into<Junctions>,
			dest: impl Into<Location>,
			message: Xcm<()>,
		) -> Result<XcmHash, SendError> {
			if Blocked::<T>::get() {
				return Err(SendError::Transport("blocked"));
			}
			Sent::<T>::append((dest.into(), message.encode()));
			Ok([0; 32])
		}
	}
}

/// Ensure that the origin `o` represents a sibling parachain's response.
pub fn ensure_response<OuterOrigin>(o: OuterOrigin) -> Result<Location, sp_runtime::traits::BadOrigin>
where
	OuterOrigin: Into<Result<Origin, OuterOrigin>>,
{
	match o.into() {
		Ok(Origin::Response(location)) => Ok(location),
		_ => Err(sp_runtime::traits::BadOrigin),
	}
}
