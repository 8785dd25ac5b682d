//! Stand-in for pallet-authorship: the interface the staking pallet implements, and the author of the block.
pub use pallet::*;

pub trait EventHandler<Author, BlockNumber> {
	fn note_author(author: Author);
}

#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Author<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;

	impl<T: Config> Pallet<T> {
		pub fn author() -> Option<T::AccountId> {
			Author::<T>::get()
		}
	}
}
