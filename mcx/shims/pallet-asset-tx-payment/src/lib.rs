//! Stand-in for pallet-asset-tx-payment: the interfaces of paying fees in another asset.
pub use pallet::*;
use frame_support::traits::fungibles::{Balanced, Credit, Inspect};
use sp_runtime::{
	traits::{DispatchInfoOf, PostDispatchInfoOf},
	transaction_validity::TransactionValidityError,
};

#[frame_support::pallet]
pub mod pallet {
	use super::*;

	#[pallet::config]
	pub trait Config: frame_system::Config + pallet_transaction_payment::Config {
		type Fungibles: Balanced<Self::AccountId>;
		type OnChargeAssetTransaction: OnChargeAssetTransaction<Self>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
}

pub type AssetBalanceOf<T> =
	<<T as Config>::Fungibles as Inspect<<T as frame_system::Config>::AccountId>>::Balance;

pub trait HandleCredit<AccountId, B: Balanced<AccountId>> {
	fn handle_credit(credit: Credit<AccountId, B>);
}

pub trait OnChargeAssetTransaction<T: Config> {
	type Balance;
	type AssetId;
	type LiquidityInfo;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		asset_id: Self::AssetId,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(AssetBalanceOf<T>, AssetBalanceOf<T>), TransactionValidityError>;
}
