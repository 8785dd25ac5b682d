//! Stand-in for pallet-transaction-payment: how a fee comes about, is withdrawn, corrected and handed on. The
//! multiplier stays at one.
pub use pallet::*;
use frame_support::{
	dispatch::{DispatchClass, DispatchInfo, PostDispatchInfo},
	traits::{
		fungible::{Balanced, Credit, Debt, Inspect},
		tokens::{Fortitude, Precision, Preservation},
		Get, Imbalance, OnUnbalanced,
	},
	weights::{Weight, WeightToFee},
};
use sp_runtime::{
	traits::{DispatchInfoOf, PostDispatchInfoOf, Saturating, Zero},
	transaction_validity::{InvalidTransaction, TransactionValidityError},
};
use std::marker::PhantomData;

#[frame_support::pallet]
pub mod pallet {
	use super::*;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type OperationalFeeMultiplier: Get<u8>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
}

pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;

pub trait OnChargeTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>
	where
		T::RuntimeCall: sp_runtime::traits::Dispatchable;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>
	where
		T::RuntimeCall: sp_runtime::traits::Dispatchable;
}

pub struct FungibleAdapter<F, OU>(PhantomData<(F, OU)>);
impl<T, F, OU> OnChargeTransaction<T> for FungibleAdapter<F, OU>
where
	T: Config,
	F: Balanced<T::AccountId>,
	OU: OnUnbalanced<Credit<T::AccountId, F>>,
{
	type Balance = <F as Inspect<T::AccountId>>::Balance;
	type LiquidityInfo = Option<Credit<T::AccountId, F>>;

	fn withdraw_fee(
		who: &T::AccountId,
		_call: &T::RuntimeCall,
		_info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		_tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None);
		}
		match F::withdraw(who, fee, Precision::Exact, Preservation::Preserve, Fortitude::Polite) {
			Ok(imbalance) => Ok(Some(imbalance)),
			Err(_) => Err(InvalidTransaction::Payment.into()),
		}
	}
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_: &DispatchInfoOf<T::RuntimeCall>,
		_: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already_withdrawn {
			let refund_amount = paid.peek().saturating_sub(corrected_fee);
			let refund_imbalance = if F::total_balance(who) > F::Balance::zero() {
				F::deposit(who, refund_amount, Precision::BestEffort).unwrap_or_else(|_| Debt::<T::AccountId, F>::zero())
			} else {
				Debt::<T::AccountId, F>::zero()
			};
			let adjusted_paid: Credit<T::AccountId, F> = paid
				.offset(refund_imbalance)
				.same()
				.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted_paid.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}

impl<T: Config> Pallet<T>
where
	BalanceOf<T>: frame_support::traits::tokens::Balance,
{
	pub fn compute_fee(len: u32, info: &DispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> {
		Self::raw(len, info.weight, tip, info.pays_fee == frame_support::dispatch::Pays::Yes, info.class)
	}
	pub fn compute_actual_fee(
		len: u32,
		info: &DispatchInfo,
		post_info: &PostDispatchInfo,
		tip: BalanceOf<T>,
	) -> BalanceOf<T> {
		Self::raw(
			len,
			post_info.calc_actual_weight(info),
			tip,
			post_info.pays_fee(info) == frame_support::dispatch::Pays::Yes,
			info.class,
		)
	}
	fn raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: bool, class: DispatchClass) -> BalanceOf<T> {
		if !pays {
			return tip;
		}
		let base = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
		base.saturating_add(Self::length_to_fee(len)).saturating_add(Self::weight_to_fee(weight)).saturating_add(tip)
	}
	pub fn length_to_fee(length: u32) -> BalanceOf<T> {
		T::LengthToFee::weight_to_fee(&Weight::from_parts(length as u64, 0))
	}
	pub fn weight_to_fee(weight: Weight) -> BalanceOf<T> {
		T::WeightToFee::weight_to_fee(&weight.min(T::BlockWeights::get().max_block))
	}
}
