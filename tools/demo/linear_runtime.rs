//! The linear-release pallet over the balances pallet.
#![allow(dead_code)]
use frame_support::{
	derive_impl, parameter_types,
	traits::{ConstU128, VariantCount, WithdrawReasons},
};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{ConvertInto, IdentityLookup};

pub type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Linear: pallet_linear_release,
	}
);
#[derive(
	Encode, Decode, Copy, Clone, PartialEq, Eq, Hash, Debug, MaxEncodedLen, TypeInfo, Ord, PartialOrd, serde::Serialize,
	serde::Deserialize,
)]
pub enum Reason {
	A,
	B,
}
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 2;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub const MinVestedTransfer: u128 = MIN;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ConstU128<1>;
	type RuntimeHoldReason = Reason;
}
pub const MIN: u128 = 3;
pub const MAX: usize = 3;
impl pallet_linear_release::Config for Test {
	type Balance = u128;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = Reason;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = MAX as u32;
}

