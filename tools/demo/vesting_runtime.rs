use frame_support::{derive_impl, parameter_types, traits::{ConstU128, VariantCount, WithdrawReasons}};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{ConvertInto, IdentityLookup};
pub type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
	pub enum Test { System: frame_system, Balances: pallet_balances, Vesting: pallet_vesting }
);
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo, Ord, PartialOrd)]
pub enum Hold { Bond }
impl VariantCount for Hold { const VARIANT_COUNT: u32 = 1; }
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub const MinVestedTransfer: u128 = 1;
	pub Reasons: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ConstU128<1>;
	type RuntimeHoldReason = Hold;
}
impl pallet_vesting::Config for Test {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = Reasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = 3;
}
