//! A runtime around the real staking pallet with the real balances pallet.
use frame_support::{
	derive_impl, ord_parameter_types, parameter_types,
	traits::{ConstU128, ConstU32, Get},
};
use frame_system::EnsureSignedBy;
use sp_runtime::traits::IdentityLookup;
use std::sync::atomic::{AtomicU64, Ordering};

/// A configuration value of a scenario (process wide, fixed while a scenario runs).
macro_rules! params {
	($($name:ident : $ty:ty = $def:expr;)*) => { $(
		pub struct $name;
		impl $name {
			fn cell() -> &'static AtomicU64 {
				static C: AtomicU64 = AtomicU64::new($def);
				&C
			}
			pub fn set(v: $ty) { Self::cell().store(v as u64, Ordering::Relaxed) }
			pub fn val() -> $ty { Self::cell().load(Ordering::Relaxed) as $ty }
		}
		impl Get<$ty> for $name { fn get() -> $ty { Self::val() } }
	)* };
}
params! {
	MinBlocksPerRound: u32 = 2;
	LeaveCandidatesDelay: u32 = 2;
	CandidateBondLessDelay: u32 = 1;
	LeaveDelegatorsDelay: u32 = 3;
	RevokeDelegationDelay: u32 = 2;
	DelegationBondLessDelay: u32 = 1;
	RewardPaymentDelay: u32 = 1;
	MinSelectedCandidates: u32 = 1;
	MaxTop: u32 = 2;
	MaxBottom: u32 = 1;
	MaxDelegationsPerDelegator: u32 = 2;
	MinCandidateStk: u128 = 10;
	MinDelegation: u128 = 3;
	MinDelegatorStk: u128 = 5;
}
pub const PAYER: u64 = 99;
pub const GOV: u64 = 88;
pub const ED: u128 = 1;
parameter_types! { pub const PayMaster: u64 = PAYER; }
ord_parameter_types! { pub const Gov: u64 = GOV; }

pub type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Staking: pallet_parachain_staking,
	}
);
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU128<ED>;
	type FreezeIdentifier = ();
	type MaxFreezes = ConstU32<1>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = ();
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
impl pallet_session::Config for Test {}
impl pallet_authorship::Config for Test {}
impl pallet_parachain_staking::Config for Test {
	type Balance = u128;
	type CandidateBondLessDelay = CandidateBondLessDelay;
	type Currency = Balances;
	type DelegationBondLessDelay = DelegationBondLessDelay;
	type LeaveCandidatesDelay = LeaveCandidatesDelay;
	type LeaveDelegatorsDelay = LeaveDelegatorsDelay;
	type MaxBottomDelegationsPerCandidate = MaxBottom;
	type MaxDelegationsPerDelegator = MaxDelegationsPerDelegator;
	type MaxTopDelegationsPerCandidate = MaxTop;
	type MinBlocksPerRound = MinBlocksPerRound;
	type MinCandidateStk = MinCandidateStk;
	type MinDelegation = MinDelegation;
	type MinDelegatorStk = MinDelegatorStk;
	type MinSelectedCandidates = MinSelectedCandidates;
	type MonetaryGovernanceOrigin = EnsureSignedBy<Gov, u64>;
	type OnCollatorPayout = ();
	type OnNewRound = ();
	type PayMaster = PayMaster;
	type PayoutCollatorReward = ();
	type RevokeDelegationDelay = RevokeDelegationDelay;
	type RewardPaymentDelay = RewardPaymentDelay;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
