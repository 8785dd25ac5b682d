//! A runtime around the real democracy pallet, with the real balances, scheduler and preimage pallets.
use frame_support::{
	derive_impl, ord_parameter_types, parameter_types,
	traits::{ConstU32, ConstU64, EqualPrivilegeOnly, Get, SortedMembers},
	weights::Weight,
};
use frame_system::{EnsureRoot, EnsureSigned, EnsureSignedBy};
use sp_runtime::traits::IdentityLookup;
use std::sync::atomic::{AtomicU64, Ordering};

/// A configuration value of a scenario (process wide, fixed while a scenario runs).
macro_rules! params {
	($($name:ident : $ty:ty = $def:expr;)*) => { $(
		pub struct $name;
		paste_static!($name, $def);
		impl Get<$ty> for $name { fn get() -> $ty { Self::cell().load(Ordering::Relaxed) as $ty } }
		impl $name { #[allow(dead_code)] pub fn set(v: $ty) { Self::cell().store(v as u64, Ordering::Relaxed) } }
	)* };
}
macro_rules! paste_static {
	($name:ident, $def:expr) => {
		impl $name {
			fn cell() -> &'static AtomicU64 {
				static C: AtomicU64 = AtomicU64::new($def);
				&C
			}
		}
	};
}

params! {
	LaunchPeriod: u64 = 2;
	VotingPeriod: u64 = 3;
	EnactmentPeriod: u64 = 2;
	VoteLockingPeriod: u64 = 2;
	FastTrackVotingPeriod: u64 = 2;
	CooloffPeriod: u64 = 3;
	MinimumDeposit: u64 = 2;
	MaxVotes: u32 = 3;
	MaxProposals: u32 = 3;
	MaxDeposits: u32 = 3;
	MaxBlacklisted: u32 = 2;
	InstantAllowedN: u32 = 1;
}
pub struct InstantAllowed;
impl Get<bool> for InstantAllowed {
	fn get() -> bool {
		InstantAllowedN::get() == 1
	}
}

pub type Block = frame_system::mocking::MockBlock<Test>;

#[allow(unexpected_cfgs)]
#[frame_support::pallet]
pub mod probe {
	//! Records what the enacted proposals did.
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Hits<T: Config> = StorageValue<_, BoundedVec<(u8, u64), ConstU32<64>>, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1, 1))]
		pub fn hit(origin: OriginFor<T>, id: u8, pad: Vec<u8>) -> DispatchResult {
			ensure_root(origin)?;
			drop(pad);
			let n: u64 = TryInto::<u64>::try_into(frame_system::Pallet::<T>::block_number()).ok().unwrap();
			Hits::<T>::mutate(|h| h.try_push((id, n)).expect("probe full"));
			Ok(())
		}
	}
}

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Preimage: pallet_preimage,
		Scheduler: pallet_scheduler,
		Democracy: pallet_democracy,
		Probe: probe,
	}
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u64>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub MaximumSchedulerWeight: Weight = Weight::from_parts(u64::MAX / 2, u64::MAX / 2);
}
impl pallet_preimage::Config for Test {
	type Consideration = ();
	type Currency = Balances;
	type ManagerOrigin = EnsureRoot<u64>;
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
}
impl pallet_scheduler::Config for Test {
	type MaxScheduledPerBlock = ConstU32<100>;
	type MaximumWeight = MaximumSchedulerWeight;
	type OriginPrivilegeCmp = EqualPrivilegeOnly;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type ScheduleOrigin = EnsureRoot<u64>;
	type WeightInfo = ();
}
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u64;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU64<1>;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = ConstU32<10>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
impl probe::Config for Test {}

pub const EXT: u64 = 10;
pub const EXT_MAJ: u64 = 11;
pub const EXT_DEF: u64 = 12;
pub const FAST: u64 = 13;
pub const INSTANT: u64 = 14;
pub const CANCEL: u64 = 15;
pub const BLACK: u64 = 16;
pub const CANCELPROP: u64 = 17;
pub const VETO1: u64 = 18;
pub const VETO2: u64 = 19;
pub const VETO3: u64 = 20;
ord_parameter_types! {
	pub const AExt: u64 = EXT;
	pub const AExtMaj: u64 = EXT_MAJ;
	pub const AExtDef: u64 = EXT_DEF;
	pub const AFast: u64 = FAST;
	pub const AInstant: u64 = INSTANT;
	pub const ACancel: u64 = CANCEL;
	pub const ABlack: u64 = BLACK;
	pub const ACancelProp: u64 = CANCELPROP;
}
pub struct Vetoers;
impl SortedMembers<u64> for Vetoers {
	fn sorted_members() -> Vec<u64> {
		vec![VETO1, VETO2, VETO3]
	}
}
pub struct Electorate;
impl pallet_democracy::GetElectorate<u64> for Electorate {
	fn get_electorate() -> u64 {
		Balances::total_issuance()
	}
}
impl pallet_democracy::Config for Test {
	type BlacklistOrigin = EnsureSignedBy<ABlack, u64>;
	type CancelProposalOrigin = EnsureSignedBy<ACancelProp, u64>;
	type CancellationOrigin = EnsureSignedBy<ACancel, u64>;
	type CooloffPeriod = CooloffPeriod;
	type Electorate = Electorate;
	type EnactmentPeriod = EnactmentPeriod;
	type ExternalDefaultOrigin = EnsureSignedBy<AExtDef, u64>;
	type ExternalMajorityOrigin = EnsureSignedBy<AExtMaj, u64>;
	type ExternalOrigin = EnsureSignedBy<AExt, u64>;
	type FastTrackOrigin = EnsureSignedBy<AFast, u64>;
	type FastTrackVotingPeriod = FastTrackVotingPeriod;
	type Fungible = Balances;
	type InstantAllowed = InstantAllowed;
	type InstantOrigin = EnsureSignedBy<AInstant, u64>;
	type LaunchPeriod = LaunchPeriod;
	type MaxBlacklisted = MaxBlacklisted;
	type MaxDeposits = MaxDeposits;
	type MaxProposals = MaxProposals;
	type MaxVotes = MaxVotes;
	type MinimumDeposit = MinimumDeposit;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Scheduler = Scheduler;
	type Slash = ();
	type SubmitOrigin = EnsureSigned<Self::AccountId>;
	type VetoOrigin = EnsureSignedBy<Vetoers, u64>;
	type VoteLockingPeriod = VoteLockingPeriod;
	type VotingPeriod = VotingPeriod;
	type WeightInfo = ();
}
