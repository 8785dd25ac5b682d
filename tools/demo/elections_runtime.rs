//! A runtime around the real elections pallet with the real balances pallet.
use frame_support::{
	derive_impl,
	storage::unhashed,
	traits::{
		fungible::{Credit, Inspect},
		tokens::imbalance::{Imbalance, OnUnbalanced},
		ChangeMembers, ConstU32, ConstU64, Get, InitializeMembers,
	},
};
use sp_runtime::traits::IdentityLookup;
use std::sync::atomic::{AtomicU64, Ordering};

/// A configuration value of a scenario (process wide, fixed while a scenario runs).
macro_rules! params {
	($($name:ident : $ty:ty = $def:expr;)*) => { $(
		pub struct $name;
		impl $name {
			fn cell() -> &'static AtomicU64 {
				static C: AtomicU64 = AtomicU64::new($def);
				&C
			}
			pub fn set(v: $ty) { Self::cell().store(v as u64, Ordering::Relaxed) }
			pub fn val() -> $ty { Self::cell().load(Ordering::Relaxed) as $ty }
		}
		impl Get<$ty> for $name { fn get() -> $ty { Self::val() } }
	)* };
}
params! {
	DesiredMembers: u32 = 2;
	DesiredRunnersUp: u32 = 1;
	TermDuration: u64 = 3;
	VotingLockPeriod: u64 = 2;
	MaxCandidates: u32 = 10;
	MaxVoters: u32 = 10;
	MaxVotesPerVoter: u32 = 4;
	// how much of the currency makes one vote
	PerVote: u64 = 1;
}

/// The bond can change while candidacies are open (a runtime upgrade): it lives in the state.
pub struct CandidacyBond;
const BOND: &[u8] = b"probe:bond";
impl Get<u64> for CandidacyBond {
	fn get() -> u64 {
		unhashed::get(BOND).unwrap_or(3)
	}
}
impl CandidacyBond {
	pub fn put(v: u64) {
		unhashed::put(BOND, &v)
	}
}

pub type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Elections: pallet_elections_phragmen,
	}
);
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u64>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u64;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU64<1>;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = ConstU32<10>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

/// What the body that receives the membership has been told.
pub struct Body;
const MEMBERS: &[u8] = b"probe:members";
const PRIME: &[u8] = b"probe:prime";
const WRONG: &[u8] = b"probe:wrong";
impl Body {
	pub fn members() -> Vec<u64> {
		unhashed::get(MEMBERS).unwrap_or_default()
	}
	pub fn prime() -> Option<u64> {
		unhashed::get(PRIME)
	}
	pub fn wrong() -> Option<String> {
		unhashed::get(WRONG)
	}
	fn complain(s: String) {
		if Self::wrong().is_none() {
			unhashed::put(WRONG, &s)
		}
	}
}
fn strictly_sorted(v: &[u64]) -> bool {
	v.windows(2).all(|w| w[0] < w[1])
}
impl ChangeMembers<u64> for Body {
	fn change_members_sorted(incoming: &[u64], outgoing: &[u64], new: &[u64]) {
		let old = Self::members();
		let what = || format!("told incoming {incoming:?}, outgoing {outgoing:?}, new {new:?}, while the members were {old:?}");
		if !strictly_sorted(incoming) || !strictly_sorted(outgoing) || !strictly_sorted(new) {
			Self::complain(format!("a list is not sorted: {}", what()));
		}
		let inc: Vec<u64> = new.iter().copied().filter(|x| !old.contains(x)).collect();
		let out: Vec<u64> = old.iter().copied().filter(|x| !new.contains(x)).collect();
		if inc != incoming || out != outgoing {
			Self::complain(format!("the lists do not describe the change: {}", what()));
		}
		unhashed::put(MEMBERS, &new.to_vec());
		unhashed::kill(PRIME);
	}
	fn set_prime(who: Option<u64>) {
		match who {
			Some(w) => unhashed::put(PRIME, &w),
			None => unhashed::kill(PRIME),
		}
	}
	fn get_prime() -> Option<u64> {
		Self::prime()
	}
}
impl InitializeMembers<u64> for Body {
	fn initialize_members(m: &[u64]) {
		unhashed::put(MEMBERS, &m.to_vec());
	}
}

/// Receives slashed bonds; burns them and counts.
pub struct Pot;
const POT: &[u8] = b"probe:pot";
impl Pot {
	pub fn total() -> u64 {
		unhashed::get(POT).unwrap_or(0)
	}
}
impl OnUnbalanced<Credit<u64, Balances>> for Pot {
	fn on_nonzero_unbalanced(amount: Credit<u64, Balances>) {
		unhashed::put(POT, &(Self::total() + amount.peek()));
	}
}

/// Scales stakes like the runtime does when the issuance does not fit 64 bits.
pub struct Votes;
impl sp_staking::currency_to_vote::CurrencyToVote<u64> for Votes {
	fn to_vote(value: u64, _: u64) -> u64 {
		value / PerVote::val()
	}
	fn to_currency(value: u128, _: u64) -> u64 {
		(value as u64).saturating_mul(PerVote::val())
	}
}

impl pallet_elections_phragmen::Config for Test {
	type Balance = u64;
	type CandidacyBond = CandidacyBond;
	type ChangeMembers = Body;
	type Currency = Balances;
	type CurrencyToVote = Votes;
	type DesiredMembers = DesiredMembers;
	type DesiredRunnersUp = DesiredRunnersUp;
	type InitializeMembers = Body;
	type LoserCandidate = Pot;
	type MaxCandidates = MaxCandidates;
	type MaxVoters = MaxVoters;
	type MaxVotesPerVoter = MaxVotesPerVoter;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type TermDuration = TermDuration;
	type VotingLockPeriod = VotingLockPeriod;
	type WeightInfo = ();
}

pub fn ed() -> u64 {
	Balances::minimum_balance()
}
