#![allow(dead_code, unused_imports, unused_macros)]
mod runtime;
use frame_support::{
	assert_ok,
	traits::{
		fungible::{Inspect, InspectHold},
		EstimateNextSessionRotation, OnFinalize, OnInitialize,
	},
};
use pallet_authorship::EventHandler;
use pallet_parachain_staking as ps;
use pallet_session::{SessionManager, ShouldEndSession};
use ps::HoldReason::{StakingCollator, StakingDelegator};
use runtime::*;
use sp_runtime::{BuildStorage, DispatchResult, Perbill, Percent};
type O = RuntimeOrigin;
const LEN: u32 = 3;
fn s(n: u64) -> O { O::signed(n) }
fn pct(n: u8) -> Percent { Percent::from_percent(n) }
fn range(x: u32) -> ps::Range<Perbill> { ps::Range { min: Perbill::from_parts(x), ideal: Perbill::from_parts(x), max: Perbill::from_parts(x) } }
/// Accounts 1 to 5 (candidates) and 11 to 16 (delegators) have 100 each; every round gives `reward` to the stakers.
fn ext(candidates: &[(u64, u128)], delegations: &[(u64, u64, u128, u8)], reward: u128) -> sp_io::TestExternalities {
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(u64, u128)> = (1..6).chain(11..17).map(|n| (n, 100)).collect();
	balances.push((PAYER, 1_000_000 - 1100));
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
	let e = ps::Range { min: 0, ideal: 0, max: u128::MAX };
	ps::GenesisConfig::<Test> {
		inflation_config: ps::InflationInfo { expect: e, annual: range(0), round: range(reward as u32 * 1000) },
		candidates: candidates.to_vec(),
		delegations: delegations.iter().map(|d| (d.0, d.1, d.2, pct(d.3))).collect(),
		collator_commission: Perbill::from_percent(20),
		parachain_bond_reserve_percent: pct(0),
		blocks_per_round: LEN,
		num_selected_candidates: 2,
	}
	.assimilate_storage(&mut t)
	.unwrap();
	let mut e = sp_io::TestExternalities::new(t);
	e.execute_with(block);
	e
}
fn block() {
	let n = System::block_number() + 1;
	System::set_block_number(n);
	Staking::on_initialize(n);
}
/// to the first block of the next round, `n` times
fn rounds(n: u32) {
	let end = Staking::round().current + n;
	while Staking::round().current < end { block() }
}
fn author(a: u64) { <Staking as EventHandler<u64, u64>>::note_author(a) }
fn delegate(d: u64, c: u64, amount: u128) -> bool { Staking::delegate(s(d), c, amount, 99, 99).is_ok() }
fn held_c(a: u64) -> u128 { Balances::balance_on_hold(&StakingCollator.into(), &a) }
fn held_d(a: u64) -> u128 { Balances::balance_on_hold(&StakingDelegator.into(), &a) }
fn free(a: u64) -> u128 { Balances::balance(&a) }
fn list(d: Option<ps::Delegations<u64, u128>>) -> (Vec<(u64, u128)>, u128) {
	let d = d.unwrap();
	(d.delegations.iter().map(|b| (b.owner, b.amount)).collect(), d.total)
}
fn top(c: u64) -> (Vec<(u64, u128)>, u128) { list(Staking::top_delegations(c)) }
fn bottom(c: u64) -> (Vec<(u64, u128)>, u128) { list(Staking::bottom_delegations(c)) }
fn counted(c: u64) -> u128 { Staking::candidate_info(c).unwrap().total_counted }
fn pool() -> Vec<(u64, u128)> { Staking::candidate_pool().0.iter().map(|b| (b.owner, b.amount)).collect() }
