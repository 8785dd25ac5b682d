#![allow(dead_code, unused_imports, unused_macros)]
mod runtime;
use frame_support::{assert_ok, traits::{fungible::{Inspect, InspectHold, MutateHold}}};
use pallet_linear_release::VestingInfo;
use polimec_common::ReleaseSchedule;
use runtime::*;
use sp_runtime::{traits::{ConvertInto, Dispatchable}, BuildStorage, DispatchResult};
type O = RuntimeOrigin;
fn s(n: u64) -> O { O::signed(n) }
fn at(n: u64) { System::set_block_number(n) }
fn ext(endow: &[(u64, u128)]) -> sp_io::TestExternalities {
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: endow.to_vec() }.assimilate_storage(&mut t).unwrap();
	let mut e = sp_io::TestExternalities::new(t);
	e.execute_with(|| at(1));
	e
}
fn sch(l: u128, p: u128, n: u64) -> VestingInfo<u128, u64> { VestingInfo::new(l, p, n) }
fn grant(from: u64, to: u64, l: u128, p: u128, n: u64, r: Reason) -> DispatchResult { Linear::vested_transfer(s(from), to, sch(l, p, n), r) }
fn held(n: u64, r: Reason) -> u128 { Balances::balance_on_hold(&r, &n) }
fn free(n: u64) -> u128 { Balances::balance(&n) }
fn list(n: u64, r: Reason) -> Vec<(u128, u128, u64)> {
	Linear::vesting(n, r).map_or(vec![], |v| v.iter().map(|x| (x.locked, x.per_block, x.starting_block)).collect())
}
fn locked(n: u64, r: Reason, at: u64) -> u128 {
	Linear::vesting(n, r).map_or(0, |v| v.iter().map(|x| x.locked_at::<ConvertInto>(at)).sum())
}
