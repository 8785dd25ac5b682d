#![allow(dead_code, unused_imports, unused_macros)]
mod runtime;
use frame_support::{assert_ok, traits::fungible::{Inspect, InspectFreeze, Mutate}};
use on_slash_vesting::OnSlash;
use pallet_vesting::VestingInfo;
use runtime::*;
use sp_runtime::{traits::Dispatchable, BuildStorage};
type O = RuntimeOrigin;
fn s(n: u64) -> O { O::signed(n) }
fn ext(endow: &[(u64, u128)]) -> sp_io::TestExternalities {
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: endow.to_vec() }.assimilate_storage(&mut t).unwrap();
	let mut e = sp_io::TestExternalities::new(t);
	e.execute_with(|| System::set_block_number(1));
	e
}
fn grant(from: u64, to: u64, s: (u128, u128, u64)) {
	assert_ok!(RuntimeCall::Vesting(pallet_vesting::Call::vested_transfer { target: to, schedule: VestingInfo::new(s.0, s.1, s.2) }).dispatch(O::signed(from)));
}
fn slash(w: u64, n: u128) { <Vesting as OnSlash<u64, u128>>::on_slash(&w, n) }
/// what is locked by the schedules at a block
fn locked(w: u64, at: u64) -> u128 {
	Vesting::vesting(w).map_or(0, |v| v.iter().map(|s| s.locked_at::<sp_runtime::traits::ConvertInto>(at)).sum())
}
fn lock(w: u64) -> u128 { Balances::locks(&w).iter().map(|l| l.amount).max().unwrap_or(0) }
