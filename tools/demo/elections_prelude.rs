#![allow(dead_code, unused_imports, unused_macros)]
mod runtime;
use frame_support::{assert_noop, assert_ok, traits::{fungible::{Inspect, InspectFreeze, InspectHold, Mutate}, OnInitialize}};
use pallet_elections_phragmen::Renouncing;
use runtime::*;
use sp_runtime::BuildStorage;
type O = RuntimeOrigin;
fn s(n: u64) -> O { O::signed(n) }
fn ext(endow: &[(u64, u64)]) -> sp_io::TestExternalities {
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: endow.to_vec() }.assimilate_storage(&mut t).unwrap();
	let mut e = sp_io::TestExternalities::new(t);
	e.execute_with(|| System::set_block_number(1));
	e
}
fn next() {
	let n = System::block_number() + 1;
	System::set_block_number(n);
	Elections::on_initialize(n);
}
fn to(n: u64) { while System::block_number() < n { next() } }
fn run(w: u64) { Elections::submit_candidacy(s(w), Elections::candidates().len() as u32).unwrap(); }
fn vote(w: u64, v: &[u64], b: u64) { Elections::vote(s(w), v.to_vec(), b).unwrap(); }
fn members() -> Vec<u64> { Elections::members().iter().map(|m| m.who).collect() }
fn runners() -> Vec<u64> { Elections::runners_up().iter().map(|m| m.who).collect() }
fn frozen(w: u64) -> u64 { Balances::balance_frozen(&pallet_elections_phragmen::FreezeReason::Voting.into(), &w) }
