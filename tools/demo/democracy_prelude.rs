#![allow(dead_code, unused_imports, unused_macros)]
mod runtime;
use frame_support::{assert_noop, assert_ok, traits::{fungible::{Inspect, InspectFreeze, InspectHold, Mutate}, Bounded, OnInitialize, QueryPreimage, StorePreimage}};
use pallet_democracy::{AccountVote, Conviction, MetadataOwner, Vote, VoteThreshold, ReferendumInfo, Tally};
use runtime::*;
use sp_runtime::BuildStorage;
type O = RuntimeOrigin;
fn s(n: u64) -> O { O::signed(n) }
fn ext(endow: &[(u64, u64)]) -> sp_io::TestExternalities {
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: endow.to_vec() }.assimilate_storage(&mut t).unwrap();
	pallet_democracy::GenesisConfig::<Test>::default().assimilate_storage(&mut t).unwrap();
	let mut e = sp_io::TestExternalities::new(t);
	e.execute_with(|| System::set_block_number(1));
	e
}
fn next() {
	let n = System::block_number() + 1;
	System::set_block_number(n);
	Scheduler::on_initialize(n);
	Democracy::on_initialize(n);
}
fn to(n: u64) { while System::block_number() < n { next() } }
fn prop(id: u8) -> pallet_democracy::BoundedCallOf<Test> {
	<Preimage as StorePreimage>::bound(RuntimeCall::Probe(probe::Call::hit { id, pad: vec![] })).unwrap()
}
fn aye(c: Conviction, b: u64) -> AccountVote<u64> { AccountVote::Standard { vote: Vote { aye: true, conviction: c }, balance: b } }
fn nay(c: Conviction, b: u64) -> AccountVote<u64> { AccountVote::Standard { vote: Vote { aye: false, conviction: c }, balance: b } }
fn start(id: u8, delay: u64) -> u32 { Democracy::internal_start_referendum(prop(id), VoteThreshold::SimpleMajority, delay) }
fn tally(r: u32) -> Tally<u64> {
	match Democracy::referendum_info(r) { Some(ReferendumInfo::Ongoing(s)) => s.tally, x => panic!("not ongoing: {x:?}") }
}
fn frozen(w: u64) -> u64 { Balances::balance_frozen(&pallet_democracy::FreezeReason::Vote.into(), &w) }
fn held(w: u64) -> u64 { Balances::balance_on_hold(&pallet_democracy::HoldReason::Proposal.into(), &w) }
fn hits() -> Vec<(u8, u64)> { probe::Hits::<Test>::get().into_inner() }
