#![allow(dead_code, unused_imports, unused_macros, unexpected_cfgs)]
mod runtime;
use frame_support::{assert_ok, traits::{fungible::{Inspect, InspectHold}, fungibles}};
use pallet_funding::{types::*, Call as C, *};
use pallet_proxy_bonding::Releases;
use polimec_common::migration_types::{MigrationStatus, ParticipationType};
use runtime::*;
use sp_runtime::{traits::{AccountIdConversion, Dispatchable}, BuildStorage, DispatchError, FixedPointNumber, FixedU128, Percent};
use xcm::v4::{Instruction, Junction, Junctions, Location, MaybeErrorCode, PalletInfo, Response, Xcm};
use xcm_executor::traits::{HandleHrmpChannelAccepted, HandleHrmpNewChannelOpenRequest};
use InvestorKind::{I, P, R};
use pallet_funding::ParticipationMode::{Classic, OTM};
const OTM_: ParticipationMode = OTM;
type Meta = ProjectMetadataOf<Rt>;
type Res = Result<(), DispatchError>;
const NOW: i64 = 1_700_000_000;
const USDT: AcceptedFundingAsset = AcceptedFundingAsset::USDT;
const DOT: AcceptedFundingAsset = AcceptedFundingAsset::DOT;
fn at(n: u64) { System::set_block_number(n) }
fn now() -> u64 { System::block_number() }
fn run(f: impl FnOnce() + std::panic::UnwindSafe) { ext().execute_with(f) }
fn ext() -> sp_io::TestExternalities {
	let mut s = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let pot: Acc = FundingPalletId::get().into_account_truncating();
	let mut balances: Vec<(Acc, u128)> = (1..10).map(|n| (acc(n), 100_000 * PLMC)).collect();
	balances.extend([(acc(10), 1_000_000 * PLMC), (acc(11), ED), (acc(12), ED), (acc(13), ED), (pot, ED)]);
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut s).unwrap();
	let mut accounts = vec![];
	for n in 1..9 {
		accounts.push((1984u32, acc(n), 1_000_000_000_000u128));
		accounts.push((1337, acc(n), 1_000_000_000_000));
		accounts.push((10, acc(n), 1_000_000_000_000_000));
	}
	pallet_assets::GenesisConfig::<Rt, pallet_assets::Instance2> {
		assets: [(1984, MIN_ASSET), (1337, MIN_ASSET), (10, DOT_MIN)].into_iter().map(|(i, m)| (i, acc(13), true, m)).collect(),
		metadata: [(1984, 6u8), (1337, 6), (10, 10)].into_iter().map(|(i, d)| (i, b"x".to_vec(), b"x".to_vec(), d)).collect(),
		accounts,
	}
	.assimilate_storage(&mut s)
	.unwrap();
	let mut e = sp_io::TestExternalities::new(s);
	e.execute_with(|| {
		at(1);
		pallet_timestamp::Now::<Rt>::put(NOW as u64 * 1000);
		let p = |n, d| FixedU128::from_rational(n, d);
		for (id, p) in [(polimec_common::PLMC_FOREIGN_ID, p(84, 10)), (1984, p(1, 1)), (1337, p(97, 100)), (10, p(69, 1))] {
			set_price(id, p);
		}
	});
	e
}
fn size(a: u128, b: Option<u128>) -> TicketSize { TicketSize::new(a * USD, b.map(|x| x * USD)) }
/// 5000 tokens from 10 USD, half of them in the auction
fn meta() -> Meta {
	ProjectMetadata {
		token_information: CurrencyMetadata { name: b"A".to_vec().try_into().unwrap(), symbol: b"S".to_vec().try_into().unwrap(), decimals: 6 },
		mainnet_token_max_supply: 100_000 * CT,
		total_allocation_size: 5000 * CT,
		auction_round_allocation_percentage: Percent::from_percent(50),
		minimum_price: FixedU128::from_u32(10),
		bidding_ticket_sizes: BiddingTicketSizes { professional: size(5000, Some(30_000)), institutional: size(5000, None), phantom: Default::default() },
		contributing_ticket_sizes: ContributingTicketSizes {
			retail: size(100, Some(8000)), professional: size(100, None), institutional: size(100, None), phantom: Default::default(),
		},
		participation_currencies: vec![USDT, DOT].try_into().unwrap(),
		funding_destination_account: acc(9),
		policy_ipfs_cid: Some(cid(1)),
	}
}
fn cred(n: u8, kind: InvestorKind) -> Cred { Cred { sub: n, did: n, kind, policy: 1, exp: Some(4_000_000_000), genuine: true } }
fn jwt(n: u8, kind: InvestorKind) -> jwt_compact::UntrustedToken { token(&cred(n, kind)) }
fn call(by: u8, c: C<Rt>) -> Res { RuntimeCall::Funding(c).dispatch(RuntimeOrigin::signed(acc(by))).map(|_| ()).map_err(|e| e.error) }
fn create(m: Meta) -> Res { call(1, C::create_project { jwt: jwt(1, I), project: m }) }
fn edit(m: Meta) -> Res { call(1, C::edit_project { jwt: jwt(1, I), project_id: 0, new_project_metadata: m }) }
fn start_evaluation() -> Res { call(1, C::start_evaluation { jwt: jwt(1, I), project_id: 0 }) }
fn evaluate(n: u8, usd: u128) -> Res { call(n, C::evaluate { jwt: jwt(n, I), project_id: 0, usd_amount: usd * USD }) }
fn end_evaluation() -> Res { call(8, C::end_evaluation { project_id: 0 }) }
fn bid(n: u8, kind: InvestorKind, ct: u128, mode: ParticipationMode, funding_asset: AcceptedFundingAsset) -> Res {
	call(n, C::bid { jwt: jwt(n, kind), project_id: 0, ct_amount: ct * CT, mode, funding_asset })
}
fn end_auction() -> Res { call(8, C::end_auction { project_id: 0 }) }
fn contribute(n: u8, kind: InvestorKind, ct: u128, mode: ParticipationMode, funding_asset: AcceptedFundingAsset) -> Res {
	call(n, C::contribute { jwt: jwt(n, kind), project_id: 0, ct_amount: ct * CT, mode, funding_asset })
}
fn end_funding() -> Res { call(8, C::end_funding { project_id: 0 }) }
fn start_settlement() -> Res { call(8, C::start_settlement { project_id: 0 }) }
fn settle_evaluation(n: u8, evaluation_id: u32) -> Res { call(8, C::settle_evaluation { project_id: 0, evaluator: acc(n), evaluation_id }) }
fn settle_bid(n: u8, bid_id: u32) -> Res { call(8, C::settle_bid { project_id: 0, bidder: acc(n), bid_id }) }
fn settle_contribution(n: u8, contribution_id: u32) -> Res { call(8, C::settle_contribution { project_id: 0, contributor: acc(n), contribution_id }) }
fn mark() -> Res { call(8, C::mark_project_as_settled { project_id: 0 }) }
fn details() -> ProjectDetailsOf<Rt> { ProjectsDetails::<Rt>::get(0).expect("a project") }
fn held(n: u8, r: HoldReason) -> u128 { Balances::balance_on_hold(&r.into(), &acc(n)) }
fn plmc(n: u8) -> u128 { Balances::balance(&acc(n)) + Balances::total_balance_on_hold(&acc(n)) }
fn usdt(a: &Acc) -> u128 { <ForeignAssets as fungibles::Inspect<Acc>>::balance(1984, a) }
fn tokens(n: u8) -> u128 { <ContributionTokens as fungibles::Inspect<Acc>>::balance(0, &acc(n)) }
/// a project in the auction round, evaluated by account 2 with 5000 USD
fn auction() {
	assert_ok!(create(meta()));
	assert_ok!(start_evaluation());
	assert_ok!(evaluate(2, 5000));
	at(now() + EVAL);
	assert_ok!(end_evaluation());
}
fn to_community() { at(now() + AUCTION); assert_ok!(end_auction()); }
/// after the last round
fn finish() { at(now() + COMMUNITY + REMAINDER); assert_ok!(end_funding()); assert_ok!(start_settlement()); }
fn settle_all() {
	for ((_, a, id), _) in Evaluations::<Rt>::iter().map(|x| (x.0, ())).collect::<Vec<_>>() { assert_ok!(call(8, C::settle_evaluation { project_id: 0, evaluator: a, evaluation_id: id })); }
	for ((_, a, id), _) in Bids::<Rt>::iter().map(|x| (x.0, ())).collect::<Vec<_>>() { assert_ok!(call(8, C::settle_bid { project_id: 0, bidder: a, bid_id: id })); }
	for ((_, a, id), _) in Contributions::<Rt>::iter().map(|x| (x.0, ())).collect::<Vec<_>>() { assert_ok!(call(8, C::settle_contribution { project_id: 0, contributor: a, contribution_id: id })); }
}
