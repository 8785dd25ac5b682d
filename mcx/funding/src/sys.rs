//! The real pallets driven by `Op`s, compared with the model after every call.
use crate::{apply::*, model::*, runtime::*};
use engine::{Cx, Harness, Ignore};
use frame_support::{
	storage::{with_transaction, TransactionOutcome},
	traits::fungibles,
	BoundedVec,
};
use pallet_funding::{
	types::*, ActiveMigrationQueue, AuctionBoughtUSD, BidCounts, Bids, Buckets, ContributionBoughtUSD, Contributions,
	DidWithActiveProjects, DidWithWinningBids, EvaluationCounts, Evaluations, HoldReason, NextBidId,
	NextContributionId, NextEvaluationId, NextProjectId, ProjectMetadataOf, ProjectsDetails, ProjectsMetadata,
	UnmigratedCounter, UserMigrations,
};
use pallet_proxy_bonding::{ReleaseType, Releases};
use parity_scale_codec::{Decode, Encode};
use polimec_common::migration_types::{Migration, MigrationStatus, Migrations, ParticipationType};
use sp_runtime::{
	traits::{AccountIdConversion, Dispatchable},
	BuildStorage, DispatchError, FixedU128, Percent,
};
use std::collections::{BTreeMap, BTreeSet};
use xcm::v4::{
	Asset, AssetFilter, Assets, Fungibility, Instruction, Junction, Junctions, Location, MaybeErrorCode, PalletInfo,
	Response, Xcm,
};
use xcm_executor::traits::{HandleHrmpChannelAccepted, HandleHrmpNewChannelOpenRequest};
use Who::*;

pub type Meta = ProjectMetadataOf<Rt>;

/// price per whole token, in FixedU128 with the decimals of tokens and USD both 6
pub fn price(n: u128, d: u128) -> u128 {
	FixedU128::from_rational(n, d).into_inner()
}
const POLICY: u8 = 1;

pub fn terms() -> Vec<Terms> {
	let base = Terms {
		policy: Some(POLICY),
		total: 5000 * CT,
		auction: 2500 * CT,
		price: price(10, 1),
		bid: [(5000 * USD, Some(30_000 * USD)), (5000 * USD, None)],
		con: [(100 * USD, Some(8000 * USD)), (100 * USD, None), (100 * USD, None)],
		assets: vec![0, 2],
		dest: 9,
		valid: true,
	};
	vec![
		base.clone(),
		Terms { policy: None, ..base.clone() },
		Terms { valid: false, ..base.clone() },
		Terms {
			price: price(15, 2),
			total: 4000 * CT,
			auction: 4000 * CT,
			assets: vec![0, 1, 2],
			bid: [(5000 * USD, Some(20_000 * USD)), (5000 * USD, Some(40_000 * USD))],
			..base.clone()
		},
		Terms {
			con: [(USD, Some(8000 * USD)), (USD, Some(20_000 * USD)), (USD, Some(12_000 * USD))],
			assets: vec![2, 1, 0],
			..base.clone()
		},
		// one thing that is different from the first
		Terms { auction: 5000 * CT, ..base.clone() },
		Terms { price: price(12, 1), ..base.clone() },
		Terms { total: 10_000 * CT, ..base.clone() },
		Terms { dest: 8, ..base.clone() },
		// large enough for a crowd
		Terms { total: 50_000 * CT, auction: 25_000 * CT, assets: vec![0, 1, 2], ..base },
	]
}
fn size(t: (u128, Option<u128>)) -> TicketSize {
	TicketSize::new(t.0, t.1)
}
pub fn real_meta(i: usize, t: &Terms) -> Meta {
	ProjectMetadata {
		token_information: CurrencyMetadata {
			name: vec![b'A', i as u8].try_into().unwrap(),
			symbol: vec![b'S'].try_into().unwrap(),
			decimals: 6,
		},
		mainnet_token_max_supply: 100_000 * CT,
		total_allocation_size: t.total,
		auction_round_allocation_percentage: if t.valid {
			Percent::from_rational(t.auction, t.total)
		} else {
			Percent::from_percent(0)
		},
		minimum_price: FixedU128::from_inner(t.price),
		bidding_ticket_sizes: BiddingTicketSizes {
			professional: size(t.bid[0]),
			institutional: size(t.bid[1]),
			phantom: Default::default(),
		},
		contributing_ticket_sizes: ContributingTicketSizes {
			retail: size(t.con[0]),
			professional: size(t.con[1]),
			institutional: size(t.con[2]),
			phantom: Default::default(),
		},
		participation_currencies: t
			.assets
			.iter()
			.map(|a| ASSETS[*a as usize])
			.collect::<Vec<_>>()
			.try_into()
			.unwrap(),
		funding_destination_account: acc(t.dest),
		policy_ipfs_cid: t.policy.map(cid),
	}
}

/// What calls to offer.
#[derive(Clone, Default)]
pub struct Cfg {
	pub ops: Vec<Op>,
	pub next: Vec<u64>,
	pub max_now: u64,
	/// settle every open participation
	pub settle: bool,
	/// confirm every participant, by these callers
	pub confirm: Vec<u8>,
	/// send for every participant
	pub send: bool,
	/// to every query that is open
	pub respond: Vec<Resp>,
	pub forge: Vec<(Resp, Forger, bool)>,
	/// offer only operations that the model accepts (besides the calls that settle and respond)
	pub focus: bool,
	/// the most participations, if not few
	pub most: Option<Most>,
	/// of the participations that are open, offer only these to be settled
	pub only: Option<[Vec<u32>; 3]>,
}
pub struct Sys {
	pub cfg: Cfg,
	pub terms: Vec<Terms>,
	pub meta: Vec<Meta>,
}
impl Sys {
	pub fn new(cfg: Cfg) -> Self {
		let terms = terms();
		let meta = terms.iter().enumerate().map(|(i, t)| real_meta(i, t)).collect();
		Sys { cfg, terms, meta }
	}
}

// ---------------------------------------------------------------- observation

const USERS: [u8; 13] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
/// an account that no one should know
const ODD: u8 = 255;
fn names(projects: u32) -> BTreeMap<Acc, Who> {
	let mut m: BTreeMap<Acc, Who> = USERS.iter().map(|n| (acc(*n), U(*n))).collect();
	let pot = FundingPalletId::get();
	m.insert(pot.into_account_truncating(), Pallet);
	for pid in 0..projects + 1 {
		m.insert(Funding::fund_account_id(pid), Esc(pid));
		m.insert(ProxyBonding::get_bonding_account(pid), Bond(pid));
	}
	m
}
fn user(a: &Acc) -> u8 {
	let b: &[u8; 32] = a.as_ref();
	if USERS.contains(&b[0]) && b.iter().all(|x| *x == b[0]) {
		b[0]
	} else {
		ODD
	}
}
fn did_no(d: &[u8]) -> u8 {
	(0..20).find(|n| did(*n).as_slice() == d).unwrap_or(ODD)
}
fn asset_no(a: AcceptedFundingAsset) -> u8 {
	ASSETS.iter().position(|x| *x == a).unwrap() as u8
}
fn mode(m: ParticipationMode) -> Mode {
	match m {
		ParticipationMode::OTM => Mode::Otm,
		ParticipationMode::Classic(x) => Mode::Classic(x),
	}
}
fn real_mode(m: Mode) -> ParticipationMode {
	match m {
		Mode::Otm => ParticipationMode::OTM,
		Mode::Classic(x) => ParticipationMode::Classic(x),
	}
}
fn outcome(o: &FundingOutcome) -> bool {
	*o == FundingOutcome::Success
}
fn channel(c: ChannelStatus) -> Ch {
	match c {
		ChannelStatus::Closed => Ch::Closed,
		ChannelStatus::Open => Ch::Open,
		ChannelStatus::AwaitingAcceptance => Ch::Awaiting,
	}
}
fn check(c: CheckOutcome) -> Chk {
	match c {
		CheckOutcome::AwaitingResponse => Chk::Awaiting,
		CheckOutcome::Passed(x) => Chk::Passed(x),
		CheckOutcome::Failed => Chk::Failed,
	}
}
fn chain_of(l: &Location) -> u32 {
	match l.unpack() {
		(1, [Junction::Parachain(p)]) => *p,
		_ => u32::MAX,
	}
}

/// The state of the implementation in the terms of the model, read from the complete storage.
pub fn observe(meta: &[Meta]) -> M {
	let mut m = M { now: System::block_number(), ..Default::default() };
	m.next = (
		NextProjectId::<Rt>::get(),
		NextEvaluationId::<Rt>::get(),
		NextBidId::<Rt>::get(),
		NextContributionId::<Rt>::get(),
		pallet_xcm::QueryCounter::<Rt>::get(),
	);
	let names = names(m.next.0 + 2);
	let who = |a: &Acc| names.get(a).copied().unwrap_or(U(ODD));
	for (a, info) in frame_system::Account::<Rt>::iter() {
		let mut p = Plmc { free: info.data.free, ..Default::default() };
		let mut other = info.data.frozen;
		for h in pallet_balances::Holds::<Rt>::get(&a) {
			match h.id {
				RuntimeHoldReason::Funding(HoldReason::Evaluation) => p.eval += h.amount,
				RuntimeHoldReason::Funding(HoldReason::Participation) => p.part += h.amount,
				#[allow(unreachable_patterns)]
				_ => other += h.amount,
			}
		}
		// on hold without a reason that is known, or frozen
		if p.eval + p.part + other != info.data.reserved + info.data.frozen || other > 0 {
			p.eval = u128::MAX;
		}
		if p != Plmc::default() {
			m.plmc.insert(who(&a), p);
		}
	}
	for (id, a, x) in pallet_assets::Account::<Rt, ForeignInstance>::iter() {
		let i = ASSET_IDS.iter().position(|k| *k == id).unwrap_or(255) as u8;
		if x.balance > 0 {
			m.asset.insert((i, who(&a)), x.balance);
		}
	}
	for (id, a, x) in pallet_assets::Account::<Rt, PlmcAssets>::iter() {
		if x.balance > 0 {
			m.ct.insert((id, who(&a)), x.balance);
		}
	}
	for (pid, d) in ProjectsDetails::<Rt>::iter() {
		let md = ProjectsMetadata::<Rt>::get(pid);
		let b = Buckets::<Rt>::get(pid);
		let e = &d.evaluation_round_info;
		m.projects.insert(
			pid,
			Proj {
				issuer: user(&d.issuer_account),
				did: did_no(&d.issuer_did),
				meta: md.and_then(|x| meta.iter().position(|y| *y == x)).map_or(ODD, |i| i as u8),
				frozen: d.is_frozen,
				wap: d.weighted_average_price.map(|p| p.into_inner()),
				status: match &d.status {
					ProjectStatus::Application => St::Application,
					ProjectStatus::EvaluationRound => St::Evaluation,
					ProjectStatus::AuctionRound => St::Auction,
					ProjectStatus::CommunityRound(b) => St::Community(*b),
					ProjectStatus::FundingFailed => St::Failed,
					ProjectStatus::FundingSuccessful => St::Successful,
					ProjectStatus::SettlementStarted(o) => St::Settling(outcome(o)),
					ProjectStatus::SettlementFinished(o) => St::Settled(outcome(o)),
					ProjectStatus::CTMigrationStarted => St::Migrating,
					ProjectStatus::CTMigrationFinished => St::Migrated,
				},
				round: (d.round_duration.start, d.round_duration.end),
				target: d.fundraising_target_usd,
				remaining: d.remaining_contribution_tokens,
				funded: d.funding_amount_reached_usd,
				bonded_usd: e.total_bonded_usd,
				bonded_plmc: e.total_bonded_plmc,
				outcome: match &e.evaluators_outcome {
					None => None,
					Some(EvaluatorsOutcome::Slashed) => Some(Outcome::Slashed),
					Some(EvaluatorsOutcome::Rewarded(r)) => Some(Outcome::Rewarded {
						early_pot: r.early_evaluator_reward_pot,
						normal_pot: r.normal_evaluator_reward_pot,
						early_usd: r.early_evaluator_total_bonded_usd,
						normal_usd: r.normal_evaluator_total_bonded_usd,
					}),
				},
				end_block: d.funding_end_block,
				migration: d.migration_type.as_ref().map(|t| match t {
					MigrationType::Offchain => Mig::Offchain,
					MigrationType::Pallet(i) => Mig::Pallet {
						para: i.parachain_id.into(),
						to_us: channel(i.hrmp_channel_status.project_to_polimec),
						to_them: channel(i.hrmp_channel_status.polimec_to_project),
						check: i.migration_readiness_check.map(|c| {
							((c.holding_check.0, check(c.holding_check.1)), (c.pallet_check.0, check(c.pallet_check.1)))
						}),
					},
				}),
				bucket: b.map_or((u128::MAX, u128::MAX), |b| (b.amount_left, b.current_price.into_inner())),
			},
		);
	}
	for ((pid, a, id), e) in Evaluations::<Rt>::iter() {
		let same = (e.id, e.project_id, &e.evaluator) == (id, pid, &a);
		m.evals.insert(
			(pid, user(&a), id),
			Eval {
				did: if same { did_no(&e.did) } else { 254 },
				original: e.original_plmc_bond,
				current: e.current_plmc_bond,
				early: e.early_usd_amount,
				late: e.late_usd_amount,
				when: e.when,
			},
		);
	}
	for ((pid, a, id), b) in Bids::<Rt>::iter() {
		let same = (b.id, b.project_id, &b.bidder) == (id, pid, &a);
		m.bids.insert(
			(pid, user(&a), id),
			Bid {
				did: if same { did_no(&b.did) } else { 254 },
				status: match b.status {
					BidStatus::YetUnknown => BidSt::Unknown,
					BidStatus::Accepted => BidSt::Accepted,
					BidStatus::Rejected => BidSt::Rejected,
					BidStatus::PartiallyAccepted(x) => BidSt::Partial(x),
				},
				ct: b.original_ct_amount,
				price: b.original_ct_usd_price.into_inner(),
				asset: asset_no(b.funding_asset),
				funding: b.funding_asset_amount_locked,
				mode: mode(b.mode),
				plmc: b.plmc_bond,
				when: b.when,
			},
		);
	}
	for ((pid, a, id), c) in Contributions::<Rt>::iter() {
		let same = (c.id, c.project_id, &c.contributor) == (id, pid, &a);
		m.contribs.insert(
			(pid, user(&a), id),
			Contrib {
				did: if same { did_no(&c.did) } else { 254 },
				ct: c.ct_amount,
				usd: c.usd_contribution_amount,
				asset: asset_no(c.funding_asset),
				funding: c.funding_asset_amount,
				mode: mode(c.mode),
				plmc: c.plmc_bond,
				when: c.when,
			},
		);
	}
	m.active = DidWithActiveProjects::<Rt>::iter().map(|(d, p)| (did_no(&d), p)).collect();
	m.eval_count = EvaluationCounts::<Rt>::iter().filter(|x| x.1 > 0).collect();
	m.bid_count = BidCounts::<Rt>::iter().filter(|x| x.1 > 0).collect();
	m.auction_usd = AuctionBoughtUSD::<Rt>::iter().filter(|x| x.1 > 0).map(|((p, d), x)| ((p, did_no(&d)), x)).collect();
	m.contrib_usd =
		ContributionBoughtUSD::<Rt>::iter().filter(|x| x.1 > 0).map(|((p, d), x)| ((p, did_no(&d)), x)).collect();
	m.winners = DidWithWinningBids::<Rt>::iter().filter(|x| x.2).map(|(p, d, _)| (p, did_no(&d))).collect();
	for ((pid, a), (st, v)) in UserMigrations::<Rt>::iter() {
		let st = match st {
			MigrationStatus::NotStarted => MSt::NotStarted,
			MigrationStatus::Sent(q) => MSt::Sent(q),
			MigrationStatus::Confirmed => MSt::Confirmed,
			MigrationStatus::Failed => MSt::Failed,
		};
		let v = v
			.iter()
			.map(|r| {
				let kind = match r.origin.participation_type {
					ParticipationType::Evaluation => Kind::Evaluation,
					ParticipationType::Bid => Kind::Bid,
					ParticipationType::Contribution => Kind::Contribution,
				};
				let right = r.origin.user ==
					Location::new(0, Junction::AccountId32 { network: None, id: a.clone().into() });
				(
					kind,
					if right { r.origin.id } else { u32::MAX },
					r.info.contribution_token_amount,
					r.info.vesting_time,
				)
			})
			.collect();
		m.migrations.insert((pid, user(&a)), (st, v));
	}
	m.unmigrated = UnmigratedCounter::<Rt>::iter().filter(|x| x.1 > 0).collect();
	m.queue = ActiveMigrationQueue::<Rt>::iter().map(|(q, (p, a))| (q, (p, user(&a)))).collect();
	for (q, (to, call, timeout)) in pallet_xcm::Queries::<Rt>::iter() {
		let ask = match call.get(..2) {
			_ if timeout <= m.now => Ask::Other,
			Some([52, 23]) => Ask::Readiness,
			Some([52, 25]) => Ask::Migration,
			_ => Ask::Other,
		};
		m.queries.insert(q, (chain_of(&to), ask));
	}
	for (pid, r, t) in Releases::<Rt>::iter() {
		let right = r == RuntimeHoldReason::Funding(HoldReason::Participation);
		m.releases.insert(
			if right { pid } else { u32::MAX },
			match t {
				ReleaseType::Refunded => None,
				ReleaseType::Locked(b) => Some(b),
			},
		);
	}
	for (a, r, v) in pallet_linear_release::Vesting::<Rt>::iter() {
		let right = r == RuntimeHoldReason::Funding(HoldReason::Participation);
		m.schedules.insert(
			if right { user(&a) } else { ODD },
			v.iter().map(|s| (s.locked, s.per_block, s.starting_block)).collect(),
		);
	}
	for (id, ..) in PRICES {
		m.prices.insert(id, <Prices as polimec_common::ProvideAssetPrice>::get_price(id).unwrap().into_inner());
	}
	m.clock = pallet_timestamp::Now::<Rt>::get();
	m.most = Most {
		bids: MaxBids::get(),
		bids_user: MaxBidsUser::get(),
		evals: MaxEvals::get(),
		evals_user: MaxEvalsUser::get(),
		contribs_user: MaxContribsUser::get(),
	};
	m.blocked = pallet_xcm::Blocked::<Rt>::get();
	m
}
fn tidy(m: &mut M) {
	m.plmc.retain(|_, p| *p != Plmc::default());
	m.asset.retain(|_, x| *x > 0);
	m.ct.retain(|_, x| *x > 0);
	m.eval_count.retain(|_, x| *x > 0);
	m.bid_count.retain(|_, x| *x > 0);
	m.auction_usd.retain(|_, x| *x > 0);
	m.contrib_usd.retain(|_, x| *x > 0);
	m.unmigrated.retain(|_, x| *x > 0);
	m.schedules.retain(|_, x| !x.is_empty());
}

// ---------------------------------------------------------------- calls

fn tx<R, E>(f: impl FnOnce() -> Result<R, E>) -> Result<R, E>
where
	E: From<DispatchError>,
{
	with_transaction(|| match f() {
		Ok(r) => TransactionOutcome::Commit(Ok(r)),
		Err(e) => TransactionOutcome::Rollback(Err(e)),
	})
}
fn signed(who: impl Into<Caller>, call: pallet_funding::Call<Rt>) -> Result<(), DispatchError> {
	let origin = match who.into() {
		Caller::Account(a) => RuntimeOrigin::signed(acc(a)),
		Caller::Root => RuntimeOrigin::root(),
		Caller::Nobody => RuntimeOrigin::none(),
	};
	RuntimeCall::Funding(call).dispatch(origin).map(|_| ()).map_err(|e| e.error)
}
struct XcmErr(String);
impl From<DispatchError> for XcmErr {
	fn from(e: DispatchError) -> Self {
		XcmErr(format!("{e:?}"))
	}
}
fn info(index: u32, module: &[u8]) -> PalletInfo {
	PalletInfo::new(index, b"Receiver".to_vec(), module.to_vec(), 1, 0, 0).unwrap()
}
impl Sys {
	/// The response in the format of the message, from the chain of the project.
	fn response(&self, m: &M, q: u64, r: Resp) -> Response {
		let (mut sold, mut para) = (0, 0);
		for (_, p) in &m.projects {
			if let Some(Mig::Pallet { para: c, check: Some((h, k)), .. }) = p.migration {
				if h.0 == q || k.0 == q {
					sold = self.terms.get(p.meta as usize).map_or(0, |t| t.total) - p.remaining;
					para = c;
				}
			}
		}
		let at = |l: Location, n: u128| -> Response {
			let a: Asset = (l, n).into();
			Response::Assets(Assets::from(vec![a]))
		};
		let there = Location::new(1, Junction::Parachain(para));
		let pallets = |v: Vec<PalletInfo>| Response::PalletsInfo(BoundedVec::try_from(v).unwrap());
		match r {
			Resp::Enough(x) => at(there, sold + x),
			Resp::Short => at(there, sold.saturating_sub(1)),
			Resp::NoAssets => Response::Assets(Assets::new()),
			Resp::Elsewhere => at(Location::new(1, Junction::Parachain(para + 1)), sold),
			Resp::Local => at(Location::here(), sold),
			Resp::Pallet(i) => pallets(vec![info(i, b"polimec_receiver")]),
			Resp::OtherPallet => pallets(vec![info(7, b"pallet_balances")]),
			Resp::TwoPallets => pallets(vec![info(7, b"polimec_receiver"), info(8, b"polimec_receiver")]),
			Resp::NoPallet => pallets(vec![]),
			Resp::Done => Response::DispatchResult(MaybeErrorCode::Success),
			Resp::Failed => Response::DispatchResult(MaybeErrorCode::Error(vec![3].try_into().unwrap())),
			Resp::Truncated => Response::DispatchResult(MaybeErrorCode::TruncatedError(vec![3].try_into().unwrap())),
			Resp::Null => Response::Null,
		}
	}
	fn run(&self, m: &M, op: &Op) -> Result<(), String> {
		use pallet_funding::Call as C;
		let d = |r: Result<(), DispatchError>| r.map_err(|e| format!("{e:?}"));
		let jwt = |p: u8| token(&person(p).1);
		let by = |p: u8| person(p).0;
		match *op {
			Op::Next(k) => {
				System::set_block_number(m.now + k);
				Ok(())
			},
			Op::Price(id, p) => {
				set_price(id, FixedU128::from_inner(p));
				Ok(())
			},
			Op::Clock(ms) => {
				pallet_timestamp::Now::<Rt>::put(START as u64 * 1000 + ms);
				Ok(())
			},
			Op::Blocked(b) => {
				pallet_xcm::Blocked::<Rt>::put(b);
				Ok(())
			},
			Op::Create(p, k) =>
				d(signed(by(p), C::create_project { jwt: jwt(p), project: self.meta[k as usize].clone() })),
			Op::Edit(p, project_id, k) => d(signed(
				by(p),
				C::edit_project { jwt: jwt(p), project_id, new_project_metadata: self.meta[k as usize].clone() },
			)),
			Op::Remove(p, project_id) => d(signed(by(p), C::remove_project { jwt: jwt(p), project_id })),
			Op::StartEvaluation(p, project_id) => d(signed(by(p), C::start_evaluation { jwt: jwt(p), project_id })),
			Op::Evaluate(p, project_id, usd_amount) =>
				d(signed(by(p), C::evaluate { jwt: jwt(p), project_id, usd_amount })),
			Op::EndEvaluation(project_id) => d(signed(8, C::end_evaluation { project_id })),
			Op::Bid(p, project_id, ct_amount, mode, a) => d(signed(
				by(p),
				C::bid { jwt: jwt(p), project_id, ct_amount, mode: real_mode(mode), funding_asset: ASSETS[a as usize] },
			)),
			Op::EndAuction(project_id) => d(signed(8, C::end_auction { project_id })),
			Op::Contribute(p, project_id, ct_amount, mode, a) => d(signed(
				by(p),
				C::contribute {
					jwt: jwt(p),
					project_id,
					ct_amount,
					mode: real_mode(mode),
					funding_asset: ASSETS[a as usize],
				},
			)),
			Op::EndFunding(project_id) => d(signed(8, C::end_funding { project_id })),
			Op::StartSettlement(project_id) => d(signed(8, C::start_settlement { project_id })),
			Op::SettleEvaluation(project_id, who, evaluation_id) =>
				d(signed(8, C::settle_evaluation { project_id, evaluator: acc(who), evaluation_id })),
			Op::SettleBid(project_id, who, bid_id) =>
				d(signed(8, C::settle_bid { project_id, bidder: acc(who), bid_id })),
			Op::SettleContribution(project_id, who, contribution_id) =>
				d(signed(8, C::settle_contribution { project_id, contributor: acc(who), contribution_id })),
			Op::MarkSettled(project_id) => d(signed(8, C::mark_project_as_settled { project_id })),
			Op::Bonds(pid) => d(RuntimeCall::ProxyBonding(
				pallet_proxy_bonding::Call::transfer_bonds_back_to_treasury {
					derivation_path: pid,
					hold_reason: HoldReason::Participation.into(),
				},
			)
			.dispatch(RuntimeOrigin::signed(acc(8)))
			.map(|_| ())
			.map_err(|e| e.error)),
			Op::Fees(pid, a) => d(RuntimeCall::ProxyBonding(pallet_proxy_bonding::Call::transfer_fees_to_recipient {
				derivation_path: pid,
				hold_reason: HoldReason::Participation.into(),
				fee_asset: ASSET_IDS[a as usize],
			})
			.dispatch(RuntimeOrigin::signed(acc(8)))
			.map(|_| ())
			.map_err(|e| e.error)),
			Op::Vest(who) => d(RuntimeCall::LinearRelease(pallet_linear_release::Call::vest {
				reason: HoldReason::Participation.into(),
			})
			.dispatch(RuntimeOrigin::signed(acc(who)))
			.map(|_| ())
			.map_err(|e| e.error)),
			Op::StartOffchain(p, project_id) =>
				d(signed(by(p), C::start_offchain_migration { jwt: jwt(p), project_id })),
			Op::Confirm(caller, project_id, who) =>
				d(signed(caller, C::confirm_offchain_migration { project_id, participant: acc(who) })),
			Op::StartPallet(p, project_id, para) =>
				d(signed(by(p), C::start_pallet_migration { jwt: jwt(p), project_id, para_id: para.into() })),
			Op::Open(from, size, capacity) => tx(|| {
				<Funding as HandleHrmpNewChannelOpenRequest>::handle(from, size, capacity)
					.map_err(|e| XcmErr(format!("{e:?}")))
			})
			.map_err(|e| e.0),
			Op::Accepted(from) => tx(|| {
				<Funding as HandleHrmpChannelAccepted>::handle(from).map_err(|e| XcmErr(format!("{e:?}")))
			})
			.map_err(|e| e.0),
			Op::Readiness(p, project_id) =>
				d(signed(by(p), C::start_pallet_migration_readiness_check { jwt: jwt(p), project_id })),
			Op::Respond(q, r) => {
				let Some((from, call, _)) = pallet_xcm::Queries::<Rt>::take(q) else { return Err("no such query".into()) };
				// as the real pallet-xcm does: the call that was registered, with the response in it
				let bytes = (call[0], call[1], q, self.response(m, q, r)).encode();
				let call = RuntimeCall::decode(&mut &bytes[..]).expect("a call");
				d(call
					.dispatch(pallet_xcm::Origin::Response(from).into())
					.map(|_| ())
					.map_err(|e| e.error))
			},
			Op::Forge(q, r, forger, readiness) => {
				let response = self.response(m, q, r);
				let call = RuntimeCall::Funding(if readiness {
					C::pallet_migration_readiness_response { query_id: q, response }
				} else {
					C::confirm_pallet_migrations { query_id: q, response }
				});
				let origin: RuntimeOrigin = match forger {
					Forger::Signed => RuntimeOrigin::signed(acc(1)),
					Forger::Root => RuntimeOrigin::root(),
					Forger::OtherChain =>
						pallet_xcm::Origin::Response(Location::new(1, Junction::Parachain(9999))).into(),
					Forger::Relay => pallet_xcm::Origin::Response(Location::parent()).into(),
				};
				d(call.dispatch(origin).map(|_| ()).map_err(|e| e.error))
			},
			Op::Send(project_id, who) => d(signed(8, C::send_pallet_migration_for { project_id, participant: acc(who) })),
			Op::Finish(project_id) => d(signed(8, C::mark_project_ct_migration_as_finished { project_id })),
		}
	}
	/// Does the message say what it must?
	fn message(&self, m: &M, want: &Msg, to: &Location, bytes: &[u8]) -> Result<(), String> {
		let x = Xcm::<()>::decode(&mut &bytes[..]).map_err(|_| "does not decode".to_string())?;
		let us = Location::new(1, Junction::Parachain(3344));
		let there = |p: u32| Location::new(1, Junction::Parachain(p));
		let transacts: Vec<&Vec<u8>> = x
			.0
			.iter()
			.filter_map(|i| match i {
				Instruction::Transact { call, .. } => Some(&call.0),
				_ => None,
			})
			.collect();
		let err = |s: &str| Err(format!("{s}: {want:?}, sent to {to:?}: {x:?}"));
		match want {
			Msg::Channel(p) => {
				if *to != Location::parent() {
					return err("not sent to the relay chain");
				}
				let accept = [vec![60, 1], p.encode()].concat();
				let request = [vec![60, 0], p.encode(), 8u32.encode(), 102_400u32.encode()].concat();
				if transacts.len() != 2 || !transacts.contains(&&accept) || !transacts.contains(&&request) {
					return err("does not accept the channel and ask for one back");
				}
			},
			Msg::Check(p, q1, q2, tokens) => {
				if *to != there(*p) {
					return err("not sent to the chain of the project");
				}
				let (mut withdrawn, mut holding, mut pallet, mut back) = (None, None, None, None);
				for i in &x.0 {
					match i {
						Instruction::WithdrawAsset(a) => withdrawn = Some(a.clone().into_inner()),
						Instruction::ReportHolding { response_info: r, .. } if r.destination == us =>
							holding = Some((r.query_id, withdrawn.is_some() && back.is_none())),
						Instruction::QueryPallet { module_name, response_info: r }
							if module_name == b"polimec_receiver" && r.destination == us =>
							pallet = Some(r.query_id),
						Instruction::DepositAsset { beneficiary, assets: AssetFilter::Wild(_) } =>
							back = Some(beneficiary.clone()),
						_ => {},
					}
				}
				match withdrawn.as_deref() {
					Some([a])
						if a.fun == Fungibility::Fungible(*tokens) && a.id.0 == Location::new(0, Junctions::Here) => {},
					_ => return err("does not show the tokens that were issued"),
				}
				if holding != Some((*q1, true)) || pallet != Some(*q2) {
					return err("does not ask for a response to the queries that are open");
				}
				if back != Some(us) {
					return err("does not give the tokens back");
				}
			},
			Msg::Migrate(p, q, index, who, pid) => {
				if *to != there(*p) {
					return err("not sent to the chain of the project");
				}
				let v = &m.migrations[&(*pid, *who)].1;
				let ms: Vec<Migration> = v
					.iter()
					.map(|(k, id, ct, time)| Migration {
						origin: polimec_common::migration_types::MigrationOrigin {
							user: Location::new(0, Junction::AccountId32 { network: None, id: acc(*who).into() }),
							id: *id,
							participation_type: match k {
								Kind::Evaluation => ParticipationType::Evaluation,
								Kind::Bid => ParticipationType::Bid,
								Kind::Contribution => ParticipationType::Contribution,
							},
						},
						info: (*ct, *time).into(),
					})
					.collect();
				let call = [vec![*index, 0], Migrations::from(ms).encode()].concat();
				if transacts.len() != 1 || *transacts[0] != call {
					return err("does not migrate what the participant has");
				}
				let asks = x.0.iter().any(
					|i| matches!(i, Instruction::ReportTransactStatus(r) if r.query_id == *q && r.destination == us),
				);
				if !asks {
					return err("does not ask for a response to the query that is open");
				}
			},
		}
		Ok(())
	}

	/// The properties that are about this call.
	fn own(&self, m: &M, op: &Op) -> Vec<&'static str> {
		let otm_bid = |k: &(u32, u8, u32)| m.bids.get(k).map_or(false, |b| b.mode == Mode::Otm);
		let otm_con = |k: &(u32, u8, u32)| m.contribs.get(k).map_or(false, |b| b.mode == Mode::Otm);
		let settle = |pid: u32, otm: bool| {
			let failed = m.projects.get(&pid).map_or(false, |p| p.status == St::Settling(false));
			let mut v = vec![if failed { "F10" } else { "F09" }];
			if otm {
				v.push("F12")
			}
			v
		};
		match *op {
			Op::Next(_) | Op::Price(..) | Op::Blocked(_) | Op::Clock(_) => vec![],
			Op::Create(..) | Op::Edit(..) | Op::Remove(..) => vec!["F02"],
			Op::StartEvaluation(..) => vec!["F01", "F02"],
			Op::Evaluate(..) => vec!["F03"],
			Op::EndEvaluation(..) => vec!["F01", "F03"],
			Op::Bid(_, _, _, Mode::Otm, _) => vec!["F04", "F12"],
			Op::Bid(..) => vec!["F04"],
			Op::EndAuction(..) => vec!["F05"],
			Op::Contribute(_, _, _, Mode::Otm, _) => vec!["F06", "F12"],
			Op::Contribute(..) => vec!["F06"],
			Op::EndFunding(..) => vec!["F01", "F11"],
			Op::StartSettlement(..) => vec!["F01", "F11", "F12"],
			Op::SettleEvaluation(pid, ..) => {
				let mut v = settle(pid, false);
				v.push("F11");
				v
			},
			Op::SettleBid(a, b, c) => {
				let mut v = settle(a, otm_bid(&(a, b, c)));
				if m.bids.get(&(a, b, c)).map_or(false, |b| b.status == BidSt::Rejected) {
					v.push("F10");
				}
				v
			},
			Op::SettleContribution(a, b, c) => settle(a, otm_con(&(a, b, c))),
			Op::MarkSettled(..) => vec!["F01"],
			Op::Bonds(..) | Op::Fees(..) => vec!["F12"],
			Op::Vest(..) => vec!["F09"],
			Op::StartOffchain(..) | Op::Confirm(..) => vec!["F13"],
			Op::StartPallet(..) |
			Op::Open(..) |
			Op::Accepted(..) |
			Op::Readiness(..) |
			Op::Respond(..) |
			Op::Forge(..) |
			Op::Send(..) => vec!["F14"],
			Op::Finish(..) => vec!["F01", "F13", "F14"],
		}
	}
}

type Diff = (&'static [&'static str], String);
fn differ<K: Ord + Clone + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(
	out: &mut Vec<Diff>,
	props: &'static [&'static str],
	what: &str,
	real: &BTreeMap<K, V>,
	want: &BTreeMap<K, V>,
) {
	let keys: BTreeSet<&K> = real.keys().chain(want.keys()).collect();
	for k in keys {
		let (a, b) = (real.get(k), want.get(k));
		if a != b {
			out.push((props, format!("{what} {k:?}: is {a:?}, must be {b:?}")));
		}
	}
}
fn differences(real: &M, want: &M) -> Vec<Diff> {
	let mut d: Vec<Diff> = vec![];
	macro_rules! one {
		($props:expr, $what:expr, $a:expr, $b:expr) => {
			if $a != $b {
				d.push(($props, format!("{} is {:?}, must be {:?}", $what, $a, $b)));
			}
		};
	}
	let keys: BTreeSet<u32> = real.projects.keys().chain(want.projects.keys()).copied().collect();
	for k in keys {
		match (real.projects.get(&k), want.projects.get(&k)) {
			(Some(a), Some(b)) => {
				one!(&["F01"], format!("status of project {k}"), a.status, b.status);
				one!(&["F01"], format!("round of project {k}"), a.round, b.round);
				one!(&["F11"], format!("evaluators' outcome of project {k}"), a.outcome, b.outcome);
				one!(&["F13"], format!("migration of project {k}"), a.migration, b.migration);
				one!(&["F04"], format!("bucket of project {k}"), a.bucket, b.bucket);
				let mut a2 = a.clone();
				a2.status = b.status;
				a2.round = b.round;
				a2.outcome = b.outcome;
				a2.migration = b.migration;
				a2.bucket = b.bucket;
				one!(&[], format!("project {k}"), &a2, b);
			},
			(a, b) => one!(&["F02"], format!("project {k}"), a.is_some(), b.is_some()),
		}
	}
	differ(&mut d, &["F08"], "PLMC of", &real.plmc, &want.plmc);
	differ(&mut d, &["F08"], "funding asset of", &real.asset, &want.asset);
	differ(&mut d, &["F08"], "tokens of", &real.ct, &want.ct);
	differ(&mut d, &["F02"], "active project of DID", &real.active, &want.active);
	differ(&mut d, &["F07"], "evaluations of project", &real.eval_count, &want.eval_count);
	differ(&mut d, &["F07"], "bids of project", &real.bid_count, &want.bid_count);
	differ(&mut d, &["F07"], "bought in the auction by", &real.auction_usd, &want.auction_usd);
	differ(&mut d, &["F07"], "contributed by", &real.contrib_usd, &want.contrib_usd);
	differ(&mut d, &[], "evaluation", &real.evals, &want.evals);
	differ(&mut d, &[], "bid", &real.bids, &want.bids);
	differ(&mut d, &[], "contribution", &real.contribs, &want.contribs);
	differ(&mut d, &["F13"], "migration of", &real.migrations, &want.migrations);
	differ(&mut d, &["F13"], "participants to migrate of project", &real.unmigrated, &want.unmigrated);
	differ(&mut d, &["F14"], "migration under way", &real.queue, &want.queue);
	differ(&mut d, &["F14"], "open query", &real.queries, &want.queries);
	differ(&mut d, &["F12"], "release of the bonds of project", &real.releases, &want.releases);
	differ(&mut d, &["F09"], "vesting schedules of", &real.schedules, &want.schedules);
	differ(&mut d, &[], "price of", &real.prices, &want.prices);
	one!(&["F06"], "winners", real.winners, want.winners);
	one!(&[], "next numbers", real.next, want.next);
	one!(&[], "block", real.now, want.now);
	d
}

impl Sys {
	/// What holds in every state, whatever led there.
	fn invariants(&self, m: &M, cx: &mut Cx) {
		let pids: BTreeSet<u32> = m.projects.keys().copied().collect();
		for pid in &pids {
			let p = &m.projects[pid];
			for a in 0..3u8 {
				let owed: u128 = m.bids.iter().filter(|(k, b)| k.0 == *pid && b.asset == a).map(|x| x.1.funding).sum::<u128>() +
					m.contribs.iter().filter(|(k, b)| k.0 == *pid && b.asset == a).map(|x| x.1.funding).sum::<u128>();
				let has = m.bal(a, Esc(*pid));
				if has < owed && cx.on(&["F08"]) {
					cx.fail_keyed("escrow-lost-dust", || {
						format!("the escrow of project {pid} has {has} of asset {a} and owes {owed} to its participants")
					});
				}
			}
			if !m.releases.contains_key(pid) {
				let bonds: u128 = m.bids.iter().filter(|(k, b)| k.0 == *pid && b.mode == Mode::Otm).map(|x| x.1.plmc).sum::<u128>() +
					m.contribs.iter().filter(|(k, b)| k.0 == *pid && b.mode == Mode::Otm).map(|x| x.1.plmc).sum::<u128>();
				let has = m.plmc.get(&Bond(*pid)).map_or(0, |p| p.part);
				cx.check(&["F08", "F12"], has >= bonds, || {
					format!("{has} is bonded by the treasury for project {pid}, its participations need {bonds}")
				});
			}
			let decided = matches!(p.status, St::Community(_) | St::Successful | St::Failed) && p.wap.is_some();
			if decided {
				let t = &self.terms[(p.meta as usize).min(self.terms.len() - 1)];
				let sold: u128 = m.bids.iter().filter(|(k, _)| k.0 == *pid).map(|x| won(x.1)).sum::<u128>() +
					m.contribs.iter().filter(|(k, _)| k.0 == *pid).map(|x| x.1.ct).sum::<u128>();
				let w = p.wap.unwrap();
				let paid: u128 = m
					.bids
					.iter()
					.filter(|(k, _)| k.0 == *pid)
					.map(|x| ticket(x.1.price.min(w), won(x.1)))
					.sum::<u128>() +
					m.contribs.iter().filter(|(k, _)| k.0 == *pid).map(|x| x.1.usd).sum::<u128>();
				// rejected bids may be settled already, winning ones not
				cx.check(&["F05", "F06"], sold + p.remaining == t.total, || {
					format!("{sold} of {} tokens of project {pid} are sold, {} are said to remain", t.total, p.remaining)
				});
				cx.check(&["F05", "F06"], paid == p.funded, || {
					format!("participants of project {pid} paid {paid} USD, {} are said to be raised", p.funded)
				});
			}
		}
		for (k, e) in &m.evals {
			cx.check(&["F10", "F11"], e.current >= Percent::from_percent(20) * e.original, || {
				format!("only {} of the {} PLMC bonded in evaluation {k:?} are left, less than can be slashed", e.current, e.original)
			});
		}
		for u in USERS {
			let part: u128 = m.bids.iter().filter(|(k, b)| k.1 == u && b.mode != Mode::Otm).map(|x| x.1.plmc).sum::<u128>() +
				m.contribs.iter().filter(|(k, b)| k.1 == u && b.mode != Mode::Otm).map(|x| x.1.plmc).sum::<u128>() +
				m.schedules.get(&u).map_or(0, |v| {
					v.iter().map(|s| s.0).sum::<u128>()
				});
			let eval: u128 = m.evals.iter().filter(|(k, _)| k.1 == u).map(|x| x.1.current).sum();
			let has = m.plmc.get(&U(u)).copied().unwrap_or_default();
			cx.check(&["F08"], has.eval == eval, || {
				format!("{} PLMC of account {u} is on hold for evaluations that bond {eval}", has.eval)
			});
			// vesting releases a part of what schedules were made for
			let vested = m.schedules.contains_key(&u);
			cx.check(&["F08"], has.part == part || (vested && has.part < part), || {
				format!("{} PLMC of account {u} is on hold for participations that bond {part}", has.part)
			});
			for pid in &pids {
				if u == 12 {
					continue;
				}
				let owed: u128 = m.migrations.get(&(*pid, u)).map_or(0, |x| x.1.iter().map(|r| r.2).sum());
				let has = m.ct.get(&(*pid, U(u))).copied().unwrap_or(0);
				cx.check(&["F13"], has == owed, || {
					format!("account {u} has {has} tokens of project {pid}, its migration is of {owed}")
				});
			}
		}
		for pid in &pids {
			let sum: u128 = m.ct.iter().filter(|(k, _)| k.0 == *pid).map(|x| *x.1).sum();
			let supply = <ContributionTokens as fungibles::Inspect<Acc>>::total_issuance(*pid);
			cx.check(&["F08", "F11"], sum == supply, || {
				format!("{supply} tokens of project {pid} are issued, accounts have {sum}")
			});
			// there are never more tokens than were sold and are due to those who took part in the project
			let p = &m.projects[pid];
			if let (Some(t), true) = (self.terms.get(p.meta as usize), sum > 0) {
				let fee = fee_tokens(p, t.total);
				cx.check(&["F11"], sum <= t.total - p.remaining + fee, || {
					format!("{sum} tokens of project {pid} are issued, {} were sold and the fee is {fee}", t.total - p.remaining)
				});
			}
			let left = m.migrations.iter().filter(|(k, v)| k.0 == *pid && v.0 != MSt::Confirmed).count() as u32;
			let counted = m.unmigrated.get(pid).copied().unwrap_or(0);
			cx.check(&["F13"], left == counted, || {
				format!("{left} participants of project {pid} are left to migrate, {counted} are counted")
			});
		}
		let real = Balances::total_issuance();
		let sum: u128 = m.plmc.values().map(|p| p.free.saturating_add(p.eval).saturating_add(p.part)).fold(0, u128::saturating_add);
		cx.check(&["F08"], real == sum, || format!("{real} PLMC is issued, accounts have {sum}"));
	}
}

fn kind(op: &Op) -> &'static str {
	match op {
		Op::Next(_) => "next",
		Op::Price(..) => "price",
		Op::Blocked(_) => "blocked",
		Op::Clock(_) => "clock",
		Op::Create(..) => "create",
		Op::Edit(..) => "edit",
		Op::Remove(..) => "remove",
		Op::StartEvaluation(..) => "start_evaluation",
		Op::Evaluate(..) => "evaluate",
		Op::EndEvaluation(..) => "end_evaluation",
		Op::Bid(..) => "bid",
		Op::EndAuction(..) => "end_auction",
		Op::Contribute(..) => "contribute",
		Op::EndFunding(..) => "end_funding",
		Op::StartSettlement(..) => "start_settlement",
		Op::SettleEvaluation(..) => "settle_evaluation",
		Op::SettleBid(..) => "settle_bid",
		Op::SettleContribution(..) => "settle_contribution",
		Op::MarkSettled(..) => "mark_settled",
		Op::Bonds(..) => "bonds_to_treasury",
		Op::Fees(..) => "fees_to_recipient",
		Op::Vest(..) => "vest",
		Op::StartOffchain(..) => "start_offchain",
		Op::Confirm(..) => "confirm_offchain",
		Op::StartPallet(..) => "start_pallet",
		Op::Open(..) => "channel_open",
		Op::Accepted(..) => "channel_accepted",
		Op::Readiness(..) => "readiness",
		Op::Respond(..) => "respond",
		Op::Forge(..) => "forged_response",
		Op::Send(..) => "send",
		Op::Finish(..) => "finish",
	}
}
fn no(n: &No) -> &'static str {
	match n {
		No::Missing => "refused: missing",
		No::Denied => "refused: not allowed",
		No::Round => "refused: round",
		No::Metadata => "refused: metadata",
		No::Limit => "refused: limit",
		No::Funds => "refused: funds",
		No::SoldOut => "refused: sold out",
		No::Pending => "refused: pending",
		No::Release => "refused: release",
		No::Stuck(_) => "stuck",
	}
}

impl Harness for Sys {
	type Model = M;
	type Op = Op;

	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let mut s = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
		let pot: Acc = FundingPalletId::get().into_account_truncating();
		let mut balances: Vec<(Acc, u128)> = [1, 2, 3, 4, 6, 7, 8, 9].iter().map(|n| (acc(*n), 100_000 * PLMC)).collect();
		balances.push((acc(5), 600 * PLMC));
		balances.push((acc(10), 1_000_000 * PLMC));
		balances.extend([(acc(11), ED), (acc(12), ED), (acc(13), ED), (pot, ED)]);
		pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut s).unwrap();
		let mut accounts: Vec<(u32, Acc, u128)> = vec![];
		for n in [1, 2, 3, 4, 6, 7, 8] {
			accounts.push((1984, acc(n), 1_000_000 * 1_000_000));
			accounts.push((1337, acc(n), 1_000_000 * 1_000_000));
			accounts.push((10, acc(n), 100_000 * 10_000_000_000));
		}
		accounts.push((1984, acc(5), 20_000 * 1_000_000));
		pallet_assets::GenesisConfig::<Rt, ForeignInstance> {
			assets: (0..3).map(|i| (ASSET_IDS[i], acc(13), true, ASSET_MIN[i])).collect(),
			metadata: (0..3).map(|i| (ASSET_IDS[i], b"x".to_vec(), b"x".to_vec(), PRICES[i + 1].1)).collect(),
			accounts,
		}
		.assimilate_storage(&mut s)
		.unwrap();
		sp_io::TestExternalities::new(s.clone()).execute_with(|| {
			System::set_block_number(1);
			if let Some(m) = self.cfg.most {
				MaxBids::set(&m.bids);
				MaxBidsUser::set(&m.bids_user);
				MaxEvals::set(&m.evals);
				MaxEvalsUser::set(&m.evals_user);
				MaxContribsUser::set(&m.contribs_user);
			}
			pallet_timestamp::Now::<Rt>::put(START as u64 * 1000);
			for (id, _, p) in PRICES {
				set_price(id, FixedU128::from_inner(p));
			}
			let mut out = vec![];
			let mut k: Vec<u8> = vec![];
			while let Some(n) = sp_io::storage::next_key(&k) {
				out.push((n.clone(), sp_io::storage::get(&n).unwrap().to_vec()));
				k = n;
			}
			out
		})
	}
	fn ignore(&self) -> Ignore {
		use frame_support::storage::storage_prefix;
		let p = |n: &[u8]| storage_prefix(b"System", n).to_vec();
		Ignore { prefixes: vec![p(b"Events"), p(b"EventCount"), p(b"EventTopics"), p(b"ExtrinsicIndex"), p(b"ExecutionPhase")], keep: vec![] }
	}
	fn init(&self) -> M {
		observe(&self.meta)
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o: Vec<Op> = vec![];
		o.extend(c.next.iter().filter(|k| m.now + **k <= c.max_now).map(|k| Op::Next(*k)));
		if c.ops.contains(&Op::Bonds(0)) {
			// to the block before the bonds are due
			o.extend(m.releases.values().flatten().filter(|n| **n > m.now + 1).map(|n| Op::Next(n - 1 - m.now)));
		}
		for op in &c.ops {
			let skip = match op {
				// one at a time
				Op::Price(id, p) => m.prices[id] == *p,
				Op::Blocked(b) => m.blocked == *b,
				Op::Clock(ms) => m.clock >= START as u64 * 1000 + *ms,
				// the pallet of vesting is checked by itself: L05
				Op::Vest(u) =>
					m.bids.iter().any(|(k, b)| k.1 == *u && b.mode != Mode::Otm) ||
						m.contribs.iter().any(|(k, b)| k.1 == *u && b.mode != Mode::Otm),
				_ => c.focus && m.clone().apply(&self.terms, op, &mut vec![]).is_err(),
			};
			if !skip {
				o.push(*op);
			}
		}
		if c.settle {
			let open = |i: usize, id: u32| c.only.as_ref().map_or(true, |x| x[i].contains(&id));
			o.extend(m.evals.keys().filter(|k| open(0, k.2)).map(|k| Op::SettleEvaluation(k.0, k.1, k.2)));
			o.extend(m.bids.keys().filter(|k| open(1, k.2)).map(|k| Op::SettleBid(k.0, k.1, k.2)));
			o.extend(m.contribs.keys().filter(|k| open(2, k.2)).map(|k| Op::SettleContribution(k.0, k.1, k.2)));
		}
		for by in &c.confirm {
			o.extend(m.migrations.keys().map(|k| Op::Confirm(*by, k.0, k.1)));
		}
		if c.send {
			o.extend(m.migrations.keys().map(|k| Op::Send(k.0, k.1)));
		}
		for q in m.queries.keys() {
			o.extend(c.respond.iter().map(|r| Op::Respond(*q, *r)));
			o.extend(c.forge.iter().map(|f| Op::Forge(*q, f.0, f.1, f.2)));
		}
		o
	}
	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		let before = m.clone();
		let mut want = m.clone();
		let mut msgs = vec![];
		let mut verdict = want.apply(&self.terms, op, &mut msgs);
		if verdict.is_err() {
			want = before.clone();
			if let (Op::Respond(q, _), true) = (op, before.queries.contains_key(match op {
				Op::Respond(q, _) => q,
				_ => &0,
			})) {
				// answered, whatever comes of it
				want.queries.remove(q);
			}
			msgs.clear();
		}
		tidy(&mut want);
		let real = self.run(&before, op);
		let mut after = observe(&self.meta);
		let sent = pallet_xcm::Sent::<Rt>::take();
		let own = self.own(&before, op);
		let name = kind(op);
		cx.outcome(
			name,
			match &verdict {
				Ok(()) => "ok",
				Err(n) => no(n),
			},
		);
		let on = |cx: &Cx, more: &[&str]| cx.on(&own) || cx.on(more);
		let at = before.now;

		if let (Err(No::Stuck(key)), Err(e)) = (&verdict, &real) {
			if cx.on(&["F16"]) {
				cx.fail_keyed(key, || format!("block {at}: {name} cannot succeed: {e}"));
			}
		}
		match (&real, &verdict) {
			(Ok(()), Err(No::Stuck(_))) => {
				// it works after all: nothing to compare with
				want = after.clone();
				verdict = Ok(());
			},
			(Ok(()), Err(n)) => {
				let more: &[&str] = match n {
					No::Round => &["F01"],
					No::Denied => &["C01"],
					No::Limit => &["F07", "C01"],
					No::Funds => &["F08"],
					No::SoldOut => &["F06"],
					No::Pending => &["F01", "F13"],
					No::Release => &["F12"],
					No::Metadata => &["F02"],
					_ => &[],
				};
				if on(cx, more) {
					cx.fail(|| format!("block {at}: {op:?} succeeds, must be refused ({n:?})"));
				}
			},
			(Err(e), Ok(())) => {
				let more: &[&str] = match op {
					_ if cx.on(&["C01"]) && (e.contains("BadOrigin") || e.contains("WrongInvestorType")) => &["C01"],
					Op::Evaluate(..) | Op::Bid(..) | Op::Contribute(..) => &["F07"],
					Op::SettleEvaluation(..) | Op::SettleBid(..) | Op::SettleContribution(..) | Op::MarkSettled(..) =>
						&["F16"],
					_ => &[],
				};
				if on(cx, more) {
					cx.fail(|| format!("block {at}: {op:?} is refused ({e}), must succeed"));
				}
			},
			_ => {},
		}
		let agree = real.is_ok() == verdict.is_ok();
		if agree {
			if let (Op::Bid(p, pid, ..) | Op::Contribute(p, pid, ..), true) = (op, verdict.is_ok()) {
				// it does not matter which of the user's evaluation bonds is used first
				let Caller::Account(a) = person(*p).0 else { unreachable!() };
				let range = (*pid, a, 0)..=(*pid, a, u32::MAX);
				let sum = |m: &M| m.evals.range(range.clone()).map(|x| x.1.current).sum::<u128>();
				let left = after
					.evals
					.range(range.clone())
					.all(|x| x.1.current >= Percent::from_percent(20) * x.1.original && x.1.current <= x.1.original);
				let keys =
					|m: &M| m.evals.range(range.clone()).map(|x| (*x.0, Eval { current: 0, ..*x.1 })).collect::<Vec<_>>();
				if sum(&after) == sum(&want) && left && keys(&after) == keys(&want) {
					let mine: Vec<_> = after.evals.range(range.clone()).map(|x| (*x.0, *x.1)).collect();
					want.evals.extend(mine);
				}
			}
			for (props, text) in differences(&after, &want) {
				let failed: &[&str] = if verdict.is_err() { &["F08"] } else { &[] };
				if on(cx, props) || cx.on(failed) {
					cx.fail(|| {
						let how = if verdict.is_ok() { "" } else { " (refused)" };
						format!("block {at}, after {op:?}{how}: {text}")
					});
				}
			}
			if cx.on(&["F14"]) {
				if sent.len() != msgs.len() {
					cx.fail(|| format!("block {at}: {op:?} sends {} messages, must send {msgs:?}", sent.len()));
				} else {
					for (w, (to, bytes)) in msgs.iter().zip(&sent) {
						if let Err(e) = self.message(&after, w, to, bytes) {
							cx.fail(|| format!("block {at}, {op:?}: the message {e}"));
						}
					}
				}
			}
		}
		self.invariants(&after, cx);
		let odd = after.plmc.contains_key(&U(ODD)) || after.projects.values().any(|p| p.meta == ODD);
		if odd && !agree {
			cx.prune = true;
		}
		tidy(&mut after);
		*m = after;
	}
}
