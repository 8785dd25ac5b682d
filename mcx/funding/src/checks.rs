use crate::{apply::*, model::*, runtime::*, sys::*};
use engine::{Check, Run, Scenario};
use Op::{
	Accepted, Bid as OpBid, Blocked, Bonds, Confirm, Contribute, Create, Edit, EndAuction, EndEvaluation, EndFunding,
	Evaluate, Fees, Finish, MarkSettled, Next, Open, Price, Readiness, Remove, StartEvaluation,
	StartOffchain, StartPallet, StartSettlement, Vest,
};

pub const CHECKS: &[Check] = &[
	Check { property: "F01", run: f01 },
	Check { property: "F02", run: f02 },
	Check { property: "F03", run: f03 },
	Check { property: "F04", run: f04 },
	Check { property: "F05", run: f05 },
	Check { property: "F06", run: f06 },
	Check { property: "F07", run: f07 },
	Check { property: "F08", run: f08 },
	Check { property: "F09", run: f09 },
	Check { property: "F10", run: f10 },
	Check { property: "F11", run: f11 },
	Check { property: "F12", run: f12 },
	Check { property: "F13", run: f13 },
	Check { property: "F14", run: f14 },
	Check { property: "F16", run: f16 },
	Check { property: "F18", run: f18 },
	Check { property: "C01", run: c01 },
];

fn go(run: &mut Run, name: &str, prefix: &[Op], cfg: Cfg, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys::new(cfg), prefix: prefix.to_vec(), depth });
}
use Mode::Classic as C;
const O: Mode = Mode::Otm;
const DEAR: (u32, u128) = (PLMC_ID, 12_300_000_000_000_000_000);
const CHEAP: (u32, u128) = (PLMC_ID, 3_000_000_000_000_000_007);
const DOT_UP: (u32, u128) = (10, 80_000_000_000_000_000_000);
const DOT_DOWN: (u32, u128) = (10, 40_000_000_000_000_000_000);

fn evaluation(meta: u8) -> Vec<Op> {
	vec![Create(1, meta), StartEvaluation(1, 0)]
}
fn auction(meta: u8) -> Vec<Op> {
	let mut v = evaluation(meta);
	v.extend([Evaluate(2, 0, 3000 * USD), Evaluate(3, 0, 2500 * USD), Next(2), EndEvaluation(0)]);
	v
}
fn community(meta: u8, bids: &[Op]) -> Vec<Op> {
	let mut v = auction(meta);
	v.extend_from_slice(bids);
	v.extend([Next(2), EndAuction(0)]);
	v
}
fn ended(meta: u8, bids: &[Op], contributions: &[Op]) -> Vec<Op> {
	let mut v = community(meta, bids);
	v.extend_from_slice(contributions);
	v.extend([Next(5), EndFunding(0)]);
	v
}
fn settling(meta: u8, bids: &[Op], contributions: &[Op]) -> Vec<Op> {
	let mut v = ended(meta, bids, contributions);
	v.push(StartSettlement(0));
	v
}
/// small bids and contributions of everybody; enough for the project to succeed
const BIDS: [Op; 2] = [OpBid(2, 0, 1600 * CT, C(2), 0), OpBid(3, 0, 700 * CT, O, 2)];
const CONS: [Op; 2] = [Contribute(4, 0, 300 * CT, C(1), 0), Contribute(7, 0, 444_444_444, O, 2)];
/// more than there is, up to the price of the third bucket
const MANY: [Op; 2] = [OpBid(2, 0, 2000 * CT, C(25), 0), OpBid(3, 0, 900 * CT, C(10), 2)];
/// of the bid on somebody's behalf only a part gets tokens
const PART: [Op; 3] = [OpBid(2, 0, 1000 * CT, C(25), 0), OpBid(7, 0, 1500 * CT, O, 0), OpBid(3, 0, 500 * CT, C(10), 2)];
/// the bid on somebody's behalf gets nothing
const LOST: [Op; 3] = [OpBid(2, 0, 2000 * CT, C(25), 2), OpBid(7, 0, 500 * CT, O, 0), OpBid(3, 0, 500 * CT, C(10), 2)];
/// too little
const FEW: [Op; 2] = [OpBid(2, 0, 600 * CT, C(3), 0), OpBid(3, 0, 500 * CT, O, 2)];
const FEW_CONS: [Op; 2] = [Contribute(4, 0, 300 * CT, C(1), 0), Contribute(7, 0, 44_444_444, O, 2)];

const FEW_EACH: Most = Most { bids: 6, bids_user: 3, evals: 3, evals_user: 2, contribs_user: 2 };
const CROWD: Most = Most { bids: 60, bids_user: 30, evals: 14, evals_user: 6, contribs_user: 8 };
/// a large project
const LARGE: u8 = 9;
/// Many evaluations, of which some are early, one is both and some are late.
fn crowd_evaluations() -> Vec<Op> {
	let mut v = evaluation(LARGE);
	for i in 0..12u32 {
		let who = [2, 3, 4, 7][i as usize % 4];
		v.push(Evaluate(who, 0, 6_000 * USD + 333_333 * i as u128));
	}
	v
}
fn crowd_auction() -> Vec<Op> {
	let mut v = crowd_evaluations();
	v.extend([Next(2), EndEvaluation(0)]);
	v
}
/// `n` bids of `ct` tokens and a little more each, in every way there is.
fn crowd_bids(n: u32, ct: u128) -> Vec<Op> {
	(0..n)
		.map(|i| {
			let mode = [C(1), O, C(4), C(25), C(2)][i as usize % 5];
			OpBid([2, 7][i as usize % 2], 0, ct + 7_777 * i as u128, mode, i as u8 % 3)
		})
		.collect()
}
fn crowd_contributions(n: u32, ct: u128) -> Vec<Op> {
	(0..n)
		.map(|i| {
			let mode = [C(1), O, C(5), C(3)][i as usize % 4];
			Contribute([3, 4, 7, 2, 3][i as usize % 5], 0, ct + 4_441 * i as u128, mode, i as u8 % 3)
		})
		.collect()
}
fn crowd_community(bids: &[Op]) -> Vec<Op> {
	let mut v = crowd_auction();
	v.extend_from_slice(bids);
	v.extend([Next(2), EndAuction(0), Next(3)]);
	v
}
fn crowd_settling(bids: &[Op], cons: &[Op]) -> Vec<Op> {
	let mut v = crowd_community(bids);
	v.extend_from_slice(cons);
	v.extend([Next(2), EndFunding(0), StartSettlement(0)]);
	v
}
const EVALS_OF_CROWD: [(u8, u32); 12] = {
	let who = [2, 3, 4, 7];
	let mut v = [(0, 0); 12];
	let mut i = 0;
	while i < 12 {
		v[i] = (who[i % 4], i as u32);
		i += 1;
	}
	v
};
fn bids_of_crowd(n: u32) -> Vec<(u8, u32)> {
	(0..n).map(|i| ([2, 7][i as usize % 2], i)).collect()
}
fn contributions_of_crowd(n: u32) -> Vec<(u8, u32)> {
	(0..n).map(|i| ([3, 4, 7, 2, 3][i as usize % 5], i)).collect()
}
/// A large project that succeeds with 20 bids and 12 contributions, settled but for the ones to `keep`.
fn crowd_settled(keep: &[Vec<u32>; 3]) -> Vec<Op> {
	let mut v = crowd_settling(&crowd_bids(20, 900 * CT), &crowd_contributions(12, 60 * CT));
	v.extend(settle_but(&EVALS_OF_CROWD, &bids_of_crowd(20), &contributions_of_crowd(12), keep));
	v
}
/// Settles all of these, given as (who, id), but the ones to `keep`.
fn settle_but(evals: &[(u8, u32)], bids: &[(u8, u32)], cons: &[(u8, u32)], keep: &[Vec<u32>; 3]) -> Vec<Op> {
	let mut v = vec![];
	v.extend(evals.iter().filter(|x| !keep[0].contains(&x.1)).map(|x| Op::SettleEvaluation(0, x.0, x.1)));
	v.extend(bids.iter().rev().filter(|x| !keep[1].contains(&x.1)).map(|x| Op::SettleBid(0, x.0, x.1)));
	v.extend(cons.iter().filter(|x| !keep[2].contains(&x.1)).map(|x| Op::SettleContribution(0, x.0, x.1)));
	v
}

fn calls(pid: u32) -> Vec<Op> {
	vec![
		StartEvaluation(1, pid),
		EndEvaluation(pid),
		EndAuction(pid),
		EndFunding(pid),
		StartSettlement(pid),
		MarkSettled(pid),
		StartOffchain(1, pid),
		StartPallet(1, pid, 3000),
		Finish(pid),
	]
}
fn f01(run: &mut Run) {
	let mut c = Cfg { next: vec![1], max_now: 16, settle: true, confirm: vec![1], ..Default::default() };
	c.ops = calls(0);
	c.ops.extend([
		Evaluate(2, 0, 3000 * USD),
		Evaluate(3, 0, 2500 * USD),
		OpBid(2, 0, 1600 * CT, C(2), 0),
		Contribute(4, 0, 700 * CT, C(1), 0),
		Contribute(7, 0, 5000 * CT, C(1), 0),
		Edit(1, 0, 3),
		Remove(1, 0),
	]);
	go(run, "from-application", &[Create(1, 0)], c.clone(), 14, 18);
	go(run, "from-auction", &auction(0), c.clone(), 12, 16);
	go(run, "from-community", &community(0, &BIDS), c.clone(), 10, 14);
	// nothing is left to contribute: the project can be ended early, once
	go(run, "sold-out", &community(3, &[OpBid(2, 0, 4000 * CT, C(2), 0)]), c.clone(), 10, 14);
	go(run, "successful", &settling(0, &BIDS, &CONS), c.clone(), 10, 12);
	go(run, "failed", &settling(0, &FEW, &FEW_CONS), c.clone(), 10, 12);
	// the last but one of these bids gets nothing
	let lost = [
		OpBid(2, 0, 500 * CT, C(2), 0),
		OpBid(3, 0, 1500 * CT, C(2), 2),
		OpBid(7, 0, 500 * CT, O, 0),
		OpBid(2, 0, 500 * CT, C(25), 2),
	];
	go(run, "losing-bids", &settling(0, &lost, &[]), c.clone(), 10, 12);
	c.settle = false;
	c.ops = calls(0);
	c.ops.extend(calls(1));
	c.ops.extend([Create(1, 0), Create(7, 3), Evaluate(2, 0, 5000 * USD), Evaluate(3, 1, 3000 * USD)]);
	go(run, "two-projects", &[Create(1, 0)], c, 9, 12);
}
fn f02(run: &mut Run) {
	let mut c = Cfg { next: vec![2], max_now: 5, ..Default::default() };
	for p in [1, 4, 6, 7, 9, 10, 11, 12, 13, 14] {
		c.ops.push(Create(p, 0));
	}
	c.ops.extend([Create(1, 1), Create(1, 2), Create(7, 3)]);
	for pid in 0..2 {
		for p in [1, 6, 7, 9, 10, 11, 14] {
			c.ops.push(Remove(p, pid));
		}
		for p in [1, 6, 9, 11, 13] {
			c.ops.push(Edit(p, pid, 3));
		}
		c.ops.extend([Edit(1, pid, 1), Edit(1, pid, 2), Edit(1, pid, 0), Edit(7, pid, 4)]);
		// with one thing changed
		c.ops.extend([Edit(1, pid, 5), Edit(1, pid, 6), Edit(7, pid, 7), Edit(1, pid, 8)]);
		for p in [1, 7, 9, 10, 14] {
			c.ops.push(StartEvaluation(p, pid));
		}
		c.ops.push(EndEvaluation(pid));
	}
	crate::enums::metadata(run, &real_meta(0, &terms()[0]));
	go(run, "applications", &[], c.clone(), 5, 7);
	go(run, "one-applied", &[Create(1, 0), Create(7, 0)], c, 5, 6);
}
fn f03(run: &mut Run) {
	let mut c = Cfg { next: vec![1], max_now: 6, ..Default::default() };
	for usd in [100 * USD - 1, 100 * USD, 3000 * USD, 4_999_999_999, 12_345_678_901] {
		c.ops.push(Evaluate(2, 0, usd));
		c.ops.push(Evaluate(3, 0, usd));
	}
	for p in [1, 5, 6, 8, 9, 11, 12, 15] {
		c.ops.push(Evaluate(p, 0, 700 * USD));
	}
	// all that the poor account has, and a bit more
	c.ops.extend([Evaluate(5, 0, 5_039_900_000), Evaluate(5, 0, 5_040_000_000), Evaluate(5, 0, 1000 * USD)]);
	c.ops.extend([Price(DEAR.0, DEAR.1), Price(CHEAP.0, CHEAP.1), EndEvaluation(0)]);
	go(run, "evaluations", &evaluation(0), c.clone(), 5, 6);
	c.ops.push(StartEvaluation(1, 0));
	c.ops.push(Edit(1, 0, 3));
	go(run, "before-the-round", &[Create(1, 0)], c, 4, 5);
}
fn f04(run: &mut Run) {
	let mut c = Cfg { next: vec![1], max_now: 7, ..Default::default() };
	c.ops = vec![
		OpBid(2, 0, 500 * CT, C(1), 0),
		OpBid(2, 0, 1600 * CT, C(25), 2),
		OpBid(2, 0, 2500 * CT, O, 2),
		OpBid(2, 0, 2500 * CT + 1, O, 0),
		OpBid(2, 0, 0, C(1), 0),
		OpBid(2, 0, 500 * CT, C(26), 0),
		OpBid(2, 0, 500 * CT, C(0), 0),
		OpBid(2, 0, 500 * CT, C(1), 1),
		OpBid(2, 0, 455 * CT, C(1), 0),
		OpBid(3, 0, 1_234_567_890, C(10), 0),
		OpBid(3, 0, 600 * CT, C(11), 0),
		OpBid(3, 0, 499_999_999, O, 0),
		OpBid(5, 0, 600 * CT, C(10), 0),
		OpBid(5, 0, 600 * CT, C(1), 0),
		OpBid(5, 0, 2100 * CT, O, 0),
		OpBid(4, 0, 600 * CT, C(1), 0),
		OpBid(1, 0, 600 * CT, C(1), 0),
		OpBid(6, 0, 600 * CT, C(1), 0),
		OpBid(7, 0, 900 * CT, O, 0),
		OpBid(8, 0, 600 * CT, C(1), 0),
		OpBid(9, 0, 600 * CT, C(1), 0),
		OpBid(11, 0, 600 * CT, C(1), 0),
		OpBid(12, 0, 600 * CT, C(1), 0),
		Price(DEAR.0, DEAR.1),
		Price(DOT_UP.0, DOT_UP.1),
		EndAuction(0),
	];
	go(run, "bids", &auction(0), c.clone(), 5, 6);
	go(run, "every-currency", &auction(3), c.clone(), 4, 5);
	// the evaluation bond serves as the bond of a bid, except the part that may be slashed
	let mut v = evaluation(0);
	v.extend([
		Evaluate(2, 0, 3000 * USD),
		Evaluate(2, 0, 777_777_777),
		Evaluate(5, 0, 4000 * USD),
		Next(2),
		EndEvaluation(0),
	]);
	c.ops = vec![
		OpBid(2, 0, 500 * CT, C(5), 0),
		OpBid(2, 0, 777_777_777, C(2), 0),
		OpBid(2, 0, 500 * CT, O, 0),
		OpBid(5, 0, 500 * CT, C(3), 0),
		OpBid(5, 0, 500 * CT, C(1), 0),
		OpBid(5, 0, 600 * CT, C(10), 0),
		OpBid(3, 0, 600 * CT, C(4), 0),
		Price(DEAR.0, DEAR.1),
		Price(CHEAP.0, CHEAP.1),
	];
	go(run, "bonds-of-evaluators", &v, c.clone(), 6, 8);
	// of many evaluations each
	let mut v = crowd_evaluations();
	v.extend([Evaluate(5, 0, 1000 * USD), Evaluate(2, 0, 100 * USD), Next(2), EndEvaluation(0)]);
	c.most = Some(CROWD);
	c.ops = vec![
		OpBid(2, 0, 1000 * CT, C(2), 0),
		OpBid(2, 0, 2_777_777_777, C(3), 2),
		OpBid(5, 0, 510 * CT, C(3), 0),
		OpBid(7, 0, 1_500 * CT, C(1), 1),
		OpBid(7, 0, 900 * CT, O, 1),
	];
	go(run, "bonds-of-many-evaluations", &v, c.clone(), 6, 7);
	let mut v = crowd_auction();
	v.extend(crowd_bids(20, 900 * CT));
	go(run, "bids-of-a-crowd", &v, c, 4, 5);
}
fn f18(run: &mut Run) {
	crate::enums::prices(run);
	crate::enums::multipliers(run);
}
fn f05(run: &mut Run) {
	crate::enums::buckets(run);
	let mut c = Cfg { next: vec![2], max_now: 5, focus: true, ..Default::default() };
	c.ops = vec![
		OpBid(2, 0, 2000 * CT, C(25), 0),
		OpBid(3, 0, 900 * CT, C(10), 2),
		OpBid(7, 0, 500 * CT, O, 0),
		OpBid(2, 0, 666_666_666, C(1), 2),
		OpBid(5, 0, 500 * CT, C(10), 0),
		OpBid(7, 0, 2500 * CT, C(3), 0),
		EndAuction(0),
	];
	go(run, "half-in-the-auction", &auction(0), c.clone(), 8, 9);
	go(run, "all-in-the-auction", &auction(3), c.clone(), 8, 9);
	// far more bids than tokens
	c.ops = vec![
		OpBid(2, 0, 2500 * CT, C(25), 0),
		OpBid(7, 0, 2500 * CT, C(25), 0),
		OpBid(7, 0, 1250 * CT, C(25), 2),
		OpBid(2, 0, 1111_111_111, O, 0),
		EndAuction(0),
	];
	c.most = Some(Most { bids: 40, bids_user: 25, ..FEW_EACH });
	go(run, "many-buckets", &auction(0), c.clone(), 6, 7);
	// so many that the first bucket is not reached, or that even the last ones are not used up
	c.ops = vec![
		OpBid(2, 0, 1250 * CT, C(25), 0),
		OpBid(7, 0, 2500 * CT, C(25), 0),
		OpBid(7, 0, 999_999_999, C(25), 2),
		Contribute(4, 0, 300 * CT, C(1), 0),
		EndAuction(0),
	];
	let mut v = auction(0);
	v.extend([OpBid(2, 0, 2500 * CT, C(25), 0), OpBid(7, 0, 2500 * CT, C(25), 0)]);
	go(run, "beyond-the-buckets", &v, c.clone(), 6, 7);
	// a crowd
	c.most = Some(CROWD);
	c.max_now = 9;
	c.ops = vec![
		OpBid(2, 0, 2450 * CT, C(25), 0),
		OpBid(7, 0, 1_234_567_891, O, 2),
		OpBid(3, 0, 666_666_666, C(10), 1),
		EndAuction(0),
	];
	let mut v = crowd_auction();
	v.extend(crowd_bids(20, 900 * CT));
	go(run, "a-crowd", &v, c.clone(), 6, 7);
	let mut v = crowd_auction();
	v.extend(crowd_bids(22, 2100 * CT));
	go(run, "a-crowd-over-many-buckets", &v, c, 6, 7);
}
fn f06(run: &mut Run) {
	let mut c = Cfg { next: vec![1], max_now: 11, ..Default::default() };
	c.ops = vec![
		Contribute(4, 0, 300 * CT, C(1), 0),
		Contribute(4, 0, 9_999_999, C(1), 0),
		Contribute(4, 0, 10 * CT, C(5), 2),
		Contribute(4, 0, 801 * CT, O, 0),
		Contribute(4, 0, 300 * CT, C(6), 0),
		Contribute(4, 0, 300 * CT, C(0), 0),
		Contribute(4, 0, 300 * CT, C(1), 1),
		Contribute(4, 0, 0, C(1), 0),
		Contribute(2, 0, 777_777_777, C(25), 0),
		Contribute(2, 0, 50 * CT, C(26), 0),
		Contribute(3, 0, 500 * CT, C(10), 0),
		Contribute(3, 0, 500 * CT, C(11), 0),
		Contribute(5, 0, 100 * CT, O, 0),
		Contribute(7, 0, 2750 * CT, C(7), 0),
		Contribute(7, 0, 9000 * CT, O, 2),
		Contribute(1, 0, 100 * CT, C(1), 0),
		Contribute(6, 0, 100 * CT, C(1), 0),
		Contribute(8, 0, 100 * CT, C(1), 0),
		Contribute(9, 0, 100 * CT, C(1), 0),
		Contribute(10, 0, 100 * CT, C(1), 0),
		Contribute(11, 0, 100 * CT, C(1), 0),
		Contribute(12, 0, 100 * CT, C(1), 0),
		Price(DEAR.0, DEAR.1),
		Price(DOT_DOWN.0, DOT_DOWN.1),
		EndFunding(0),
	];
	let bids = [OpBid(2, 0, 1600 * CT, C(2), 0), OpBid(5, 0, 600 * CT, C(10), 0)];
	go(run, "contributions", &community(0, &bids), c.clone(), 5, 6);
	let mut v = community(0, &bids);
	v.push(Next(3));
	go(run, "remainder", &v, c.clone(), 4, 5);
	go(run, "price-of-the-auction", &community(0, &MANY), c.clone(), 4, 5);
	go(run, "little-left", &community(4, &[OpBid(2, 0, 2500 * CT, O, 2), OpBid(7, 0, 555_555_555, C(4), 1)]), c, 4, 5);
	let mut c = Cfg { next: vec![2], max_now: 13, most: Some(CROWD), ..Default::default() };
	c.ops = vec![
		Contribute(4, 0, 50 * CT, C(5), 2),
		Contribute(3, 0, 77_777_777, O, 1),
		Contribute(2, 0, 2_000 * CT, C(25), 0),
		Contribute(7, 0, 45_000 * CT, C(25), 0),
		EndFunding(0),
	];
	let mut v = crowd_community(&crowd_bids(20, 900 * CT));
	v.extend(crowd_contributions(16, 20 * CT));
	go(run, "a-crowd", &v, c.clone(), 5, 6);
	let mut v = crowd_community(&crowd_bids(22, 2100 * CT));
	v.extend(crowd_contributions(16, 20 * CT));
	go(run, "a-crowd-at-the-price-of-the-auction", &v, c, 5, 6);
}
fn f07(run: &mut Run) {
	let mut c = Cfg { next: vec![2], max_now: 3, focus: false, ..Default::default() };
	c.ops = vec![
		Evaluate(2, 0, 700 * USD),
		Evaluate(3, 0, 700 * USD),
		Evaluate(4, 0, 5000 * USD),
		Evaluate(7, 0, 99 * USD),
		Evaluate(8, 0, 700 * USD),
		Evaluate(1, 0, 700 * USD),
		Evaluate(6, 0, 700 * USD),
	];
	go(run, "evaluations", &evaluation(0), c.clone(), 7, 8);
	c.ops = vec![
		OpBid(2, 0, 500 * CT, C(1), 0),
		OpBid(2, 0, 1000 * CT, C(1), 0),
		OpBid(3, 0, 500 * CT, O, 0),
		OpBid(3, 0, 2000 * CT, O, 0),
		OpBid(3, 0, 1200 * CT, C(2), 0),
		OpBid(5, 0, 1000 * CT, O, 0),
		OpBid(7, 0, 600 * CT, O, 0),
		OpBid(4, 0, 600 * CT, O, 0),
		OpBid(1, 0, 600 * CT, O, 0),
	];
	go(run, "bids", &auction(0), c.clone(), 7, 8);
	go(run, "bids-of-a-did", &auction(3), c.clone(), 7, 8);
	c.ops = vec![
		Contribute(4, 0, 300 * CT, C(1), 0),
		Contribute(4, 0, 500 * CT, C(1), 0),
		Contribute(10, 0, 300 * CT, C(1), 0),
		Contribute(15, 0, 799 * CT, C(1), 0),
		Contribute(15, 0, 10 * CT, C(1), 0),
		Contribute(7, 0, 300 * CT, C(1), 0),
		Contribute(3, 0, 1100 * CT, O, 0),
		Contribute(5, 0, 900 * CT, O, 0),
		Contribute(2, 0, 1200 * CT, O, 0),
		Contribute(2, 0, 100_000, O, 0),
	];
	c.max_now = 11;
	go(run, "contributions", &community(0, &[OpBid(7, 0, 1600 * CT, C(2), 0)]), c.clone(), 6, 7);
	go(run, "contributions-of-a-did", &community(4, &[OpBid(7, 0, 1600 * CT, C(2), 0)]), c, 6, 7);
	// many of them, up to the most
	let mut c = Cfg { next: vec![2], max_now: 5, most: Some(CROWD), ..Default::default() };
	c.ops = vec![Evaluate(2, 0, 700 * USD), Evaluate(3, 0, 100 * USD), Evaluate(7, 0, 5000 * USD)];
	go(run, "evaluations-of-a-crowd", &crowd_evaluations(), c.clone(), 5, 6);
	c.most = Some(Most { bids: 24, bids_user: 13, ..CROWD });
	c.ops = vec![OpBid(2, 0, 900 * CT, C(1), 0), OpBid(7, 0, 900 * CT, O, 0), OpBid(3, 0, 5700 * CT, C(10), 1)];
	let mut v = crowd_auction();
	v.extend(crowd_bids(20, 900 * CT));
	go(run, "bids-of-a-crowd", &v, c.clone(), 6, 7);
	c.max_now = 13;
	c.ops = vec![
		Contribute(4, 0, 50 * CT, C(5), 2),
		Contribute(3, 0, 77_777_777, O, 1),
		Contribute(2, 0, 2_000 * CT, C(25), 0),
		Contribute(7, 0, 100 * CT, C(25), 0),
	];
	let mut v = crowd_community(&crowd_bids(20, 900 * CT));
	v.extend(crowd_contributions(25, 20 * CT));
	go(run, "contributions-of-a-crowd", &v, c, 6, 7);
}
/// one of everything that moves money
fn money() -> Vec<Op> {
	vec![
		Evaluate(2, 0, 3000 * USD),
		Evaluate(5, 0, 2100 * USD),
		EndEvaluation(0),
		OpBid(2, 0, 2100 * CT, C(4), 0),
		OpBid(3, 0, 900 * CT, O, 2),
		EndAuction(0),
		Contribute(4, 0, 222_222_222, C(3), 2),
		Contribute(5, 0, 111_111_111, C(1), 0),
		EndFunding(0),
		StartSettlement(0),
		MarkSettled(0),
		Bonds(0),
		Fees(0, 0),
		Fees(0, 2),
	]
}
fn f08(run: &mut Run) {
	let mut c = Cfg { next: vec![2], max_now: 13, settle: true, focus: true, ..Default::default() };
	c.ops = money();
	go(run, "from-application", &evaluation(0), c.clone(), 12, 15);
	c.ops.extend([Price(DEAR.0, DEAR.1), Price(DOT_UP.0, DOT_UP.1)]);
	go(run, "from-auction", &auction(0), c.clone(), 9, 11);
	c.ops.push(Next(200_000));
	c.ops.push(Vest(2));
	go(run, "successful", &settling(0, &MANY, &CONS), c.clone(), 6, 8);
	c.ops.extend([Price(DOT_DOWN.0, DOT_DOWN.1)]);
	go(run, "failed", &settling(0, &FEW, &FEW_CONS), c.clone(), 7, 9);
	// calls that are refused leave everything as it was
	c.focus = false;
	c.ops.extend([OpBid(5, 0, 600 * CT, C(1), 0), OpBid(5, 0, 1900 * CT, O, 0), OpBid(7, 0, 2400 * CT, C(1), 1)]);
	go(run, "refused", &auction(0), c, 5, 6);
}
fn f09(run: &mut Run) {
	let mut c = Cfg { settle: true, max_now: 400_000, ..Default::default() };
	c.ops = vec![
		MarkSettled(0),
		Price(DEAR.0, DEAR.1),
		Price(CHEAP.0, CHEAP.1),
		Price(DOT_UP.0, DOT_UP.1),
		Price(DOT_DOWN.0, DOT_DOWN.1),
		Next(1),
	];
	let all = [Contribute(4, 0, 300 * CT, C(5), 0), Contribute(3, 0, 123_456_789, C(10), 2), Contribute(4, 0, 50 * CT, O, 0)];
	let mut over = community(0, &MANY);
	over.push(Next(3));
	over.extend(all);
	over.extend([Next(2), EndFunding(0)]);
	let mut v = over.clone();
	v.push(StartSettlement(0));
	go(run, "oversubscribed", &v, c.clone(), 6, 7);
	let mut v = community(0, &PART);
	v.extend([Next(3), all[0], all[1], Next(2), EndFunding(0), StartSettlement(0)]);
	go(run, "partial", &v, c.clone(), 5, 6);
	go(run, "undersubscribed", &settling(0, &BIDS, &CONS), c.clone(), 7, 8);
	c.ops = vec![MarkSettled(0), Vest(2), Vest(3), Vest(4), Next(1), Next(15_000), Next(160_000)];
	go(run, "vesting", &settling(0, &[OpBid(2, 0, 1600 * CT, C(2), 0), OpBid(2, 0, 500 * CT, C(25), 0)], &CONS), c.clone(), 8, 9);
	c.ops.push(StartSettlement(0));
	go(run, "before-settlement", &over, c, 4, 5);
	// one of the many bids or contributions is not yet settled, or everything is
	let mut c = Cfg { settle: true, most: Some(CROWD), max_now: 400_000, ..Default::default() };
	c.ops = vec![MarkSettled(0), Price(DEAR.0, DEAR.1), Price(DOT_UP.0, DOT_UP.1)];
	let keep = [vec![0, 11], vec![2, 11, 19], vec![0, 11]];
	go(run, "the-last-of-a-crowd", &crowd_settled(&keep), c.clone(), 6, 8);
	c.only = Some([vec![1], vec![0, 13, 30, 36], vec![5]]);
	let over = crowd_settling(&crowd_bids(22, 2100 * CT), &crowd_contributions(12, 60 * CT));
	go(run, "a-crowd-over-many-buckets", &over, c, 5, 7);
}
fn f10(run: &mut Run) {
	let mut c = Cfg { settle: true, max_now: 30, next: vec![1], ..Default::default() };
	c.ops = vec![MarkSettled(0), StartSettlement(0), Price(DEAR.0, DEAR.1), Price(DOT_DOWN.0, DOT_DOWN.1), Bonds(0)];
	go(run, "funding-failed", &ended(0, &FEW, &FEW_CONS), c.clone(), 8, 9);
	let mut v = evaluation(0);
	v.extend([Evaluate(2, 0, 3000 * USD), Evaluate(3, 0, 1_999_999_999), Evaluate(2, 0, 100 * USD - 1), Next(2), EndEvaluation(0)]);
	v.retain(|o| *o != Evaluate(2, 0, 100 * USD - 1));
	go(run, "evaluation-failed", &v, c.clone(), 8, 10);
	// bonds that were used for bids meanwhile
	let bids = [OpBid(2, 0, 500 * CT, C(3), 0), OpBid(2, 0, 500 * CT, C(1), 2)];
	go(run, "bonds-of-evaluators", &ended(0, &bids, &FEW_CONS), c.clone(), 8, 9);
	// losing bids get everything back at once
	c.ops = vec![Contribute(4, 0, 300 * CT, C(1), 0), EndFunding(0), StartSettlement(0), Price(DEAR.0, DEAR.1)];
	go(run, "losing-bids", &community(0, &MANY), c.clone(), 6, 7);
	go(run, "losing-bid-on-behalf", &community(0, &LOST), c, 6, 7);
	// a crowd
	let mut c = Cfg { settle: true, max_now: 30, next: vec![1], most: Some(CROWD), ..Default::default() };
	c.ops = vec![MarkSettled(0), Price(DEAR.0, DEAR.1), Bonds(0)];
	let (bids, cons) = (crowd_bids(14, 900 * CT), crowd_contributions(12, 20 * CT));
	let mut v = crowd_settling(&bids, &cons);
	c.only = Some([vec![0, 7], vec![1, 12], vec![3, 11]]);
	go(run, "a-crowd-failed", &v, c.clone(), 5, 6);
	let keep = c.only.clone().unwrap();
	v.extend(settle_but(&EVALS_OF_CROWD, &bids_of_crowd(14), &contributions_of_crowd(12), &keep));
	go(run, "the-last-of-a-crowd-failed", &v, c, 8, 9);
}
fn f11(run: &mut Run) {
	let mut c = Cfg { next: vec![2], max_now: 13, focus: true, ..Default::default() };
	c.ops = vec![
		Evaluate(2, 0, 5000 * USD),
		Evaluate(3, 0, 1_234_567_890),
		Evaluate(5, 0, 4500 * USD),
		EndEvaluation(0),
		OpBid(7, 0, 1650 * CT, C(4), 0),
		OpBid(7, 0, 2000 * CT, C(4), 2),
		EndAuction(0),
		Contribute(4, 0, 1, C(3), 2),
		Contribute(4, 0, 700 * CT, C(3), 2),
		Contribute(7, 0, 5000 * CT, C(3), 2),
		EndFunding(0),
		StartSettlement(0),
	];
	go(run, "outcomes", &evaluation(0), c.clone(), 14, 18);
	let few = [Evaluate(2, 0, 5000 * USD), Evaluate(3, 0, 1_234_567_890), Evaluate(5, 0, 4500 * USD)];
	let mut v = evaluation(4);
	v.extend(few);
	v.extend([Next(2), EndEvaluation(0)]);
	v.extend([OpBid(7, 0, 1649_999_999, C(4), 0), Next(2), EndAuction(0)]);
	c.settle = true;
	c.ops = vec![
		Contribute(4, 0, 1, C(3), 2),
		Contribute(4, 0, 100_000, C(3), 2),
		Contribute(4, 0, CT, C(3), 2),
		Contribute(3, 0, 1_000 * CT, C(3), 2),
		Contribute(2, 0, 1_999 * CT, C(3), 2),
		EndFunding(0),
		StartSettlement(0),
	];
	go(run, "threshold", &v, c.clone(), 9, 11);
	// many evaluators
	c.ops = vec![Contribute(7, 0, 45_000 * CT, C(25), 0), Contribute(4, 0, 100 * CT, C(3), 2), EndFunding(0), StartSettlement(0)];
	c.most = Some(CROWD);
	go(run, "rewards-of-a-crowd", &crowd_community(&crowd_bids(20, 900 * CT)), c.clone(), 6, 7);
	go(run, "losses-of-a-crowd", &crowd_community(&crowd_bids(7, 900 * CT)), c, 6, 7);
}
fn f12(run: &mut Run) {
	let mut c = Cfg { settle: true, max_now: 200_000, ..Default::default() };
	c.ops = vec![Bonds(0), Fees(0, 0), Fees(0, 2), Fees(0, 1), Next(1), Next(65_533), MarkSettled(0)];
	let bids = [OpBid(2, 0, 1600 * CT, O, 0), OpBid(3, 0, 700 * CT, O, 2), OpBid(7, 0, 500 * CT, C(3), 0)];
	let cons = [Contribute(4, 0, 300 * CT, O, 0)];
	go(run, "successful", &settling(0, &bids, &cons), c.clone(), 6, 7);
	let few = [OpBid(2, 0, 600 * CT, O, 0), OpBid(3, 0, 500 * CT, O, 2)];
	go(run, "failed", &settling(0, &few, &FEW_CONS), c.clone(), 7, 8);
	c.ops.extend([Contribute(4, 0, 300 * CT, O, 0), Price(DEAR.0, DEAR.1), Next(5), EndFunding(0), StartSettlement(0)]);
	go(run, "losing-bids", &community(0, &LOST), c.clone(), 5, 6);
	go(run, "partial-bids", &community(0, &PART), c.clone(), 5, 6);
	c.settle = false;
	c.next = vec![2];
	c.max_now = 9;
	c.ops = vec![
		OpBid(2, 0, 2400 * CT, O, 0),
		OpBid(3, 0, 700 * CT, O, 2),
		OpBid(5, 0, 1880 * CT, O, 0),
		OpBid(5, 0, 1900 * CT, O, 0),
		EndAuction(0),
		Contribute(4, 0, 11_111_111, O, 2),
		Price(DEAR.0, DEAR.1),
		Bonds(0),
		Fees(0, 0),
	];
	go(run, "bonding", &auction(0), c.clone(), 6, 7);
	c.settle = true;
	c.most = Some(CROWD);
	c.max_now = 200_000;
	c.ops = vec![Bonds(0), Fees(0, 0), Fees(0, 2), Fees(0, 1), Next(65_533), MarkSettled(0)];
	go(run, "a-crowd", &crowd_settled(&[vec![0], vec![1, 6, 16], vec![1, 5]]), c.clone(), 5, 6);
	c.only = Some([vec![0], vec![1, 6, 11], vec![1, 5]]);
	go(run, "a-crowd-failed", &crowd_settling(&crowd_bids(14, 900 * CT), &crowd_contributions(12, 20 * CT)), c, 5, 6);
}
fn settled(meta: u8, bids: &[Op], cons: &[Op]) -> Vec<Op> {
	let mut v = settling(meta, bids, cons);
	// evaluations 0 and 1, bids and contributions in order
	v.extend([Op::SettleEvaluation(0, 2, 0), Op::SettleEvaluation(0, 3, 1)]);
	for (i, b) in bids.iter().enumerate() {
		if let OpBid(p, ..) = b {
			v.push(Op::SettleBid(0, PEOPLE[*p as usize].0, i as u32));
		}
	}
	for (i, b) in cons.iter().enumerate() {
		if let Contribute(p, ..) = b {
			v.push(Op::SettleContribution(0, PEOPLE[*p as usize].0, i as u32));
		}
	}
	v.push(MarkSettled(0));
	v
}
fn f13(run: &mut Run) {
	let mut c = Cfg { settle: true, max_now: 30, confirm: vec![1, 2, 7], next: vec![1], ..Default::default() };
	c.ops = vec![
		StartOffchain(1, 0),
		StartOffchain(7, 0),
		StartOffchain(10, 0),
		StartOffchain(6, 0),
		StartPallet(1, 0, 3000),
		Finish(0),
		MarkSettled(0),
		Confirm(1, 0, 8),
	];
	c.max_now = 14;
	go(run, "offchain", &settled(0, &BIDS, &CONS), c.clone(), 8, 10);
	go(run, "from-settlement", &settling(0, &BIDS, &CONS), c.clone(), 8, 10);
	go(run, "several-each", &settling(0, &[OpBid(2, 0, 2000 * CT, C(2), 0), OpBid(2, 0, 700 * CT, C(25), 0), OpBid(3, 0, 500 * CT, C(2), 0)], &[]), c, 8, 9);
	// many participations of each
	let mut v = crowd_settled(&[vec![], vec![], vec![]]);
	let mut c = Cfg { confirm: vec![1, 7], max_now: 100, most: Some(CROWD), ..Default::default() };
	c.ops = vec![StartOffchain(1, 0), Finish(0), MarkSettled(0)];
	go(run, "a-crowd", &v, c.clone(), 8, 9);
	v = crowd_settled(&[vec![7], vec![18], vec![10]]);
	c.settle = true;
	go(run, "a-crowd-from-settlement", &v, c, 9, 10);
}
fn f14(run: &mut Run) {
	let mut c = Cfg { max_now: 20, ..Default::default() };
	let here: Vec<Op> = vec![
		Open(3000, 102_400, 8),
		Open(3000, 49_999, 8),
		Open(3000, 102_401, 8),
		Open(3000, 50_000, 1000),
		Open(3000, 50_000, 1001),
		Open(3000, 50_000, 7),
		Open(3001, 102_400, 8),
		Accepted(3000),
		Accepted(3001),
		Readiness(1, 0),
		Readiness(7, 0),
		Readiness(10, 0),
		Blocked(true),
		Blocked(false),
		Finish(0),
	];
	c.ops = here.clone();
	c.ops.extend([StartPallet(1, 0, 3000), StartPallet(7, 0, 3000), StartPallet(10, 0, 3000), Confirm(1, 0, 2)]);
	c.send = true;
	c.respond = vec![Resp::Enough(0), Resp::Pallet(7)];
	go(run, "channels", &settled(0, &BIDS, &CONS), c.clone(), 7, 8);
	let mut ready = settled(0, &BIDS, &CONS);
	ready.extend([StartPallet(1, 0, 3000), Open(3000, 102_400, 8)]);
	c.ops = vec![Accepted(3000), Readiness(1, 0), Readiness(7, 0), Finish(0), Blocked(true), Blocked(false)];
	c.respond = vec![
		Resp::Enough(0),
		Resp::Enough(12345),
		Resp::Short,
		Resp::NoAssets,
		Resp::Elsewhere,
		Resp::Local,
		Resp::Pallet(7),
		Resp::Pallet(255),
		Resp::Pallet(256),
		Resp::OtherPallet,
		Resp::TwoPallets,
		Resp::NoPallet,
		Resp::Done,
		Resp::Null,
	];
	c.forge = vec![
		(Resp::Enough(0), Forger::Signed, true),
		(Resp::Enough(0), Forger::Root, true),
		(Resp::Enough(0), Forger::OtherChain, true),
		(Resp::Pallet(7), Forger::Relay, true),
	];
	go(run, "readiness", &ready, c.clone(), 6, 7);
	let mut sent = ready.clone();
	sent.extend([Accepted(3000), Op::Respond(0, Resp::Enough(0)), Op::Respond(1, Resp::Pallet(7))]);
	c.ops = vec![Readiness(1, 0), Finish(0), Blocked(true), Blocked(false)];
	c.respond = vec![Resp::Done, Resp::Failed, Resp::Truncated, Resp::Null, Resp::Enough(0)];
	c.forge = vec![
		(Resp::Done, Forger::Signed, false),
		(Resp::Done, Forger::Root, false),
		(Resp::Done, Forger::OtherChain, false),
		(Resp::Failed, Forger::Relay, false),
	];
	go(run, "migrations", &sent, c.clone(), 7, 9);
	c.respond = vec![Resp::Done, Resp::Failed];
	c.forge = vec![];
	c.ops = vec![Finish(0)];
	go(run, "to-the-end", &sent, c.clone(), 14, 18);
	// many participations of each
	let mut v = crowd_settled(&[vec![], vec![], vec![]]);
	v.extend([
		MarkSettled(0),
		StartPallet(1, 0, 3000),
		Open(3000, 102_400, 8),
		Accepted(3000),
		Op::Respond(0, Resp::Enough(0)),
		Op::Respond(1, Resp::Pallet(7)),
	]);
	c.most = Some(CROWD);
	c.max_now = 100;
	go(run, "a-crowd", &v, c, 12, 13);
}
fn f16(run: &mut Run) {
	let mut c = Cfg { settle: true, max_now: 20, ..Default::default() };
	c.ops = vec![MarkSettled(0), Price(DEAR.0, DEAR.1), Price(CHEAP.0, CHEAP.1)];
	go(run, "oversubscribed", &settling(0, &MANY, &CONS), c.clone(), 8, 10);
	go(run, "failed", &settling(0, &FEW, &FEW_CONS), c.clone(), 8, 10);
	// the smallest participations there can be
	let bids = [OpBid(7, 0, 2500 * CT, C(2), 0), OpBid(2, 0, 555_555_555, C(25), 1)];
	let cons = [Contribute(4, 0, CT, C(5), 0), Contribute(3, 0, 100_000, O, 0), Contribute(3, 0, 1_000 * CT, C(10), 2)];
	go(run, "small", &settling(4, &bids, &cons), c.clone(), 8, 10);
	c.ops.extend([Fees(0, 0), Fees(0, 2)]);
	go(run, "fees-paid-out", &settling(0, &MANY, &CONS), c, 6, 8);
	let mut c = Cfg { settle: true, max_now: 100, most: Some(CROWD), ..Default::default() };
	c.ops = vec![MarkSettled(0), Price(DEAR.0, DEAR.1), Fees(0, 0)];
	go(run, "the-last-of-a-crowd", &crowd_settled(&[vec![2, 11], vec![3, 10, 19], vec![0, 11]]), c.clone(), 6, 8);
	let (bids, cons) = (crowd_bids(14, 900 * CT), crowd_contributions(12, 20 * CT));
	let keep = [vec![0, 7], vec![1, 12], vec![3, 11]];
	let mut v = crowd_settling(&bids, &cons);
	v.extend(settle_but(&EVALS_OF_CROWD, &bids_of_crowd(14), &contributions_of_crowd(12), &keep));
	go(run, "the-last-of-a-crowd-failed", &v, c, 8, 9);
}

/// everybody, with everything about the call changed
fn anybody(bases: &[u8]) -> Vec<u8> {
	bases.iter().flat_map(|b| (0..CHANGES).map(move |c| b + 16 * c)).collect()
}
fn c01(run: &mut Run) {
	let clocks = [Op::Clock(1), Op::Clock(1000), Op::Clock(1001)];
	let cfg = |ops: Vec<Op>| {
		let mut c = Cfg { ops, ..Default::default() };
		c.ops.extend(clocks);
		c
	};
	let people = anybody(&[1, 7, 4, 3]);
	let ops = people.iter().map(|p| Create(*p, 0)).collect();
	go(run, "create", &[], cfg(ops), 2, 3);
	let mut ops = vec![];
	for p in &people {
		ops.extend([Edit(*p, 0, 3), Remove(*p, 0), StartEvaluation(*p, 0)]);
	}
	go(run, "application", &[Create(1, 0)], cfg(ops), 2, 3);
	let people = anybody(&[1, 2, 3, 4, 7]);
	let ops = people.iter().map(|p| Evaluate(*p, 0, 700 * USD)).collect();
	go(run, "evaluate", &evaluation(0), cfg(ops), 2, 3);
	let mut ops = vec![];
	for p in &people {
		ops.extend([OpBid(*p, 0, 500 * CT, C(8), 0), OpBid(*p, 0, 500 * CT, O, 2), OpBid(*p, 0, 500 * CT, C(25), 0)]);
	}
	go(run, "bid", &auction(0), cfg(ops), 2, 3);
	let mut ops = vec![];
	for p in &people {
		ops.extend([Contribute(*p, 0, 50 * CT, C(4), 0), Contribute(*p, 0, 50 * CT, O, 2), Contribute(*p, 0, 50 * CT, C(9), 0)]);
	}
	let mut v = community(0, &BIDS);
	go(run, "contribute", &v, cfg(ops.clone()), 2, 3);
	v.push(Next(3));
	go(run, "contribute-remainder", &v, cfg(ops), 2, 3);
	let mut ops = vec![];
	for p in anybody(&[1, 7, 4]) {
		ops.extend([StartOffchain(p, 0), StartPallet(p, 0, 3000)]);
	}
	let mut v = settled(0, &BIDS, &CONS);
	go(run, "start-migration", &v, cfg(ops), 2, 3);
	v.extend([StartPallet(1, 0, 3000), Open(3000, 102_400, 8), Accepted(3000)]);
	let ops = anybody(&[1, 7, 4]).iter().map(|p| Readiness(*p, 0)).collect();
	go(run, "readiness", &v, cfg(ops), 2, 3);
}
