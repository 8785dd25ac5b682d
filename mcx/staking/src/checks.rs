use crate::{model::*, runtime::*, sys::*};
use engine::{Check, Run, Scenario};
use Op::*;

pub const CHECKS: &[Check] = &[
	Check { property: "S01", run: s01 },
	Check { property: "S02", run: s02 },
	Check { property: "S03", run: s03 },
	Check { property: "S04", run: s04 },
	Check { property: "S05", run: s05 },
	Check { property: "S06", run: s06 },
	Check { property: "S07", run: s07 },
	Check { property: "S08", run: s08 },
	Check { property: "S09", run: s09 },
	Check { property: "S10", run: s10 },
	Check { property: "S11", run: s11 },
];
fn go(run: &mut Run, name: &str, cfg: Cfg, prefix: &[Op], quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix: prefix.to_vec(), depth });
}
/// the lengths of the delays and the sizes of the lists
fn delays(leave_c: u32, less_c: u32, leave_d: u32, revoke: u32, less_d: u32, pay: u32) {
	LeaveCandidatesDelay::set(leave_c);
	CandidateBondLessDelay::set(less_c);
	LeaveDelegatorsDelay::set(leave_d);
	RevokeDelegationDelay::set(revoke);
	DelegationBondLessDelay::set(less_d);
	RewardPaymentDelay::set(pay);
}
fn sizes(top: u32, bottom: u32, per: u32) {
	MaxTop::set(top);
	MaxBottom::set(bottom);
	MaxDelegationsPerDelegator::set(per);
}
fn usual() {
	delays(2, 1, 3, 2, 1, 1);
	sizes(2, 1, 2);
}
fn b(x: Op) -> Box<Op> {
	Box::new(x)
}
/// somebody else, who carries out what is due
const ANY: u64 = 9;
/// candidates 1, 2, 3, 4 and delegators 11 to 15
fn base() -> Cfg {
	usual();
	Cfg {
		balances: vec![(1, 100), (2, 60), (3, 45), (4, 40), (11, 50), (12, 30), (13, 25), (14, 40), (15, 12)],
		candidates: vec![(1, 20), (2, 25)],
		..Default::default()
	}
}

/// 8 candidates, 22 delegators, 6 + 4 places at each candidate, 5 selected; candidate 1 is full
fn crowd() -> Cfg {
	let mut c = base();
	sizes(6, 4, 5);
	c.selected = 5;
	c.len = 8;
	c.balances = (1..=8).map(|a| (a, 150 + a as u128)).chain((11..=32).map(|a| (a, 190 + a as u128))).collect();
	c.candidates = (1..=8).map(|a| (a, 40 + 3 * (a as u128 * 5 % 8))).collect();
	for k in 0..20u64 {
		let (d, x) = (11 + k, 10 + (k as u128 * 7) % 23);
		if k % 2 == 0 {
			c.delegations.push((d, 1, x, (k * 9 % 101) as u8));
		}
		c.delegations.push((d, 2 + k % 5, x + 1, 0));
		if k % 3 == 0 {
			c.delegations.push((d, 7, x + 2, (k * 13 % 101) as u8));
		}
		if k % 7 == 0 {
			c.delegations.push((d, 8, x + 3, 0));
		}
	}
	c
}
fn crowded(run: &mut Run) {
	let mut c = crowd();
	c.ops = vec![
		Delegate(31, 1, 33, 20),
		Delegate(32, 1, 11, 0),
		Delegate(32, 7, 29, 60),
		MoreD(11, 1, 14),
		MoreD(25, 1, 1),
		LessD(27, 1, 9),
		Exec(ANY, 27, 1),
		Revoke(15, 1),
		Exec(ANY, 15, 1),
		LeaveD(11),
		ExecLeaveD(ANY, 11),
		LeaveC(1),
		ExecLeaveC(ANY, 1),
	];
	go(run, "a-crowd", c.clone(), &[], 5, 6);
	go(run, "a-crowd-leaving", c, &[LeaveD(11), Revoke(15, 1), LessD(27, 1, 9), LeaveC(1), Round, Round, Round], 5, 6);
}
fn crowded_rounds(run: &mut Run) {
	let mut c = crowd();
	c.round_inflation = Some([1_000_000, 5_000_000, 9_000_000]);
	c.expect = [0, 60, 10_000];
	c.authors = vec![1, 7];
	c.ops = vec![MoreC(4, 25), LessC(7, 12), ExecLessC(ANY, 7), LeaveC(1), Offline(3), Online(3), Revoke(11, 1), SetSelected(O::Root, 7), Auto(15, 1, 0), Auto(13, 1, 44)];
	go(run, "rounds-of-a-crowd", c, &[], 6, 7);
}

fn s01(run: &mut Run) {
	let mut c = base();
	c.ops = vec![
		Join(3, 30),
		MoreC(3, 14),
		LessC(1, 8),
		ExecLessC(ANY, 1),
		Delegate(11, 1, 10, 0),
		Delegate(11, 2, 40, 0),
		Delegate(12, 1, 12, 50),
		Delegate(13, 1, 11, 0),
		Delegate(14, 1, 13, 0),
		MoreD(11, 1, 5),
		MoreD(12, 1, 18),
	];
	go(run, "stakes-grow", c.clone(), &[], 6, 7);
	c.delegations = vec![(11, 1, 10, 0), (11, 2, 20, 0), (12, 1, 12, 0), (13, 1, 11, 0)];
	c.ops = vec![
		Delegate(14, 1, 13, 0),
		MoreD(11, 1, 5),
		Pay(11, 15),
		Revoke(11, 1),
		LessD(12, 1, 6),
		LessD(11, 2, 6),
		LeaveD(11),
		ExecLeaveD(ANY, 11),
		Exec(ANY, 11, 1),
		Exec(ANY, 12, 1),
		Exec(11, 11, 2),
		LeaveC(1),
		ExecLeaveC(ANY, 1),
	];
	go(run, "stakes-shrink", c.clone(), &[], 8, 9);
	c.ops.retain(|o| !matches!(o, Pay(..) | LessD(11, ..)));
	go(run, "a-candidate-leaves", c.clone(), &[LeaveC(1), Round], 8, 9);
	c.annual = [0; 3];
	c.round_inflation = Some([100_000, 200_000, 300_000]);
	c.authors = vec![1, 2];
	c.delegations = vec![(11, 1, 10, 40), (11, 2, 20, 0), (12, 1, 12, 100)];
	c.ops = vec![MoreD(11, 1, 5), Revoke(12, 1), Exec(ANY, 12, 1), Auto(11, 2, 33), LeaveC(1), ExecLeaveC(ANY, 1)];
	go(run, "rewards", c, &[], 8, 9);
	usual();
	crowded(run);
}

fn s02(run: &mut Run) {
	let mut c = base();
	c.delegations = vec![(11, 1, 10, 0), (11, 2, 20, 0), (12, 1, 12, 0), (13, 1, 11, 0)];
	c.ops = vec![
		Delegate(14, 1, 13, 0),
		Delegate(12, 2, 6, 0),
		MoreD(11, 1, 3),
		LessD(12, 1, 6),
		Exec(ANY, 12, 1),
		Revoke(11, 1),
		Exec(ANY, 11, 1),
		LeaveD(11),
		ExecLeaveD(ANY, 11),
		LeaveC(1),
		ExecLeaveC(ANY, 1),
	];
	go(run, "all-places-taken", c.clone(), &[], 8, 9);
	sizes(1, 2, 2);
	go(run, "one-counts", c.clone(), &[LeaveC(1)], 7, 8);
	sizes(2, 1, 3);
	c.candidates.push((3, 10));
	c.delegations = vec![(11, 1, 10, 0), (11, 2, 20, 0), (11, 3, 7, 0), (12, 1, 10, 0), (13, 3, 9, 0)];
	c.ops = vec![
		MoreC(2, 5),
		LessC(2, 15),
		ExecLessC(ANY, 2),
		Revoke(11, 2),
		LessD(11, 3, 3),
		Exec(ANY, 11, 2),
		Exec(ANY, 11, 3),
		Cancel(11, 2),
		LeaveD(11),
		CancelLeaveD(11),
		ExecLeaveD(ANY, 11),
		Delegate(13, 1, 10, 0),
	];
	go(run, "several-candidates", c, &[], 7, 8);
	usual();
	crowded(run);
}

fn s03(run: &mut Run) {
	let mut c = base();
	c.candidates = vec![(1, 20)];
	c.rounds = false;
	c.ops = vec![
		Delegate(11, 1, 10, 0),
		Delegate(12, 1, 12, 0),
		Delegate(13, 1, 10, 0),
		Delegate(14, 1, 13, 0),
		Delegate(15, 1, 11, 0),
		MoreD(11, 1, 2),
		MoreD(13, 1, 1),
		MoreD(15, 1, 0),
	];
	go(run, "newcomers", c.clone(), &[], 8, 9);
	sizes(1, 2, 2);
	go(run, "one-counts", c.clone(), &[], 8, 9);
	sizes(2, 2, 2);
	c.rounds = true;
	c.max_round = 9;
	c.delegations = vec![(11, 1, 10, 0), (12, 1, 12, 0), (13, 1, 10, 0), (14, 1, 13, 0)];
	c.ops = vec![
		LessD(12, 1, 2),
		LessD(14, 1, 4),
		LessD(13, 1, 5),
		Exec(ANY, 12, 1),
		Exec(ANY, 14, 1),
		Exec(ANY, 13, 1),
		Revoke(14, 1),
		Revoke(11, 1),
		Exec(ANY, 11, 1),
		MoreD(13, 1, 3),
		Delegate(15, 1, 11, 0),
	];
	go(run, "changes", c.clone(), &[], 8, 9);
	sizes(2, 1, 2);
	c.delegations = vec![(11, 1, 10, 0), (12, 1, 12, 0), (13, 1, 9, 0)];
	c.ops = vec![
		LessD(12, 1, 3),
		LessD(11, 1, 2),
		LessD(13, 1, 2),
		Exec(ANY, 11, 1),
		Exec(ANY, 12, 1),
		Exec(ANY, 13, 1),
		Delegate(14, 1, 10, 0),
		Delegate(15, 1, 11, 0),
		Revoke(12, 1),
	];
	go(run, "displaced-while-leaving", c, &[], 8, 9);
	usual();
	crowded(run);
}

fn s04(run: &mut Run) {
	let mut c = base();
	c.candidates = vec![(1, 20), (2, 25), (3, 22)];
	c.delegations = vec![(11, 1, 10, 0), (12, 2, 5, 30)];
	c.ops = vec![
		MoreC(3, 8),
		LessC(2, 9),
		ExecLessC(ANY, 2),
		Offline(1),
		Online(1),
		Join(4, 30),
		LeaveC(2),
		CancelLeaveC(2),
		Delegate(14, 3, 12, 0),
		Revoke(11, 1),
		Exec(ANY, 11, 1),
	];
	go(run, "two-of-four", c.clone(), &[], 7, 8);
	c.candidates = vec![(1, 20), (2, 20), (3, 20)];
	c.delegations = vec![(11, 1, 10, 0), (12, 1, 8, 0)];
	sizes(1, 2, 2);
	c.ops = vec![
		MoreC(3, 8),
		MoreC(2, 8),
		Offline(1),
		Online(1),
		Offline(2),
		Offline(3),
		Revoke(11, 1),
		LessD(12, 1, 3),
		MoreD(12, 1, 3),
		Exec(ANY, 11, 1),
		Exec(ANY, 12, 1),
	];
	go(run, "uncounted-and-equal", c.clone(), &[], 7, 8);
	c.selected = 1;
	c.ops.push(SetSelected(O::Root, 2));
	go(run, "one-selected", c, &[], 6, 7);
	let mut c = base();
	c.candidates = vec![(1, 20), (2, 25), (3, 30)];
	c.delegations = vec![(11, 1, 12, 20), (12, 1, 9, 0), (13, 1, 8, 50), (11, 2, 9, 0)];
	c.ops = vec![
		Revoke(11, 1),
		Revoke(12, 1),
		Revoke(13, 1),
		LessD(11, 1, 4),
		LessD(12, 1, 3),
		LessD(13, 1, 2),
		Cancel(12, 1),
		Exec(ANY, 11, 1),
		LeaveD(11),
		MoreD(13, 1, 4),
		Auto(12, 1, 70),
		LessC(1, 6),
	];
	go(run, "several-requests", c, &[], 6, 7);
	usual();
	crowded_rounds(run);
}

fn s05(run: &mut Run) {
	let ops = vec![
		Revoke(11, 1),
		Revoke(11, 2),
		LessD(11, 1, 4),
		LessD(12, 1, 6),
		Exec(ANY, 11, 1),
		Exec(11, 11, 2),
		Exec(12, 12, 1),
		Cancel(11, 1),
		Cancel(12, 1),
		LeaveD(11),
		ExecLeaveD(ANY, 11),
		CancelLeaveD(11),
		MoreD(11, 1, 2),
	];
	let mut c = base();
	c.max_round = 7;
	c.delegations = vec![(11, 1, 10, 0), (11, 2, 20, 0), (12, 1, 12, 0)];
	c.ops = ops;
	go(run, "delegators", c.clone(), &[], 7, 9);
	delays(1, 2, 1, 3, 2, 1);
	go(run, "other-delays", c.clone(), &[], 7, 9);
	delays(0, 0, 0, 0, 0, 1);
	go(run, "no-delays", c.clone(), &[], 6, 8);
	usual();
	c.delegations = vec![(11, 1, 10, 0)];
	c.ops = vec![
		LessC(1, 6),
		LessC(1, 10),
		ExecLessC(ANY, 1),
		ExecLessC(1, 1),
		CancelLessC(1),
		LeaveC(1),
		ExecLeaveC(ANY, 1),
		CancelLeaveC(1),
		MoreC(1, 5),
		Revoke(11, 1),
		Exec(ANY, 11, 1),
		Hotfix(ANY, 1),
	];
	go(run, "candidates", c.clone(), &[], 7, 9);
	delays(1, 3, 1, 1, 2, 1);
	go(run, "candidates-other-delays", c.clone(), &[], 7, 9);
	usual();
	// what is left must reach the minimum
	MinDelegatorStk::set(9);
	c.delegations = vec![(11, 1, 6, 0), (11, 2, 7, 0), (12, 1, 12, 0)];
	c.delegations[0].2 = 9;
	c.ops = vec![
		Revoke(11, 1),
		Revoke(11, 2),
		LessD(11, 1, 4),
		LessD(11, 2, 4),
		LessD(12, 1, 3),
		LessD(12, 1, 4),
		Exec(ANY, 11, 1),
		Exec(ANY, 11, 2),
		Exec(ANY, 12, 1),
		Cancel(11, 1),
		Cancel(11, 2),
		MoreD(11, 1, 5),
	];
	go(run, "minimum", c, &[], 6, 8);
	MinDelegatorStk::set(5);
	// delays as long as on the chain
	delays(28, 28, 28, 28, 28, 2);
	let mut c = base();
	c.max_round = 32;
	c.delegations = vec![(11, 1, 10, 0), (11, 2, 20, 0), (12, 1, 12, 0), (13, 2, 11, 0)];
	c.ops = vec![
		Revoke(12, 1),
		Cancel(11, 1),
		Exec(ANY, 11, 1),
		Exec(ANY, 12, 1),
		ExecLeaveD(ANY, 13),
		CancelLeaveD(13),
		ExecLessC(ANY, 2),
		ExecLeaveC(ANY, 1),
		CancelLeaveC(1),
	];
	let mut p = vec![LessD(11, 1, 4), LeaveD(13), Round, LessC(2, 9), LeaveC(1)];
	p.extend(vec![Round; 25]);
	go(run, "delays-of-weeks", c, &p, 7, 8);
	usual();
}

fn s06(run: &mut Run) {
	let mut c = base();
	c.max_round = 8;
	c.delegations = vec![(11, 1, 10, 0), (11, 2, 20, 0), (12, 1, 12, 50)];
	c.ops = vec![
		LeaveC(1),
		CancelLeaveC(1),
		ExecLeaveC(ANY, 1),
		ExecLeaveC(1, 1),
		Offline(1),
		Online(1),
		MoreC(1, 5),
		LessC(1, 3),
		ExecLessC(ANY, 1),
		Delegate(13, 1, 6, 0),
		Revoke(12, 1),
		Join(1, 30),
		Delegate(1, 2, 10, 0),
		Join(12, 10),
	];
	go(run, "leaving", c.clone(), &[], 7, 8);
	delays(3, 1, 1, 1, 1, 1);
	c.ops = vec![
		LeaveC(1),
		LeaveC(2),
		CancelLeaveC(1),
		CancelLeaveC(2),
		ExecLeaveC(ANY, 1),
		ExecLeaveC(ANY, 2),
		Offline(2),
		Online(2),
		Join(3, 12),
		LeaveD(11),
		ExecLeaveD(ANY, 11),
	];
	go(run, "everybody-leaves", c, &[], 8, 9);
	usual();
	crowded(run);
}

fn s07(run: &mut Run) {
	let mut c = base();
	c.max_round = 4;
	c.candidates = vec![(1, 20), (2, 12)];
	c.ops = vec![
		Join(3, 9),
		Join(3, 10),
		Join(1, 10),
		Join(11, 12),
		Join(4, 40),
		Join(4, 39),
		Delegate(11, 1, 4, 0),
		Delegate(11, 1, 5, 0),
		Delegate(11, 2, 3, 0),
		Delegate(11, 2, 2, 0),
		Delegate(11, 3, 7, 0),
		Delegate(3, 1, 10, 0),
		Delegate(2, 1, 10, 0),
		Delegate(15, 1, 12, 0),
		Delegate(15, 1, 11, 0),
	];
	go(run, "entering", c.clone(), &[], 5, 6);
	c.delegations = vec![(11, 1, 6, 0), (11, 2, 3, 0), (12, 1, 5, 0)];
	c.ops = vec![
		LessC(2, 2),
		LessC(2, 3),
		LessC(2, 200),
		ExecLessC(ANY, 2),
		LessD(11, 1, 2),
		LessD(11, 1, 4),
		LessD(11, 2, 1),
		LessD(12, 1, 1),
		Exec(ANY, 11, 1),
		Exec(ANY, 11, 2),
		Revoke(11, 1),
		MoreD(11, 2, 1),
		Delegate(13, 2, 5, 0),
		Delegate(14, 2, 5, 0),
		Delegate(15, 2, 5, 0),
	];
	go(run, "leaving", c.clone(), &[], 7, 8);
	let all = vec![
		Join(3, 10),
		LeaveC(1),
		ExecLeaveC(ANY, 1),
		CancelLeaveC(1),
		Delegate(12, 2, 5, 50),
		Delegate(13, 1, 5, 0),
		ExecLeaveD(ANY, 11),
		Auto(11, 1, 30),
	];
	c.delegations = vec![(11, 1, 6, 10), (11, 2, 5, 20), (12, 1, 5, 0)];
	c.ops = all.iter().flat_map(|o| [o.clone(), Short(b(o.clone()))]).collect();
	c.ops.push(LeaveD(11));
	go(run, "counts", c.clone(), &[], 6, 7);
	let all = vec![
		Join(3, 10),
		LeaveC(1),
		CancelLeaveC(1),
		Offline(1),
		Online(1),
		MoreC(1, 1),
		LessC(1, 1),
		CancelLessC(1),
		ExecLeaveC(ANY, 1),
		ExecLessC(ANY, 1),
		Delegate(13, 1, 5, 0),
		Delegate(13, 1, 5, 7),
		LeaveD(11),
		ExecLeaveD(ANY, 11),
		CancelLeaveD(11),
		Revoke(11, 1),
		MoreD(11, 1, 1),
		LessD(11, 1, 1),
		Exec(ANY, 11, 1),
		Cancel(11, 1),
		Auto(11, 1, 30),
		Hotfix(ANY, 5),
	];
	c.ops = all.iter().flat_map(|o| [o.clone(), As(O::Root, b(o.clone())), As(O::None, b(o.clone()))]).collect();
	go(run, "origins", c, &[], 4, 5);
	usual();
	crowded(run);
}

fn s08(run: &mut Run) {
	let mut c = base();
	c.round_inflation = Some([1_000_000, 5_000_000, 9_000_000]);
	c.expect = [0, 60, 100];
	c.delegations = vec![(11, 1, 10, 0), (11, 2, 20, 0), (12, 1, 12, 0)];
	c.authors = vec![1, 2];
	c.max_round = 5;
	c.ops = vec![Revoke(12, 1), LessD(11, 2, 7), Delegate(14, 1, 13, 0), LeaveC(1), ExecLeaveC(ANY, 1), MoreC(1, 30)];
	go(run, "shares", c.clone(), &[], 7, 8);
	let mut d = c.clone();
	d.blocks = true;
	d.rounds = false;
	d.max_round = 4;
	d.authors = vec![1, 2, 3];
	d.candidates.push((3, 21));
	d.selected = 3;
	d.len = 4;
	d.ops = vec![Offline(2), SetCommission(O::Root, 500_000_000)];
	go(run, "block-by-block", d, &[], 12, 13);
	delays(2, 1, 3, 2, 1, 2);
	c.max_round = 6;
	c.ops = vec![Revoke(12, 1), Exec(ANY, 12, 1), MoreD(11, 1, 9), MoreC(2, 8), SetCommission(O::Root, 1_000_000_000)];
	go(run, "two-rounds-later", c.clone(), &[], 7, 8);
	usual();
	// the reserve runs dry
	c.payer = 700;
	c.round_inflation = Some([100_000_000, 200_000_000, 300_000_000]);
	c.ops = vec![Pay(14, 30), MoreD(11, 1, 3)];
	go(run, "not-enough", c.clone(), &[], 9, 10);
	// expectations
	c.payer = 100_000;
	c.expect = [80, 90, 95];
	c.ops = vec![MoreC(1, 10), MoreC(1, 8), Delegate(14, 2, 6, 0), SetExpect(O::Signed(GOV), [0, 1, 2])];
	go(run, "expectations", c, &[], 7, 8);
	usual();
	crowded_rounds(run);
}

fn s09(run: &mut Run) {
	let mut c = base();
	c.round_inflation = Some([1_000_000, 5_000_000, 9_000_000]);
	c.delegations = vec![(11, 1, 10, 33), (11, 2, 20, 100), (12, 1, 12, 0)];
	c.authors = vec![1];
	c.max_round = 6;
	c.ops = vec![
		Auto(11, 1, 0),
		Auto(12, 1, 50),
		Auto(13, 1, 50),
		Revoke(11, 1),
		LessD(11, 1, 3),
		Exec(ANY, 11, 1),
		Delegate(13, 1, 11, 7),
		MoreD(12, 1, 2),
	];
	go(run, "compounding", c.clone(), &[], 7, 8);
	c.authors.clear();
	c.ops = vec![
		Delegate(13, 1, 11, 25),
		Delegate(14, 1, 13, 75),
		Delegate(15, 1, 11, 0),
		Auto(12, 1, 10),
		Auto(11, 1, 0),
		Revoke(12, 1),
		Exec(ANY, 12, 1),
		LeaveD(11),
		ExecLeaveD(ANY, 11),
		LeaveC(1),
		ExecLeaveC(ANY, 1),
		Join(1, 12),
	];
	go(run, "settings", c, &[], 8, 9);
	usual();
	crowded(run);
	usual();
	crowded_rounds(run);
}

fn s10(run: &mut Run) {
	let mut c = base();
	c.blocks = true;
	c.rounds = false;
	c.max_round = 5;
	c.authors = vec![1, 2, 3];
	c.ops = vec![SetBlocks(O::Root, 5), SetBlocks(O::Root, 4), SetSelected(O::Root, 1), Offline(1), Offline(2), Online(1)];
	go(run, "blocks", c.clone(), &[], 10, 11);
	c.rounds = true;
	c.blocks = false;
	delays(2, 1, 3, 2, 1, 2);
	c.ops = vec![SetBlocks(O::Root, 7), SetBlocks(O::Root, 3), LeaveC(1), ExecLeaveC(ANY, 1), Join(3, 30)];
	go(run, "rounds", c.clone(), &[], 9, 10);
	c.rounds = false;
	c.blocks = true;
	c.busy = 7;
	c.max_round = 3;
	c.authors = vec![1, 2];
	c.ops = vec![SetBlocks(O::Root, 7), SetBlocks(O::Root, 5)];
	go(run, "busy", c, &[], 12, 16);
}

fn s11(run: &mut Run) {
	let mut c = base();
	c.max_round = 3;
	let gov = O::Signed(GOV);
	let calls = |o: O| {
		vec![
			SetExpect(o, [1, 2, 3]),
			SetInflation(o, [20_000_000, 50_000_000, 70_000_000]),
			SetBondAccount(o, 7),
			SetReserve(o, 30),
			SetSelected(o, 1),
			SetCommission(o, 300_000_000),
			SetBlocks(o, 5),
		]
	};
	c.ops = [O::Root, gov, O::None, O::Signed(1)].into_iter().flat_map(calls).collect();
	go(run, "origins", c.clone(), &[], 5, 6);
	c.ops = vec![
		SetExpect(gov, [3, 2, 4]),
		SetExpect(gov, [1, 5, 4]),
		SetExpect(gov, [2, 2, 2]),
		SetExpect(gov, [0, 10, 1_000_000]),
		SetInflation(gov, [2, 1, 3]),
		SetInflation(gov, [1, 3, 2]),
		SetInflation(gov, [0, 0, 0]),
		SetInflation(gov, [10_000_000, 50_000_000, 999_999_999]),
		SetSelected(O::Root, 0),
		SetSelected(O::Root, 3),
		SetSelected(O::Root, 2),
		SetSelected(O::Root, 4),
		SetBlocks(O::Root, 1),
		SetBlocks(O::Root, 2),
		SetBlocks(O::Root, 3),
		SetBlocks(O::Root, 4),
		SetBlocks(O::Root, 1800),
		SetCommission(O::Root, 0),
		SetCommission(O::Root, 1_000_000_000),
		SetReserve(gov, 0),
		SetReserve(gov, 100),
	];
	go(run, "limits", c, &[], 6, 7);
}
