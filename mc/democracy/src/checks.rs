use crate::{model::*, runtime::*, sys::*};
use engine::{Check, Enumeration, Run, Scenario};

pub const CHECKS: &[Check] = &[
	Check { property: "D01", run: d01 },
	Check { property: "D02", run: d02 },
	Check { property: "D03", run: d03 },
	Check { property: "D04", run: d04 },
	Check { property: "D05", run: d05 },
	Check { property: "D06", run: d06 },
	Check { property: "D07", run: d07 },
	Check { property: "D08", run: d08 },
	Check { property: "D09", run: d09 },
	Check { property: "D10", run: d10 },
	Check { property: "D11", run: d11 },
	Check { property: "D12", run: d12 },
	Check { property: "D13", run: d13 },
	Check { property: "D14", run: d14 },
];

use O::Signed as S;

fn std(aye: bool, conv: u8, bal: u64) -> V {
	V::Std { aye, conv, bal }
}
/// Defaults; a scenario changes what it needs.
fn params() {
	LaunchPeriod::set(2);
	VotingPeriod::set(3);
	EnactmentPeriod::set(2);
	VoteLockingPeriod::set(2);
	FastTrackVotingPeriod::set(2);
	CooloffPeriod::set(3);
	MinimumDeposit::set(2);
	MaxVotes::set(3);
	MaxProposals::set(3);
	MaxDeposits::set(3);
	MaxBlacklisted::set(2);
	InstantAllowedN::set(1);
	NonVoters::set(0);
}
fn base() -> Cfg {
	params();
	Cfg { balances: vec![(1, 40), (2, 30), (3, 20)], max_now: 30, max_refs: 2, ..Default::default() }
}
/// two referenda open from the start, ending `period` and `period + 1` blocks from now
fn two_refs(delay: u64, period: u64) -> Vec<Op> {
	vec![
		Op::ExtPropose { thr: Thr::Simple, by: S(EXT_MAJ), call: 1 },
		Op::FastTrack { by: S(FAST), call: 1, period, delay },
		Op::ExtPropose { thr: Thr::Against, by: S(EXT_DEF), call: 2 },
		Op::FastTrack { by: S(FAST), call: 2, period: period + 1, delay },
	]
}
fn one_ref(thr: Thr, period: u64, delay: u64, call: u8) -> Vec<Op> {
	let by = S(if thr == Thr::Simple { EXT_MAJ } else { EXT_DEF });
	vec![Op::ExtPropose { thr, by, call }, Op::FastTrack { by: S(FAST), call, period, delay }]
}
fn go(run: &mut Run, name: &str, cfg: Cfg, prefix: Vec<Op>, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix, depth });
}

/// The same after many blocks, referenda and proposals: the indices grow beyond a byte.
fn late(run: &mut Run, name: &str, mut cfg: Cfg, mut prefix: Vec<Op>, quick: usize, thorough: usize) {
	let (b, r0, p0) = (1_000_200, 254, 254);
	cfg.first = (b, r0, p0);
	for op in &mut prefix {
		match op {
			Op::Vote { r, .. } | Op::RemoveVote { r, .. } | Op::RemoveOther { r, .. } => *r += r0,
			Op::Second { prop, .. } => *prop += p0,
			_ => {},
		}
	}
	go(run, &format!("{name}-late"), cfg, prefix, quick, thorough);
}

fn voting_cfg() -> Cfg {
	let mut cfg = base();
	cfg.votes = vec![
		(1, std(true, 1, 10)),
		(1, std(false, 3, 7)),
		(1, V::Split { aye: 15, nay: 20 }),
		(2, std(true, 0, 25)),
		(2, std(false, 2, 11)),
		(3, std(true, 6, 20)),
	];
	cfg.delegate = vec![(3, 1, 1, 9), (3, 2, 4, 20), (2, 1, 0, 25), (1, 2, 2, 13)];
	cfg.undelegate = vec![1, 2, 3];
	cfg.remove = vec![1, 2, 3];
	cfg.max_now = 3;
	cfg
}

fn d01(run: &mut Run) {
	go(run, "votes-and-delegations-on-two-referenda", voting_cfg(), two_refs(1, 20), 7, 8);
	// every conviction, one voter with one delegator, votes changed in place
	let mut cfg = base();
	for c in 0..=6 {
		cfg.votes.push((1, std(c % 2 == 0, c, 13 + c as u64)));
		cfg.delegate.push((2, 1, c, 21 + c as u64));
	}
	cfg.votes.push((1, V::Split { aye: 19, nay: 11 }));
	cfg.votes.push((1, V::Split { aye: 0, nay: 40 }));
	cfg.votes.push((1, std(false, 5, 0)));
	cfg.delegate.push((2, 1, 3, 0));
	cfg.undelegate = vec![2];
	cfg.remove = vec![1];
	cfg.max_refs = 1;
	cfg.max_now = 1;
	go(run, "every-conviction", cfg, one_ref(Thr::Simple, 20, 1, 1), 7, 9);
	// referenda that end or are cancelled while votes and delegations are in force
	let mut cfg = voting_cfg();
	cfg.max_now = 30;
	cfg.cancel_ref = vec![O::Root];
	cfg.votes.truncate(4);
	go(run, "referenda-ending-under-delegations", cfg.clone(), two_refs(1, 2), 8, 9);
	late(run, "referenda-ending-under-delegations", cfg, two_refs(1, 2), 6, 8);
	many_votes(run, 6, 7);
	many_delegators(run, 6, 7);
}

/// A voter with many votes, the referenda among them ongoing, decided and cancelled.
fn many_votes(run: &mut Run, quick: usize, thorough: usize) {
	let mut cfg = base();
	MaxVotes::set(14);
	cfg.first = (0, 250, 0);
	cfg.max_refs = 14;
	cfg.max_now = 20;
	cfg.only = vec![250, 255, 256, 257, 262, 263];
	cfg.votes = vec![(1, std(true, 1, 10)), (1, V::Split { aye: 3, nay: 37 }), (2, std(false, 2, 30))];
	cfg.remove = vec![1];
	cfg.delegate = vec![(3, 1, 1, 20), (3, 2, 6, 7)];
	cfg.undelegate = vec![3];
	cfg.unlock = vec![(3, 1)];
	cfg.cancel_ref = vec![O::Root];
	let mut p = vec![];
	for i in 0..13u32 {
		let period = if i % 3 == 0 { 2 } else { 9 };
		p.extend(one_ref(if i % 2 == 0 { Thr::Simple } else { Thr::Against }, period, 1, 1 + (i % 2) as u8));
		// in an order that is neither rising nor falling
		let r = 250 + i * 5 % 13;
		if r <= 250 + i && r != 257 {
			p.push(Op::Vote { who: 1, r, v: std(r % 2 == 0, (r % 3) as u8, 20 + i as u64) });
		}
	}
	for i in 0..13u32 {
		let r = 250 + i * 5 % 13;
		if r > 250 + i {
			p.push(Op::Vote { who: 1, r, v: std(r % 2 == 1, (r % 4) as u8, 10 + i as u64) });
		}
	}
	p.extend([Op::Next, Op::Next]);
	go(run, "many-votes", cfg, p, quick, thorough);
	MaxVotes::set(3);
}

/// Many accounts that delegate to one.
fn many_delegators(run: &mut Run, quick: usize, thorough: usize) {
	let mut cfg = base();
	cfg.balances = (1..=14).map(|a| (a, 20 + a)).collect();
	cfg.max_refs = 2;
	cfg.max_now = 4;
	cfg.votes = vec![(1, std(true, 1, 10)), (1, std(false, 3, 7)), (1, V::Split { aye: 3, nay: 4 })];
	cfg.remove = vec![1];
	cfg.delegate = vec![(3, 1, 6, 23), (14, 1, 2, 34), (12, 2, 1, 5), (1, 2, 1, 9)];
	cfg.undelegate = vec![2, 7, 13, 12];
	cfg.unlock = vec![(1, 1), (1, 7)];
	let mut p = two_refs(1, 3);
	p.push(Op::Vote { who: 1, r: 1, v: std(false, 2, 13) });
	p.extend((2..=13).map(|a| Op::Delegate { who: a, to: 1, conv: (a % 7) as u8, bal: 10 + a }));
	go(run, "many-delegators", cfg, p, quick, thorough);
}

fn d02(run: &mut Run) {
	let mut cfg = base();
	cfg.votes = vec![(1, std(true, 1, 10)), (2, std(false, 0, 30)), (3, V::Split { aye: 3, nay: 4 })];
	cfg.delegate = vec![
		(1, 2, 1, 40),
		(1, 3, 0, 39),
		(2, 1, 6, 30),
		(2, 3, 2, 10),
		(3, 1, 3, 20),
		(3, 2, 4, 1),
		(3, 3, 1, 1),
		(1, 2, 1, 41),
		(2, 9, 1, 5),
	];
	cfg.undelegate = vec![1, 2, 3];
	cfg.remove = vec![1, 2, 3];
	cfg.max_refs = 1;
	cfg.max_now = 2;
	go(run, "delegation-graphs", cfg.clone(), one_ref(Thr::Simple, 20, 1, 1), 8, 9);
	cfg.max_now = 30;
	cfg.unlock = vec![(9, 1), (9, 3)];
	cfg.delegate.truncate(6);
	go(run, "delegation-over-time", cfg, one_ref(Thr::Against, 2, 1, 1), 8, 9);
	many_votes(run, 6, 7);
	many_delegators(run, 6, 7);
}

fn lock_cfg() -> Cfg {
	let mut cfg = base();
	cfg.votes = vec![
		(1, std(true, 1, 10)),
		(1, std(false, 2, 25)),
		(1, std(true, 0, 35)),
		(1, V::Split { aye: 12, nay: 6 }),
		(2, std(true, 3, 30)),
	];
	cfg.remove = vec![1];
	cfg.remove_other = vec![(3, 1)];
	cfg.unlock = vec![(3, 1)];
	cfg.delegate = vec![(1, 2, 1, 20)];
	cfg.undelegate = vec![1];
	cfg
}

fn locks(run: &mut Run) {
	let p = two_refs(1, 2);
	go(run, "locks-of-one-voter", lock_cfg(), p, 11, 12);
	// from a state in which both referenda have ended and the voter won both
	let mut p = two_refs(1, 2);
	p.push(Op::Vote { who: 1, r: 0, v: std(true, 2, 30) });
	p.push(Op::Vote { who: 1, r: 1, v: std(true, 1, 40) });
	p.extend([Op::Next, Op::Next, Op::Next]);
	let mut cfg = lock_cfg();
	cfg.votes.clear();
	cfg.delegate = vec![(1, 2, 1, 20), (1, 3, 2, 7)];
	go(run, "locks-after-winning-two", cfg, p, 15, 17);
	// won one, lost the other, a third is open
	VotingPeriod::set(3);
	let mut p = two_refs(1, 2);
	p.push(Op::Vote { who: 1, r: 0, v: std(true, 2, 12) });
	p.push(Op::Vote { who: 1, r: 1, v: std(false, 1, 33) });
	p.push(Op::Vote { who: 2, r: 1, v: std(true, 3, 30) });
	p.extend([Op::Next, Op::Next]);
	p.push(Op::ExtPropose { thr: Thr::Simple, by: S(EXT_MAJ), call: 1 });
	p.push(Op::FastTrack { by: S(FAST), call: 1, period: 2, delay: 1 });
	p.push(Op::Next);
	let mut cfg = lock_cfg();
	cfg.max_refs = 3;
	cfg.votes = vec![(1, std(true, 1, 21)), (2, std(false, 1, 30))];
	cfg.cancel_ref = vec![O::Root];
	go(run, "locks-won-lost-open", cfg, p, 12, 13);
	// delegations of several convictions, ended and renewed
	let mut cfg = base();
	cfg.delegate = vec![(1, 2, 1, 20), (1, 2, 0, 40), (1, 3, 2, 10)];
	cfg.undelegate = vec![1];
	cfg.unlock = vec![(1, 1)];
	cfg.votes = vec![(1, std(true, 1, 15))];
	cfg.remove = vec![1];
	cfg.max_refs = 1;
	go(run, "locks-of-a-delegator", cfg, one_ref(Thr::Simple, 3, 1, 1), 12, 14);
	// of funds that are on hold, and may be slashed, at the same time
	let mut cfg = base();
	cfg.propose = vec![(S(1), 1, 15), (S(1), 2, 24)];
	cfg.votes = vec![(1, std(true, 1, 40)), (1, std(true, 2, 16)), (1, V::Split { aye: 16, nay: 0 }), (1, std(false, 0, 0))];
	cfg.delegate = vec![(1, 2, 1, 40), (1, 2, 0, 25)];
	cfg.undelegate = vec![1];
	cfg.remove = vec![1];
	cfg.unlock = vec![(2, 1)];
	cfg.cancel_prop = vec![S(CANCELPROP)];
	LaunchPeriod::set(50);
	cfg.max_refs = 1;
	go(run, "locks-of-deposits", cfg, one_ref(Thr::Simple, 2, 1, 1), 9, 10);
	LaunchPeriod::set(2);
	late(run, "locks-of-one-voter", lock_cfg(), two_refs(1, 2), 8, 10);
	many_votes(run, 6, 7);
}
/// Locks as long as they are on the chain: time goes in leaps.
fn long_locks(run: &mut Run) {
	let mut cfg = lock_cfg();
	VoteLockingPeriod::set(100_800);
	cfg.jump = true;
	cfg.max_now = 0;
	cfg.votes.clear();
	cfg.max_refs = 3;
	cfg.remove = vec![1, 2];
	cfg.remove_other = vec![(3, 1), (1, 2)];
	cfg.unlock = vec![(3, 1), (1, 2)];
	cfg.delegate = vec![(1, 2, 3, 20), (2, 3, 6, 30), (1, 3, 0, 40)];
	cfg.undelegate = vec![1, 2];
	let mut p = two_refs(1, 2);
	p.extend(one_ref(Thr::Simple, 2, 1, 1));
	for (who, r, v) in [
		(1, 0, std(true, 6, 30)),
		(1, 1, std(true, 4, 40)),
		(1, 2, std(true, 2, 21)),
		(2, 0, std(true, 5, 17)),
		(2, 1, std(false, 1, 30)),
	] {
		p.push(Op::Vote { who, r, v });
	}
	p.extend((0..5).map(|_| Op::Next));
	go(run, "locks-of-weeks-and-years", cfg.clone(), p.clone(), 9, 11);
	late(run, "locks-of-weeks-and-years", cfg, p, 7, 9);
	VoteLockingPeriod::set(2);
}
fn d03(run: &mut Run) {
	locks(run);
	long_locks(run)
}
fn d04(run: &mut Run) {
	locks(run);
	long_locks(run)
}

fn d05(run: &mut Run) {
	let mut cfg = base();
	cfg.balances = vec![(1, 10), (2, 9)];
	cfg.propose = vec![(S(1), 1, 2), (S(2), 2, 5), (S(1), 2, 1)];
	cfg.second = vec![1, 2];
	cfg.cancel_prop = vec![S(CANCELPROP)];
	cfg.black = vec![(S(BLACK), 2, false)];
	cfg.clear = vec![O::Root];
	go(run, "deposits", cfg.clone(), vec![], 9, 10);
	// one account backs a proposal several times; several proposals with one hash
	cfg.propose = vec![(S(1), 1, 3), (S(2), 1, 2)];
	cfg.second = vec![1];
	cfg.black = vec![(S(BLACK), 1, false)];
	cfg.ext = vec![(Thr::Simple, S(EXT_MAJ), 2)];
	go(run, "deposits-of-duplicates", cfg.clone(), vec![], 10, 11);
	late(run, "deposits-of-duplicates", cfg, vec![], 7, 9);
	many_deposits(run);
	many_proposals(run, 6, 7);
}

/// More deposits than a single byte can count in its compact form.
fn many_deposits(run: &mut Run) {
	let mut cfg = base();
	MaxDeposits::set(65);
	LaunchPeriod::set(3);
	cfg.balances = vec![(1, 300), (2, 100)];
	cfg.propose = vec![(S(2), 1, 70)];
	cfg.second = vec![1, 2];
	cfg.cancel_prop = vec![S(CANCELPROP)];
	cfg.clear = vec![O::Root];
	cfg.black = vec![(S(BLACK), 1, false)];
	let mut p = vec![Op::Propose { who: S(1), call: 2, value: 2 }];
	p.extend((0..61).map(|i| Op::Second { who: 1 + (i % 5 == 0) as u64, prop: 0 }));
	go(run, "many-deposits", cfg, p, 8, 9);
	MaxDeposits::set(3);
	LaunchPeriod::set(2);
}

/// More proposals than the other scenarios have, some with the same call and some with the same backing.
fn many_proposals(run: &mut Run, quick: usize, thorough: usize) {
	let mut cfg = base();
	MaxProposals::set(14);
	cfg.balances = vec![(1, 200), (2, 200), (3, 200)];
	cfg.propose = vec![(S(1), 2, 4), (S(3), 1, 6)];
	cfg.second = vec![2];
	cfg.only = vec![0, 4, 9, 12, 13];
	cfg.cancel_prop = vec![S(CANCELPROP)];
	cfg.black = vec![(S(BLACK), 1, false)];
	cfg.clear = vec![O::Root];
	cfg.meta = vec![(S(1), 1, Some(1)), (S(1), 1, None)];
	cfg.max_refs = 0;
	LaunchPeriod::set(2);
	let mut p: Vec<Op> = (0..13)
		.map(|i| Op::Propose { who: S(1 + i % 3), call: 1 + (i % 3) as u8, value: 2 + i * 5 % 7 })
		.collect();
	p.extend([9, 10, 3, 9].map(|prop| Op::Second { who: 3, prop }));
	p.extend([0, 3, 6, 9, 12].map(|n| Op::SetMeta { by: S(1), owner: Own::Proposal(n), set: Some(1) }));
	go(run, "many-proposals", cfg, p, quick, thorough);
	MaxProposals::set(3);
}

fn d06(run: &mut Run) {
	let mut cfg = base();
	cfg.propose = vec![(S(1), 1, 3), (S(2), 2, 5), (S(3), 3, 2)];
	cfg.second = vec![1, 2];
	cfg.ext = vec![(Thr::Approve, S(EXT), 1), (Thr::Simple, S(EXT_MAJ), 2), (Thr::Against, S(EXT_DEF), 3)];
	go(run, "tabling", cfg.clone(), vec![], 8, 10);
	late(run, "tabling", cfg.clone(), vec![], 7, 9);
	LaunchPeriod::set(3);
	VotingPeriod::set(5);
	cfg.second = vec![1];
	cfg.fast = vec![(S(FAST), 2, 2, 0), (S(INSTANT), 3, 1, 4)];
	cfg.veto = vec![(S(VETO1), 2)];
	cfg.cancel_prop = vec![S(CANCELPROP)];
	cfg.clear = vec![O::Root];
	go(run, "tabling-with-interventions", cfg, vec![], 8, 9);
	many_deposits(run);
	many_proposals(run, 6, 7);
}

fn outcome_cfg() -> Cfg {
	let mut cfg = base();
	cfg.balances = vec![(1, 100), (2, 60), (3, 30)];
	cfg.votes = vec![
		(1, std(true, 1, 60)),
		(1, std(false, 0, 90)),
		(2, std(false, 1, 60)),
		(2, std(true, 2, 12)),
		(3, std(false, 2, 30)),
		(3, V::Split { aye: 10, nay: 20 }),
	];
	cfg.max_now = 7;
	cfg
}
fn d07(run: &mut Run) {
	// a super-majority-approve referendum tabled from the public queue and a second one
	let pre = vec![
		Op::Propose { who: S(1), call: 1, value: 2 },
		Op::Next, // tabled at block 2, ends at block 5
	];
	let mut cfg = outcome_cfg();
	cfg.max_refs = 1;
	cfg.delegate = vec![(3, 1, 2, 30), (2, 3, 1, 60)];
	cfg.undelegate = vec![3];
	cfg.remove = vec![1];
	go(run, "outcome-super-majority-approve", cfg.clone(), pre, 10, 11);
	cfg.delegate.truncate(1);
	go(run, "outcome-super-majority-against", cfg.clone(), one_ref(Thr::Against, 3, 0, 1), 10, 12);
	go(run, "outcome-simple-majority", cfg.clone(), one_ref(Thr::Simple, 2, 2, 1), 10, 12);
	// part of the issuance has no say
	NonVoters::set(90);
	go(run, "outcome-in-a-small-electorate", cfg.clone(), one_ref(Thr::Against, 3, 0, 1), 8, 10);
	cfg.votes = vec![(1, std(true, 0, 60)), (2, std(false, 0, 60)), (1, std(true, 0, 90)), (2, std(false, 0, 10))];
	let pre = vec![Op::Propose { who: S(1), call: 1, value: 2 }, Op::Next];
	go(run, "outcome-in-a-small-electorate-approve", cfg, pre, 8, 10);
	NonVoters::set(0);
	// several referenda with different lengths; none may be skipped or decided twice
	let mut cfg = outcome_cfg();
	cfg.votes = vec![(1, std(true, 1, 60)), (2, std(false, 1, 60))];
	cfg.ext = vec![(Thr::Simple, S(EXT_MAJ), 1), (Thr::Against, S(EXT_DEF), 2)];
	cfg.fast = vec![(S(FAST), 1, 2, 0), (S(FAST), 2, 4, 1), (S(INSTANT), 1, 1, 1)];
	cfg.max_refs = 4;
	cfg.cancel_ref = vec![O::Root];
	cfg.max_now = 12;
	cfg.bogus = true;
	many_referenda(run, 8, 10);
	go(run, "overlapping-referenda", cfg.clone(), vec![], 10, 11);
	late(run, "overlapping-referenda", cfg, vec![], 8, 10);
}

/// A long referendum, and many short ones that come and go meanwhile.
fn many_referenda(run: &mut Run, quick: usize, thorough: usize) {
	let mut cfg = outcome_cfg();
	cfg.votes = vec![(1, std(true, 1, 60))];
	cfg.ext = vec![(Thr::Simple, S(EXT_MAJ), 1)];
	cfg.fast = vec![(S(FAST), 1, 2, 0), (S(INSTANT), 1, 1, 1)];
	cfg.max_refs = 14;
	cfg.only = vec![0, 3, 8, 11];
	cfg.cancel_ref = vec![O::Root];
	cfg.max_now = 16;
	let mut p = one_ref(Thr::Against, 8, 3, 2);
	for i in 0..10u32 {
		p.extend(one_ref(if i % 2 == 0 { Thr::Simple } else { Thr::Against }, [2, 3, 7][i as usize % 3], 1, 1 + (i % 2) as u8));
		if i % 2 == 0 {
			p.push(Op::Vote { who: 2, r: i + 1, v: std(i % 4 == 0, 1, 40) });
		}
	}
	p.extend([Op::Next, Op::Next]);
	go(run, "many-referenda", cfg, p, quick, thorough);
}

fn d08(run: &mut Run) {
	let mut cfg = base();
	cfg.votes = vec![(1, std(true, 1, 40)), (2, std(false, 2, 30))];
	cfg.ext = vec![(Thr::Simple, S(EXT_MAJ), 1), (Thr::Against, S(EXT_DEF), 3)];
	cfg.fast = vec![(S(FAST), 1, 2, 0), (S(FAST), 3, 2, 3), (S(INSTANT), 1, 1, 1)];
	cfg.max_refs = 3;
	cfg.cancel_ref = vec![O::Root];
	cfg.emergency = vec![S(CANCEL)];
	go(run, "enactment", cfg.clone(), vec![], 10, 11);
	late(run, "enactment", cfg.clone(), vec![], 8, 9);
	// while the first waits for its enactment, 256 more are started
	let mut c = base();
	c.max_refs = 300;
	c.only = vec![0, 1, 255, 256, 257];
	c.votes = vec![(1, std(true, 1, 40)), (2, std(false, 2, 30))];
	c.cancel_ref = vec![O::Root];
	let mut p = one_ref(Thr::Simple, 2, 6, 2);
	p.push(Op::Vote { who: 1, r: 0, v: std(true, 1, 40) });
	p.extend([Op::Next, Op::Next]);
	for _ in 0..257 {
		p.extend(one_ref(Thr::Simple, 2, 3, 1));
	}
	p.push(Op::Vote { who: 1, r: 256, v: std(true, 1, 40) });
	go(run, "enactment-of-many", c, p, 7, 8);
	// from a state with two referenda about to be decided
	let mut p = two_refs(1, 2);
	p.push(Op::Vote { who: 1, r: 0, v: std(true, 1, 40) });
	p.push(Op::Vote { who: 2, r: 1, v: std(true, 1, 30) });
	p.push(Op::Next);
	cfg.remove = vec![1, 2];
	cfg.propose = vec![(S(1), 3, 2)];
	EnactmentPeriod::set(4);
	go(run, "enactment-of-decided-referenda", cfg, p, 9, 11);
}

fn d09(run: &mut Run) {
	use pallet_democracy::{Approved, Tally};
	let hi: u64 = if run.thorough { 90 } else { 45 };
	let mut e = Enumeration {
		name: "every-small-tally".into(),
		rule: format!(
			"every (ayes, nays, turnout, electorate) with ayes, nays <= {hi}, turnout <= 2*{hi}, electorate <= 3*{hi}, \
			 for all three thresholds, against exact rational comparison with integer square roots; non-trivial: \
			 turnout and electorate not zero"
		),
		..Default::default()
	};
	let sq: Vec<u128> = (0..=3 * hi).map(|n| isqrt(n) as u128).collect();
	'all: for t in [Thr::Approve, Thr::Against, Thr::Simple] {
		let th = to_thr(t);
		for ayes in 0..=hi {
			for nays in 0..=hi {
				for turnout in 0..=2 * hi {
					for electorate in 1..=3 * hi {
						e.evaluated += 1;
						let want = {
							let (sv, se) = (sq[turnout as usize], sq[electorate as usize]);
							sv != 0 &&
								match t {
									Thr::Approve => (nays as u128) * se < (ayes as u128) * sv,
									Thr::Against => (nays as u128) * sv < (ayes as u128) * se,
									Thr::Simple => ayes > nays,
								}
						};
						e.nontrivial += (turnout > 0) as u64;
						let got = th.approved(Tally { ayes, nays, turnout }, electorate);
						if got != want {
							e.violation = Some(format!(
								"{t:?}: ayes {ayes}, nays {nays}, turnout {turnout}, electorate {electorate}: \
								 approved={got}, must be {want}"
							));
							break 'all;
						}
					}
				}
			}
		}
	}
	e.samples = vec!["SuperMajorityApprove ayes=60 nays=45 turnout=90 electorate=135".into()];
	run.enumerate(e);

	// large amounts: around powers of two and round token amounts, in the chain's 128-bit balance
	let mut vals: Vec<u128> = vec![0, 1, 2, 3, 5, 9, 10, 99, 100, 1_000_003];
	for k in [8, 16, 31, 32, 33, 48, 62, 63] {
		vals.extend([(1u128 << k) - 1, 1u128 << k, (1u128 << k) + 1]);
	}
	for m in [1u128, 7, 100] {
		vals.extend([m * 10_000_000_000, m * 10_000_000_000 - 1, m * 10_000_000_000 + 1]);
	}
	let root = |n: u128| {
		let (mut lo, mut hi) = (0u128, 1u128 << 64);
		while lo + 1 < hi {
			let mid = (lo + hi) / 2;
			if mid * mid <= n {
				lo = mid
			} else {
				hi = mid
			}
		}
		lo
	};
	let roots: Vec<u128> = vals.iter().map(|v| root(*v)).collect();
	let mut e = Enumeration {
		name: "boundary-tallies".into(),
		rule: "every combination of boundary values (powers of two and token amounts, each +-1) for the four inputs, \
		       exact 128-bit products; non-trivial: turnout and electorate not zero"
			.into(),
		samples: vec![format!("values: {vals:?}")],
		..Default::default()
	};
	'all2: for t in [Thr::Approve, Thr::Against, Thr::Simple] {
		let th = to_thr(t);
		for &ayes in &vals {
			for &nays in &vals {
				for (i, &turnout) in vals.iter().enumerate() {
					for (j, &electorate) in vals.iter().enumerate() {
						if electorate == 0 {
							continue;
						}
						e.evaluated += 1;
						e.nontrivial += (turnout > 0) as u64;
						let (sv, se) = (roots[i], roots[j]);
						let want = sv != 0 &&
							match t {
								Thr::Approve => nays * se < ayes * sv,
								Thr::Against => nays * sv < ayes * se,
								Thr::Simple => ayes > nays,
							};
						let got = th.approved(Tally { ayes, nays, turnout }, electorate);
						if got != want {
							e.violation = Some(format!(
								"{t:?}: ayes {ayes}, nays {nays}, turnout {turnout}, electorate {electorate}: \
								 approved={got}, must be {want}"
							));
							break 'all2;
						}
					}
				}
			}
		}
	}
	run.enumerate(e);
}

fn d10(run: &mut Run) {
	let mut cfg = base();
	cfg.propose = vec![(S(1), 1, 2)];
	cfg.ext = vec![(Thr::Approve, S(EXT), 1), (Thr::Simple, S(EXT_MAJ), 1), (Thr::Simple, S(EXT_MAJ), 2)];
	cfg.veto = vec![(S(VETO1), 1), (S(VETO2), 1), (S(VETO1), 2), (S(VETO3), 1)];
	cfg.black = vec![(S(BLACK), 1, true)];
	cfg.max_refs = 2;
	go(run, "veto-and-blacklist", cfg.clone(), vec![], 10, 12);
	late(run, "veto-and-blacklist", cfg.clone(), vec![], 7, 9);
	cfg.veto = vec![(S(VETO1), 1)];
	cfg.fast = vec![(S(FAST), 1, 3, 1), (S(FAST), 2, 3, 1)];
	cfg.emergency = vec![S(CANCEL)];
	cfg.ext = vec![(Thr::Simple, S(EXT_MAJ), 1), (Thr::Against, S(EXT_DEF), 2)];
	cfg.max_refs = 3;
	go(run, "emergency-cancel-and-blacklist", cfg, vec![], 10, 12);
	many_vetoers(run);
}

/// More vetoers, in no order, and a limit that most of them reach.
fn many_vetoers(run: &mut Run) {
	let mut cfg = base();
	MaxBlacklisted::set(6);
	CooloffPeriod::set(1);
	cfg.ext = vec![(Thr::Simple, S(EXT_MAJ), 1), (Thr::Approve, S(EXT), 1)];
	cfg.veto = [VETO3, VETO1, VETO4, VETO9, VETO4 + 2].map(|v| (S(v), 1)).to_vec();
	cfg.black = vec![(S(BLACK), 1, false)];
	cfg.max_refs = 1;
	LaunchPeriod::set(50);
	let mut p = vec![];
	for v in [VETO4 + 3, VETO2, VETO4 + 1] {
		p.push(Op::ExtPropose { thr: Thr::Simple, by: S(EXT_MAJ), call: 1 });
		p.push(Op::Veto { by: S(v), call: 1 });
	}
	go(run, "many-vetoers", cfg, p, 10, 12);
	LaunchPeriod::set(2);
	CooloffPeriod::set(3);
	MaxBlacklisted::set(2);
}

fn d11(run: &mut Run) {
	let mut cfg = base();
	let who = [O::Root, O::None, S(1), S(EXT), S(EXT_MAJ), S(EXT_DEF), S(FAST), S(INSTANT), S(CANCEL), S(BLACK), S(CANCELPROP), S(VETO1)];
	for &o in &who {
		for t in [Thr::Approve, Thr::Simple, Thr::Against] {
			cfg.ext.push((t, o, 1));
		}
		for period in [0, 1, 2] {
			cfg.fast.push((o, 1, period, 1));
		}
		cfg.veto.push((o, 1));
		cfg.emergency.push(o);
		cfg.cancel_ref.push(o);
		cfg.clear.push(o);
		cfg.black.push((o, 1, true));
		cfg.cancel_prop.push(o);
	}
	cfg.fast.push((S(FAST), 2, 2, 1));
	cfg.propose = vec![(S(1), 1, 2), (O::Root, 1, 2), (O::None, 1, 2)];
	cfg.max_refs = 1;
	cfg.max_now = 4;
	go(run, "every-origin-on-every-privileged-call", cfg.clone(), vec![], 7, 9);
	InstantAllowedN::set(0);
	go(run, "instant-not-allowed", cfg, vec![], 6, 8);
	InstantAllowedN::set(1);
	// what everybody may do has to be signed
	let mut cfg = base();
	cfg.balances.push((AS_ROOT, 50));
	cfg.balances.push((UNSIGNED, 50));
	cfg.propose = vec![(S(1), 1, 2)];
	cfg.max_refs = 1;
	cfg.max_now = 9;
	for w in [1, AS_ROOT, UNSIGNED] {
		cfg.second.push(w);
		cfg.votes.push((w, std(true, 1, 10)));
		cfg.remove.push(w);
		cfg.remove_other.push((w, 1));
		cfg.remove_other.push((w, w));
		cfg.delegate.push((w, 2, 1, 5));
		cfg.undelegate.push(w);
		cfg.unlock.push((w, 1));
		cfg.unlock.push((w, w));
	}
	go(run, "signed-by-somebody", cfg, one_ref(Thr::Simple, 3, 1, 1), 9, 11);
}

fn d12(run: &mut Run) {
	let mut cfg = base();
	cfg.propose = vec![(S(1), 1, 2), (S(2), 2, 3)];
	cfg.ext = vec![(Thr::Approve, S(EXT), 1), (Thr::Simple, S(EXT_MAJ), 2)];
	for (o, k) in [(S(1), 1u8), (S(2), 1), (S(EXT), 0), (S(EXT_MAJ), 0), (S(EXT_DEF), 0), (O::Root, 2), (S(3), 2), (O::None, 2)] {
		for set in [Some(1), None] {
			cfg.meta.push((o, k, set));
		}
	}
	cfg.meta.push((S(1), 1, Some(2)));
	cfg.meta.push((S(3), 1, Some(1)));
	cfg.second = vec![3];
	cfg.cancel_prop = vec![S(CANCELPROP)];
	cfg.black = vec![(S(BLACK), 1, true)];
	cfg.veto = vec![(S(VETO1), 2)];
	cfg.fast = vec![(S(FAST), 2, 2, 1)];
	cfg.cancel_ref = vec![O::Root];
	cfg.clear = vec![O::Root];
	cfg.max_refs = 2;
	go(run, "metadata", cfg.clone(), vec![], 8, 9);
	cfg.ext.push((Thr::Against, S(EXT_DEF), 3));
	late(run, "metadata", cfg, vec![], 7, 8);
	many_proposals(run, 6, 7);
}

fn d13(run: &mut Run) {
	let mut cfg = base();
	MaxProposals::set(2);
	MaxDeposits::set(2);
	MaxVotes::set(2);
	cfg.propose = vec![(S(1), 1, 2), (S(2), 2, 3)];
	cfg.second = vec![1, 2];
	cfg.cancel_prop = vec![S(CANCELPROP)];
	go(run, "proposal-and-deposit-limits", cfg, vec![], 9, 10);

	let mut cfg = base();
	MaxVotes::set(2);
	MaxBlacklisted::set(2);
	cfg.votes = vec![(1, std(true, 1, 10)), (1, std(false, 0, 5)), (2, std(true, 1, 30))];
	cfg.remove = vec![1];
	cfg.delegate = vec![(2, 1, 1, 5)];
	cfg.undelegate = vec![2];
	cfg.max_refs = 3;
	cfg.max_now = 8;
	cfg.ext = vec![(Thr::Simple, S(EXT_MAJ), 3)];
	cfg.veto = vec![(S(VETO1), 3), (S(VETO2), 3), (S(VETO3), 3)];
	let mut p = two_refs(1, 5);
	p.extend(one_ref(Thr::Simple, 3, 1, 1));
	go(run, "vote-and-veto-limits", cfg, p, 8, 9);
	many_votes(run, 6, 7);
	many_deposits(run);
	many_proposals(run, 6, 7);
	many_vetoers(run);
}

fn d14(run: &mut Run) {
	use pallet_democracy::{AccountVote, Conviction, Delegations, Tally, Vote};
	use parity_scale_codec::{Decode, Encode};
	let mut e = Enumeration {
		name: "vote-bytes".into(),
		rule: "all 256 vote bytes: exactly direction x conviction 0..=6 decode, and re-encode to the same byte".into(),
		samples: vec!["0x86 = aye, 6x".into(), "0x07 = invalid".into()],
		..Default::default()
	};
	for b in 0..=255u8 {
		e.evaluated += 1;
		let d = Vote::decode(&mut &[b][..]);
		let valid = b & 0x7f <= 6;
		let ok = match &d {
			Ok(v) => {
				e.nontrivial += 1;
				valid && v.aye == (b >= 128) && u8::from(v.conviction) == b & 0x7f && v.encode() == vec![b]
			},
			Err(_) => !valid,
		};
		if !ok && e.violation.is_none() {
			e.violation = Some(format!("byte {b:#04x} decodes to {d:?}"));
		}
	}
	run.enumerate(e);

	let mut e = Enumeration {
		name: "conviction-table".into(),
		rule: "every conviction x balances 0..=2000 and 128-bit boundary values: weight, capital, lock multiple, and \
		       both the round trip of account votes and the tally's add/remove inverse for every pair"
			.into(),
		samples: vec!["conviction 4, balance 37: 148 votes, 37 capital, 8 periods".into()],
		..Default::default()
	};
	let mut bals: Vec<u128> = (0..=2000).collect();
	for k in [64, 100, 125, 126, 127] {
		bals.extend([(1u128 << k) - 1, 1u128 << k, (1u128 << k) + 1]);
	}
	bals.extend([u128::MAX, u128::MAX - 1]);
	for c in 0..=6u8 {
		let k = Conviction::try_from(c).unwrap();
		let per: u64 = k.lock_periods().into();
		if per != periods(c) {
			e.violation = Some(format!("conviction {c} locks for {per} periods, must be {}", periods(c)));
		}
		for &b in &bals {
			e.evaluated += 1;
			e.nontrivial += (b > 0) as u64;
			let want = if c == 0 { b / 10 } else { b.checked_mul(c as u128).unwrap_or(u128::MAX) };
			let Delegations { votes, capital } = k.votes(b);
			if (votes, capital) != (want, b) && e.violation.is_none() {
				e.violation = Some(format!("conviction {c}, balance {b}: votes {votes}, capital {capital}; must be {want}, {b}"));
			}
		}
	}
	for c in 7..=255u8 {
		e.evaluated += 1;
		if Conviction::try_from(c).is_ok() && e.violation.is_none() {
			e.violation = Some(format!("conviction {c} exists"));
		}
	}
	let mut votes: Vec<(AccountVote<u64>, (u64, u64, u64))> = vec![];
	for c in 0..=6u8 {
		for b in [0, 1, 9, 10, 19, 1000] {
			for aye in [true, false] {
				let v = AccountVote::Standard { vote: Vote { aye, conviction: Conviction::try_from(c).unwrap() }, balance: b };
				let w = weight(c, b);
				votes.push((v, if aye { (w, 0, b) } else { (0, w, b) }));
			}
		}
	}
	for aye in [0, 9, 10, 25] {
		for nay in [0, 1, 10, 31] {
			votes.push((AccountVote::Split { aye, nay }, (aye / 10, nay / 10, aye + nay)));
		}
	}
	for (v, w) in &votes {
		let enc = v.encode();
		let back = AccountVote::<u64>::decode(&mut &enc[..]);
		if back.as_ref() != Ok(v) && e.violation.is_none() {
			e.violation = Some(format!("{v:?} encodes to {enc:?}, which decodes to {back:?}"));
		}
		for (v2, w2) in &votes {
			e.evaluated += 1;
			e.nontrivial += 1;
			let mut t = Tally::<u64>::default();
			let a = t.add(*v).and_then(|_| t.add(*v2));
			let sum = (t.ayes, t.nays, t.turnout);
			let r = t.remove(*v);
			let rest = (t.ayes, t.nays, t.turnout);
			if (a.is_none() || r.is_none() || sum != (w.0 + w2.0, w.1 + w2.1, w.2 + w2.2) || rest != *w2) &&
				e.violation.is_none()
			{
				e.violation = Some(format!("adding {v:?} and {v2:?} gives {sum:?}, removing the first leaves {rest:?}"));
			}
		}
	}
	run.enumerate(e);
}
