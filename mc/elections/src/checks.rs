use crate::{model::*, runtime::*, sys::*};
use engine::{Check, Run, Scenario};
use O::Signed as S;

pub const CHECKS: &[Check] = &[
	Check { property: "E01", run: e01 },
	Check { property: "E02", run: e02 },
	Check { property: "E03", run: e03 },
	Check { property: "E04", run: e04 },
	Check { property: "E05", run: e05 },
	Check { property: "E06", run: e06 },
	Check { property: "E07", run: e07 },
	Check { property: "E08", run: e08 },
	Check { property: "E09", run: e09 },
];

fn params() {
	DesiredMembers::set(2);
	DesiredRunnersUp::set(1);
	TermDuration::set(3);
	VotingLockPeriod::set(2);
	MaxCandidates::set(10);
	MaxVoters::set(10);
	MaxVotesPerVoter::set(4);
	PerVote::set(1);
}
fn base() -> Cfg {
	params();
	Cfg { balances: (1..=6).map(|a| (a, 30 + 5 * a)).collect(), max_now: 12, ..Default::default() }
}
fn go(run: &mut Run, name: &str, cfg: Cfg, prefix: Vec<Op>, quick: usize, thorough: usize) {
	let depth = if run.thorough { thorough } else { quick };
	run.scenario(Scenario { name: name.into(), sys: Sys { cfg }, prefix, depth });
}
fn submit(a: u64) -> Op {
	Op::Submit { by: S(a), claim: 0 }
}
fn vote(a: u64, votes: &[u64], value: u64) -> Op {
	Op::Vote { by: S(a), votes: votes.to_vec(), value }
}
/// at block 3: members 1 and 2 (prime 1), runners-up 3 and then 4 as far as there are seats
fn seated() -> Vec<Op> {
	vec![
		submit(1),
		submit(2),
		submit(3),
		submit(4),
		vote(5, &[1, 2], 40),
		vote(6, &[3], 15),
		vote(4, &[4], 10),
		Op::Next,
		Op::Next,
	]
}
fn roles(cfg: &mut Cfg, who: &[u64]) {
	for &a in who {
		cfg.renounce.push((S(a), Role::Member));
		cfg.renounce.push((S(a), Role::RunnerUp));
		cfg.renounce.push((S(a), Role::Candidate(0)));
	}
}

fn lifecycle() -> Cfg {
	let mut cfg = base();
	cfg.submit = vec![(S(1), 0), (S(2), 0), (S(3), 0), (S(4), 0)];
	cfg.votes = vec![(5, vec![1, 2], 20), (5, vec![3, 1], 30), (6, vec![4, 2], 25), (1, vec![1], 12)];
	roles(&mut cfg, &[1, 2]);
	cfg.remove = vec![(O::Root, 1, true, false), (O::Root, 2, false, false), (O::Root, 3, true, true)];
	cfg
}

fn e01(run: &mut Run) {
	let mut cfg = lifecycle();
	cfg.bonds = vec![3, 7];
	go(run, "bonds-from-the-start", cfg.clone(), vec![], 9, 13);
	DesiredRunnersUp::set(2);
	go(run, "bonds-with-all-seats-taken", cfg.clone(), seated(), 9, 13);
	// accounts that can barely pay, and whose funds are frozen by their own vote
	let mut cfg = base();
	cfg.balances = vec![(1, 4), (2, 3), (3, 8), (5, 40)];
	cfg.submit = vec![(S(1), 0), (S(2), 0), (S(3), 0)];
	cfg.votes = vec![(5, vec![1, 3], 20), (3, vec![3], 8), (1, vec![1], 4)];
	cfg.bonds = vec![0, 3, 4];
	roles(&mut cfg, &[1, 3]);
	cfg.remove = vec![(O::Root, 1, true, false), (O::Root, 3, true, false)];
	cfg.pay = vec![(3, 2)];
	go(run, "bonds-of-poor-accounts", cfg, vec![], 10, 14);
	// members of the genesis block hold no bond
	let mut cfg = base();
	cfg.genesis_members = vec![(1, 20), (2, 30)];
	cfg.submit = vec![(S(1), 0), (S(3), 0)];
	cfg.votes = vec![(5, vec![3], 30), (1, vec![3], 25)];
	roles(&mut cfg, &[1, 3]);
	cfg.remove = vec![(O::Root, 1, true, false), (O::Root, 2, false, true)];
	go(run, "genesis-members", cfg, vec![], 10, 14);
	many_roles(run);
}

fn e02(run: &mut Run) {
	go(run, "sets-from-the-start", lifecycle(), vec![], 9, 13);
	let cfg = lifecycle();
	DesiredRunnersUp::set(2);
	go(run, "sets-with-all-seats-taken", cfg, seated(), 9, 13);
	// four seats below the members: everyone who holds one tries to stand again
	let mut cfg = base();
	cfg.submit = (1..=6).map(|a| (S(a), 0)).collect();
	roles(&mut cfg, &[1, 2, 3, 4]);
	cfg.remove = vec![(O::Root, 1, false, false)];
	DesiredMembers::set(1);
	DesiredRunnersUp::set(3);
	go(run, "many-runners-up", cfg, seated(), 7, 10);
	let mut cfg = base();
	MaxCandidates::set(2);
	cfg.submit = (1..=6).map(|a| (S(a), 0)).collect();
	roles(&mut cfg, &[1, 2]);
	cfg.votes = vec![(5, vec![1], 20), (6, vec![2, 4], 20)];
	go(run, "candidate-limit", cfg, vec![], 10, 13);
	many_roles(run);
}

fn e03(run: &mut Run) {
	// ballots cast in any combination over four candidates, then the election
	let mut cfg = base();
	cfg.max_now = 3;
	cfg.votes = vec![
		(5, vec![1], 10),
		(5, vec![1, 2], 20),
		(5, vec![3, 2, 4], 35),
		(5, vec![9], 30),
		(6, vec![2], 10),
		(6, vec![2, 3], 21),
		(6, vec![4, 1, 1], 30),
		(1, vec![1], 13),
		(1, vec![4, 3], 20),
		(2, vec![2, 4], 20),
		(2, vec![3], 7),
	];
	let p: Vec<Op> = (1..=4).map(submit).collect();
	for (m, r) in [(1, 0), (2, 1), (1, 2), (3, 3)] {
		DesiredMembers::set(m);
		DesiredRunnersUp::set(r);
		go(run, &format!("ballots-for-{m}-members-{r}-runners-up"), cfg.clone(), p.clone(), 9, 13);
	}
	// further terms: seat holders stand again
	params();
	DesiredRunnersUp::set(2);
	let mut cfg = base();
	DesiredRunnersUp::set(2);
	cfg.submit = vec![(S(4), 0), (S(5), 0)];
	cfg.votes = vec![(5, vec![4, 3], 40), (6, vec![5, 1], 30), (4, vec![2], 11), (1, vec![1], 9)];
	cfg.remove_voter = vec![S(5), S(6)];
	cfg.remove = vec![(O::Root, 1, false, true)];
	go(run, "further-terms", cfg, seated(), 10, 14);
	// no seats for members, only runners-up
	let mut cfg = base();
	DesiredMembers::set(0);
	DesiredRunnersUp::set(2);
	cfg.submit = vec![(S(4), 0), (S(5), 0)];
	cfg.votes = vec![(5, vec![4, 3], 40), (6, vec![5, 1], 30), (4, vec![2], 11), (1, vec![1], 9)];
	cfg.renounce = vec![(S(1), Role::RunnerUp), (S(2), Role::RunnerUp)];
	go(run, "no-members", cfg, seated(), 10, 14);
	// stakes that make fewer votes than they are worth
	for per in [4, 10] {
		let mut cfg = base();
		PerVote::set(per);
		cfg.max_now = 3;
		cfg.balances = (1..=6).map(|a| (a, 300 + 5 * a)).collect();
		cfg.votes = vec![
			(5, vec![1], 119),
			(5, vec![1, 2], 231),
			(5, vec![3, 2, 4], 350),
			(6, vec![2], 108),
			(6, vec![2, 3], 213),
			(1, vec![1], 137),
			(2, vec![2, 4], 206),
			(2, vec![3], per - 1),
		];
		cfg.remove = vec![(O::Root, 1, false, true)];
		go(run, &format!("stakes-at-{per}-per-vote"), cfg, (1..=4).map(submit).collect(), 8, 12);
	}
	// a crowd: more seats, candidates and voters, and ballots over many of them
	let cfg = crowd();
	go(run, "a-crowd", cfg.clone(), crowded(), 7, 10);
	let mut p = crowded();
	p.extend([Op::Next, Op::Next]);
	go(run, "a-crowd-with-seats", cfg, p, 7, 10);
	let mut cfg = crowd();
	MaxVoters::set(22);
	cfg.votes.push((38, vec![3], 300));
	go(run, "a-crowd-at-the-limit-of-voters", cfg, crowded(), 6, 9);
	params();
	// stakes beyond 32 bits
	let mut cfg = base();
	// (multiples of one number, as the exact fractions of the model stay short then)
	let big = 1u64 << 32;
	cfg.balances = (1..=6).map(|a| (a, 20 * big)).collect();
	cfg.max_now = 7;
	cfg.votes = vec![
		(5, vec![1], 3 * big),
		(5, vec![2, 3], 7 * big),
		(6, vec![2], 4 * big),
		(6, vec![3, 1], 10 * big),
		(4, vec![3], big),
		(4, vec![1, 2], 2 * big),
	];
	cfg.remove = vec![(O::Root, 1, false, true)];
	cfg.remove_voter = vec![S(5)];
	go(run, "stakes-beyond-32-bits", cfg, (1..=3).map(submit).collect(), 9, 12);
	// elections that cannot be held
	let mut cfg = base();
	MaxVoters::set(2);
	cfg.submit = vec![(S(1), 0), (S(2), 0)];
	cfg.votes = vec![(5, vec![1], 20), (6, vec![2], 20), (4, vec![1, 2], 20)];
	cfg.remove_voter = vec![S(5)];
	cfg.remove = vec![(O::Root, 1, false, true)];
	go(run, "too-many-voters", cfg, vec![], 11, 15);
}

/// 14 candidates, 20 voters, 5 members and 6 runners-up
fn crowd() -> Cfg {
	let mut cfg = base();
	DesiredMembers::set(5);
	DesiredRunnersUp::set(6);
	MaxCandidates::set(30);
	MaxVoters::set(40);
	MaxVotesPerVoter::set(16);
	cfg.max_now = 7;
	cfg.balances = (1..=40).map(|a| (a, 1000 + 5 * a)).collect();
	cfg.submit = vec![(S(15), 0), (S(9), 0), (S(3), 0)];
	cfg.votes = vec![
		(39, (1..=14).collect(), 700),
		(39, (1..=14).rev().collect(), 650),
		(40, vec![14], 1000),
		(25, vec![9, 13], 444),
	];
	cfg.remove = vec![(O::Root, 9, false, false), (O::Root, 5, true, true)];
	cfg.renounce = vec![(S(2), Role::Member), (S(11), Role::RunnerUp), (S(6), Role::RunnerUp)];
	cfg.remove_voter = vec![S(21), S(30)];
	cfg
}
fn crowded() -> Vec<Op> {
	let mut p: Vec<Op> = (1..=14).rev().map(submit).collect();
	for i in 0..20u64 {
		let n = 1 + i * 7 % 6;
		let votes: Vec<u64> = (0..n).map(|k| 1 + (i * 3 + k * 5) % 14).collect();
		p.push(vote(16 + i, &votes, 100 + 37 * i % 211));
	}
	p
}

/// Bonds and sets of many, before and after an election.
fn many_roles(run: &mut Run) {
	let mut cfg = crowd();
	cfg.submit = vec![(S(15), 0), (S(9), 0), (S(3), 0)];
	cfg.votes.truncate(1);
	cfg.remove_voter.clear();
	cfg.bonds = vec![3, 8];
	cfg.renounce.extend([(S(7), Role::Candidate(0)), (S(14), Role::Candidate(0)), (S(9), Role::RunnerUp), (S(3), Role::Member)]);
	let mut p = crowded();
	for (i, at) in [(5u64, 3usize), (4, 8), (9, 12)] {
		p.insert(at, Op::SetBond(i));
	}
	go(run, "roles-in-a-crowd", cfg.clone(), p.clone(), 6, 8);
	p.extend([Op::Next, Op::Next]);
	go(run, "roles-in-a-crowd-with-seats", cfg, p, 6, 8);
}
/// Terms and locks as long as they are on the chain.
fn long_times(run: &mut Run) {
	for (term, lock) in [(100_800, 100_800), (100_800, 14_400), (0, 100_800)] {
		let mut cfg = ballots();
		TermDuration::set(term);
		VotingLockPeriod::set(lock);
		cfg.jump = true;
		cfg.max_now = 0;
		cfg.start = 302_388;
		cfg.votes.truncate(4);
		cfg.votes.push((6, vec![2, 1], 19));
		cfg.remove_voter = vec![S(5), S(6)];
		cfg.pay = vec![(5, 14)];
		go(run, &format!("terms-of-{term}-and-locks-of-{lock}"), cfg, vec![submit(1), submit(2)], 8, 11);
	}
}

fn e04(run: &mut Run) {
	let mut cfg = base();
	DesiredRunnersUp::set(2);
	roles(&mut cfg, &[1, 2, 3, 4]);
	cfg.remove = (1..=4).flat_map(|w| [(O::Root, w, true, false), (O::Root, w, false, false)]).collect();
	cfg.remove.push((O::Root, 1, false, true));
	cfg.submit = vec![(S(1), 0), (S(4), 0)];
	go(run, "replacement-by-runners-up", cfg.clone(), seated(), 14, 21);
	DesiredMembers::set(1);
	DesiredRunnersUp::set(3);
	go(run, "one-seat-three-runners-up", cfg.clone(), seated(), 14, 21);
	// bonds that rank the runners-up the other way round
	let mut prefix = vec![];
	for (i, op) in seated().into_iter().enumerate() {
		if i < 4 {
			prefix.push(Op::SetBond([5, 3, 4, 9][i]));
		}
		prefix.push(op);
	}
	go(run, "bonds-against-the-ranks", cfg, prefix, 12, 18);
	let mut cfg = crowd();
	cfg.submit.clear();
	cfg.votes.clear();
	cfg.remove_voter.clear();
	cfg.max_now = 3;
	cfg.remove = vec![(O::Root, 2, true, false), (O::Root, 4, false, false), (O::Root, 5, true, false), (O::Root, 11, false, false)];
	for a in 1..=14 {
		cfg.renounce.push((S(a), Role::Member));
		cfg.renounce.push((S(a), Role::RunnerUp));
	}
	let mut p = crowded();
	p.extend([Op::Next, Op::Next]);
	go(run, "replacement-in-a-crowd", cfg, p, 7, 9);
}

fn e05(run: &mut Run) {
	// the order of the ballots decides the prime
	let mut cfg = base();
	cfg.max_now = 3;
	cfg.votes = vec![
		(5, vec![1, 2], 20),
		(5, vec![2, 1], 20),
		(5, vec![3], 15),
		(6, vec![2, 1], 20),
		(6, vec![1, 2, 3], 15),
		(6, vec![3, 2, 1], 16),
		(4, vec![1], 10),
		(4, vec![3, 3], 10),
		(4, vec![2], 9),
	];
	cfg.remove = vec![(O::Root, 1, false, false)];
	let p: Vec<Op> = (1..=3).map(submit).collect();
	go(run, "prime-by-ballots", cfg.clone(), p.clone(), 10, 14);
	DesiredMembers::set(3);
	go(run, "prime-of-three", cfg, p, 10, 14);
	// ballots longer than the number of seats, and stakes beyond 32 bits
	let mut cfg = base();
	cfg.max_now = 3;
	MaxVotesPerVoter::set(16);
	let big = 1u64 << 40;
	cfg.balances = (1..=6).map(|a| (a, 4 * big)).collect();
	cfg.votes = vec![
		(5, vec![1, 2, 3, 4], big + 1),
		(5, vec![4, 3, 2, 1], big),
		(6, vec![2, 1], 2 * big),
		(6, vec![4], big + 2),
		(4, vec![3, 2, 4], 2 * big - 1),
		(4, vec![1], big - 7),
		(3, vec![2, 2, 2], big / 3),
	];
	go(run, "prime-by-large-stakes", cfg, (1..=4).map(submit).collect(), 9, 12);
	let cfg = lifecycle();
	DesiredRunnersUp::set(2);
	go(run, "changes-after-an-election", cfg, seated(), 10, 14);
	// the prime among many members
	let cfg = crowd();
	let mut p = crowded();
	p.extend([Op::Next, Op::Next]);
	go(run, "changes-in-a-crowd", cfg, p, 7, 10);
	let mut cfg = base();
	cfg.genesis_members = vec![(1, 20), (2, 30)];
	cfg.submit = vec![(S(3), 0)];
	cfg.votes = vec![(5, vec![3], 30), (1, vec![3], 25)];
	cfg.renounce = vec![(S(1), Role::Member), (S(3), Role::Member)];
	cfg.remove = vec![(O::Root, 1, true, false), (O::Root, 2, false, true)];
	go(run, "genesis-members", cfg, vec![], 11, 16);
}

fn ballots() -> Cfg {
	let mut cfg = base();
	cfg.balances = vec![(1, 30), (2, 12), (5, 25), (6, 20)];
	cfg.votes =
		vec![(5, vec![1], 10), (5, vec![1], 25), (5, vec![2, 1], 100), (5, vec![1], 1), (5, vec![1], 2), (1, vec![1], 30)];
	cfg.remove_voter = vec![S(5), S(1)];
	cfg.submit = vec![(S(1), 0)];
	cfg.remove = vec![(O::Root, 1, true, false)];
	cfg.pay = vec![(5, 3), (5, 14), (1, 5)];
	cfg
}
fn e06(run: &mut Run) {
	let p = vec![submit(1), submit(2)];
	for lock in [0, 1, 3] {
		let cfg = ballots();
		VotingLockPeriod::set(lock);
		go(run, &format!("stakes-with-a-lock-of-{lock}"), cfg, p.clone(), 10, 14);
	}
	// the same late in the life of the chain
	let mut cfg = ballots();
	VotingLockPeriod::set(3);
	cfg.start = (1 << 32) - 3;
	go(run, "stakes-late", cfg, p.clone(), 9, 13);
	let mut cfg = base();
	cfg.genesis_members = vec![(1, 20), (2, 1)];
	cfg.votes = vec![(1, vec![1], 19), (1, vec![1], 20), (2, vec![1], 1), (2, vec![2], 30)];
	cfg.remove_voter = vec![S(1), S(2)];
	cfg.pay = vec![(1, 10)];
	go(run, "genesis-voters", cfg, vec![], 11, 16);
	long_times(run);
}

fn e07(run: &mut Run) {
	let mut cfg = base();
	MaxVotesPerVoter::set(2);
	cfg.submit = vec![(S(1), 0), (S(2), 0), (S(3), 0)];
	for v in [vec![], vec![1], vec![1, 2], vec![2, 2], vec![1, 2, 3]] {
		cfg.votes.push((5, v, 20));
	}
	cfg.votes.push((6, vec![1], 1));
	cfg.votes.push((6, vec![1], 2));
	roles(&mut cfg, &[1, 2]);
	go(run, "ballot-sizes", cfg, vec![], 10, 14);
	// as many names as there are candidates and seats of either kind
	let mut cfg = base();
	MaxVotesPerVoter::set(16);
	DesiredRunnersUp::set(2);
	cfg.submit = vec![(S(5), 0), (S(6), 0)];
	for n in [2, 3, 4, 5, 6, 7] {
		cfg.votes.push((5, (1..=n).collect(), 20));
	}
	cfg.renounce = vec![
		(S(1), Role::Member),
		(S(4), Role::RunnerUp),
		(S(3), Role::RunnerUp),
		(S(5), Role::Candidate(0)),
	];
	cfg.remove = vec![(O::Root, 2, false, true)];
	go(run, "ballots-as-long-as-allowed", cfg, seated(), 8, 12);
	let mut cfg = base();
	cfg.votes = vec![(5, vec![1], 20), (6, vec![2, 9], 20), (4, vec![9], 20), (3, vec![3, 1], 5)];
	cfg.renounce = vec![
		(S(1), Role::Member),
		(S(2), Role::Member),
		(S(3), Role::RunnerUp),
		(S(1), Role::Candidate(0)),
		(S(3), Role::Candidate(0)),
	];
	cfg.submit = vec![(S(1), 0), (S(4), 0)];
	cfg.clean = vec![(O::Root, 100, 100), (O::Root, 100, 1), (O::Root, 2, 100), (S(5), 100, 100), (O::Root, 0, 5)];
	cfg.remove_voter = vec![S(6)];
	go(run, "defunct-voters", cfg, seated(), 10, 13);
	many_voters(run);
}

/// A clean-up among many voters, most of whose candidates are gone.
fn many_voters(run: &mut Run) {
	let mut cfg = crowd();
	cfg.max_now = 3;
	cfg.submit = vec![(S(15), 0), (S(1), 0)];
	cfg.votes = vec![(39, (1..=14).collect(), 700), (20, vec![15, 30], 300), (36, vec![15], 80)];
	cfg.remove_voter = vec![S(21), S(30)];
	cfg.remove = vec![(O::Root, 9, false, false)];
	cfg.clean = vec![(O::Root, 100, 100), (O::Root, 100, 3), (O::Root, 7, 100), (O::Root, 22, 5), (O::Root, 28, 28)];
	DesiredMembers::set(2);
	DesiredRunnersUp::set(2);
	let mut p = crowded();
	for i in 0..4u64 {
		p.push(vote(36 + i, &[1 + i, 20 + i], 200));
	}
	// ballots of which only the last one counts, or none
	for (i, last) in [2u64, 14, 33, 3, 2, 34].into_iter().enumerate() {
		let votes: Vec<u64> = (20..33).chain([last]).collect();
		p.push(vote(10 + i as u64, &votes, 800 + 10 * last));
	}
	p.extend([Op::Next, Op::Next]);
	go(run, "defunct-voters-in-a-crowd", cfg, p, 8, 11);
}

fn e08(run: &mut Run) {
	for term in [0, 1, 2, 5] {
		let mut cfg = base();
		TermDuration::set(term);
		cfg.max_now = 14;
		cfg.submit = vec![(S(1), 0), (S(2), 0)];
		cfg.votes = vec![(5, vec![1], 20), (6, vec![2, 1], 20)];
		cfg.remove = vec![(O::Root, 1, true, true)];
		cfg.renounce = vec![(S(1), Role::Member)];
		go(run, &format!("terms-of-{term}"), cfg.clone(), vec![], 18, 27);
		if term > 1 {
			cfg.start = (1 << 32) - 4;
			go(run, &format!("late-terms-of-{term}"), cfg, vec![], 12, 20);
		}
	}
	long_times(run);
}

fn e09(run: &mut Run) {
	let mut cfg = base();
	DesiredRunnersUp::set(2);
	for a in [1, 3] {
		cfg.submit.push((S(a), 0));
	}
	cfg.submit.extend([(S(5), 0), (S(5), -1), (S(5), 3), (O::Root, 0), (O::None, 0)]);
	roles(&mut cfg, &[1, 3, 5]);
	cfg.renounce.extend([(S(5), Role::Candidate(-1)), (S(5), Role::Candidate(2)), (O::Root, Role::Member), (O::None, Role::Candidate(0))]);
	cfg.remove = vec![
		(O::Root, 1, true, false),
		(S(1), 1, true, false),
		(S(2), 1, false, true),
		(O::None, 2, false, false),
		(O::Root, 5, true, false),
	];
	cfg.clean = vec![(S(1), 10, 10), (O::None, 10, 10), (O::Root, 10, 10)];
	cfg.extra_votes = vec![(O::Root, vec![1], 20), (O::None, vec![1], 20)];
	cfg.remove_voter = vec![O::Root, O::None, S(3)];
	go(run, "origins-and-witnesses", cfg, seated(), 14, 21);
}
