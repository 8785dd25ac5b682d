//! Binds the reference model to the real pallet.
use crate::{model::*, runtime::*};
use engine::{Cx, Harness, Ignore};
use frame_support::traits::{
	fungible::{InspectFreeze, InspectHold},
	Contains, OnInitialize, SortedMembers,
};
use pallet_elections_phragmen as pe;
use sp_runtime::{traits::Dispatchable, BuildStorage};
use std::collections::{BTreeMap, BTreeSet};

fn origin(o: O) -> RuntimeOrigin {
	match o {
		O::Root => RuntimeOrigin::root(),
		O::Signed(a) => RuntimeOrigin::signed(a),
		O::None => RuntimeOrigin::none(),
	}
}
fn claimed(m: &M, d: i8) -> u32 {
	(m.cands.len() as i64 + d as i64).max(0) as u32
}
fn to_call(m: &M, op: &Op) -> (O, RuntimeCall) {
	let (o, c) = match op.clone() {
		Op::Next | Op::Jump { .. } | Op::SetBond(_) => unreachable!(),
		Op::Pay { by, amount } =>
			return (
				O::Signed(by),
				RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: OUTSIDER, value: amount }),
			),
		Op::Vote { by, votes, value } => (by, pe::Call::vote { votes, value }),
		Op::RemoveVoter { by } => (by, pe::Call::remove_voter {}),
		Op::Submit { by, claim } => (by, pe::Call::submit_candidacy { candidate_count: claimed(m, claim) }),
		Op::Renounce { by, role } => (
			by,
			pe::Call::renounce_candidacy {
				renouncing: match role {
					Role::Member => pe::Renouncing::Member,
					Role::RunnerUp => pe::Renouncing::RunnerUp,
					Role::Candidate(d) => pe::Renouncing::Candidate(claimed(m, d)),
				},
			},
		),
		Op::RemoveMember { by, who, slash, rerun } =>
			(by, pe::Call::remove_member { who, slash_bond: slash, rerun_election: rerun }),
		Op::Clean { by, voters, defunct } =>
			(by, pe::Call::clean_defunct_voters { num_voters: voters, num_defunct: defunct }),
	};
	(o, RuntimeCall::Elections(c))
}
fn name(op: &Op) -> &'static str {
	match op {
		Op::Next => "next_block",
		Op::Jump { .. } => "later_block",
		Op::Vote { .. } => "vote",
		Op::RemoveVoter { .. } => "remove_voter",
		Op::Submit { .. } => "submit_candidacy",
		Op::Renounce { role: Role::Member, .. } => "renounce_member",
		Op::Renounce { role: Role::RunnerUp, .. } => "renounce_runner_up",
		Op::Renounce { .. } => "renounce_candidate",
		Op::RemoveMember { .. } => "remove_member",
		Op::Clean { .. } => "clean_defunct_voters",
		Op::SetBond(_) => "set_bond",
		Op::Pay { .. } => "transfer",
	}
}
fn about(op: &Op) -> &'static [&'static str] {
	match op {
		Op::Next | Op::Jump { .. } | Op::SetBond(_) => &[],
		Op::Vote { .. } => &["E06", "E07"],
		Op::RemoveVoter { .. } => &["E06"],
		Op::Submit { .. } => &["E01", "E02", "E09"],
		Op::Renounce { .. } => &["E01", "E04", "E09"],
		Op::RemoveMember { .. } => &["E04", "E09"],
		Op::Clean { .. } => &["E07", "E09"],
		Op::Pay { .. } => &["E06"],
	}
}

#[derive(Clone, Default)]
pub struct Cfg {
	pub balances: Vec<(u64, u64)>,
	pub genesis_members: Vec<(u64, u64)>,
	pub votes: Vec<(u64, Vec<u64>, u64)>,
	pub extra_votes: Vec<(O, Vec<u64>, u64)>,
	pub remove_voter: Vec<O>,
	pub submit: Vec<(O, i8)>,
	pub renounce: Vec<(O, Role)>,
	pub remove: Vec<(O, u64, bool, bool)>,
	pub clean: Vec<(O, u32, u32)>,
	pub bonds: Vec<u64>,
	pub pay: Vec<(u64, u64)>,
	pub max_now: u64,
	/// the block the history starts at (1 if 0)
	pub start: u64,
	/// time goes in leaps
	pub jump: bool,
}
pub struct Sys {
	pub cfg: Cfg,
}

impl Harness for Sys {
	type Op = Op;
	type Model = M;

	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		let mut balances = self.cfg.balances.clone();
		balances.push((OUTSIDER, 1000));
		pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
		pe::GenesisConfig::<Test> { members: self.cfg.genesis_members.clone() }.assimilate_storage(&mut t).unwrap();
		t.top.into_iter().collect()
	}
	fn ignore(&self) -> Ignore {
		let sys = sp_io::hashing::twox_128(b"System").to_vec();
		let acc = [sys.clone(), sp_io::hashing::twox_128(b"Account").to_vec()].concat();
		let num = [sys.clone(), sp_io::hashing::twox_128(b"Number").to_vec()].concat();
		Ignore { prefixes: vec![sys], keep: vec![acc, num] }
	}
	fn init(&self) -> M {
		let start = self.cfg.start.max(1);
		System::set_block_number(start);
		let mut acc: BTreeMap<u64, Acc> =
			self.cfg.balances.iter().map(|(a, b)| (*a, Acc { free: *b, ..Default::default() })).collect();
		acc.insert(OUTSIDER, Acc { free: 1000, ..Default::default() });
		let mut members: Vec<Seat> =
			self.cfg.genesis_members.iter().map(|&(who, stake)| Seat { who, stake, deposit: 0 }).collect();
		members.sort_by_key(|s| s.who);
		M {
			now: start,
			ed: ed(),
			bond: 3,
			issuance: acc.values().map(|a| a.free).sum(),
			acc,
			cands: BTreeMap::new(),
			// members at genesis vote for themselves with their stake, without a bond
			voters: members
				.iter()
				.map(|s| (s.who, Ballot { votes: vec![s.who], stake: s.stake, until: VotingLockPeriod::val() }))
				.collect(),
			members,
			runners: vec![],
			rounds: 0,
			prime: None,
			pot: 0,
		}
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o = vec![];
		if m.now < c.start + c.max_now {
			o.push(Op::Next);
		}
		if c.jump {
			o.extend(m.leaps().into_iter().map(|to| Op::Jump { to }));
		}
		o.extend(c.submit.iter().map(|&(by, claim)| Op::Submit { by, claim }));
		o.extend(c.votes.iter().map(|(w, v, s)| Op::Vote { by: O::Signed(*w), votes: v.clone(), value: *s }));
		o.extend(c.extra_votes.iter().map(|(w, v, s)| Op::Vote { by: *w, votes: v.clone(), value: *s }));
		o.extend(c.remove_voter.iter().map(|&by| Op::RemoveVoter { by }));
		o.extend(c.renounce.iter().map(|&(by, role)| Op::Renounce { by, role }));
		o.extend(c.remove.iter().map(|&(by, who, slash, rerun)| Op::RemoveMember { by, who, slash, rerun }));
		o.extend(c.clean.iter().map(|&(by, voters, defunct)| Op::Clean { by, voters, defunct }));
		o.extend(c.bonds.iter().filter(|b| **b != m.bond).map(|&b| Op::SetBond(b)));
		o.extend(c.pay.iter().map(|&(by, amount)| Op::Pay { by, amount }));
		o
	}

	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		let kind = name(op);
		let before = m.clone();
		let mut elected = false;
		match op {
			Op::Next | Op::Jump { .. } => {
				if let Op::Jump { to } = op {
					System::set_block_number(to - 1);
					m.now = to - 1;
				}
				let n = System::block_number() + 1;
				System::set_block_number(n);
				<AllPalletsWithSystem as OnInitialize<u64>>::on_initialize(n);
				let e = m.next();
				elected = e == Election::Done;
				cx.outcome(
					kind,
					match e {
						Election::No => "no election",
						Election::Empty => "empty term",
						Election::Error => "too many voters",
						Election::Done if m.runners.is_empty() => "elects",
						Election::Done => "elects with runners-up",
					},
				);
			},
			Op::SetBond(b) => {
				CandidacyBond::put(*b);
				m.apply(op);
			},
			_ => {
				let full = m.cands.len() as u32 == MaxCandidates::val();
				let (o, call) = to_call(m, op);
				let res = call.dispatch(origin(o));
				let want = m.apply(op);
				let got = res.is_ok();
				let want = if full && matches!(op, Op::Submit { .. }) && !got {
					// refusing here is what the limit asks for
					*m = before.clone();
					false
				} else {
					want
				};
				cx.outcome(kind, if got { "ok" } else { "refused" });
				if got != want {
					cx.check(about(op), false, || {
						format!(
							"{kind} must be {} but was {}",
							if want { "accepted" } else { "refused" },
							match res {
								Ok(_) => "accepted".into(),
								Err(e) => format!("refused with {:?}", e.error),
							}
						)
					});
					cx.prune = true;
					return;
				}
				if got && full && matches!(op, Op::Submit { .. }) && cx.on(&["E02"]) {
					cx.fail_keyed("one-candidate-beyond-the-limit", || {
						format!("a candidacy was accepted while the limit of {} candidates was reached", MaxCandidates::val())
					});
				}
				if got {
					if let Op::Clean { voters, defunct, .. } = op {
						self.clean(m, *voters, *defunct, cx);
					}
				}
				elected = m.rounds != before.rounds;
			},
		}
		if elected && cx.on(&["E03"]) {
			self.outcome(&before, op, cx);
		}
		self.compare(m, cx);
	}
}

fn frozen(a: u64) -> u64 {
	Balances::balance_frozen(&pe::FreezeReason::Voting.into(), &a)
}
fn held(a: u64) -> u64 {
	Balances::balance_on_hold(&pe::HoldReason::Candidacy.into(), &a)
}
fn seat(s: &pe::SeatHolder<u64, u64>) -> Seat {
	Seat { who: s.who, stake: s.stake, deposit: s.deposit }
}

impl Sys {
	/// Which voters were removed: all of them defunct, and all defunct ones unless a limit was hit.
	fn clean(&self, m: &mut M, voters: u32, defunct: u32, cx: &mut Cx) {
		let all: Vec<u64> = m.voters.iter().filter(|(_, b)| m.defunct(b)).map(|x| *x.0).collect();
		let gone: Vec<u64> =
			m.voters.keys().copied().filter(|v| !pe::Voting::<Test>::contains_key(v)).collect();
		cx.outcome("clean_defunct_voters", if gone.is_empty() { "removes none" } else { "removes some" });
		cx.check(&["E07"], gone.iter().all(|g| all.contains(g)), || {
			format!("voters {gone:?} were removed as defunct, only {all:?} are")
		});
		cx.check(&["E07"], gone.len() as u32 <= voters.min(defunct), || {
			format!("{} voters were removed, at most {} may be", gone.len(), voters.min(defunct))
		});
		let must = voters as usize >= m.voters.len() && defunct as usize >= all.len();
		cx.check(&["E07"], !must || gone.len() == all.len(), || {
			format!("voters {gone:?} were removed as defunct, all of {all:?} must be")
		});
		for g in gone {
			m.voters.remove(&g);
			m.acc.entry(g).or_default().frozen = 0;
		}
	}

	/// The elected sets against exact arithmetic.
	fn outcome(&self, before: &M, op: &Op, cx: &mut Cx) {
		if let Op::RemoveMember { .. } = op {
			return;
		}
		let b: Vec<(Vec<u64>, u64)> = before.voters.values().map(|b| (b.votes.clone(), b.stake)).collect();
		// the loads the implementation works with are fractions of limited precision
		if PerVote::val() > 1 || b.len() > 8 || b.iter().any(|x| x.1 < 6) {
			return;
		}
		let mut pool: BTreeSet<u64> = before.cands.keys().copied().collect();
		pool.extend(before.members.iter().chain(&before.runners).map(|s| s.who));
		let members: Vec<(u64, u64)> = pe::Members::<Test>::get().iter().map(|s| (s.who, s.stake)).collect();
		let runners: Vec<(u64, u64)> = pe::RunnersUp::<Test>::get().iter().rev().map(|s| (s.who, s.stake)).collect();
		let r = admissible(
			&pool,
			&b,
			&members,
			&runners,
			DesiredMembers::val() as usize,
			DesiredRunnersUp::val() as usize,
		);
		if let Err(e) = r {
			cx.fail(|| e);
		}
		cx.outcome("election", "confirmed by exact arithmetic");
	}

	fn compare(&self, m: &M, cx: &mut Cx) {
		let members: Vec<Seat> = pe::Members::<Test>::get().iter().map(seat).collect();
		let runners: Vec<Seat> = pe::RunnersUp::<Test>::get().iter().map(seat).collect();
		let cands: Vec<(u64, u64)> = pe::Candidates::<Test>::get();
		if cx.on(&["E01"]) {
			// by the recorded positions, and by the rules
			let mut rec: BTreeMap<u64, u64> = BTreeMap::new();
			for (w, d) in cands.iter().copied().chain(members.iter().chain(&runners).map(|s| (s.who, s.deposit))) {
				*rec.entry(w).or_default() += d;
			}
			for (a, x) in &m.acc {
				let (h, want) = (held(*a), m.deposit(*a));
				cx.check(&["E01"], h == want, || format!("account {a} has a bond of {h} held, must be {want}"));
				let r = rec.get(a).copied().unwrap_or(0);
				cx.check(&["E01"], h == r, || format!("account {a} has a bond of {h} held, its position records {r}"));
				let free = Balances::free_balance(a);
				cx.check(&["E01"], free == x.free, || format!("account {a} has {free} free, must be {}", x.free));
			}
			cx.check(&["E01"], Pot::total() == m.pot, || {
				format!("{} of slashed bonds were handed over, must be {}", Pot::total(), m.pot)
			});
			let ti = Balances::total_issuance();
			cx.check(&["E01"], ti == m.issuance, || format!("total issuance {ti}, must be {}", m.issuance));
		}
		if cx.on(&["E02"]) {
			let ids: Vec<u64> = members.iter().map(|s| s.who).collect();
			let sorted = |v: &[u64]| v.windows(2).all(|w| w[0] < w[1]);
			cx.check(&["E02"], sorted(&ids), || format!("members {ids:?} are not sorted and distinct"));
			let c: Vec<u64> = cands.iter().map(|c| c.0).collect();
			cx.check(&["E02"], sorted(&c), || format!("candidates {c:?} are not sorted and distinct"));
			let r: Vec<u64> = runners.iter().map(|s| s.who).collect();
			let mut all: Vec<u64> = ids.iter().chain(&c).chain(&r).copied().collect();
			all.sort();
			cx.check(&["E02"], sorted(&all), || format!("members {ids:?}, candidates {c:?}, runners-up {r:?} overlap"));
			cx.check(&["E02"], ids.len() <= DesiredMembers::val() as usize, || format!("{} members", ids.len()));
			cx.check(&["E02"], r.len() <= DesiredRunnersUp::val() as usize, || format!("{} runners-up", r.len()));
			// one more than the limit is a listed finding, reported where it is accepted
			cx.check(&["E02"], c.len() <= MaxCandidates::val() as usize + 1, || format!("{} candidates", c.len()));
			cx.check(&["E02"], <Elections as SortedMembers<u64>>::sorted_members() == ids, || {
				format!("reported members {:?}, stored {ids:?}", <Elections as SortedMembers<u64>>::sorted_members())
			});
			for a in m.acc.keys() {
				let is = m.is_member(*a);
				cx.check(&["E02"], <Elections as Contains<u64>>::contains(a) == is &&
					<Elections as SortedMembers<u64>>::contains(a) == is, || {
					format!("account {a} is reported as member={}, must be {is}", !is)
				});
			}
		}
		if cx.on(&["E02", "E03", "E04", "E08"]) {
			let p: &[&str] = &["E03", "E04", "E08"];
			cx.check(p, members == m.members, || {
				format!("block {}: members are {members:?}, must be {:?}", m.now, m.members)
			});
			cx.check(p, runners == m.runners, || {
				format!("block {}: runners-up (worst first) are {runners:?}, must be {:?}", m.now, m.runners)
			});
			let want: Vec<(u64, u64)> = m.cands.iter().map(|c| (*c.0, *c.1)).collect();
			cx.check(&["E02", "E03", "E08"], cands == want, || {
				format!("block {}: candidates are {cands:?}, must be {want:?}", m.now)
			});
			let r = pe::ElectionRounds::<Test>::get();
			cx.check(&["E03", "E08"], r == m.rounds, || format!("block {}: {r} rounds were held, must be {}", m.now, m.rounds));
		}
		if cx.on(&["E05"]) {
			if let Some(w) = Body::wrong() {
				cx.fail(|| w);
			}
			let ids: Vec<u64> = m.members.iter().map(|s| s.who).collect();
			cx.check(&["E05"], Body::members() == ids, || {
				format!("the governed body was told the members are {:?}, they are {ids:?}", Body::members())
			});
			cx.check(&["E05"], Body::prime() == m.prime, || {
				format!("the prime is {:?}, must be {:?}", Body::prime(), m.prime)
			});
		}
		if cx.on(&["E06", "E07"]) {
			let got: BTreeMap<u64, Ballot> = pe::Voting::<Test>::iter()
				.map(|(w, v)| (w, Ballot { votes: v.votes, stake: v.stake, until: v.lockup_till }))
				.collect();
			cx.check(&["E06", "E07"], got == m.voters, || {
				format!("block {}: recorded ballots {got:?}, must be {:?}", m.now, m.voters)
			});
			for (a, x) in &m.acc {
				let f = frozen(*a);
				cx.check(&["E06", "E07"], f == x.frozen, || {
					format!("block {}: account {a} has {f} frozen for voting, must be {}", m.now, x.frozen)
				});
			}
		}
	}
}
