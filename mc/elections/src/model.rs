//! Reference model of the elections: plain data, no pallet code.
use crate::runtime::{PerVote, DesiredMembers, DesiredRunnersUp, MaxCandidates, MaxVoters, MaxVotesPerVoter, TermDuration, VotingLockPeriod};
use std::collections::{BTreeMap, BTreeSet};

/// receives what others pay
pub const OUTSIDER: u64 = 999;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
	Root,
	Signed(u64),
	None,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
	Member,
	RunnerUp,
	/// with the claimed number of candidates relative to the real one
	Candidate(i8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Next,
	/// straight to block `to`: no term ends in between
	Jump { to: u64 },
	Vote { by: O, votes: Vec<u64>, value: u64 },
	RemoveVoter { by: O },
	/// `claim`: the claimed number of candidates relative to the real one
	Submit { by: O, claim: i8 },
	Renounce { by: O, role: Role },
	RemoveMember { by: O, who: u64, slash: bool, rerun: bool },
	Clean { by: O, voters: u32, defunct: u32 },
	/// the candidacy bond is reconfigured
	SetBond(u64),
	/// funds leave an account by a transfer to an outsider
	Pay { by: u64, amount: u64 },
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Acc {
	pub free: u64,
	pub held: u64,
	pub frozen: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seat {
	pub who: u64,
	pub stake: u64,
	pub deposit: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ballot {
	pub votes: Vec<u64>,
	pub stake: u64,
	pub until: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	pub ed: u64,
	pub bond: u64,
	pub acc: BTreeMap<u64, Acc>,
	pub cands: BTreeMap<u64, u64>,
	pub members: Vec<Seat>,
	/// worst to best
	pub runners: Vec<Seat>,
	pub voters: BTreeMap<u64, Ballot>,
	pub rounds: u32,
	pub prime: Option<u64>,
	pub pot: u64,
	pub issuance: u64,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Election {
	No,
	Empty,
	Error,
	Done,
}

impl M {
	fn a(&mut self, who: u64) -> &mut Acc {
		self.acc.entry(who).or_default()
	}
	pub fn total(&self, who: u64) -> u64 {
		self.acc.get(&who).map_or(0, |a| a.free + a.held)
	}
	pub fn is_member(&self, w: u64) -> bool {
		self.members.iter().any(|s| s.who == w)
	}
	pub fn is_runner(&self, w: u64) -> bool {
		self.runners.iter().any(|s| s.who == w)
	}
	pub fn deposit(&self, w: u64) -> u64 {
		self.cands.get(&w).copied().unwrap_or(0) +
			self.members.iter().chain(&self.runners).filter(|s| s.who == w).map(|s| s.deposit).sum::<u64>()
	}
	pub fn defunct(&self, b: &Ballot) -> bool {
		b.votes.iter().all(|v| !self.is_member(*v) && !self.is_runner(*v) && !self.cands.contains_key(v))
	}
	fn release(&mut self, w: u64, d: u64) {
		let a = self.a(w);
		a.held -= d;
		a.free += d;
	}
	fn slash(&mut self, w: u64, d: u64) {
		self.a(w).held -= d;
		self.pot += d;
		self.issuance -= d;
	}

	/// Apply a call; false if it must be refused (the model is then unchanged). The removal of
	/// defunct voters under a limit is left to the caller.
	pub fn apply(&mut self, op: &Op) -> bool {
		match op.clone() {
			Op::Next | Op::Jump { .. } => unreachable!(),
			Op::SetBond(b) => {
				self.bond = b;
				true
			},
			Op::Pay { by, amount } => {
				let a = self.a(by);
				// what is frozen must stay, held funds count towards it, and the account stays alive
				let bound = a.frozen.saturating_sub(a.held);
				let keep = bound.max(1);
				if a.free < keep || a.free - keep < amount {
					return false;
				}
				a.free -= amount;
				self.a(OUTSIDER).free += amount;
				true
			},
			Op::Vote { by, votes, value } => {
				let O::Signed(w) = by else { return false };
				let allowed = self.cands.len() + self.members.len() + self.runners.len();
				if votes.is_empty() ||
					votes.len() > MaxVotesPerVoter::val() as usize ||
					allowed == 0 || votes.len() > allowed
				{
					return false;
				}
				match self.voters.get(&w) {
					Some(b) if self.now < b.until =>
						if value < b.stake {
							return false;
						},
					_ =>
						if value <= self.ed {
							return false;
						},
				}
				let stake = value.min(self.total(w));
				self.a(w).frozen = stake;
				let until = self.now + VotingLockPeriod::val();
				self.voters.insert(w, Ballot { votes, stake, until });
				true
			},
			Op::RemoveVoter { by } => {
				let O::Signed(w) = by else { return false };
				match self.voters.get(&w) {
					Some(b) if b.until <= self.now => {},
					_ => return false,
				}
				self.voters.remove(&w);
				self.a(w).frozen = 0;
				true
			},
			Op::Submit { by, claim } => {
				let O::Signed(w) = by else { return false };
				let bond = self.bond;
				let a = self.acc.get(&w).cloned().unwrap_or_default();
				if (claim < 0 && !self.cands.is_empty()) ||
					self.cands.len() > MaxCandidates::val() as usize ||
					self.cands.contains_key(&w) ||
					self.is_member(w) || self.is_runner(w) ||
					(bond > 0 && a.free < bond + self.ed)
				{
					return false;
				}
				let a = self.a(w);
				a.free -= bond;
				a.held += bond;
				self.cands.insert(w, bond);
				true
			},
			Op::Renounce { by, role } => {
				let O::Signed(w) = by else { return false };
				match role {
					Role::Member => self.remove_member(w, false),
					Role::RunnerUp => {
						let Some(i) = self.runners.iter().position(|s| s.who == w) else { return false };
						let s = self.runners.remove(i);
						self.release(w, s.deposit);
						true
					},
					Role::Candidate(claim) => {
						if claim < 0 && !self.cands.is_empty() {
							return false;
						}
						let Some(d) = self.cands.remove(&w) else { return false };
						self.release(w, d);
						true
					},
				}
			},
			Op::RemoveMember { by, who, slash, rerun } => {
				if by != O::Root || !self.remove_member(who, slash) {
					return false;
				}
				if rerun {
					self.elect();
				}
				true
			},
			Op::Clean { by, .. } => by == O::Root,
		}
	}

	fn remove_member(&mut self, w: u64, slash: bool) -> bool {
		let Some(i) = self.members.iter().position(|s| s.who == w) else { return false };
		let s = self.members.remove(i);
		if slash {
			self.slash(w, s.deposit)
		} else {
			self.release(w, s.deposit)
		}
		if let Some(best) = self.runners.pop() {
			self.members.push(best);
			self.members.sort_by_key(|s| s.who);
		}
		if self.prime == Some(w) {
			self.prime = None;
		}
		true
	}

	/// The blocks worth a leap: where a lock runs out, where a term ends, and the one before each.
	pub fn leaps(&self) -> Vec<u64> {
		let t = TermDuration::val();
		let mut to: Vec<u64> = self.voters.values().map(|b| b.until).collect();
		let end = if t > 0 { (self.now / t + 1) * t } else { u64::MAX };
		if t > 0 {
			to.push(end);
		}
		let mut to: Vec<u64> = to.into_iter().flat_map(|x| [x.saturating_sub(1), x]).filter(|x| *x > self.now && *x <= end).collect();
		to.sort();
		to.dedup();
		to
	}

	pub fn next(&mut self) -> Election {
		self.now += 1;
		let t = TermDuration::val();
		if t > 0 && self.now % t == 0 {
			self.elect()
		} else {
			Election::No
		}
	}

	fn elect(&mut self) -> Election {
		let mut pool: Vec<(u64, u64)> = self.cands.iter().map(|(w, d)| (*w, *d)).collect();
		pool.extend(self.members.iter().chain(&self.runners).map(|s| (s.who, s.deposit)));
		if pool.is_empty() {
			return Election::Empty;
		}
		if self.voters.len() > MaxVoters::val() as usize {
			return Election::Error;
		}
		// sequential Phragmén, by the library the pallet is specified to use
		let n = DesiredMembers::val() as usize;
		let want = n + DesiredRunnersUp::val() as usize;
		let ids: Vec<u64> = pool.iter().map(|p| p.0).collect();
		let mut order: Vec<u64> = self.voters.keys().copied().collect();
		order.sort_by_key(|v| sp_io::hashing::twox_64(&v.to_le_bytes()));
		let ballots: Vec<(u64, u64, Vec<u64>)> =
			order.iter().map(|v| (*v, self.voters[v].stake / PerVote::val(), self.voters[v].votes.clone())).collect();
		let r = sp_npos_elections::seq_phragmen::<u64, sp_runtime::Perbill>(want, ids, ballots, None).expect("phragmen");
		let winners: Vec<(u64, u64)> = r.winners.into_iter().filter(|w| w.1 > 0).map(|(w, s)| (w, s as u64 * PerVote::val())).collect();
		let dep: BTreeMap<u64, u64> = pool.iter().copied().collect();
		let seat = |&(who, stake): &(u64, u64)| Seat { who, stake, deposit: dep[&who] };
		let k = n.min(winners.len());
		self.members = winners[..k].iter().map(seat).collect();
		self.members.sort_by_key(|s| s.who);
		self.runners = winners[k..].iter().rev().map(seat).collect();
		self.cands.clear();
		for (w, d) in pool {
			if !winners.iter().any(|x| x.0 == w) {
				self.slash(w, d);
			}
		}
		// the prime: every ballot gives its stake times (limit - position) to whom it names
		let mut best: Option<(u64, u64)> = None;
		for s in &self.members {
			let score: u64 = self
				.voters
				.values()
				.flat_map(|b| b.votes.iter().enumerate().filter(|(_, v)| **v == s.who).map(|(p, _)| b.stake * (MaxVotesPerVoter::val() as u64 - p as u64)))
				.sum();
			if best.map_or(true, |b| score >= b.0) {
				best = Some((score, s.who));
			}
		}
		self.prime = best.map(|b| b.1);
		self.rounds += 1;
		Election::Done
	}
}

/// Exact fractions for the independent Phragmén oracle.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Q(u128, u128);
fn gcd(a: u128, b: u128) -> u128 {
	if b == 0 {
		a
	} else {
		gcd(b, a % b)
	}
}
impl Q {
	fn new(n: u128, d: u128) -> Q {
		let g = gcd(n, d).max(1);
		Q(n / g, d / g)
	}
	fn add(self, o: Q) -> Q {
		Q::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1)
	}
	fn sub(self, o: Q) -> Q {
		Q::new(self.0 * o.1 - o.0 * self.1, self.1 * o.1)
	}
	fn mul(self, o: Q) -> Q {
		Q::new(self.0 * o.0, self.1 * o.1)
	}
	fn div(self, o: Q) -> Q {
		Q::new(self.0 * o.1, self.1 * o.0)
	}
	fn lt(self, o: Q) -> bool {
		self.0 * o.1 < o.0 * self.1
	}
}

/// Is (members with stakes, runners-up best first with stakes) an outcome of sequential Phragmén on
/// exact numbers, for some way of breaking exact ties?
pub fn admissible(
	pool: &BTreeSet<u64>,
	ballots: &[(Vec<u64>, u64)],
	members: &[(u64, u64)],
	runners: &[(u64, u64)],
	desired: usize,
	desired_runners: usize,
) -> Result<(), String> {
	// ballots reduced to the pool, without repetition
	let b: Vec<(Vec<u64>, u64)> = ballots
		.iter()
		.map(|(v, s)| {
			let mut u = vec![];
			for x in v {
				if pool.contains(x) && !u.contains(x) {
					u.push(*x)
				}
			}
			(u, *s)
		})
		.collect();
	let backed: BTreeSet<u64> =
		pool.iter().copied().filter(|c| b.iter().any(|(v, s)| *s > 0 && v.contains(c))).collect();
	let n = backed.len().min(desired + desired_runners);
	if members.len() != n.min(desired) || runners.len() != n - n.min(desired) {
		return Err(format!(
			"{} members and {} runners-up were elected of {} backed candidates ({desired} + {desired_runners} seats)",
			members.len(),
			runners.len(),
			backed.len()
		));
	}
	fn go(
		b: &[(Vec<u64>, u64)],
		backed: &BTreeSet<u64>,
		load: Vec<Q>,
		edges: Vec<(usize, u64, Q)>,
		elected: Vec<u64>,
		members: &[(u64, u64)],
		runners: &[(u64, u64)],
	) -> bool {
		let i = elected.len();
		if i == members.len() + runners.len() {
			// the stakes: every ballot is spread over whom it elected, in proportion to the loads
			return members.iter().chain(runners).all(|(w, got)| {
				let mut s = Q(0, 1);
				for (v, c, e) in &edges {
					if c == w {
						s = s.add(Q(b[*v].1 as u128, 1).mul(*e).div(load[*v]));
					}
				}
				let exact = s.0 as f64 / s.1 as f64;
				(exact - *got as f64).abs() <= b.len() as f64 + 0.5
			});
		}
		let score = |c: u64| {
			let a: u64 = b.iter().filter(|(v, _)| v.contains(&c)).map(|x| x.1).sum();
			let mut s = Q(1, 1);
			for (k, (v, st)) in b.iter().enumerate() {
				if v.contains(&c) {
					s = s.add(load[k].mul(Q(*st as u128, 1)));
				}
			}
			s.div(Q(a as u128, 1))
		};
		let left: Vec<(u64, Q)> =
			backed.iter().filter(|c| !elected.contains(c)).map(|c| (*c, score(*c))).collect();
		let Some(min) = left.iter().copied().reduce(|x, y| if y.1.lt(x.1) { y } else { x }) else { return false };
		left.iter().filter(|c| c.1 == min.1).any(|&(c, s)| {
			// the seat this rank gets
			let fits = if i < members.len() {
				members.iter().any(|m| m.0 == c)
			} else {
				runners[i - members.len()].0 == c
			};
			if !fits {
				return false;
			}
			let (mut load, mut edges, mut elected) = (load.clone(), edges.clone(), elected.clone());
			for (k, (v, st)) in b.iter().enumerate() {
				if v.contains(&c) && *st > 0 {
					edges.push((k, c, s.sub(load[k])));
					load[k] = s;
				}
			}
			elected.push(c);
			go(b, backed, load, edges, elected, members, runners)
		})
	}
	let load = vec![Q(0, 1); b.len()];
	if go(&b, &backed, load, vec![], vec![], members, runners) {
		Ok(())
	} else {
		Err(format!("members {members:?} and runners-up (best first) {runners:?} are not the outcome of sequential Phragmén on {ballots:?} over {pool:?}"))
	}
}
