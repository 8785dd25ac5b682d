//! Reference model of the democracy pallet, written from its documented rules.
use crate::runtime::*;
use frame_support::traits::Get;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum O {
	Root,
	Signed(u64),
	None,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
	Std { aye: bool, conv: u8, bal: u64 },
	Split { aye: u64, nay: u64 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Own {
	External,
	Proposal(u32),
	Referendum(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Thr {
	Approve,
	Against,
	Simple,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
	Next,
	/// straight to block `to`: nothing is due in between
	Jump { to: u64 },
	Propose { who: O, call: u8, value: u64 },
	Second { who: u64, prop: u32 },
	Vote { who: u64, r: u32, v: V },
	RemoveVote { who: u64, r: u32 },
	RemoveOther { who: u64, target: u64, r: u32 },
	Delegate { who: u64, to: u64, conv: u8, bal: u64 },
	Undelegate { who: u64 },
	Unlock { who: u64, target: u64 },
	ExtPropose { thr: Thr, by: O, call: u8 },
	FastTrack { by: O, call: u8, period: u64, delay: u64 },
	Veto { by: O, call: u8 },
	EmergencyCancel { by: O, r: u32 },
	CancelRef { by: O, r: u32 },
	ClearPublic { by: O },
	Blacklist { by: O, call: u8, r: Option<u32> },
	CancelProposal { by: O, prop: u32 },
	SetMeta { by: O, owner: Own, set: Option<u8> },
}

/// stand for the root and for nobody where a user is expected
pub const AS_ROOT: u64 = 1000;
pub const UNSIGNED: u64 = 1001;
impl Op {
	pub fn unsigned(&self) -> bool {
		match *self {
			Op::Second { who, .. } |
			Op::Vote { who, .. } |
			Op::RemoveVote { who, .. } |
			Op::RemoveOther { who, .. } |
			Op::Delegate { who, .. } |
			Op::Undelegate { who } |
			Op::Unlock { who, .. } => who >= AS_ROOT,
			_ => false,
		}
	}
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum MV {
	Direct(BTreeMap<u32, V>),
	Deleg { to: u64, conv: u8, bal: u64 },
}
impl Default for MV {
	fn default() -> Self {
		MV::Direct(BTreeMap::new())
	}
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Ref {
	pub end: u64,
	pub call: u8,
	pub thr: Thr,
	pub delay: u64,
	/// `None` while voting is open
	pub approved: Option<bool>,
}
#[derive(Clone, Debug, Hash, Default, PartialEq, Eq)]
pub struct Acc {
	pub free: u64,
	pub held: u64,
	/// the most that may be frozen by the documented (aggregating) lock rule
	pub frozen: u64,
	pub voting: MV,
	pub prior: (u64, u64),
	/// lock obligations that outlive the vote or delegation: (until, amount)
	pub owed: Vec<(u64, u64)>,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct M {
	pub now: u64,
	pub acc: BTreeMap<u64, Acc>,
	pub props: Vec<(u32, u8, u64)>,
	pub deposits: BTreeMap<u32, (Vec<u64>, u64)>,
	pub prop_count: u32,
	pub refs: BTreeMap<u32, Ref>,
	pub ref_count: u32,
	pub external: Option<(u8, Thr)>,
	pub last_external: bool,
	pub blacklist: BTreeMap<u8, (u64, Vec<u64>)>,
	pub cancelled: Vec<u8>,
	pub meta: BTreeMap<Own, u8>,
	/// (when, call) of approved proposals not enacted yet
	pub agenda: Vec<(u64, u8)>,
	/// (call, block) of enacted proposals
	pub hits: Vec<(u8, u64)>,
	pub issuance: u64,
}

pub fn weight(conv: u8, bal: u64) -> u64 {
	if conv == 0 {
		bal / 10
	} else {
		bal * conv as u64
	}
}
pub fn periods(conv: u8) -> u64 {
	[0, 1, 2, 4, 8, 16, 32][conv as usize]
}
pub fn isqrt(n: u64) -> u64 {
	let mut r = 0u64;
	while (r + 1) * (r + 1) <= n {
		r += 1;
	}
	r
}
/// Exact rational comparison with integer square roots.
pub fn passes(thr: Thr, ayes: u64, nays: u64, turnout: u64, electorate: u64) -> bool {
	let (sv, se) = (isqrt(turnout) as u128, isqrt(electorate) as u128);
	if sv == 0 {
		return false;
	}
	match thr {
		// nays / sqrt(turnout) < ayes / sqrt(electorate)
		Thr::Approve => (nays as u128) * se < (ayes as u128) * sv,
		// nays / sqrt(electorate) < ayes / sqrt(turnout)
		Thr::Against => (nays as u128) * sv < (ayes as u128) * se,
		Thr::Simple => ayes > nays,
	}
}

pub fn vbal(v: &V) -> u64 {
	match *v {
		V::Std { bal, .. } => bal,
		V::Split { aye, nay } => aye.saturating_add(nay),
	}
}

impl M {
	pub fn a(&mut self, who: u64) -> &mut Acc {
		self.acc.entry(who).or_default()
	}
	pub fn total(&self, who: u64) -> u64 {
		self.acc.get(&who).map_or(0, |a| a.free + a.held)
	}
	pub fn ongoing(&self, r: u32) -> bool {
		self.refs.get(&r).map_or(false, |x| x.approved.is_none())
	}
	pub fn votes_of(&self, who: u64) -> Option<&BTreeMap<u32, V>> {
		match self.acc.get(&who).map(|a| &a.voting) {
			Some(MV::Direct(v)) => Some(v),
			_ => None,
		}
	}
	/// (votes, capital) delegated to `who`
	pub fn received(&self, who: u64) -> (u64, u64) {
		let mut s = (0, 0);
		for a in self.acc.values() {
			if let MV::Deleg { to, conv, bal } = a.voting {
				if to == who {
					s.0 += weight(conv, bal);
					s.1 += bal;
				}
			}
		}
		s
	}
	/// (ayes, nays, turnout)
	pub fn tally(&self, r: u32) -> (u64, u64, u64) {
		let (mut ayes, mut nays, mut turnout) = (0, 0, 0);
		for (who, a) in &self.acc {
			let MV::Direct(votes) = &a.voting else { continue };
			match votes.get(&r) {
				Some(V::Std { aye, conv, bal }) => {
					let (dv, dc) = self.received(*who);
					*(if *aye { &mut ayes } else { &mut nays }) += weight(*conv, *bal) + dv;
					turnout += bal + dc;
				},
				Some(V::Split { aye, nay }) => {
					ayes += weight(0, *aye);
					nays += weight(0, *nay);
					turnout += aye + nay;
				},
				None => {},
			}
		}
		(ayes, nays, turnout)
	}
	/// until when the vote binds funds after its referendum has ended
	pub fn bound_until(&self, v: &V, r: u32) -> Option<(u64, u64)> {
		let x = self.refs.get(&r)?;
		let approved = x.approved?;
		match *v {
			V::Std { aye, conv, bal } if aye == approved => {
				Some((x.end + VoteLockingPeriod::get() * periods(conv), bal))
			},
			_ => None,
		}
	}
	/// The least amount that must be frozen now.
	pub fn must_be_frozen(&self, who: u64) -> u64 {
		let Some(a) = self.acc.get(&who) else { return 0 };
		let mut m = 0;
		for (until, amt) in &a.owed {
			if self.now < *until {
				m = m.max(*amt);
			}
		}
		match &a.voting {
			MV::Deleg { bal, .. } => m = m.max(*bal),
			MV::Direct(votes) => {
				for (r, v) in votes {
					if self.ongoing(*r) {
						m = m.max(vbal(v));
					} else if let Some((until, amt)) = self.bound_until(v, *r) {
						if self.now < until {
							m = m.max(amt);
						}
					}
				}
			},
		}
		m
	}
	/// the documented lock after `unlock`
	fn lock_needed(&mut self, who: u64) -> u64 {
		let now = self.now;
		let a = self.a(who);
		if now >= a.prior.0 {
			a.prior = (0, 0);
		}
		let cur = match &a.voting {
			MV::Deleg { bal, .. } => *bal,
			MV::Direct(votes) => votes.values().map(vbal).max().unwrap_or(0),
		};
		cur.max(a.prior.1)
	}
	fn owe(&mut self, who: u64, until: u64, amt: u64) {
		let now = self.now;
		let a = self.a(who);
		a.prior = (a.prior.0.max(until), a.prior.1.max(amt));
		if until > now {
			a.owed.push((until, amt));
			a.owed.sort();
		}
	}
	fn hold(&mut self, who: u64, amt: u64) -> bool {
		let a = self.a(who);
		// the account must keep the existential deposit (1) free; frozen and held funds may overlap
		if a.free < amt + 1 {
			return false;
		}
		a.free -= amt;
		a.held += amt;
		true
	}
	fn slash(&mut self, who: u64, amt: u64) {
		self.a(who).held -= amt;
		self.issuance -= amt;
	}
	fn refund(&mut self, who: u64, amt: u64) {
		let a = self.a(who);
		a.held -= amt;
		a.free += amt;
	}
	fn start(&mut self, end: u64, call: u8, thr: Thr, delay: u64) -> u32 {
		let i = self.ref_count;
		self.ref_count += 1;
		self.refs.insert(i, Ref { end, call, thr, delay, approved: None });
		i
	}
	fn move_meta(&mut self, from: Own, to: Own) {
		if let Some(h) = self.meta.remove(&from) {
			self.meta.insert(to, h);
		}
	}
	fn cancel_ref(&mut self, r: u32) {
		self.refs.remove(&r);
		self.meta.remove(&Own::Referendum(r));
	}
	fn blocked(&self, call: u8) -> bool {
		self.blacklist.get(&call).map_or(false, |(until, _)| self.now < *until)
	}
	pub fn backing(&self, p: u32) -> u64 {
		self.deposits.get(&p).map_or(0, |(w, d)| d * w.len() as u64)
	}
	/// what the next launch takes: None, Some(None) = external, Some(Some(best backing)) = a public one
	pub fn next_launch(&self) -> Option<Option<u64>> {
		let public = self.props.iter().map(|p| self.backing(p.0)).max();
		match (self.last_external, self.external.is_some(), public) {
			(true, _, Some(b)) => Some(Some(b)),
			(true, true, None) => Some(None),
			(false, true, _) => Some(None),
			(false, false, Some(b)) => Some(Some(b)),
			_ => None,
		}
	}

	/// Nothing will happen by itself.
	pub fn quiet(&self) -> bool {
		self.props.is_empty() &&
			self.external.is_none() &&
			!self.last_external &&
			self.agenda.is_empty() &&
			self.refs.values().all(|r| r.approved.is_some())
	}
	/// The blocks at which some funds come free.
	pub fn expiries(&self) -> Vec<u64> {
		let mut t: Vec<u64> = vec![];
		for a in self.acc.values() {
			t.push(a.prior.0);
			t.extend(a.owed.iter().map(|o| o.0));
			if let MV::Direct(v) = &a.voting {
				for (r, v) in v {
					if let (Some(Ref { end, approved: Some(yes), .. }), V::Std { aye, conv, .. }) = (self.refs.get(r), v) {
						if aye == yes {
							t.push(end + VoteLockingPeriod::get() * periods(*conv));
						}
					}
				}
			}
		}
		t.retain(|t| *t > self.now);
		t.sort();
		t.dedup();
		t
	}

	/// A block begins. `pick` is the public proposal that the implementation took, if any.
	pub fn next(&mut self, pick: Option<u32>) -> Result<(), String> {
		self.now += 1;
		let now = self.now;
		// enactment
		let (due, rest): (Vec<_>, Vec<_>) = self.agenda.drain(..).partition(|x| x.0 == now);
		self.agenda = rest;
		for (_, c) in due {
			self.hits.push((c, now));
		}
		self.hits.sort();
		// tabling
		let matured: Vec<u32> =
			self.refs.iter().filter(|(_, r)| r.approved.is_none() && r.end == now).map(|(i, _)| *i).collect();
		let mut err = None;
		if now % LaunchPeriod::get() == 0 {
			let what = self.next_launch();
			self.last_external = false;
			match what {
				None => {
					if pick.is_some() {
						err = Some("a public proposal vanished with nothing to table".to_string());
					}
				},
				Some(None) => {
					if pick.is_some() {
						err = Some("a public proposal was tabled in the external proposal's turn".into());
					} else {
						let (call, thr) = self.external.take().unwrap();
						self.last_external = true;
						let r = self.start(now + VotingPeriod::get(), call, thr, EnactmentPeriod::get());
						self.move_meta(Own::External, Own::Referendum(r));
					}
				},
				Some(Some(best)) => match pick {
					Some(p) if self.props.iter().any(|x| x.0 == p) && self.backing(p) == best => {
						let i = self.props.iter().position(|x| x.0 == p).unwrap();
						let (_, call, _) = self.props.remove(i);
						let (whos, amt) = self.deposits.remove(&p).unwrap();
						for w in whos {
							self.refund(w, amt);
						}
						let r = self.start(now + VotingPeriod::get(), call, Thr::Approve, EnactmentPeriod::get());
						self.move_meta(Own::Proposal(p), Own::Referendum(r));
					},
					other => {
						err = Some(format!(
							"launch took public proposal {other:?}, but the best backing among {:?} is {best}",
							self.props.iter().map(|p| (p.0, self.backing(p.0))).collect::<Vec<_>>()
						))
					},
				},
			}
		} else if pick.is_some() {
			err = Some("a public proposal vanished outside the launch period".into());
		}
		// tallying
		for i in matured {
			let (a, n, t) = self.tally(i);
			let r = self.refs[&i].clone();
			let ok = passes(r.thr, a, n, t, self.issuance - NonVoters::get());
			self.refs.get_mut(&i).unwrap().approved = Some(ok);
			if ok {
				self.agenda.push((now + r.delay.max(1), r.call));
				self.agenda.sort();
			}
		}
		// obligations that have lapsed
		for a in self.acc.values_mut() {
			a.owed.retain(|(u, _)| *u > now);
		}
		match err {
			Some(e) => Err(e),
			None => Ok(()),
		}
	}

	/// Apply a call. Returns whether it must be accepted; on refusal nothing changes.
	pub fn apply(&mut self, op: &Op) -> bool {
		let saved = self.clone();
		let ok = self.try_apply(op);
		if !ok {
			*self = saved;
		}
		ok
	}

	fn try_apply(&mut self, op: &Op) -> bool {
		let now = self.now;
		if op.unsigned() {
			return false;
		}
		match *op {
			Op::Next | Op::Jump { .. } => unreachable!(),
			Op::Propose { who, call, value } => {
				let O::Signed(who) = who else { return false };
				if value < MinimumDeposit::get() ||
					self.props.len() as u32 >= MaxProposals::get() ||
					self.blocked(call) ||
					!self.hold(who, value)
				{
					return false;
				}
				let i = self.prop_count;
				self.prop_count += 1;
				self.deposits.insert(i, (vec![who], value));
				self.props.push((i, call, who));
				true
			},
			Op::Second { who, prop } => {
				let Some((whos, amt)) = self.deposits.get(&prop).cloned() else { return false };
				if whos.len() as u32 >= MaxDeposits::get() || !self.hold(who, amt) {
					return false;
				}
				self.deposits.get_mut(&prop).unwrap().0.push(who);
				true
			},
			Op::Vote { who, r, v } => {
				if !self.ongoing(r) || vbal(&v) > self.total(who) {
					return false;
				}
				let a = self.a(who);
				let MV::Direct(votes) = &mut a.voting else { return false };
				if !votes.contains_key(&r) && votes.len() as u32 >= MaxVotes::get() {
					return false;
				}
				votes.insert(r, v);
				a.frozen = a.frozen.max(vbal(&v));
				true
			},
			Op::RemoveVote { who, r } => self.remove_vote(who, r, true),
			Op::RemoveOther { who, target, r } => self.remove_vote(target, r, who == target),
			Op::Delegate { who, to, conv, bal } => {
				if who == to || bal > self.total(who) {
					return false;
				}
				match self.a(who).voting.clone() {
					MV::Direct(v) if !v.is_empty() => return false,
					MV::Direct(_) => {},
					MV::Deleg { conv, bal, .. } => {
						self.owe(who, now + VoteLockingPeriod::get() * periods(conv), bal)
					},
				}
				let a = self.a(who);
				a.voting = MV::Deleg { to, conv, bal };
				a.frozen = a.frozen.max(bal);
				true
			},
			Op::Undelegate { who } => match self.a(who).voting.clone() {
				MV::Deleg { conv, bal, .. } => {
					self.owe(who, now + VoteLockingPeriod::get() * periods(conv), bal);
					self.a(who).voting = MV::default();
					true
				},
				_ => false,
			},
			Op::Unlock { target, .. } => {
				let need = self.lock_needed(target);
				self.a(target).frozen = need;
				true
			},
			Op::ExtPropose { thr, by, call } => {
				let right = match thr {
					Thr::Approve => EXT,
					Thr::Simple => EXT_MAJ,
					Thr::Against => EXT_DEF,
				};
				if by != O::Signed(right) {
					return false;
				}
				if thr == Thr::Approve && (self.external.is_some() || self.blocked(call)) {
					return false;
				}
				// whatever was said about the one it replaces is void
				self.meta.remove(&Own::External);
				self.external = Some((call, thr));
				true
			},
			Op::FastTrack { by, call, period, delay } => {
				let fast = by == O::Signed(FAST) && period >= FastTrackVotingPeriod::get();
				let instant = by == O::Signed(INSTANT) && InstantAllowed::get();
				if !(fast || instant) || period == 0 {
					return false;
				}
				match self.external {
					Some((c, thr)) if c == call && thr != Thr::Approve => {
						self.external = None;
						let r = self.start(now + period, call, thr, delay);
						self.move_meta(Own::External, Own::Referendum(r));
						true
					},
					_ => false,
				}
			},
			Op::Veto { by, call } => {
				let O::Signed(who) = by else { return false };
				if !([VETO1, VETO2, VETO3].contains(&who) || (VETO4..=VETO9).contains(&who)) || self.external.map(|e| e.0) != Some(call) {
					return false;
				}
				let (old, mut vetoers) = self.blacklist.get(&call).cloned().unwrap_or_default();
				if vetoers.contains(&who) || vetoers.len() as u32 >= MaxBlacklisted::get() {
					return false;
				}
				vetoers.push(who);
				vetoers.sort();
				// a veto never shortens an existing ban
				self.blacklist.insert(call, (old.max(now + CooloffPeriod::get()), vetoers));
				self.external = None;
				self.meta.remove(&Own::External);
				true
			},
			Op::EmergencyCancel { by, r } => {
				if by != O::Signed(CANCEL) || !self.ongoing(r) {
					return false;
				}
				let c = self.refs[&r].call;
				if self.cancelled.contains(&c) {
					return false;
				}
				self.cancelled.push(c);
				self.cancelled.sort();
				self.cancel_ref(r);
				true
			},
			Op::CancelRef { by, r } => {
				if by != O::Root {
					return false;
				}
				self.cancel_ref(r);
				true
			},
			Op::ClearPublic { by } => {
				if by != O::Root {
					return false;
				}
				for (p, ..) in std::mem::take(&mut self.props) {
					if let Some((whos, amt)) = self.deposits.remove(&p) {
						for w in whos {
							self.refund(w, amt);
						}
					}
					self.meta.remove(&Own::Proposal(p));
				}
				true
			},
			Op::Blacklist { by, call, r } => {
				if by != O::Signed(BLACK) {
					return false;
				}
				self.blacklist.insert(call, (u64::MAX, vec![]));
				for (p, c, _) in self.props.clone() {
					if c == call {
						self.drop_prop(p);
					}
				}
				if self.external.map(|e| e.0) == Some(call) {
					self.external = None;
					self.meta.remove(&Own::External);
				}
				if let Some(r) = r {
					if self.ongoing(r) && self.refs[&r].call == call {
						self.cancel_ref(r);
					}
				}
				true
			},
			Op::CancelProposal { by, prop } => {
				if by != O::Signed(CANCELPROP) {
					return false;
				}
				self.drop_prop(prop);
				true
			},
			Op::SetMeta { by, owner, set } => {
				match owner {
					Own::External => {
						let Some((_, thr)) = self.external else { return false };
						let right = match thr {
							Thr::Approve => EXT,
							Thr::Simple => EXT_MAJ,
							Thr::Against => EXT_DEF,
						};
						if by != O::Signed(right) {
							return false;
						}
					},
					Own::Proposal(p) => {
						let Some(x) = self.props.iter().find(|x| x.0 == p) else { return false };
						if by != O::Signed(x.2) {
							return false;
						}
					},
					Own::Referendum(r) => match by {
						O::Root => {},
						O::None => return false,
						O::Signed(_) => {
							if set.is_some() || self.ongoing(r) {
								return false;
							}
						},
					},
				}
				match set {
					// meta hash 1 is the hash of a stored preimage; 2 is not
					Some(1) => {
						self.meta.insert(owner, 1);
					},
					Some(_) => return false,
					None => {
						self.meta.remove(&owner);
					},
				}
				true
			},
		}
	}

	fn drop_prop(&mut self, p: u32) {
		self.props.retain(|x| x.0 != p);
		if let Some((whos, amt)) = self.deposits.remove(&p) {
			for w in whos {
				self.slash(w, amt);
			}
		}
		self.meta.remove(&Own::Proposal(p));
	}

	fn remove_vote(&mut self, who: u64, r: u32, own: bool) -> bool {
		let Some(v) = self.votes_of(who).and_then(|v| v.get(&r)).cloned() else {
			// an account that delegates has no votes: there is nothing to remove (and no harm done)
			return !self.acc.get(&who).map_or(true, |a| matches!(a.voting, MV::Direct(_)));
		};
		if self.ongoing(r) {
			if !own {
				return false;
			}
		} else if let Some((until, amt)) = self.bound_until(&v, r) {
			if self.now < until {
				if !own {
					return false;
				}
				self.owe(who, until, amt);
			}
		}
		match &mut self.a(who).voting {
			MV::Direct(votes) => {
				votes.remove(&r);
			},
			_ => unreachable!(),
		}
		true
	}
}
