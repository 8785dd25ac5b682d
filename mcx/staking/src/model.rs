//! Reference model of the staking rules.
use crate::runtime::*;
use sp_runtime::{Perbill, Percent};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
	Root,
	None,
	Signed(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	/// one block
	Next,
	/// blocks until a new round has begun
	Round,
	/// the account authors the current block
	Author(u64),
	Pay(u64, u128),
	Join(u64, u128),
	LeaveC(u64),
	ExecLeaveC(u64, u64),
	CancelLeaveC(u64),
	Offline(u64),
	Online(u64),
	MoreC(u64, u128),
	LessC(u64, u128),
	ExecLessC(u64, u64),
	CancelLessC(u64),
	/// delegator, candidate, amount, percent to compound
	Delegate(u64, u64, u128, u8),
	LeaveD(u64),
	ExecLeaveD(u64, u64),
	CancelLeaveD(u64),
	Revoke(u64, u64),
	MoreD(u64, u64, u128),
	LessD(u64, u64, u128),
	/// by, delegator, candidate
	Exec(u64, u64, u64),
	Cancel(u64, u64),
	Auto(u64, u64, u8),
	Hotfix(u64, u64),
	/// the call with its counts one too low
	Short(Box<Op>),
	/// the call with another origin
	As(O, Box<Op>),
	SetExpect(O, [u128; 3]),
	SetInflation(O, [u32; 3]),
	SetBondAccount(O, u64),
	SetReserve(O, u8),
	SetSelected(O, u32),
	SetCommission(O, u32),
	SetBlocks(O, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
	Revoke,
	Less(u128),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Del {
	pub amount: u128,
	pub req: Option<(Act, u32)>,
	pub auto: u8,
}
impl Del {
	pub fn pending(&self) -> u128 {
		match self.req {
			Some((Act::Revoke, _)) => self.amount,
			Some((Act::Less(x), _)) => x,
			None => 0,
		}
	}
	pub fn revoked(&self) -> bool {
		matches!(self.req, Some((Act::Revoke, _)))
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Status {
	Active,
	Idle,
	Leaving(u32),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cand {
	pub bond: u128,
	pub req: Option<(u128, u32)>,
	pub status: Status,
	pub dels: BTreeMap<u64, Del>,
	/// the counted delegators and the others, in the order the implementation keeps them
	pub top: Vec<u64>,
	pub bottom: Vec<u64>,
}
impl Cand {
	pub fn amount(&self, who: u64) -> u128 {
		self.dels.get(&who).map_or(0, |d| d.amount)
	}
	pub fn full(&self) -> bool {
		self.dels.len() >= MaxTop::val() as usize
	}
	pub fn brimful(&self) -> bool {
		self.dels.len() >= (MaxTop::val() + MaxBottom::val()) as usize
	}
	pub fn sorted(&self) -> Vec<u128> {
		let mut v: Vec<u128> = self.dels.values().map(|d| d.amount).collect();
		v.sort_by(|a, b| b.cmp(a));
		v
	}
	/// own bond and the largest delegations
	pub fn counted(&self) -> u128 {
		self.bond + self.sorted().iter().take(MaxTop::val() as usize).sum::<u128>()
	}
	pub fn backing(&self) -> u128 {
		self.bond + self.dels.values().map(|d| d.amount).sum::<u128>()
	}
	pub fn autos(&self) -> u32 {
		self.dels.values().filter(|d| d.auto > 0).count() as u32
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap {
	pub bond: u128,
	pub total: u128,
	pub dels: Vec<(u64, u128, u8)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Acc {
	pub free: u128,
	pub as_cand: u128,
	pub as_del: u128,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Config {
	pub commission: u32,
	pub selected: u32,
	pub expect: [u128; 3],
	pub annual: [u32; 3],
	pub round: [u32; 3],
	pub bond: (u64, u8),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	pub cur: u32,
	pub first: u64,
	pub len: u32,
	pub acc: BTreeMap<u64, Acc>,
	pub issuance: u128,
	pub cands: BTreeMap<u64, Cand>,
	pub selected: Vec<u64>,
	pub snaps: BTreeMap<u32, BTreeMap<u64, Snap>>,
	pub staked: BTreeMap<u32, u128>,
	pub points: BTreeMap<u32, BTreeMap<u64, u32>>,
	/// issuance and commission of the round being paid, and who is still to be paid
	pub payout: Option<(u32, u128, u32)>,
	/// the length of the running round was changed
	pub cut: bool,
	pub cfg: Config,
}

impl M {
	pub fn total(&self) -> u128 {
		self.cands.values().map(|c| c.backing()).sum()
	}
	pub fn is_delegator(&self, who: u64) -> bool {
		self.cands.values().any(|c| c.dels.contains_key(&who))
	}
	pub fn dels_of(&self, who: u64) -> Vec<(u64, Del)> {
		self.cands.iter().filter_map(|(c, x)| x.dels.get(&who).map(|d| (*c, d.clone()))).collect()
	}
	pub fn delegated(&self, who: u64) -> u128 {
		self.dels_of(who).iter().map(|d| d.1.amount).sum()
	}
	pub fn pending(&self, who: u64) -> u128 {
		self.dels_of(who).iter().map(|d| d.1.pending()).sum()
	}
	pub fn pool(&self) -> BTreeMap<u64, u128> {
		self.cands.iter().filter(|c| c.1.status == Status::Active).map(|(a, c)| (*a, c.counted())).collect()
	}
	fn usable(&self, who: u64) -> u128 {
		self.acc.get(&who).map_or(0, |a| a.free.saturating_sub(ED))
	}
	fn hold_c(&mut self, who: u64, x: u128) {
		let a = self.acc.entry(who).or_default();
		a.free -= x;
		a.as_cand += x;
	}
	fn free_c(&mut self, who: u64, x: u128) {
		let a = self.acc.entry(who).or_default();
		a.free += x;
		a.as_cand -= x;
	}
	fn hold_d(&mut self, who: u64, x: u128) {
		let a = self.acc.entry(who).or_default();
		a.free -= x;
		a.as_del += x;
	}
	pub fn free_d(&mut self, who: u64, x: u128) {
		let a = self.acc.entry(who).or_default();
		a.free += x;
		a.as_del -= x;
	}
	/// the delegation ends and its funds return
	pub fn end(&mut self, who: u64, cand: u64) {
		if let Some(d) = self.cands.get_mut(&cand).and_then(|c| c.dels.remove(&who)) {
			self.free_d(who, d.amount);
		}
	}
	/// the counts a call has to name
	pub fn counts(&self, op: &Op) -> [u32; 3] {
		let pool = self.pool().len() as u32;
		let n = |c: &u64| self.cands.get(c).map_or(0, |c| c.dels.len() as u32);
		let autos = |c: &u64| self.cands.get(c).map_or(0, |c| c.autos());
		let of = |d: &u64| self.dels_of(*d).len() as u32;
		match op {
			Op::Join(..) | Op::LeaveC(_) | Op::CancelLeaveC(_) => [pool, 0, 0],
			Op::ExecLeaveC(_, c) => [n(c), 0, 0],
			Op::Delegate(d, c, _, p) => [n(c), if *p > 0 { autos(c) } else { 0 }, of(d)],
			Op::ExecLeaveD(_, d) => [of(d), 0, 0],
			Op::Auto(d, c, _) => [autos(c), of(d), 0],
			_ => [0; 3],
		}
	}

	/// Does the call succeed, and what does it do? (Who is displaced by a new delegation is decided
	/// by `displaced`.)
	pub fn apply(&mut self, op: &Op) -> bool {
		let cur = self.cur;
		match op.clone() {
			Op::Next | Op::Round | Op::Author(_) => unreachable!(),
			Op::Short(op) => {
				if self.counts(&op).iter().any(|n| *n > 0) {
					return false;
				}
				self.apply(&op)
			},
			Op::As(o, op) => match (&*op, o) {
				(Op::SetExpect(_, x), o) => self.apply(&Op::SetExpect(o, *x)),
				_ => false,
			},
			Op::Pay(who, x) => {
				if self.usable(who) < x {
					return false;
				}
				self.acc.get_mut(&who).unwrap().free -= x;
				self.acc.get_mut(&PAYER).unwrap().free += x;
				true
			},
			Op::Join(who, x) => {
				if self.cands.contains_key(&who) || self.is_delegator(who) || x < MinCandidateStk::val() || self.usable(who) < x
				{
					return false;
				}
				self.hold_c(who, x);
				self.cands.insert(
					who,
					Cand { bond: x, req: None, status: Status::Active, dels: BTreeMap::new(), top: vec![], bottom: vec![] },
				);
				true
			},
			Op::LeaveC(who) => match self.cands.get_mut(&who) {
				Some(c) if !matches!(c.status, Status::Leaving(_)) => {
					c.status = Status::Leaving(cur + LeaveCandidatesDelay::val());
					true
				},
				_ => false,
			},
			Op::ExecLeaveC(_, who) => match self.cands.get(&who).cloned() {
				Some(c) if matches!(c.status, Status::Leaving(w) if w <= cur) => {
					for d in c.dels.keys() {
						self.end(*d, who);
					}
					self.free_c(who, c.bond);
					self.cands.remove(&who);
					true
				},
				_ => false,
			},
			Op::CancelLeaveC(who) => match self.cands.get_mut(&who) {
				Some(c) if matches!(c.status, Status::Leaving(_)) => {
					c.status = Status::Active;
					true
				},
				_ => false,
			},
			Op::Offline(who) => match self.cands.get_mut(&who) {
				Some(c) if c.status == Status::Active => {
					c.status = Status::Idle;
					true
				},
				_ => false,
			},
			Op::Online(who) => match self.cands.get_mut(&who) {
				Some(c) if c.status == Status::Idle => {
					c.status = Status::Active;
					true
				},
				_ => false,
			},
			Op::MoreC(who, x) => {
				if !self.cands.contains_key(&who) || self.usable(who) < x {
					return false;
				}
				self.hold_c(who, x);
				self.cands.get_mut(&who).unwrap().bond += x;
				true
			},
			Op::LessC(who, x) => match self.cands.get_mut(&who) {
				Some(c) if c.req.is_none() && c.bond >= x && c.bond - x >= MinCandidateStk::val() => {
					c.req = Some((x, cur + CandidateBondLessDelay::val()));
					true
				},
				_ => false,
			},
			Op::ExecLessC(_, who) => match self.cands.get_mut(&who) {
				Some(c) if matches!(c.req, Some((_, w)) if w <= cur) => {
					let x = c.req.take().unwrap().0;
					c.bond -= x;
					self.free_c(who, x);
					true
				},
				_ => false,
			},
			Op::CancelLessC(who) => match self.cands.get_mut(&who) {
				Some(c) if c.req.is_some() => {
					c.req = None;
					true
				},
				_ => false,
			},
			Op::Delegate(who, cand, x, auto) => {
				let mine = self.dels_of(who);
				if self.usable(who) < x {
					return false;
				}
				if mine.is_empty() {
					if x < MinDelegatorStk::val() || self.cands.contains_key(&who) {
						return false;
					}
				} else if x < MinDelegation::val() ||
					mine.len() >= MaxDelegationsPerDelegator::val() as usize ||
					mine.iter().any(|d| d.0 == cand)
				{
					return false;
				}
				let Some(c) = self.cands.get_mut(&cand) else { return false };
				// a place among all is taken only by more than the smallest has
				if c.brimful() && x <= *c.sorted().last().unwrap() {
					return false;
				}
				c.dels.insert(who, Del { amount: x, req: None, auto });
				self.hold_d(who, x);
				true
			},
			Op::LeaveD(who) => {
				let mine = self.dels_of(who);
				if mine.is_empty() || mine.iter().all(|d| d.1.revoked()) {
					return false;
				}
				for (c, d) in mine {
					if !d.revoked() {
						self.cands.get_mut(&c).unwrap().dels.get_mut(&who).unwrap().req =
							Some((Act::Revoke, cur + LeaveDelegatorsDelay::val()));
					}
				}
				true
			},
			Op::CancelLeaveD(who) => {
				let mine = self.dels_of(who);
				if mine.is_empty() || !mine.iter().all(|d| d.1.revoked()) {
					return false;
				}
				for (c, _) in mine {
					self.cands.get_mut(&c).unwrap().dels.get_mut(&who).unwrap().req = None;
				}
				true
			},
			Op::ExecLeaveD(_, who) => {
				let mine = self.dels_of(who);
				if mine.is_empty() || !mine.iter().all(|d| matches!(d.1.req, Some((Act::Revoke, w)) if w <= cur)) {
					return false;
				}
				for (c, _) in mine {
					self.end(who, c);
				}
				true
			},
			Op::Revoke(who, cand) => match self.del(who, cand) {
				Some(d) if d.req.is_none() => {
					d.req = Some((Act::Revoke, cur + RevokeDelegationDelay::val()));
					true
				},
				_ => false,
			},
			Op::MoreD(who, cand, x) => self.more(who, cand, x),
			Op::LessD(who, cand, x) => {
				let net = self.delegated(who) - self.pending(who);
				match self.del(who, cand) {
					Some(d)
						if d.req.is_none() &&
							d.amount > x && d.amount - x >= MinDelegation::val() &&
							x <= net.saturating_sub(MinDelegatorStk::val()) =>
					{
						d.req = Some((Act::Less(x), cur + DelegationBondLessDelay::val()));
						true
					},
					_ => false,
				}
			},
			Op::Exec(_, who, cand) => {
				let (n, total) = (self.dels_of(who).len(), self.delegated(who));
				let Some(d) = self.del(who, cand) else { return false };
				match d.req {
					Some((Act::Revoke, w)) if w <= cur => {
						if n > 1 && total - d.amount < MinDelegatorStk::val() {
							return false;
						}
						self.end(who, cand);
						true
					},
					Some((Act::Less(x), w)) if w <= cur => {
						if total - x < MinDelegatorStk::val() || total - x < MinDelegation::val() {
							return false;
						}
						d.amount -= x;
						d.req = None;
						self.free_d(who, x);
						true
					},
					_ => false,
				}
			},
			Op::Cancel(who, cand) => match self.del(who, cand) {
				Some(d) if d.req.is_some() => {
					d.req = None;
					true
				},
				_ => false,
			},
			Op::Auto(who, cand, p) => match self.del(who, cand) {
				Some(d) => {
					d.auto = p;
					true
				},
				None => false,
			},
			Op::Hotfix(_, c) => !self.cands.contains_key(&c),
			Op::SetExpect(o, x) => {
				if o != O::Signed(GOV) || !range(&x) || x == self.cfg.expect {
					return false;
				}
				self.cfg.expect = x;
				true
			},
			Op::SetInflation(o, x) => {
				if o != O::Signed(GOV) || !range(&x) || x == self.cfg.annual {
					return false;
				}
				self.cfg.annual = x;
				self.cfg.round = per_round(&x, self.len);
				true
			},
			Op::SetBondAccount(o, a) => {
				if o != O::Signed(GOV) || a == self.cfg.bond.0 {
					return false;
				}
				self.cfg.bond.0 = a;
				true
			},
			Op::SetReserve(o, p) => {
				if o != O::Signed(GOV) || p == self.cfg.bond.1 {
					return false;
				}
				self.cfg.bond.1 = p;
				true
			},
			Op::SetSelected(o, n) => {
				if o != O::Root || n < MinSelectedCandidates::val() || n == self.cfg.selected || n >= self.len {
					return false;
				}
				self.cfg.selected = n;
				true
			},
			Op::SetCommission(o, p) => {
				if o != O::Root || p == self.cfg.commission {
					return false;
				}
				self.cfg.commission = p;
				true
			},
			Op::SetBlocks(o, n) => {
				if o != O::Root || n < MinBlocksPerRound::val() || n == self.len || n <= self.cfg.selected {
					return false;
				}
				self.len = n;
				self.cut = true;
				self.cfg.round = per_round(&self.cfg.annual, n);
				true
			},
		}
	}
	pub fn del(&mut self, who: u64, cand: u64) -> Option<&mut Del> {
		self.cands.get_mut(&cand).and_then(|c| c.dels.get_mut(&who))
	}
	fn more(&mut self, who: u64, cand: u64, x: u128) -> bool {
		let funds = self.usable(who) >= x;
		match self.del(who, cand) {
			Some(d) if !d.revoked() && funds => {
				d.amount += x;
				self.hold_d(who, x);
				true
			},
			_ => false,
		}
	}

	/// Does a new round begin with this block? Then also set up the payments for a past one.
	pub fn begin_block(&mut self) -> bool {
		self.now += 1;
		if self.now - self.first < self.len as u64 {
			return false;
		}
		self.cur += 1;
		self.first = self.now;
		self.cut = false;
		self.payout = None;
		let delay = RewardPaymentDelay::val();
		if self.cur > delay {
			let r = self.cur - delay;
			let pts: u32 = self.points.get(&r).map_or(0, |p| p.values().sum());
			if pts > 0 {
				let staked = self.staked.get(&r).copied().unwrap_or(0);
				let e = &self.cfg.expect;
				let i = if staked < e[0] {
					0
				} else if staked > e[2] {
					2
				} else {
					1
				};
				let issuance = Perbill::from_parts(self.cfg.round[i]) * self.issuance;
				self.payout = Some((r, issuance, self.cfg.commission));
			}
			// what lies further back plays no role any more
			self.snaps.retain(|k, _| *k + delay >= self.cur);
			self.staked.retain(|k, _| *k + delay > self.cur);
			self.points.retain(|k, _| *k + delay >= self.cur);
		}
		true
	}

	/// The collators of the new round: the active candidates with the most counted stake.
	/// Returns what each of them may be (only equal stakes leave a choice).
	pub fn right_selection(&self, chosen: &[u64]) -> Result<(), String> {
		let pool = self.pool();
		if pool.is_empty() {
			return if chosen == self.selected {
				Ok(())
			} else {
				Err(format!("no candidate is active, {:?} must stay", self.selected))
			};
		}
		if chosen.windows(2).any(|w| w[0] >= w[1]) {
			return Err("not sorted and distinct".into());
		}
		let want = pool.len().min(self.cfg.selected as usize);
		if chosen.len() != want {
			return Err(format!("{want} must be selected"));
		}
		for c in chosen {
			let Some(x) = pool.get(c) else { return Err(format!("{c} is not an active candidate")) };
			if let Some((b, y)) = pool.iter().find(|(b, y)| !chosen.contains(b) && *y > x) {
				return Err(format!("{c} with a counted stake of {x} was preferred to {b} with {y}"));
			}
		}
		Ok(())
	}
	/// what the rewards of the round that begins are computed from
	pub fn snapshot(&self, cand: u64) -> Snap {
		let c = &self.cands[&cand];
		let dels: Vec<(u64, u128, u8)> =
			c.top.iter().map(|d| (*d, c.dels[d].amount.saturating_sub(c.dels[d].pending()), c.dels[d].auto)).collect();
		let total = c.bond + dels.iter().map(|d| d.1).sum::<u128>();
		Snap { bond: c.bond, total, dels }
	}

	/// the rewards of a collator for a round are paid
	pub fn reward(&mut self, r: u32, issuance: u128, commission: u32, collator: u64, snap: &Snap) -> &'static str {
		let of = |p: Option<&BTreeMap<u64, u32>>| p.map_or((0, 0), |p| (p.get(&collator).copied().unwrap_or(0), p.values().sum()));
		let (pts, all): (u32, u32) = of(self.points.get(&r));
		if pts == 0 || all == 0 {
			return "nothing earned";
		}
		let share = Perbill::from_rational(pts, all);
		let due = share * issuance;
		if snap.dels.is_empty() {
			self.transfer(collator, due);
			return "paid alone";
		}
		let fee = share * (Perbill::from_parts(commission) * issuance);
		let rest = due.saturating_sub(fee);
		self.transfer(collator, Perbill::from_rational(snap.bond, snap.total) * rest + fee);
		let mut what = "paid with delegators";
		for (d, x, auto) in &snap.dels {
			let part = Perbill::from_rational(*x, snap.total) * rest;
			if part > 0 && self.transfer(*d, part) && *auto > 0 {
				let back = Percent::from_percent(*auto).mul_ceil(part);
				what = if self.more(*d, collator, back) { "paid and compounded" } else { "paid, not compounded" };
			}
		}
		what
	}
	fn transfer(&mut self, to: u64, x: u128) -> bool {
		if self.usable(PAYER) < x {
			return false;
		}
		self.acc.get_mut(&PAYER).unwrap().free -= x;
		self.acc.entry(to).or_default().free += x;
		true
	}
}
fn range<T: Ord>(x: &[T; 3]) -> bool {
	x[0] <= x[1] && x[1] <= x[2]
}
/// (1 + annual) ^ (1 / rounds per year) - 1, rounded up
pub fn per_round(annual: &[u32; 3], len: u32) -> [u32; 3] {
	let rounds = (31557600 / 12 / len) as f64;
	annual.map(|a| (((1.0 + a as f64 / 1e9).powf(1.0 / rounds) - 1.0) * 1e9 - 1e-6).ceil() as u32)
}
