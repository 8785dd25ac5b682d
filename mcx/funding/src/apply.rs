//! What every call does, in the model.
use crate::{model::*, runtime::*};
use sp_arithmetic::{FixedPointNumber, Percent};
use Who::*;

/// (calling account, account named by the token, DID, type of investor, policy, signed by the verifier)
pub const PEOPLE: [(u8, u8, u8, InvestorKind, u8, bool); 16] = {
	use InvestorKind::*;
	[
		(8, 8, 8, R, 1, true),
		// 1: issuer
		(1, 1, 1, I, 1, true),
		// 2: A
		(2, 2, 2, I, 1, true),
		// 3: B
		(3, 3, 3, P, 1, true),
		// 4: C
		(4, 4, 4, R, 1, true),
		// 5: B with a second account, which is poor
		(5, 5, 3, P, 1, true),
		// 6: the issuer with a second account
		(6, 6, 1, I, 1, true),
		// 7: another issuer
		(7, 7, 7, I, 1, true),
		// 8: A under another policy
		(2, 2, 2, I, 2, true),
		// 9: the issuer's account under another DID
		(1, 1, 9, I, 1, true),
		// 10: the issuer as a retail investor
		(1, 1, 1, R, 1, true),
		// 11: A with a token of another signer
		(2, 2, 2, I, 1, false),
		// 12: B with A's token
		(3, 2, 2, I, 1, true),
		// 13: the issuer as a professional
		(1, 1, 1, P, 1, true),
		// 14: the second issuer's account with the DID of the first
		(7, 7, 1, I, 1, true),
		// 15: the second issuer participates, retail
		(7, 7, 7, R, 1, true),
	]
};
/// seconds
pub const START: i64 = 1_700_000_000;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Caller {
	Account(u8),
	Root,
	Nobody,
}
impl From<u8> for Caller {
	fn from(a: u8) -> Self {
		Caller::Account(a)
	}
}
/// Numbers from 16 on are the people above with something about the call changed.
pub fn person(p: u8) -> (Caller, Cred) {
	let (caller, sub, did, kind, policy, genuine) = PEOPLE[p as usize % 16];
	let mut caller = Caller::Account(caller);
	let mut c = Cred { sub, did, kind, policy, exp: Some(4_000_000_000), genuine };
	match p / 16 {
		0 => {},
		1 => c.genuine = !c.genuine,
		2 => c.sub = if sub == 8 { 4 } else { 8 },
		3 => c.exp = Some(START - 1),
		4 => c.exp = Some(START),
		5 => c.exp = None,
		6 => c.kind = InvestorKind::R,
		7 => c.kind = InvestorKind::P,
		8 => c.kind = InvestorKind::I,
		9 => c.policy = 2,
		10 => c.did = 9,
		11 => c.exp = Some(START + 1),
		12 => caller = Caller::Nobody,
		13 => caller = Caller::Root,
		14 => caller = Caller::Account(8),
		_ => c.exp = Some(1),
	}
	(caller, c)
}
pub const CHANGES: u8 = 16;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Resp {
	/// exactly the tokens sold (or that many more)
	Enough(u128),
	Short,
	NoAssets,
	Elsewhere,
	Local,
	Pallet(u32),
	OtherPallet,
	TwoPallets,
	NoPallet,
	Done,
	Failed,
	Truncated,
	Null,
}
/// who answers a query that it should not
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Forger {
	Signed,
	Root,
	OtherChain,
	Relay,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Next(u64),
	Price(u32, u128),
	Blocked(bool),
	/// milliseconds since the start
	Clock(u64),
	Create(u8, u8),
	Edit(u8, u32, u8),
	Remove(u8, u32),
	StartEvaluation(u8, u32),
	Evaluate(u8, u32, u128),
	EndEvaluation(u32),
	Bid(u8, u32, u128, Mode, u8),
	EndAuction(u32),
	Contribute(u8, u32, u128, Mode, u8),
	EndFunding(u32),
	StartSettlement(u32),
	SettleEvaluation(u32, u8, u32),
	SettleBid(u32, u8, u32),
	SettleContribution(u32, u8, u32),
	MarkSettled(u32),
	Bonds(u32),
	Fees(u32, u8),
	Vest(u8),
	StartOffchain(u8, u32),
	Confirm(u8, u32, u8),
	StartPallet(u8, u32, u32),
	Open(u32, u32, u32),
	Accepted(u32),
	Readiness(u8, u32),
	Respond(u64, Resp),
	Forge(u64, Resp, Forger, bool),
	Send(u32, u8),
	Finish(u32),
}
use Op::{
	Accepted, Bid as OpBid, Blocked, Bonds, Clock, Confirm, Contribute, Create, Edit, EndAuction, EndEvaluation, EndFunding, Evaluate,
	Fees, Finish, Forge, MarkSettled, Next, Open, Price, Readiness, Remove, Respond, Send, SettleBid, SettleContribution,
	SettleEvaluation, StartEvaluation, StartOffchain, StartPallet, StartSettlement, Vest,
};

/// What the model expects to be sent.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Msg {
	/// accept the channel from this chain and ask for one to it
	Channel(u32),
	/// are the tokens there (at least those issued) and the pallet: chain, queries, tokens
	Check(u32, u64, u64, u128),
	/// migrate: chain, query, pallet, participant, project
	Migrate(u32, u64, u8, u8, u32),
}

fn stuck(r: R, key: &'static str) -> R {
	match r {
		Err(No::Funds) => Err(No::Stuck(key)),
		r => r,
	}
}

impl M {
	fn person(&self, p: u8) -> Result<(u8, u8, InvestorKind, u8), No> {
		let (caller, c) = person(p);
		let Caller::Account(caller) = caller else { return Err(No::Denied) };
		let live = c.exp.map_or(false, |e| e as u64 * 1000 >= self.clock);
		ensure(c.genuine && caller == c.sub && live, No::Denied)?;
		Ok((caller, c.did, c.kind, c.policy))
	}
	fn institution(&self, p: u8) -> Result<(u8, u8), No> {
		let (a, did, kind, _) = self.person(p)?;
		ensure(kind == InvestorKind::I, No::Denied)?;
		Ok((a, did))
	}
	fn px(&self, id: u32) -> u128 {
		self.prices[&id]
	}
	fn plmc_for(&self, usd: u128) -> u128 {
		to_asset(PLMC_ID, self.px(PLMC_ID), usd)
	}
	fn asset_for(&self, a: u8, usd: u128) -> u128 {
		let id = ASSET_IDS[a as usize];
		to_asset(id, self.px(id), usd)
	}
	fn st(&mut self, pid: u32) -> &mut Proj {
		self.projects.get_mut(&pid).unwrap()
	}

	pub fn apply(&mut self, terms: &[Terms], op: &Op, out: &mut Vec<Msg>) -> R {
		match *op {
			Next(k) => {
				self.now += k;
				Ok(())
			},
			Price(id, p) => {
				self.prices.insert(id, p);
				Ok(())
			},
			Clock(ms) => {
				self.clock = START as u64 * 1000 + ms;
				Ok(())
			},
			Blocked(b) => {
				self.blocked = b;
				Ok(())
			},
			Create(p, k) => {
				let (a, did) = self.institution(p)?;
				ensure(!self.active.contains_key(&did), No::Denied)?;
				let t = &terms[k as usize];
				ensure(t.valid, No::Metadata)?;
				let pid = self.next.0;
				self.take(U(a), ED)?;
				self.p(Esc(pid)).free += ED;
				self.next.0 += 1;
				self.active.insert(did, pid);
				self.projects.insert(pid, fresh(a, did, k, t));
				Ok(())
			},
			Edit(p, pid, k) => {
				let (a, _) = self.institution(p)?;
				let pr = self.proj(pid)?.clone();
				ensure(pr.issuer == a, No::Denied)?;
				ensure(!pr.frozen, No::Round)?;
				let t = &terms[k as usize];
				ensure(t.valid, No::Metadata)?;
				self.projects.insert(pid, fresh(a, pr.did, k, t));
				Ok(())
			},
			Remove(p, pid) => {
				let (a, _) = self.institution(p)?;
				let pr = self.proj(pid)?.clone();
				ensure(pr.issuer == a, No::Denied)?;
				ensure(!pr.frozen, No::Round)?;
				self.projects.remove(&pid);
				self.active.remove(&pr.did);
				Ok(())
			},
			StartEvaluation(p, pid) => {
				let (a, _) = self.institution(p)?;
				let pr = self.proj(pid)?.clone();
				ensure(pr.issuer == a, No::Denied)?;
				ensure(pr.status == St::Application, No::Round)?;
				ensure(terms[pr.meta as usize].policy.is_some(), No::Metadata)?;
				self.st(pid).frozen = true;
				self.goto(pid, St::Evaluation, Some(EVAL));
				Ok(())
			},
			Evaluate(p, pid, usd) => {
				let (a, did, _, policy) = self.person(p)?;
				let pr = self.proj(pid)?.clone();
				let t = &terms[pr.meta as usize];
				ensure(pr.status == St::Evaluation && self.running(&pr), No::Round)?;
				ensure(t.policy == Some(policy), No::Limit)?;
				ensure(usd >= MIN_EVAL && did != pr.did, No::Limit)?;
				let mine = self.evals.range((pid, a, 0)..=(pid, a, u32::MAX)).count() as u32;
				let count = self.eval_count.get(&pid).copied().unwrap_or(0);
				ensure(count < self.most.evals && mine < self.most.evals_user, No::Limit)?;
				let bond = self.plmc_for(usd);
				self.take(U(a), bond)?;
				self.p(U(a)).eval += bond;
				let early = usd.min((Percent::from_percent(10) * pr.target).saturating_sub(pr.bonded_usd));
				let id = self.next.1;
				self.next.1 += 1;
				*self.eval_count.entry(pid).or_default() += 1;
				let when = self.now;
				self.evals
					.insert((pid, a, id), Eval { did, original: bond, current: bond, early, late: usd - early, when });
				let pr = self.st(pid);
				pr.bonded_usd += usd;
				pr.bonded_plmc += bond;
				Ok(())
			},
			EndEvaluation(pid) => {
				let pr = self.proj(pid)?.clone();
				ensure(pr.status == St::Evaluation && self.over(&pr), No::Round)?;
				if pr.bonded_usd >= Percent::from_percent(10) * pr.target {
					self.goto(pid, St::Auction, Some(AUCTION));
				} else {
					self.active.remove(&pr.did);
					self.goto(pid, St::Failed, Some(1));
				}
				Ok(())
			},
			OpBid(p, pid, ct, mode, asset) => {
				let (a, did, kind, policy) = self.person(p)?;
				let pr = self.proj(pid)?.clone();
				let t = &terms[pr.meta as usize];
				ensure(pr.status == St::Auction && self.running(&pr), No::Round)?;
				let (limits, most) = match kind {
					InvestorKind::R => return Err(No::Limit),
					InvestorKind::P => (t.bid[0], 10),
					InvestorKind::I => (t.bid[1], 25),
				};
				ensure(t.policy == Some(policy) && did != pr.did, No::Limit)?;
				ensure(t.assets.contains(&asset), No::Limit)?;
				ensure(ct > 0 && ct <= t.auction && ticket(pr.bucket.1, ct) >= limits.0, No::Limit)?;
				ensure((1..=most).contains(&mode.mult()), No::Limit)?;
				let (parts, bucket) = split(t, pr.bucket, ct);
				for (x, price) in parts {
					let usd = ticket(price, x);
					let before = self.auction_usd.get(&(pid, did)).copied().unwrap_or(0);
					ensure(limits.1.map_or(true, |m| before + usd <= m), No::Limit)?;
					let mine = self.bids.range((pid, a, 0)..=(pid, a, u32::MAX)).count() as u32;
					let count = self.bid_count.get(&pid).copied().unwrap_or(0);
					ensure(mine < self.most.bids_user && count < self.most.bids, No::Limit)?;
					let plmc = self.plmc_for(usd / mode.mult() as u128);
					let funding = self.asset_for(asset, usd);
					let px = self.prices.clone();
					self.bond(&px, pid, a, plmc, mode, asset)?;
					self.send(asset, U(a), Esc(pid), funding, true)?;
					let id = self.next.2;
					self.next.2 += 1;
					*self.bid_count.entry(pid).or_default() += 1;
					*self.auction_usd.entry((pid, did)).or_default() += usd;
					let when = self.now;
					self.bids.insert(
						(pid, a, id),
						Bid { did, status: BidSt::Unknown, ct: x, price, asset, funding, mode, plmc, when },
					);
				}
				self.st(pid).bucket = bucket;
				Ok(())
			},
			EndAuction(pid) => {
				let pr = self.proj(pid)?.clone();
				ensure(pr.status == St::Auction && self.over(&pr), No::Round)?;
				let t = &terms[pr.meta as usize];
				let w = wap(t, self.bids.range((pid, 0, 0)..=(pid, u8::MAX, u32::MAX)).map(|(_, b)| b));
				let mut bids: Vec<(u32, &mut Bid)> =
					self.bids.range_mut((pid, 0, 0)..=(pid, u8::MAX, u32::MAX)).map(|((_, _, id), b)| (*id, b)).collect();
				decide(t, &mut bids);
				let (mut sold, mut usd) = (0, 0);
				for (_, b) in bids {
					let x = won(b);
					if x > 0 {
						sold += x;
						usd += ticket(b.price.min(w), x);
						self.winners.insert((pid, b.did));
					}
				}
				let start = self.now + COMMUNITY;
				self.goto(pid, St::Community(start), Some(COMMUNITY + REMAINDER));
				let pr = self.st(pid);
				pr.wap = Some(w);
				pr.remaining -= sold;
				pr.funded += usd;
				Ok(())
			},
			Contribute(p, pid, ct, mode, asset) => {
				let (a, did, kind, policy) = self.person(p)?;
				let pr = self.proj(pid)?.clone();
				let t = &terms[pr.meta as usize];
				let St::Community(remainder) = pr.status else { return Err(No::Round) };
				ensure(self.running(&pr), No::Round)?;
				ensure(self.now >= remainder || !self.winners.contains(&(pid, did)), No::Limit)?;
				let x = ct.min(pr.remaining);
				ensure(x > 0, No::SoldOut)?;
				let (limits, most) = match kind {
					InvestorKind::R => (t.con[0], 5),
					InvestorKind::P => (t.con[1], 10),
					InvestorKind::I => (t.con[2], 25),
				};
				ensure(t.policy == Some(policy) && did != pr.did, No::Limit)?;
				ensure(t.assets.contains(&asset), No::Limit)?;
				ensure((1..=most).contains(&mode.mult()), No::Limit)?;
				let usd = ticket(pr.wap.unwrap(), x);
				ensure(usd >= limits.0 || x == pr.remaining, No::Limit)?;
				let before = self.contrib_usd.get(&(pid, did)).copied().unwrap_or(0);
				ensure(limits.1.map_or(true, |m| before + usd <= m), No::Limit)?;
				let mine = self.contribs.range((pid, a, 0)..=(pid, a, u32::MAX)).count() as u32;
				ensure(mine < self.most.contribs_user, No::Limit)?;
				let plmc = self.plmc_for(usd / mode.mult() as u128);
				let funding = self.asset_for(asset, usd);
				let px = self.prices.clone();
				self.bond(&px, pid, a, plmc, mode, asset)?;
				self.send(asset, U(a), Esc(pid), funding, true)?;
				let id = self.next.3;
				self.next.3 += 1;
				*self.contrib_usd.entry((pid, did)).or_default() += usd;
				let when = self.now;
				self.contribs.insert((pid, a, id), Contrib { did, ct: x, usd, asset, funding, mode, plmc, when });
				let pr = self.st(pid);
				pr.remaining -= x;
				pr.funded += usd;
				Ok(())
			},
			EndFunding(pid) => {
				let pr = self.proj(pid)?.clone();
				ensure(matches!(pr.status, St::Community(_)), No::Round)?;
				ensure(pr.remaining == 0 || self.over(&pr), No::Round)?;
				self.active.remove(&pr.did);
				let good = pr.funded * 100 >= 33 * pr.target;
				let total = terms[pr.meta as usize].total;
				self.st(pid).outcome = Some(if good { rewards(&pr, total) } else { Outcome::Slashed });
				self.goto(pid, if good { St::Successful } else { St::Failed }, None);
				Ok(())
			},
			StartSettlement(pid) => {
				let pr = self.proj(pid)?.clone();
				let now = self.now;
				match pr.status {
					St::Successful => {
						self.releases.insert(pid, Some(now + vesting(5)));
						let fee = fee_tokens(&pr, terms[pr.meta as usize].total);
						let q = sp_arithmetic::Perquintill::from_percent;
						*self.ct.entry((pid, U(12))).or_default() += q(50) * fee + q(20) * fee;
						self.goto(pid, St::Settling(true), None);
					},
					St::Failed => {
						ensure(self.over(&pr), No::Round)?;
						self.releases.insert(pid, None);
						self.goto(pid, St::Settling(false), None);
					},
					_ => return Err(No::Round),
				}
				self.st(pid).end_block = Some(now);
				Ok(())
			},
			SettleEvaluation(pid, who, id) => {
				let e = *self.evals.get(&(pid, who, id)).ok_or(No::Missing)?;
				let pr = self.proj(pid)?.clone();
				ensure(matches!(pr.status, St::Settling(_)), No::Round)?;
				let mut back = e.current;
				match pr.outcome {
					Some(Outcome::Slashed) => {
						let slash = Percent::from_percent(20) * e.original;
						back -= slash;
						self.p(U(who)).eval -= slash;
						self.p(U(11)).free += slash;
					},
					Some(o) => {
						let x = reward(&e, &o);
						self.mint(pid, who, x);
						if x > 0 {
							self.record(pid, who, (Kind::Evaluation, id, x, 1));
						}
					},
					None => {},
				}
				let p = self.p(U(who));
				p.eval -= back;
				p.free += back;
				self.evals.remove(&(pid, who, id));
				Ok(())
			},
			SettleBid(pid, who, id) => {
				let b = *self.bids.get(&(pid, who, id)).ok_or(No::Missing)?;
				let pr = self.proj(pid)?.clone();
				let t = &terms[pr.meta as usize];
				ensure(matches!(pr.status, St::Settling(_)) || b.status == BidSt::Rejected, No::Round)?;
				let good = pr.status == St::Settling(true) && b.status != BidSt::Rejected;
				let (plmc, funding, tokens) = if good {
					let usd = ticket(b.price.min(pr.wap.unwrap()), won(&b));
					(
						b.plmc.min(self.plmc_for(usd / b.mode.mult() as u128)),
						b.funding.min(self.asset_for(b.asset, usd)),
						won(&b),
					)
				} else {
					(0, 0, 0)
				};
				self.pay(pid, b.asset, U(who), b.funding - funding)?;
				self.unbond(pid, who, b.plmc - plmc, b.mode, b.asset, true)?;
				if good {
					let time = self.lock(&pr, who, plmc, b.mode)?;
					self.mint(pid, who, tokens);
					self.record(pid, who, (Kind::Bid, id, tokens, time));
					self.pay(pid, b.asset, U(t.dest), funding)?;
				}
				self.bids.remove(&(pid, who, id));
				Ok(())
			},
			SettleContribution(pid, who, id) => {
				let c = *self.contribs.get(&(pid, who, id)).ok_or(No::Missing)?;
				let pr = self.proj(pid)?.clone();
				let t = &terms[pr.meta as usize];
				let St::Settling(good) = pr.status else { return Err(No::Round) };
				if good {
					let time = self.lock(&pr, who, c.plmc, c.mode)?;
					self.mint(pid, who, c.ct);
					self.record(pid, who, (Kind::Contribution, id, c.ct, time));
					self.pay(pid, c.asset, U(t.dest), c.funding)?;
				} else {
					self.pay(pid, c.asset, U(who), c.funding)?;
					self.unbond(pid, who, c.plmc, c.mode, c.asset, false)?;
				}
				self.contribs.remove(&(pid, who, id));
				Ok(())
			},
			MarkSettled(pid) => {
				let pr = self.proj(pid)?.clone();
				let St::Settling(good) = pr.status else { return Err(No::Round) };
				ensure(!self.has_open(pid, None), No::Pending)?;
				self.goto(pid, St::Settled(good), None);
				Ok(())
			},
			Bonds(pid) => {
				let until = self.releases.get(&pid).ok_or(No::Release)?;
				ensure(until.map_or(true, |b| b <= self.now), No::Release)?;
				let x = std::mem::take(&mut self.p(Bond(pid)).part);
				self.p(U(10)).free += x;
				Ok(())
			},
			Fees(pid, asset) => {
				let until = *self.releases.get(&pid).ok_or(No::Release)?;
				ensure(until.is_some(), No::Release)?;
				let x = self.bal(asset, Bond(pid));
				self.send(asset, Bond(pid), U(13), x, false)
			},
			Vest(who) => {
				let now = self.now;
				let v = self.schedules.remove(&who).ok_or(No::Missing)?;
				let locked = |s: &(u128, u128, u64)| s.0.saturating_sub(now.saturating_sub(s.2) as u128 * s.1);
				let left: Vec<_> = v.into_iter().filter(|s| locked(s) > 0).collect();
				let keep: u128 = left.iter().map(locked).sum();
				let p = self.p(U(who));
				p.free += p.part - keep;
				p.part = keep;
				if !left.is_empty() {
					self.schedules.insert(who, left);
				}
				Ok(())
			},
			StartOffchain(p, pid) => {
				let (a, _) = self.institution(p)?;
				let pr = self.proj(pid)?.clone();
				ensure(pr.issuer == a, No::Denied)?;
				ensure(pr.status == St::Settled(true), No::Round)?;
				self.st(pid).migration = Some(Mig::Offchain);
				self.goto(pid, St::Migrating, None);
				Ok(())
			},
			Confirm(caller, pid, who) => {
				let pr = self.proj(pid)?.clone();
				ensure(pr.status == St::Migrating, No::Round)?;
				ensure(pr.issuer == caller, No::Denied)?;
				ensure(pr.migration == Some(Mig::Offchain), No::Denied)?;
				let m = self.migrations.get_mut(&(pid, who)).ok_or(No::Missing)?;
				ensure(m.0 != MSt::Confirmed, No::Denied)?;
				m.0 = MSt::Confirmed;
				*self.unmigrated.get_mut(&pid).unwrap() -= 1;
				Ok(())
			},
			StartPallet(p, pid, para) => {
				let (a, _) = self.institution(p)?;
				let pr = self.proj(pid)?.clone();
				ensure(pr.issuer == a, No::Denied)?;
				ensure(pr.status == St::Settled(true), No::Round)?;
				self.st(pid).migration =
					Some(Mig::Pallet { para, to_us: Ch::Closed, to_them: Ch::Closed, check: None });
				self.goto(pid, St::Migrating, None);
				Ok(())
			},
			Open(from, size, capacity) => {
				let pid = self.chain(from)?;
				ensure((50_000..=102_400).contains(&size) && (8..=1000).contains(&capacity), No::Limit)?;
				ensure(!self.blocked, No::Denied)?;
				if let Some(Mig::Pallet { to_us, to_them, .. }) = &mut self.st(pid).migration {
					*to_us = Ch::Open;
					*to_them = Ch::Awaiting;
				}
				out.push(Msg::Channel(from));
				Ok(())
			},
			Accepted(from) => {
				let pid = self.chain(from)?;
				if let Some(Mig::Pallet { to_them, .. }) = &mut self.st(pid).migration {
					*to_them = Ch::Open;
				}
				self.readiness(pid, None, out)
			},
			Readiness(p, pid) => {
				let (a, _) = self.institution(p)?;
				self.readiness(pid, Some(a), out)
			},
			Forge(..) => Err(No::Denied),
			Respond(q, r) => {
				let (para, ask) = self.queries.remove(&q).ok_or(No::Missing)?;
				// the query is answered, whatever comes of it
				let mut m = self.clone();
				let res = m.answer(terms, para, ask, q, r);
				if res.is_ok() {
					*self = m;
				}
				res
			},
			Send(pid, who) => {
				let pr = self.proj(pid)?.clone();
				let Some(Mig::Pallet { para, check: Some((h, p)), .. }) = pr.migration else { return Err(No::Denied) };
				let (Chk::Passed(_), Chk::Passed(Some(index))) = (h.1, p.1) else { return Err(No::Pending) };
				ensure(!self.has_open(pid, Some(who)), No::Pending)?;
				ensure(!self.blocked, No::Denied)?;
				let q = self.next.4;
				let m = self.migrations.get_mut(&(pid, who)).ok_or(No::Missing)?;
				ensure(matches!(m.0, MSt::NotStarted | MSt::Failed), No::Denied)?;
				m.0 = MSt::Sent(q);
				self.next.4 += 1;
				self.queries.insert(q, (para, Ask::Migration));
				self.queue.insert(q, (pid, who));
				out.push(Msg::Migrate(para, q, index, who, pid));
				Ok(())
			},
			Finish(pid) => {
				let pr = self.proj(pid)?;
				ensure(pr.status == St::Migrating, No::Round)?;
				ensure(
					self.migrations.range((pid, 0)..=(pid, u8::MAX)).all(|(_, m)| m.0 == MSt::Confirmed),
					No::Pending,
				)?;
				self.st(pid).status = St::Migrated;
				Ok(())
			},
		}
	}

	/// Participations left to settle (of somebody)?
	pub fn has_open(&self, pid: u32, who: Option<u8>) -> bool {
		let (a, z) = who.map_or((0, u8::MAX), |w| (w, w));
		self.evals.range((pid, a, 0)..=(pid, z, u32::MAX)).next().is_some() ||
			self.bids.range((pid, a, 0)..=(pid, z, u32::MAX)).next().is_some() ||
			self.contribs.range((pid, a, 0)..=(pid, z, u32::MAX)).next().is_some()
	}
	fn mint(&mut self, pid: u32, who: u8, x: u128) {
		*self.ct.entry((pid, U(who))).or_default() += x;
	}
	fn record(&mut self, pid: u32, who: u8, r: Record) {
		if !self.migrations.contains_key(&(pid, who)) {
			*self.unmigrated.entry(pid).or_default() += 1;
		}
		self.migrations.entry((pid, who)).or_insert((MSt::NotStarted, vec![])).1.push(r);
	}
	/// Pays out of the escrow.
	fn pay(&mut self, pid: u32, asset: u8, to: Who, x: u128) -> R {
		if x == 0 {
			return Ok(());
		}
		let enough = self.bal(asset, Esc(pid)) >= x;
		stuck(
			self.send(asset, Esc(pid), to, x, false),
			if enough { "payment-below-minimum-balance" } else { "escrow-lost-dust" },
		)
	}
	/// Returns a bond (or the fee for one).
	fn unbond(&mut self, pid: u32, who: u8, x: u128, mode: Mode, asset: u8, bid: bool) -> R {
		match mode {
			Mode::Otm => {
				// no fee is returned for less than the existential deposit
				if bid && x <= ED {
					return Ok(());
				}
				let fee = self.fee(&self.prices, x, asset);
				stuck(self.send(asset, Bond(pid), U(who), fee, false), "fees-not-there-to-refund")
			},
			Mode::Classic(_) => {
				let p = self.p(U(who));
				p.part -= x;
				p.free += x;
				Ok(())
			},
		}
	}
	/// Locks the bond of a participation that succeeded. How long is returned.
	fn lock(&mut self, pr: &Proj, who: u8, x: u128, mode: Mode) -> Result<u64, No> {
		let time = vesting(mode.mult());
		if let Mode::Classic(_) = mode {
			if time == 1 {
				let p = self.p(U(who));
				p.part -= x;
				p.free += x;
			} else if x > 0 {
				let per = (x / time as u128).max(1);
				self.schedules.entry(who).or_default().push((x, per, pr.end_block.unwrap()));
			}
		}
		Ok(time)
	}
	/// The project that migrates to this chain.
	fn chain(&self, c: u32) -> Result<u32, No> {
		self.projects
			.iter()
			.find(|(_, p)| {
				p.status == St::Migrating && matches!(p.migration, Some(Mig::Pallet { para, .. }) if para == c)
			})
			.map(|x| *x.0)
			.ok_or(No::Missing)
	}
	/// `by`: the account that asks (None: it follows from the channels)
	fn readiness(&mut self, pid: u32, by: Option<u8>, out: &mut Vec<Msg>) -> R {
		let pr = self.proj(pid)?.clone();
		let Some(Mig::Pallet { para, to_us, to_them, check }) = pr.migration else { return Err(No::Denied) };
		ensure(pr.status == St::Migrating, No::Round)?;
		ensure(to_us == Ch::Open && to_them == Ch::Open, No::Pending)?;
		match (check, by) {
			(None, None) => {},
			(None, Some(_)) => return Err(No::Denied),
			(Some(((_, Chk::Failed), (_, Chk::Failed))), None) => return Err(No::Denied),
			(Some(_), None) => {},
			(Some(_), Some(a)) => ensure(a == pr.issuer, No::Denied)?,
		}
		ensure(!self.blocked, No::Denied)?;
		let q = self.next.4;
		self.next.4 += 2;
		self.queries.insert(q, (para, Ask::Readiness));
		self.queries.insert(q + 1, (para, Ask::Readiness));
		self.st(pid).migration = Some(Mig::Pallet {
			para,
			to_us,
			to_them,
			check: Some(((q, Chk::Awaiting), (q + 1, Chk::Awaiting))),
		});
		let tokens = self.ct.range((pid, U(0))..).take_while(|x| x.0 .0 == pid).map(|x| x.1).sum();
		out.push(Msg::Check(para, q, q + 1, tokens));
		Ok(())
	}
	fn answer(&mut self, terms: &[Terms], para: u32, ask: Ask, q: u64, r: Resp) -> R {
		if ask == Ask::Migration {
			let (pid, who) = self.queue.remove(&q).ok_or(No::Missing)?;
			let st = match r {
				Resp::Done => MSt::Confirmed,
				Resp::Failed | Resp::Truncated => MSt::Failed,
				_ => return Err(No::Denied),
			};
			let m = self.migrations.get_mut(&(pid, who)).unwrap();
			ensure(matches!(m.0, MSt::Sent(_)), No::Denied)?;
			m.0 = st;
			if st == MSt::Confirmed {
				*self.unmigrated.get_mut(&pid).unwrap() -= 1;
			}
			return Ok(());
		}
		let (pid, pr) = self
			.projects
			.iter()
			.find(|(_, p)| matches!(p.migration, Some(Mig::Pallet { check: Some((h, p)), .. }) if h.0 == q || p.0 == q))
			.map(|(k, p)| (*k, p.clone()))
			.ok_or(No::Missing)?;
		let Some(Mig::Pallet { para: own, to_us, to_them, check: Some((mut h, mut p)) }) = pr.migration else {
			unreachable!()
		};
		ensure(own == para, No::Denied)?;
		match r {
			Resp::Enough(_) | Resp::Short | Resp::NoAssets | Resp::Elsewhere | Resp::Local => {
				ensure(h.1 == Chk::Awaiting, No::Denied)?;
				let _ = terms;
				h.1 = match r {
					Resp::Enough(_) => Chk::Passed(None),
					// not a place that could hold the tokens
					Resp::Local => return Err(No::Denied),
					_ => Chk::Failed,
				};
			},
			Resp::Pallet(_) | Resp::OtherPallet | Resp::TwoPallets | Resp::NoPallet => {
				ensure(p.1 == Chk::Awaiting, No::Denied)?;
				p.1 = match r {
					Resp::Pallet(i) if i < 256 => Chk::Passed(Some(i as u8)),
					Resp::Pallet(_) | Resp::NoPallet => return Err(No::Denied),
					_ => Chk::Failed,
				};
			},
			_ => return Err(No::Denied),
		}
		self.st(pid).migration = Some(Mig::Pallet { para, to_us, to_them, check: Some((h, p)) });
		Ok(())
	}
	/// `ticket` at fixed point prices, for tests of the checker itself
	#[allow(unused)]
	pub fn usd(price: u128, ct: u128) -> u128 {
		sp_arithmetic::FixedU128::from_inner(price).saturating_mul_int(ct)
	}
}
