//! Reference model of a funding project: what participants, issuers and treasuries are promised.
//! Money and rounding are computed with the fixed-point types of the runtime library; everything else
//! is written from the description of the process, not from the code.
use crate::runtime::*;
use sp_arithmetic::{traits::Saturating, FixedPointNumber, FixedU128, Percent, Perquintill};
use std::collections::{BTreeMap, BTreeSet};

/// user, escrow of a project, account that holds the treasury's bonds for a project
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Who {
	U(u8),
	Esc(u32),
	Bond(u32),
	Pallet,
}
use Who::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum St {
	Application,
	Evaluation,
	Auction,
	/// until the block from which winning bidders may contribute
	Community(u64),
	Failed,
	Successful,
	Settling(bool),
	Settled(bool),
	Migrating,
	Migrated,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Outcome {
	Slashed,
	Rewarded { early_pot: u128, normal_pot: u128, early_usd: u128, normal_usd: u128 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ch {
	Closed,
	Open,
	Awaiting,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Chk {
	Awaiting,
	Passed(Option<u8>),
	Failed,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mig {
	Offchain,
	Pallet { para: u32, to_us: Ch, to_them: Ch, check: Option<((u64, Chk), (u64, Chk))> },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Proj {
	pub issuer: u8,
	pub did: u8,
	/// number of the metadata (255: something else)
	pub meta: u8,
	pub frozen: bool,
	pub wap: Option<u128>,
	pub status: St,
	pub round: (Option<u64>, Option<u64>),
	pub target: u128,
	pub remaining: u128,
	pub funded: u128,
	pub bonded_usd: u128,
	pub bonded_plmc: u128,
	pub outcome: Option<Outcome>,
	pub end_block: Option<u64>,
	pub migration: Option<Mig>,
	/// tokens left in the current bucket and their price
	pub bucket: (u128, u128),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Eval {
	pub did: u8,
	pub original: u128,
	pub current: u128,
	pub early: u128,
	pub late: u128,
	pub when: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BidSt {
	Unknown,
	Accepted,
	Rejected,
	Partial(u128),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Mode {
	Otm,
	Classic(u8),
}
impl Mode {
	pub fn mult(self) -> u8 {
		match self {
			Mode::Otm => 5,
			Mode::Classic(m) => m,
		}
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Bid {
	pub did: u8,
	pub status: BidSt,
	pub ct: u128,
	pub price: u128,
	pub asset: u8,
	pub funding: u128,
	pub mode: Mode,
	pub plmc: u128,
	pub when: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Contrib {
	pub did: u8,
	pub ct: u128,
	pub usd: u128,
	pub asset: u8,
	pub funding: u128,
	pub mode: Mode,
	pub plmc: u128,
	pub when: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum MSt {
	NotStarted,
	Sent(u64),
	Confirmed,
	Failed,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
	Evaluation,
	Bid,
	Contribution,
}
/// kind and number of the participation, tokens, vesting blocks
pub type Record = (Kind, u32, u128, u64);

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Plmc {
	pub free: u128,
	/// held for evaluations
	pub eval: u128,
	/// held for participations
	pub part: u128,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	pub plmc: BTreeMap<Who, Plmc>,
	pub asset: BTreeMap<(u8, Who), u128>,
	pub ct: BTreeMap<(u32, Who), u128>,
	pub projects: BTreeMap<u32, Proj>,
	/// projects, evaluations, bids, contributions, queries
	pub next: (u32, u32, u32, u32, u64),
	pub active: BTreeMap<u8, u32>,
	pub evals: BTreeMap<(u32, u8, u32), Eval>,
	pub bids: BTreeMap<(u32, u8, u32), Bid>,
	pub contribs: BTreeMap<(u32, u8, u32), Contrib>,
	pub eval_count: BTreeMap<u32, u32>,
	pub bid_count: BTreeMap<u32, u32>,
	pub auction_usd: BTreeMap<(u32, u8), u128>,
	pub contrib_usd: BTreeMap<(u32, u8), u128>,
	pub winners: BTreeSet<(u32, u8)>,
	pub migrations: BTreeMap<(u32, u8), (MSt, Vec<Record>)>,
	pub unmigrated: BTreeMap<u32, u32>,
	/// migrations under way, by query
	pub queue: BTreeMap<u64, (u32, u8)>,
	/// queries that await a response: the chain asked, and what the response is for
	pub queries: BTreeMap<u64, (u32, Ask)>,
	/// Some(None) refunded, Some(Some(b)) locked until b
	pub releases: BTreeMap<u32, Option<u64>>,
	pub schedules: BTreeMap<u8, Vec<(u128, u128, u64)>>,
	pub prices: BTreeMap<u32, u128>,
	/// sending to other chains fails
	pub blocked: bool,
	pub most: Most,
	/// milliseconds
	pub clock: u64,
}
/// The most participations of a project, and of a user in it.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Most {
	pub bids: u32,
	pub bids_user: u32,
	pub evals: u32,
	pub evals_user: u32,
	pub contribs_user: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ask {
	Readiness,
	Migration,
	Other,
}

/// Why a call is refused.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
	/// no such project or participation
	Missing,
	/// the caller may not do this
	Denied,
	/// not in this round or not yet
	Round,
	/// invalid metadata
	Metadata,
	/// outside the limits of participations
	Limit,
	/// not enough funds (or below a minimum balance)
	Funds,
	/// nothing left to buy
	SoldOut,
	/// participations are left to settle, or holders to migrate
	Pending,
	/// no release type, or too early
	Release,
	/// settling cannot work, for a reason listed as a known finding
	Stuck(&'static str),
}
pub type R = Result<(), No>;

pub fn ensure(c: bool, n: No) -> R {
	if c {
		Ok(())
	} else {
		Err(n)
	}
}

pub const PRICES: [(u32, u8, u128); 4] = [
	(PLMC_ID, 10, 8_400_000_000_000_000_000),
	(1984, 6, 1_000_000_000_000_000_000),
	(1337, 6, 970_000_000_000_000_000),
	(10, 10, 69_000_000_000_000_000_000),
];
pub const PLMC_ID: u32 = polimec_common::PLMC_FOREIGN_ID;
pub const ASSET_IDS: [u32; 3] = [1984, 1337, 10];
pub const ASSET_MIN: [u128; 3] = [MIN_ASSET, MIN_ASSET, DOT_MIN];

/// USD units per unit of the asset.
pub fn unit_price(id: u32, price: u128) -> FixedU128 {
	let dec = PRICES.iter().find(|p| p.0 == id).unwrap().1;
	let usd = FixedU128::from_inner(price).saturating_mul_int(USD);
	FixedU128::checked_from_rational(usd, 10u128.pow(dec as u32)).unwrap()
}
pub fn to_asset(id: u32, price: u128, usd: u128) -> u128 {
	unit_price(id, price).reciprocal().unwrap().saturating_mul_int(usd)
}
pub fn ticket(price: u128, ct: u128) -> u128 {
	FixedU128::from_inner(price).saturating_mul_int(ct)
}
/// Blocks over which the bond and the tokens of a participation vest.
pub fn vesting(mult: u8) -> u64 {
	// 2.167 weeks of 7200 blocks a day for every step of the multiplier above one
	let weeks_milli = 2167u64 * (mult as u64) - 2167;
	(weeks_milli * 7 * 7200 / 1000).max(1)
}

/// The parts of the metadata that participations depend on.
#[derive(Clone, Debug)]
pub struct Terms {
	pub policy: Option<u8>,
	pub total: u128,
	pub auction: u128,
	pub price: u128,
	/// minimum ticket and maximum per DID for professional and institutional bidders
	pub bid: [(u128, Option<u128>); 2],
	/// the same for retail, professional and institutional contributors
	pub con: [(u128, Option<u128>); 3],
	pub assets: Vec<u8>,
	pub dest: u8,
	pub valid: bool,
}

impl M {
	pub fn p(&mut self, w: Who) -> &mut Plmc {
		self.plmc.entry(w).or_default()
	}
	/// Takes free PLMC, leaving the existential deposit.
	pub fn take(&mut self, w: Who, amount: u128) -> R {
		let p = self.p(w);
		ensure(amount == 0 || p.free >= amount + ED, No::Funds)?;
		p.free -= amount;
		Ok(())
	}
	pub fn bal(&self, a: u8, w: Who) -> u128 {
		self.asset.get(&(a, w)).copied().unwrap_or(0)
	}
	/// Moves a funding asset. `keep`: the sender has to stay above the minimum balance.
	pub fn send(&mut self, a: u8, from: Who, to: Who, amount: u128, keep: bool) -> R {
		let min = ASSET_MIN[a as usize];
		let have = self.bal(a, from);
		if amount > 0 {
			ensure(have >= amount, No::Funds)?;
			ensure(!keep || have - amount >= min, No::Funds)?;
		}
		ensure(self.asset.contains_key(&(a, to)) || amount >= min, No::Funds)?;
		if amount == 0 || from == to {
			return Ok(());
		}
		if have - amount < min {
			// what is left below the minimum is lost with the account
			self.asset.remove(&(a, from));
		} else {
			self.asset.insert((a, from), have - amount);
		}
		*self.asset.entry((a, to)).or_default() += amount;
		Ok(())
	}
	/// Bonds PLMC for a participation, first from what the user bonded in the evaluation of the project.
	fn bond_classic(&mut self, pid: u32, u: u8, amount: u128) -> R {
		let mut left = amount;
		for (_, e) in self.evals.range_mut((pid, u, 0)..=(pid, u, u32::MAX)) {
			let deposit = Percent::from_percent(20) * e.original;
			let x = left.min(e.current.saturating_sub(deposit));
			e.current -= x;
			left -= x;
		}
		let p = self.p(U(u));
		p.eval -= amount - left;
		p.part += amount - left;
		self.take(U(u), left)?;
		self.p(U(u)).part += left;
		Ok(())
	}
	/// The fee for a bond on somebody's behalf.
	pub fn fee(&self, px: &BTreeMap<u32, u128>, bond: u128, asset: u8) -> u128 {
		let usd = unit_price(PLMC_ID, px[&PLMC_ID]).saturating_mul_int(bond);
		let fee = sp_arithmetic::Perbill::from_rational(75u32, 1000u32) * usd;
		to_asset(ASSET_IDS[asset as usize], px[&ASSET_IDS[asset as usize]], fee)
	}
	fn bond_otm(&mut self, px: &BTreeMap<u32, u128>, pid: u32, u: u8, amount: u128, asset: u8) -> R {
		let fee = self.fee(px, amount, asset);
		self.send(asset, U(u), Bond(pid), fee, true)?;
		if self.p(Bond(pid)).free < ED {
			self.take(U(10), ED)?;
			self.p(Bond(pid)).free += ED;
		}
		self.take(U(10), amount)?;
		self.p(Bond(pid)).part += amount;
		Ok(())
	}
	pub fn bond(&mut self, px: &BTreeMap<u32, u128>, pid: u32, u: u8, amount: u128, mode: Mode, asset: u8) -> R {
		match mode {
			Mode::Otm => self.bond_otm(px, pid, u, amount, asset),
			Mode::Classic(_) => self.bond_classic(pid, u, amount),
		}
	}
	pub fn proj(&self, pid: u32) -> Result<&Proj, No> {
		self.projects.get(&pid).ok_or(No::Missing)
	}
	/// The current round is running.
	pub fn running(&self, p: &Proj) -> bool {
		p.round.0.map_or(true, |s| s <= self.now) && p.round.1.map_or(false, |e| self.now < e)
	}
	/// The current round has ended, or has no end.
	pub fn over(&self, p: &Proj) -> bool {
		p.round.1.map_or(true, |e| e <= self.now)
	}
	pub fn goto(&mut self, pid: u32, st: St, blocks: Option<u64>) {
		let now = self.now;
		let p = self.projects.get_mut(&pid).unwrap();
		p.status = st;
		p.round = (Some(now), blocks.map(|b| now + b - 1));
	}
}

pub fn fresh(issuer: u8, did: u8, meta: u8, t: &Terms) -> Proj {
	Proj {
		issuer,
		did,
		meta,
		frozen: false,
		wap: None,
		status: St::Application,
		round: (None, None),
		target: ticket(t.price, t.total),
		remaining: t.total,
		funded: 0,
		bonded_usd: 0,
		bonded_plmc: 0,
		outcome: None,
		end_block: None,
		migration: None,
		bucket: (t.auction, t.price),
	}
}

/// Splits an amount over the buckets from `bucket` on: the parts, and the bucket that is current then.
pub fn split(t: &Terms, mut bucket: (u128, u128), mut amount: u128) -> (Vec<(u128, u128)>, (u128, u128)) {
	let size = Percent::from_percent(10) * t.auction;
	let step = FixedU128::from_inner(t.price).saturating_mul(FixedU128::from_rational(1, 10)).into_inner();
	let mut parts = vec![];
	while amount > 0 {
		let x = amount.min(bucket.0);
		parts.push((x, bucket.1));
		amount -= x;
		bucket.0 -= x;
		if bucket.0 == 0 {
			bucket = (size, bucket.1 + step);
		}
	}
	(parts, bucket)
}

/// The average of the prices of the winning tokens (those of the highest bids that fit the allocation,
/// and at the minimum price those nobody bid for), weighted by what they cost.
pub fn wap<'a>(t: &Terms, bids: impl Iterator<Item = &'a Bid>) -> u128 {
	let mut by_price: BTreeMap<u128, u128> = BTreeMap::new();
	for b in bids {
		*by_price.entry(b.price).or_default() += b.ct;
	}
	let mut left = t.auction;
	let mut won: Vec<(u128, u128)> = vec![];
	for (price, ct) in by_price.iter().rev() {
		let x = left.min(*ct);
		left -= x;
		if x > 0 {
			won.push((*price, x));
		}
	}
	if left > 0 {
		match won.last_mut() {
			Some(l) if l.0 == t.price => l.1 += left,
			_ => won.push((t.price, left)),
		}
	}
	if won.len() == 1 && won[0].0 == t.price {
		return t.price;
	}
	let tickets: Vec<(u128, u128)> = won.iter().map(|(p, x)| (*p, ticket(*p, *x))).collect();
	let sum: u128 = tickets.iter().map(|x| x.1).sum();
	tickets
		.iter()
		.map(|(p, usd)| FixedU128::saturating_from_rational(*usd, sum).saturating_mul(FixedU128::from_inner(*p)))
		.fold(FixedU128::from_u32(0), |a, b| a.saturating_add(b))
		.into_inner()
}

/// The winning bids: highest price first, then oldest first.
pub fn decide(t: &Terms, bids: &mut [(u32, &mut Bid)]) {
	bids.sort_by(|a, b| b.1.price.cmp(&a.1.price).then(a.0.cmp(&b.0)));
	let mut left = t.auction;
	for (_, b) in bids.iter_mut() {
		let x = left.min(b.ct);
		left -= x;
		b.status = match x {
			0 => BidSt::Rejected,
			x if x == b.ct => BidSt::Accepted,
			x => BidSt::Partial(x),
		};
	}
}
pub fn won(b: &Bid) -> u128 {
	match b.status {
		BidSt::Accepted => b.ct,
		BidSt::Partial(x) => x,
		_ => 0,
	}
}

/// Tokens set aside as the fee: a share of the tokens sold.
pub fn fee_tokens(p: &Proj, total: u128) -> u128 {
	let a = p.funded.min(BRACKET_1);
	let b = (p.funded - a).min(BRACKET_2);
	let c = p.funded - a - b;
	let usd = Percent::from_percent(10) * a + Percent::from_percent(8) * b + Percent::from_percent(6) * c;
	Perquintill::from_rational(usd, p.funded) * (total - p.remaining)
}
pub fn rewards(p: &Proj, total: u128) -> Outcome {
	let fee = fee_tokens(p, total);
	let pot = Perquintill::from_percent(30) * fee;
	Outcome::Rewarded {
		early_pot: Perquintill::from_percent(20) * pot,
		normal_pot: Perquintill::from_percent(80) * pot,
		early_usd: p.bonded_usd.min(Percent::from_percent(10) * p.target),
		normal_usd: p.bonded_usd,
	}
}
pub fn reward(e: &Eval, o: &Outcome) -> u128 {
	match *o {
		Outcome::Slashed => 0,
		Outcome::Rewarded { early_pot, normal_pot, early_usd, normal_usd } =>
			Perquintill::from_rational(e.early, early_usd) * early_pot +
				Perquintill::from_rational(e.early + e.late, normal_usd) * normal_pot,
	}
}
