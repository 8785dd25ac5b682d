//! The real linear-release pallet over the real balances pallet, with a model.
use engine::{Cx, Harness, Ignore};
use frame_support::{
	derive_impl, parameter_types,
	storage::{with_transaction, TransactionOutcome},
	traits::{
		tokens::fungible::{InspectHold, MutateHold},
		ConstU128, OnInitialize, VariantCount, WithdrawReasons,
	},
};
use pallet_linear_release::VestingInfo;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use polimec_common::ReleaseSchedule;
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{ConvertInto, Dispatchable, IdentityLookup},
	BuildStorage, DispatchError, DispatchResult,
};
use std::collections::BTreeMap;

pub type Block = frame_system::mocking::MockBlock<Test>;
frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Linear: pallet_linear_release,
	}
);
#[derive(
	Encode, Decode, Copy, Clone, PartialEq, Eq, Hash, Debug, MaxEncodedLen, TypeInfo, Ord, PartialOrd, serde::Serialize,
	serde::Deserialize,
)]
pub enum Reason {
	A,
	B,
}
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 2;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub const MinVestedTransfer: u128 = MIN;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ConstU128<1>;
	type RuntimeHoldReason = Reason;
}
pub const MIN: u128 = 3;
pub const MAX: usize = 20;
impl pallet_linear_release::Config for Test {
	type Balance = u128;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = Reason;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();
	const MAX_VESTING_SCHEDULES: u32 = MAX as u32;
}

pub const WHO: u64 = 1;
pub const OTHER: u64 = 2;
pub const FUNDER: u64 = 3;
const ACCS: [u64; 3] = [WHO, OTHER, FUNDER];
const REASONS: [Reason; 2] = [Reason::A, Reason::B];

/// (locked, per block, starting block)
pub type Sch = (u128, u128, u64);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Next(u64),
	/// vested transfer from, to
	Transfer(u64, u64, Sch, Reason),
	/// the same by root
	Force(u64, u64, Sch, Reason),
	/// hold the amount and set up its release, as a pallet does
	Bond(u64, Sch, Reason),
	/// hold an amount under the reason that no schedule governs
	Extra(u64, u128, Reason),
	Vest(u64, Reason),
	VestOther(u64, u64, Reason),
	VestAll(u64),
	VestAllOther(u64, u64),
	Merge(u64, u32, u32, Reason),
	Remove(u64, u32, Reason),
	RemoveAll(u64, Reason),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
	pub now: u64,
	pub free: BTreeMap<u64, u128>,
	pub held: BTreeMap<(u64, Reason), u128>,
	/// held under the reason, by something other than schedules
	pub extra: BTreeMap<(u64, Reason), u128>,
	pub sch: BTreeMap<(u64, Reason), Vec<Sch>>,
}

pub fn locked_at(s: &Sch, n: u64) -> u128 {
	s.0.saturating_sub((n.saturating_sub(s.2) as u128).saturating_mul(s.1.max(1)))
}
/// the first block in which nothing is locked any more
pub fn end(s: &Sch) -> u64 {
	s.2 + s.0.div_ceil(s.1.max(1)).max(1) as u64
}

impl M {
	fn list(&self, k: (u64, Reason)) -> Vec<Sch> {
		self.sch.get(&k).cloned().unwrap_or_default()
	}
	fn set(&mut self, k: (u64, Reason), v: Vec<Sch>) {
		if v.is_empty() {
			self.sch.remove(&k);
		} else {
			self.sch.insert(k, v);
		}
	}
	/// What schedules no longer lock is free again.
	fn settle(&mut self, k: (u64, Reason), v: Vec<Sch>) {
		let v: Vec<Sch> = v.into_iter().filter(|s| locked_at(s, self.now) > 0).collect();
		let left: u128 = v.iter().map(|s| locked_at(s, self.now)).sum::<u128>() + self.extra.get(&k).unwrap_or(&0);
		let held = self.held.get(&k).copied().unwrap_or(0);
		assert!(left <= held, "model: {left} to stay of {held}");
		*self.free.entry(k.0).or_default() += held - left;
		self.put_held(k, left);
		self.set(k, v);
	}
	fn put_held(&mut self, k: (u64, Reason), x: u128) {
		if x == 0 {
			self.held.remove(&k);
		} else {
			self.held.insert(k, x);
		}
	}
	fn vest(&mut self, k: (u64, Reason)) -> bool {
		let v = self.list(k);
		if v.is_empty() {
			return false;
		}
		self.settle(k, v);
		true
	}
	fn transfer(&mut self, from: u64, to: u64, s: Sch, r: Reason) -> Result<(), &'static str> {
		let k = (to, r);
		if s.0 < MIN {
			return Err("AmountLow");
		}
		if s.0 == 0 || s.1 == 0 {
			return Err("InvalidScheduleParams");
		}
		if self.list(k).len() >= MAX {
			return Err("AtMaxVestingSchedules");
		}
		let f = self.free.entry(from).or_default();
		if *f < s.0 + 1 {
			return Err("funds");
		}
		*f -= s.0;
		*self.held.entry(k).or_default() += s.0;
		let mut v = self.list(k);
		v.push(s);
		self.settle(k, v);
		Ok(())
	}
	/// the schedule that two become
	pub fn merged(&self, a: &Sch, b: &Sch) -> Option<Sch> {
		match (end(a) <= self.now, end(b) <= self.now) {
			(true, true) => return None,
			(true, false) => return Some(*b),
			(false, true) => return Some(*a),
			_ => {},
		}
		let locked = locked_at(a, self.now) + locked_at(b, self.now);
		let start = self.now.max(a.2).max(b.2);
		let blocks = end(a).max(end(b)).saturating_sub(start).max(1) as u128;
		Some((locked, (locked / blocks).max(1), start))
	}
}

#[derive(Clone, Default)]
pub struct Cfg {
	pub next: Vec<u64>,
	pub transfers: Vec<(u64, u64, Sch, Reason)>,
	pub forced: Vec<(u64, u64, Sch, Reason)>,
	pub bonds: Vec<(u64, Sch, Reason)>,
	pub extra: Vec<(u64, u128, Reason)>,
	pub vest: Vec<(u64, Reason)>,
	pub others: bool,
	pub all: bool,
	pub merge: Vec<(u64, u32, u32, Reason)>,
	pub remove: Vec<(u64, u32, Reason)>,
	pub remove_all: Vec<(u64, Reason)>,
	pub max_now: u64,
	pub free: u128,
	/// schedules are added to an account while it has fewer
	pub most: usize,
}
pub struct Sys {
	pub cfg: Cfg,
}

fn call(who: u64, c: pallet_linear_release::Call<Test>) -> DispatchResult {
	RuntimeCall::Linear(c).dispatch(RuntimeOrigin::signed(who)).map(|_| ()).map_err(|e| e.error)
}
fn name(r: &DispatchResult) -> String {
	match r {
		Ok(()) => "ok".into(),
		Err(DispatchError::Module(m)) => m.message.unwrap_or("?").into(),
		Err(e) => format!("{e:?}"),
	}
}
fn tx(f: impl FnOnce() -> DispatchResult) -> DispatchResult {
	with_transaction(|| {
		let r = f();
		if r.is_ok() {
			TransactionOutcome::Commit(r)
		} else {
			TransactionOutcome::Rollback(r)
		}
	})
}
fn info(s: Sch) -> VestingInfo<u128, u64> {
	VestingInfo::new(s.0, s.1, s.2)
}

impl Harness for Sys {
	type Op = Op;
	type Model = M;
	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		pallet_balances::GenesisConfig::<Test> { balances: ACCS.iter().map(|a| (*a, self.cfg.free)).collect() }
			.assimilate_storage(&mut t)
			.unwrap();
		t.top.into_iter().collect()
	}
	fn ignore(&self) -> Ignore {
		let sys = sp_io::hashing::twox_128(b"System").to_vec();
		let acc = [sys.clone(), sp_io::hashing::twox_128(b"Account").to_vec()].concat();
		let num = [sys.clone(), sp_io::hashing::twox_128(b"Number").to_vec()].concat();
		Ignore { prefixes: vec![sys], keep: vec![acc, num] }
	}
	fn init(&self) -> M {
		System::set_block_number(1);
		M {
			now: 1,
			free: ACCS.iter().map(|a| (*a, self.cfg.free)).collect(),
			held: Default::default(),
			extra: Default::default(),
			sch: Default::default(),
		}
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o: Vec<Op> = c.next.iter().filter(|n| m.now + **n <= c.max_now).map(|n| Op::Next(*n)).collect();
		// whether an account may be emptied is not this pallet's business
		let fits = |t: &&(u64, u64, Sch, Reason)| m.free[&t.0] != t.2 .0 && m.list((t.1, t.3)).len() < c.most;
		o.extend(c.transfers.iter().filter(fits).map(|t| Op::Transfer(t.0, t.1, t.2, t.3)));
		o.extend(c.forced.iter().filter(fits).map(|t| Op::Force(t.0, t.1, t.2, t.3)));
		o.extend(c.bonds.iter().filter(|b| m.free[&b.0] > b.1 .0 && m.list((b.0, b.2)).len() < c.most).map(|b| Op::Bond(b.0, b.1, b.2)));
		o.extend(
			c.extra
				.iter()
				.filter(|e| m.free[&e.0] > e.1 && !m.extra.contains_key(&(e.0, e.2)))
				.map(|e| Op::Extra(e.0, e.1, e.2)),
		);
		for (w, r) in &c.vest {
			o.push(Op::Vest(*w, *r));
			if c.others {
				o.push(Op::VestOther(FUNDER, *w, *r));
			}
		}
		if c.all {
			let mut ws: Vec<u64> = c.vest.iter().map(|v| v.0).collect();
			ws.dedup();
			for w in ws {
				o.push(Op::VestAll(w));
				o.push(Op::VestAllOther(FUNDER, w));
			}
		}
		o.extend(c.merge.iter().map(|x| Op::Merge(x.0, x.1, x.2, x.3)));
		o.extend(c.remove.iter().map(|x| Op::Remove(x.0, x.1, x.2)));
		o.extend(c.remove_all.iter().map(|x| Op::RemoveAll(x.0, x.1)));
		o
	}
	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		let supply = Balances::total_issuance();
		let real: DispatchResult;
		let want: Result<(), &'static str>;
		match op.clone() {
			Op::Next(k) => {
				let n = System::block_number() + k;
				System::set_block_number(n);
				<AllPalletsWithSystem as OnInitialize<u64>>::on_initialize(n);
				m.now += k;
				real = Ok(());
				want = Ok(());
			},
			Op::Transfer(f, t, s, r) => {
				real = call(f, pallet_linear_release::Call::vested_transfer { target: t, schedule: info(s), reason: r });
				want = m.transfer(f, t, s, r);
			},
			Op::Force(f, t, s, r) => {
				let c = || pallet_linear_release::Call::force_vested_transfer {
					source: f,
					target: t,
					schedule: info(s),
					reason: r,
				};
				let unauthorised = call(f, c());
				cx.check(&["L03"], unauthorised == Err(DispatchError::BadOrigin), || {
					format!("a signed account forced a vested transfer: {unauthorised:?}")
				});
				real = RuntimeCall::Linear(c()).dispatch(RuntimeOrigin::root()).map(|_| ()).map_err(|e| e.error);
				want = m.transfer(f, t, s, r);
			},
			Op::Bond(w, s, r) => {
				let can = <Linear as ReleaseSchedule<u64, Reason>>::can_add_release_schedule(&w, s.0, s.1, s.2, r);
				real = tx(|| {
					<Balances as MutateHold<u64>>::hold(&r, &w, s.0)?;
					<Linear as ReleaseSchedule<u64, Reason>>::add_release_schedule(&w, s.0, s.1, s.2, r)
				});
				cx.check(&["L03"], can.is_ok() == real.is_ok(), || {
					format!("can_add_release_schedule says {can:?}, adding the schedule gives {real:?}")
				});
				want = if s.0 > 0 && s.1 == 0 {
					Err("InvalidScheduleParams")
				} else if m.list((w, r)).len() >= MAX {
					Err("AtMaxVestingSchedules")
				} else {
					*m.free.get_mut(&w).unwrap() -= s.0;
					*m.held.entry((w, r)).or_default() += s.0;
					let mut v = m.list((w, r));
					v.push(s);
					m.set((w, r), v);
					Ok(())
				};
			},
			Op::Extra(w, x, r) => {
				real = <Balances as MutateHold<u64>>::hold(&r, &w, x);
				*m.free.get_mut(&w).unwrap() -= x;
				*m.held.entry((w, r)).or_default() += x;
				m.extra.insert((w, r), x);
				want = Ok(());
			},
			Op::Vest(w, r) => {
				real = call(w, pallet_linear_release::Call::vest { reason: r });
				want = if m.vest((w, r)) { Ok(()) } else { Err("NotVesting") };
			},
			Op::VestOther(by, w, r) => {
				real = call(by, pallet_linear_release::Call::vest_other { target: w, reason: r });
				want = if m.vest((w, r)) { Ok(()) } else { Err("NotVesting") };
			},
			Op::VestAll(w) => {
				real = call(w, pallet_linear_release::Call::vest_all {});
				REASONS.iter().for_each(|r| {
					m.vest((w, *r));
				});
				want = Ok(());
			},
			Op::VestAllOther(by, w) => {
				real = call(by, pallet_linear_release::Call::vest_all_other { target: w });
				REASONS.iter().for_each(|r| {
					m.vest((w, *r));
				});
				want = Ok(());
			},
			Op::Merge(w, i, j, r) => {
				let k = (w, r);
				let before = m.list(k);
				real = call(
					w,
					pallet_linear_release::Call::merge_schedules { schedule1_index: i, schedule2_index: j, reason: r },
				);
				want = if i == j {
					Ok(())
				} else if before.is_empty() {
					Err("NotVesting")
				} else if i as usize >= before.len() || j as usize >= before.len() {
					Err("ScheduleIndexOutOfBounds")
				} else {
					let (a, b) = (before[i as usize], before[j as usize]);
					let mut v: Vec<Sch> = before
						.iter()
						.enumerate()
						.filter(|(n, _)| *n as u32 != i && *n as u32 != j)
						.map(|(_, s)| *s)
						.collect();
					let live = locked_at(&a, m.now) + locked_at(&b, m.now);
					if let Some(s) = m.merged(&a, &b) {
						cx.outcome("merge", if locked_at(&a, m.now).min(locked_at(&b, m.now)) > 0 { "two" } else { "one" });
						// the reference itself: nothing appears or disappears, nothing unlocks early
						assert_eq!(locked_at(&s, m.now), live);
						assert!(end(&s) >= end(&a).max(end(&b)).min(end(&s)));
						v.push(s);
					} else {
						cx.outcome("merge", "none left");
					}
					m.settle(k, v);
					Ok(())
				};
			},
			Op::Remove(w, i, r) => {
				let v = m.list((w, r));
				real = tx(|| <Linear as ReleaseSchedule<u64, Reason>>::remove_vesting_schedule(&w, i, r));
				want = if v.is_empty() {
					Err("NotVesting")
				} else {
					let v = v.into_iter().enumerate().filter(|(n, _)| *n as u32 != i).map(|(_, s)| s).collect();
					m.settle((w, r), v);
					Ok(())
				};
			},
			Op::RemoveAll(w, r) => {
				let v = m.list((w, r));
				real = tx(|| <Linear as ReleaseSchedule<u64, Reason>>::remove_all_vesting_schedules(&w, r));
				want = if v.is_empty() {
					Err("NotVesting")
				} else {
					m.settle((w, r), vec![]);
					Ok(())
				};
			},
		}
		let kind = match op {
			Op::Next(_) => "next",
			Op::Transfer(..) => "transfer",
			Op::Force(..) => "force",
			Op::Bond(..) => "bond",
			Op::Extra(..) => "extra",
			Op::Vest(..) => "vest",
			Op::VestOther(..) => "vest_other",
			Op::VestAll(..) => "vest_all",
			Op::VestAllOther(..) => "vest_all_other",
			Op::Merge(..) => "merge",
			Op::Remove(..) => "remove",
			Op::RemoveAll(..) => "remove_all",
		};
		cx.outcome(kind, if want.is_ok() { "ok" } else { "refused" });
		let agree = match (&real, &want) {
			(Ok(()), Ok(())) => true,
			// which of several reasons to refuse is given does not matter
			(Err(_), Err(_)) => true,
			_ => false,
		};
		let mine: &[&str] = match op {
			Op::Merge(..) => &["L02"],
			Op::Remove(..) | Op::RemoveAll(..) => &["L04"],
			Op::Vest(..) | Op::VestOther(..) | Op::VestAll(..) | Op::VestAllOther(..) => &["L01", "L05"],
			_ => &["L03"],
		};
		cx.check(mine, agree, || format!("block {}: gives {}, must give {want:?}", m.now, name(&real)));
		if !agree {
			cx.prune = true;
			return;
		}
		cx.check(&["L03"], Balances::total_issuance() == supply, || "the issuance changed".into());
		for w in ACCS {
			for r in REASONS {
				let k = (w, r);
				let real: Vec<Sch> = Linear::vesting(&w, r)
					.map(|v| v.iter().map(|s| (s.locked, s.per_block, s.starting_block)).collect())
					.unwrap_or_default();
				let v = m.list(k);
				cx.check(&["L01", "L02", "L03", "L04"], real.iter().map(|s| s.0).sum::<u128>() == v.iter().map(|s| s.0).sum(), || {
					format!("block {}: account {w} has schedules {real:?} for {r:?}, must have {v:?}", m.now)
				});
				let held = Balances::balance_on_hold(&r, &w);
				let want = m.held.get(&k).copied().unwrap_or(0);
				let extra = m.extra.get(&k).copied().unwrap_or(0);
				if held < want && extra > 0 && matches!(op, Op::Vest(..) | Op::Transfer(..)) && cx.on(&["L05"]) {
					cx.fail_keyed("releases-every-hold-of-the-reason", || {
						format!(
							"{kind} released {} of the {extra} that account {w} has on hold for the same reason apart from its schedules",
							want - held
						)
					});
					cx.prune = true;
					return;
				}
				cx.check(&["L01", "L02", "L03", "L04", "L05"], held == want, || {
					format!("block {}: account {w} has {held} on hold for {r:?}, must be {want} ({v:?})", m.now)
				});
				let got = <Linear as ReleaseSchedule<u64, Reason>>::total_scheduled_amount(&w, r).unwrap_or(0);
				cx.check(&["L03"], got == v.iter().map(|s| s.0).sum(), || {
					format!("total_scheduled_amount of account {w} is {got}, the schedules are {v:?}")
				});
				let got = <Linear as ReleaseSchedule<u64, Reason>>::vesting_balance(&w, r).unwrap_or(0);
				cx.check(&["L01"], got == v.iter().map(|s| s.0 - locked_at(s, m.now)).sum(), || {
					format!("vesting_balance of account {w} is {got} in block {}, the schedules are {v:?}", m.now)
				});
				// what will still be locked in every later block
				if cx.on(&["L01", "L02", "L03"]) && !(real.is_empty() && v.is_empty()) {
					let last = v.iter().chain(&real).map(end).max().unwrap_or(0).max(m.now);
					for n in m.now..=last {
						let got: u128 = real.iter().map(|s| locked_at(s, n)).sum();
						let want: u128 = v.iter().map(|s| locked_at(s, n)).sum();
						cx.check(&["L01", "L02", "L03"], got == want, || {
							format!("block {}: account {w} will have {got} locked in block {n}, must be {want} ({v:?}; recorded {real:?})", m.now)
						});
					}
				}
				// the funds of every schedule come free once it is over
				if held > 0 && extra == 0 && cx.on(&["L01"]) {
					let over = v.iter().map(end).max().unwrap_or(m.now).max(m.now);
					let left = with_transaction(|| -> TransactionOutcome<Result<u128, DispatchError>> {
						System::set_block_number(over);
						let _ = call(w, pallet_linear_release::Call::vest { reason: r });
						TransactionOutcome::Rollback(Ok(Balances::balance_on_hold(&r, &w)))
					})
					.unwrap();
					cx.check(&["L01"], left == 0, || {
						format!("block {}: when the schedules of account {w} are over, {left} stays on hold for ever ({v:?})", m.now)
					});
				}
			}
			let (got, want) = (Balances::free_balance(w), m.free[&w]);
			cx.check(&["L01", "L02", "L03", "L04"], got == want, || {
				format!("block {}: account {w} has {got} free, must be {want}", m.now)
			});
		}
	}
}
