//! Binds the reference model to the real pallet.
use crate::{model::*, runtime::*};
use engine::{Cx, Harness, Ignore};
use frame_support::{
	storage::storage_prefix,
	traits::{fungible::InspectHold, EstimateNextSessionRotation, OnFinalize, OnInitialize},
};
use pallet_authorship::EventHandler;
use pallet_parachain_staking as ps;
use pallet_session::{SessionManager, ShouldEndSession};
use sp_runtime::{traits::Dispatchable, BuildStorage, Perbill, Percent};
use std::collections::{BTreeMap, BTreeSet};

fn origin(o: O) -> RuntimeOrigin {
	match o {
		O::Root => RuntimeOrigin::root(),
		O::Signed(a) => RuntimeOrigin::signed(a),
		O::None => RuntimeOrigin::none(),
	}
}
fn range(x: &[u128; 3]) -> ps::Range<u128> {
	ps::Range { min: x[0], ideal: x[1], max: x[2] }
}
fn parts(x: &[u32; 3]) -> ps::Range<Perbill> {
	let p = |i: usize| Perbill::from_parts(x[i]);
	ps::Range { min: p(0), ideal: p(1), max: p(2) }
}
/// the call, with the counts it names
fn to_call(op: &Op, n: [u32; 3]) -> (O, RuntimeCall) {
	use O::Signed as S;
	use ps::Call::*;
	let (o, c): (O, ps::Call<Test>) = match op.clone() {
		Op::Next | Op::Round | Op::Author(_) | Op::Short(_) | Op::As(..) => unreachable!(),
		Op::Pay(by, value) =>
			return (S(by), RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: PAYER, value })),
		Op::Join(a, bond) => (S(a), join_candidates { bond, candidate_count: n[0] }),
		Op::LeaveC(a) => (S(a), schedule_leave_candidates { candidate_count: n[0] }),
		Op::ExecLeaveC(by, candidate) => (S(by), execute_leave_candidates { candidate, candidate_delegation_count: n[0] }),
		Op::CancelLeaveC(a) => (S(a), cancel_leave_candidates { candidate_count: n[0] }),
		Op::Offline(a) => (S(a), go_offline {}),
		Op::Online(a) => (S(a), go_online {}),
		Op::MoreC(a, more) => (S(a), candidate_bond_more { more }),
		Op::LessC(a, less) => (S(a), schedule_candidate_bond_less { less }),
		Op::ExecLessC(by, candidate) => (S(by), execute_candidate_bond_less { candidate }),
		Op::CancelLessC(a) => (S(a), cancel_candidate_bond_less {}),
		Op::Delegate(a, candidate, amount, 0) =>
			(S(a), delegate { candidate, amount, candidate_delegation_count: n[0], delegation_count: n[2] }),
		Op::Delegate(a, candidate, amount, p) => (
			S(a),
			delegate_with_auto_compound {
				candidate,
				amount,
				auto_compound: Percent::from_percent(p),
				candidate_delegation_count: n[0],
				candidate_auto_compounding_delegation_count: n[1],
				delegation_count: n[2],
			},
		),
		Op::LeaveD(a) => (S(a), schedule_leave_delegators {}),
		Op::ExecLeaveD(by, delegator) => (S(by), execute_leave_delegators { delegator, delegation_count: n[0] }),
		Op::CancelLeaveD(a) => (S(a), cancel_leave_delegators {}),
		Op::Revoke(a, collator) => (S(a), schedule_revoke_delegation { collator }),
		Op::MoreD(a, candidate, more) => (S(a), delegator_bond_more { candidate, more }),
		Op::LessD(a, candidate, less) => (S(a), schedule_delegator_bond_less { candidate, less }),
		Op::Exec(by, delegator, candidate) => (S(by), execute_delegation_request { delegator, candidate }),
		Op::Cancel(a, candidate) => (S(a), cancel_delegation_request { candidate }),
		Op::Auto(a, candidate, p) => (
			S(a),
			set_auto_compound {
				candidate,
				value: Percent::from_percent(p),
				candidate_auto_compounding_delegation_count_hint: n[0],
				delegation_count_hint: n[1],
			},
		),
		Op::Hotfix(by, c) => (S(by), hotfix_remove_delegation_requests_exited_candidates { candidates: vec![c] }),
		Op::SetExpect(o, x) => (o, set_staking_expectations { expectations: range(&x) }),
		Op::SetInflation(o, x) => (o, set_inflation { schedule: parts(&x) }),
		Op::SetBondAccount(o, new) => (o, set_parachain_bond_account { new }),
		Op::SetReserve(o, p) => (o, set_parachain_bond_reserve_percent { new: Percent::from_percent(p) }),
		Op::SetSelected(o, new) => (o, set_total_selected { new }),
		Op::SetCommission(o, p) => (o, set_collator_commission { new: Perbill::from_parts(p) }),
		Op::SetBlocks(o, new) => (o, set_blocks_per_round { new }),
	};
	(o, RuntimeCall::Staking(c))
}
fn name(op: &Op) -> &'static str {
	match op {
		Op::Next => "next_block",
		Op::Round => "next_round",
		Op::Author(_) => "author",
		Op::Pay(..) => "transfer",
		Op::Join(..) => "join_candidates",
		Op::LeaveC(_) => "schedule_leave_candidates",
		Op::ExecLeaveC(..) => "execute_leave_candidates",
		Op::CancelLeaveC(_) => "cancel_leave_candidates",
		Op::Offline(_) => "go_offline",
		Op::Online(_) => "go_online",
		Op::MoreC(..) => "candidate_bond_more",
		Op::LessC(..) => "schedule_candidate_bond_less",
		Op::ExecLessC(..) => "execute_candidate_bond_less",
		Op::CancelLessC(_) => "cancel_candidate_bond_less",
		Op::Delegate(_, _, _, 0) => "delegate",
		Op::Delegate(..) => "delegate_with_auto_compound",
		Op::LeaveD(_) => "schedule_leave_delegators",
		Op::ExecLeaveD(..) => "execute_leave_delegators",
		Op::CancelLeaveD(_) => "cancel_leave_delegators",
		Op::Revoke(..) => "schedule_revoke_delegation",
		Op::MoreD(..) => "delegator_bond_more",
		Op::LessD(..) => "schedule_delegator_bond_less",
		Op::Exec(..) => "execute_delegation_request",
		Op::Cancel(..) => "cancel_delegation_request",
		Op::Auto(..) => "set_auto_compound",
		Op::Hotfix(..) => "hotfix",
		Op::Short(_) => "count too low",
		Op::As(..) => "other origin",
		Op::SetExpect(..) => "set_staking_expectations",
		Op::SetInflation(..) => "set_inflation",
		Op::SetBondAccount(..) => "set_parachain_bond_account",
		Op::SetReserve(..) => "set_parachain_bond_reserve_percent",
		Op::SetSelected(..) => "set_total_selected",
		Op::SetCommission(..) => "set_collator_commission",
		Op::SetBlocks(..) => "set_blocks_per_round",
	}
}
/// The properties that say when the call succeeds.
fn about(op: &Op) -> &'static [&'static str] {
	match op {
		Op::Next | Op::Round | Op::Author(_) => &[],
		Op::Pay(..) => &["S01"],
		Op::Join(..) => &["S06", "S07"],
		Op::LeaveC(_) | Op::ExecLeaveC(..) | Op::CancelLeaveC(_) | Op::Offline(_) | Op::Online(_) => &["S06"],
		Op::MoreC(..) => &["S01", "S06", "S07"],
		Op::LessC(..) | Op::ExecLessC(..) | Op::CancelLessC(_) => &["S05", "S07"],
		Op::Delegate(..) => &["S03", "S07", "S09"],
		Op::LeaveD(_) | Op::ExecLeaveD(..) | Op::CancelLeaveD(_) => &["S05", "S07"],
		Op::Revoke(..) | Op::LessD(..) | Op::Exec(..) | Op::Cancel(..) => &["S05", "S07"],
		Op::MoreD(..) => &["S01", "S05", "S07"],
		Op::Auto(..) => &["S09"],
		Op::Hotfix(..) => &["S05"],
		Op::Short(_) | Op::As(..) => &["S07", "S11"],
		Op::SetExpect(..) |
		Op::SetInflation(..) |
		Op::SetBondAccount(..) |
		Op::SetReserve(..) |
		Op::SetSelected(..) |
		Op::SetCommission(..) |
		Op::SetBlocks(..) => &["S11"],
	}
}

#[derive(Clone)]
pub struct Cfg {
	pub balances: Vec<(u64, u128)>,
	pub payer: u128,
	pub candidates: Vec<(u64, u128)>,
	pub delegations: Vec<(u64, u64, u128, u8)>,
	pub len: u32,
	pub selected: u32,
	pub commission: u32,
	pub expect: [u128; 3],
	pub annual: [u32; 3],
	pub ops: Vec<Op>,
	/// single blocks, whole rounds, and until when
	pub blocks: bool,
	pub rounds: bool,
	pub max_round: u32,
	pub authors: Vec<u64>,
	/// authored blocks of a round
	pub busy: u64,
	/// the implementation's inflation of a round, instead of that of the year
	pub round_inflation: Option<[u32; 3]>,
}
impl Default for Cfg {
	fn default() -> Self {
		Cfg {
			balances: vec![],
			payer: 100_000,
			candidates: vec![],
			delegations: vec![],
			len: 3,
			selected: 2,
			commission: 200_000_000,
			expect: [0, 10, 1_000_000],
			annual: [0; 3],
			ops: vec![],
			blocks: false,
			rounds: true,
			max_round: 5,
			authors: vec![],
			busy: 2,
			round_inflation: None,
		}
	}
}
pub struct Sys {
	pub cfg: Cfg,
}

impl Harness for Sys {
	type Op = Op;
	type Model = M;

	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let c = &self.cfg;
		let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		let mut balances = c.balances.clone();
		balances.push((PAYER, c.payer));
		pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
		let inflation_config = ps::InflationInfo {
			expect: range(&c.expect),
			annual: parts(&c.annual),
			round: parts(&c.round_inflation.unwrap_or(per_round(&c.annual, c.len))),
		};
		ps::GenesisConfig::<Test> {
			inflation_config,
			candidates: c.candidates.clone(),
			delegations: c.delegations.iter().map(|d| (d.0, d.1, d.2, Percent::from_percent(d.3))).collect(),
			collator_commission: Perbill::from_parts(c.commission),
			parachain_bond_reserve_percent: Percent::from_percent(0),
			blocks_per_round: c.len,
			num_selected_candidates: c.selected,
		}
		.assimilate_storage(&mut t)
		.unwrap();
		t.top.into_iter().collect()
	}
	fn ignore(&self) -> Ignore {
		let p = |n: &[u8]| storage_prefix(b"System", n).to_vec();
		Ignore {
			prefixes: vec![p(b"Events"), p(b"EventCount"), p(b"EventTopics"), p(b"ExtrinsicIndex"), p(b"ExecutionPhase")],
			keep: vec![],
		}
	}
	fn init(&self) -> M {
		let c = &self.cfg;
		System::set_block_number(0);
		let mut acc: BTreeMap<u64, Acc> =
			c.balances.iter().map(|(a, b)| (*a, Acc { free: *b, ..Default::default() })).collect();
		acc.insert(PAYER, Acc { free: c.payer, ..Default::default() });
		let mut m = M {
			now: 0,
			cur: 1,
			first: 0,
			len: c.len,
			issuance: acc.values().map(|a| a.free).sum(),
			acc,
			cands: BTreeMap::new(),
			selected: vec![],
			snaps: BTreeMap::new(),
			staked: BTreeMap::new(),
			points: BTreeMap::new(),
			payout: None,
			cut: false,
			cfg: Config {
				commission: c.commission,
				selected: c.selected,
				expect: c.expect,
				annual: c.annual,
				round: c.round_inflation.unwrap_or(per_round(&c.annual, c.len)),
				bond: (0, 0),
			},
		};
		for (a, b) in &c.candidates {
			assert!(m.apply(&Op::Join(*a, *b)));
		}
		for (a, b, x, p) in &c.delegations {
			assert!(m.apply(&Op::Delegate(*a, *b, *x, *p)));
		}
		assert_eq!(adopt(&mut m, false), Ok(()));
		m.selected = Staking::selected_candidates().to_vec();
		assert_eq!(m.right_selection(&m.selected), Ok(()));
		let snaps = m.selected.iter().map(|c| (*c, m.snapshot(*c))).collect();
		m.snaps.insert(1, snaps);
		m.staked.insert(1, m.total());
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o = vec![];
		let last = m.cur >= c.max_round;
		if c.blocks && !(last && m.now + 1 - m.first >= m.len as u64) {
			o.push(Op::Next);
		}
		if c.rounds && !last {
			o.push(Op::Round);
		}
		o.extend(c.ops.iter().cloned());
		let authored: u32 = m.points.get(&m.cur).map_or(0, |p| p.values().sum::<u32>() / 20);
		// at most one block is authored per block
		if (authored as u64) < (m.now + 1 - m.first).min(c.busy) || (c.rounds && !c.blocks && (authored as u64) < c.busy) {
			o.extend(c.authors.iter().map(|a| Op::Author(*a)));
		}
		o
	}

	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		match op {
			Op::Next => {
				self.block(m, cx);
			},
			Op::Round => {
				while !self.block(m, cx) {
					if cx.violation.is_some() || cx.prune {
						return;
					}
					self.compare(m, false, cx);
				}
			},
			Op::Author(a) => {
				<Staking as EventHandler<u64, u64>>::note_author(*a);
				*m.points.entry(m.cur).or_default().entry(*a).or_default() += 20;
				cx.outcome("author", "ok");
			},
			_ => self.call(m, op, cx),
		}
		if cx.violation.is_none() && !cx.prune {
			self.compare(m, !matches!(op, Op::Next | Op::Round | Op::Author(_)), cx);
		}
	}
}

fn held(a: u64) -> (u128, u128) {
	(
		Balances::balance_on_hold(&ps::HoldReason::StakingCollator.into(), &a),
		Balances::balance_on_hold(&ps::HoldReason::StakingDelegator.into(), &a),
	)
}
fn top(c: u64) -> Option<ps::Delegations<u64, u128>> {
	Staking::top_delegations(c)
}
fn bottom(c: u64) -> Option<ps::Delegations<u64, u128>> {
	Staking::bottom_delegations(c)
}
fn owners(d: &Option<ps::Delegations<u64, u128>>) -> Vec<u64> {
	d.as_ref().map_or(vec![], |d| d.delegations.iter().map(|b| b.owner).collect())
}
/// Take over which delegations are counted, where the rules leave it open, and check that they do.
/// Within a call (`one` change) who counted goes on counting among equals.
fn adopt(m: &mut M, one: bool) -> Result<(), String> {
	for (c, x) in m.cands.iter_mut() {
		let (t, b) = (owners(&top(*c)), owners(&bottom(*c)));
		let mut all: Vec<u64> = t.iter().chain(&b).copied().collect();
		all.sort();
		let want: Vec<u64> = x.dels.keys().copied().collect();
		if all != want {
			return Err(format!("candidate {c} has delegations of {t:?} (counted) and {b:?}, must be of {want:?}"));
		}
		if t.len() != want.len().min(MaxTop::val() as usize) {
			return Err(format!("candidate {c}: {} of {} delegations are counted", t.len(), want.len()));
		}
		let low = t.iter().map(|d| x.amount(*d)).min();
		if let Some(d) = b.iter().find(|d| Some(x.amount(**d)) > low) {
			return Err(format!("candidate {c}: the delegation of {d} is not counted though it is larger than a counted one"));
		}
		if one {
			let risen = t.iter().filter(|d| !x.top.contains(d)).map(|d| x.amount(*d)).min();
			if let Some(d) = b.iter().find(|d| x.top.contains(d) && risen.is_some_and(|r| x.amount(**d) >= r)) {
				return Err(format!("candidate {c}: the delegation of {d} does not count any more, an equal one took its place"));
			}
		}
		x.top = t;
		x.bottom = b;
	}
	Ok(())
}

impl Sys {
	fn call(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		let before = m.clone();
		let (o, call) = match op {
			Op::Short(op) => {
				let n = m.counts(op).map(|n| n.saturating_sub(1));
				to_call(op, n)
			},
			Op::As(o, op) => (*o, to_call(op, m.counts(op)).1),
			_ => to_call(op, m.counts(op)),
		};
		let kind = name(op);
		let res = call.dispatch(origin(o));
		let got = res.is_ok();
		let want = m.apply(op);
		cx.outcome(kind, if got { "ok" } else { "refused" });
		if got != want {
			cx.check(about(op), false, || {
				format!(
					"{op:?} must be {} but was {}",
					if want { "accepted" } else { "refused" },
					match res {
						Ok(_) => "accepted".into(),
						Err(e) => format!("refused with {:?}", e.error),
					}
				)
			});
			cx.prune = true;
			return;
		}
		if let (true, Op::Delegate(who, cand, x, _)) = (got, op) {
			self.displace(&before, m, *who, *cand, *x, cx);
		}
		if let (true, Op::Short(_) | Op::As(..)) = (got, op) {
			// accepted as it names or is entitled enough: no further bookkeeping
			cx.prune = true;
		}
	}

	/// A delegation beyond the capacity displaces one of the smallest; equals come first who came first.
	fn displace(&self, before: &M, m: &mut M, who: u64, cand: u64, x: u128, cx: &mut Cx) {
		let was = before.cands[&cand].clone();
		let (t, b) = (owners(&top(cand)), owners(&bottom(cand)));
		if was.brimful() {
			let least = *was.sorted().last().unwrap();
			let gone: Vec<u64> = was.dels.keys().copied().filter(|d| !t.contains(d) && !b.contains(d)).collect();
			cx.outcome("delegate", "displaces the smallest");
			if gone.len() != 1 || was.amount(gone[0]) != least || was.bottom.last().is_some_and(|d| *d != gone[0]) {
				cx.check(&["S02", "S03"], false, || {
					format!("the delegations of {gone:?} were displaced, must be one of the smallest ({least})")
				});
				cx.prune = true;
				return;
			}
			m.end(gone[0], cand);
		}
		let counted = !was.full() || x > was.sorted()[MaxTop::val() as usize - 1];
		cx.check(&["S03"], t.contains(&who) == counted, || {
			format!("the new delegation of {x} by {who} to {cand} must{} be counted", if counted { "" } else { " not" })
		});
		let list: Vec<u128> = (if counted { &t } else { &b }).iter().map(|d| m.cands[&cand].amount(*d)).collect();
		let at = if counted { &t } else { &b }.iter().position(|d| *d == who);
		cx.check(&["S03"], at.map_or(true, |i| !list[i + 1..].contains(&x)), || {
			format!("the new delegation of {x} by {who} to {cand} must come behind its equals: {t:?}, {b:?}")
		});
		if was.full() {
			cx.outcome("delegate", if counted { "enters a full top" } else { "waits at the bottom" });
		}
	}

	/// one block; did a round begin?
	fn block(&self, m: &mut M, cx: &mut Cx) -> bool {
		let n = m.now + 1;
		let before = m.clone();
		let left = |r: u32| -> BTreeSet<u64> { ps::AtStake::<Test>::iter_prefix(r).map(|x| x.0).collect() };
		let ends = <Staking as ShouldEndSession<u64>>::should_end_session(n);
		let paid = m.payout.map(|p| (p, left(p.0)));
		Balances::on_finalize(m.now);
		System::set_block_number(n);
		<AllPalletsWithSystem as OnInitialize<u64>>::on_initialize(n);
		let new = m.begin_block();
		let cur = Staking::round();
		cx.check(&["S10"], cur.current == m.cur && cur.first == m.first && cur.length == m.len, || {
			format!("block {n}: round {cur:?}, must be {} since {} with {} blocks", m.cur, m.first, m.len)
		});
		if cur.current != m.cur {
			cx.prune = true;
			return new;
		}
		cx.check(&["S10"], ends == new, || format!("block {n}: the session ends: {ends}, a round begins: {new}"));
		cx.outcome("block", if new { "begins a round" } else { "within a round" });
		if !new {
			if let Some(((r, issuance, fee), was)) = paid {
				let is = left(r);
				for c in was.difference(&is) {
					let snap = before.snaps.get(&r).and_then(|s| s.get(c)).cloned();
					let Some(snap) = snap else {
						cx.check(&["S08"], false, || format!("collator {c} has no stake recorded for round {r}"));
						cx.prune = true;
						return new;
					};
					let what = m.reward(r, issuance, fee, *c, &snap);
					cx.outcome("reward", what);
					if let Some(s) = m.snaps.get_mut(&r) {
						s.remove(c);
					}
				}
				if let Err(e) = adopt(m, false) {
					cx.check(&["S02", "S03", "S09"], false, || e);
					cx.prune = true;
				}
			}
			return new;
		}
		// everybody of the round that was being paid has been paid, unless the round was cut short
		if let (Some(((r, ..), was)), false) = (paid, before.cut) {
			cx.check(&["S08"], was.is_empty(), || format!("collators {was:?} were not paid for round {r}"));
		}
		// the new collators
		let chosen = Staking::selected_candidates().to_vec();
		let right = m.right_selection(&chosen);
		cx.check(&["S04"], right.is_ok(), || {
			format!("block {n}: round {} has collators {chosen:?}: {} (pool {:?})", m.cur, right.clone().unwrap_err(), m.pool())
		});
		if right.is_err() {
			cx.prune = true;
			return new;
		}
		let keep = m.pool().is_empty();
		cx.outcome("selection", if keep { "nobody active" } else if m.pool().len() > chosen.len() { "some lose" } else { "all" });
		let snaps: BTreeMap<u64, Snap> = if keep {
			m.snaps.get(&(m.cur - 1)).cloned().unwrap_or_default()
		} else {
			chosen.iter().map(|c| (*c, m.snapshot(*c))).collect()
		};
		m.selected = chosen.clone();
		m.snaps.insert(m.cur, snaps);
		m.staked.insert(m.cur, m.total());
		let sess = <Staking as SessionManager<u64>>::new_session(m.cur);
		let want = if chosen.is_empty() { None } else { Some(chosen) };
		cx.check(&["S10"], sess == want, || format!("block {n}: session authors {sess:?}, must be {want:?}"));
		new
	}

	fn compare(&self, m: &mut M, one: bool, cx: &mut Cx) {
		let r = adopt(m, one);
		if let Err(e) = r {
			cx.check(&["S02", "S03"], false, || e);
			cx.prune = true;
			return;
		}
		let m = &*m;
		if cx.on(&["S01", "S08", "S09"]) {
			for (a, x) in &m.acc {
				let (c, d) = held(*a);
				let p: &[&str] = &["S01", "S09"];
				cx.check(p, c == x.as_cand, || format!("account {a} has {c} held as a candidate, must be {}", x.as_cand));
				cx.check(p, d == x.as_del, || format!("account {a} has {d} held as a delegator, must be {}", x.as_del));
				let f = Balances::free_balance(a);
				cx.check(&["S01", "S08", "S09"], f == x.free, || format!("account {a} has {f} free, must be {}", x.free));
			}
			let ti = Balances::total_issuance();
			cx.check(&["S01", "S08"], ti == m.issuance, || format!("total issuance {ti}, must be {}", m.issuance));
		}
		if cx.on(&["S01"]) {
			// the records themselves say what must be held
			for a in m.acc.keys() {
				let (c, d) = held(*a);
				let rc = Staking::candidate_info(a).map_or(0, |i| i.bond);
				let rd = Staking::delegator_state(a).map_or(0, |s| s.total);
				cx.check(&["S01"], c == rc, || format!("account {a} has {c} held, its bond is recorded as {rc}"));
				cx.check(&["S01"], d == rd, || format!("account {a} has {d} held, its delegations are recorded as {rd}"));
			}
		}
		if cx.on(&["S02", "S03", "S05", "S06"]) {
			self.records(m, cx);
		}
		if cx.on(&["S04", "S06"]) {
			let pool: BTreeMap<u64, u128> = Staking::candidate_pool().0.iter().map(|b| (b.owner, b.amount)).collect();
			cx.check(&["S04", "S06"], pool == m.pool(), || format!("the pool of candidates is {pool:?}, must be {:?}", m.pool()));
			let list: Vec<u64> = Staking::candidate_pool().0.iter().map(|b| b.owner).collect();
			cx.check(&["S04"], list.windows(2).all(|w| w[0] < w[1]), || format!("the pool {list:?} is not sorted"));
			let s = Staking::selected_candidates().to_vec();
			cx.check(&["S04"], s == m.selected, || format!("the collators are {s:?}, must be {:?}", m.selected));
			for a in m.acc.keys() {
				let is = Staking::is_selected_candidate(a);
				cx.check(&["S04"], is == m.selected.contains(a), || format!("account {a} is reported as selected: {is}"));
				let (c, d) = (Staking::is_candidate(a), Staking::is_delegator(a));
				cx.check(&["S06"], c == m.cands.contains_key(a), || format!("account {a} is reported as a candidate: {c}"));
				cx.check(&["S06"], d == m.is_delegator(*a), || format!("account {a} is reported as a delegator: {d}"));
			}
		}
		if cx.on(&["S04", "S08", "S09"]) {
			for (r, want) in &m.snaps {
				let got: BTreeMap<u64, Snap> = ps::AtStake::<Test>::iter_prefix(*r)
					.map(|(c, s)| {
						let pct = |p: Percent| (0..=100).find(|x| Percent::from_percent(*x) == p).unwrap();
						let dels = s.delegations.iter().map(|d| (d.owner, d.amount, pct(d.auto_compound))).collect();
						(c, Snap { bond: s.bond, total: s.total, dels })
					})
					.collect();
				cx.check(&["S04", "S08", "S09"], got == *want, || format!("the stakes that count for round {r} are {got:?}, must be {want:?}"));
			}
		}
		if cx.on(&["S07"]) {
			for (c, x) in &m.cands {
				let b = Staking::candidate_info(c).map_or(0, |i| i.bond);
				cx.check(&["S07"], b >= MinCandidateStk::val(), || format!("candidate {c} has a bond of {b}"));
				cx.check(&["S07"], !Staking::is_delegator(c), || format!("candidate {c} is a delegator"));
				let n = x.dels.len() as u32;
				cx.check(&["S07"], n <= MaxTop::val() + MaxBottom::val(), || format!("candidate {c} has {n} delegations"));
			}
			for a in m.acc.keys() {
				let Some(s) = Staking::delegator_state(a) else { continue };
				let n = s.delegations.0.len() as u32;
				cx.check(&["S07"], n <= MaxDelegationsPerDelegator::val() && n > 0, || format!("delegator {a} has {n} delegations"));
				cx.check(&["S07"], s.delegations.0.iter().all(|b| b.amount >= MinDelegation::val()), || {
					format!("delegator {a} has a delegation below the minimum: {:?}", s.delegations)
				});
			}
		}
		if cx.on(&["S09"]) {
			for c in m.acc.keys() {
				let got: BTreeMap<u64, Percent> =
					Staking::auto_compounding_delegations(c).into_iter().map(|x| (x.delegator, x.value)).collect();
				let want: BTreeMap<u64, Percent> = m.cands.get(c).map_or(Default::default(), |x| {
					x.dels.iter().filter(|d| d.1.auto > 0).map(|d| (*d.0, Percent::from_percent(d.1.auto))).collect()
				});
				cx.check(&["S09"], got == want, || format!("candidate {c}: compounding {got:?}, must be {want:?}"));
				for d in m.acc.keys() {
					let p = Staking::delegation_auto_compound(c, d);
					let w = want.get(d).copied().unwrap_or(Percent::from_percent(0));
					cx.check(&["S09"], p == w, || format!("delegation of {d} to {c} is reported to compound {p:?}, must be {w:?}"));
				}
			}
		}
		if cx.on(&["S10"]) {
			let r = Staking::round();
			cx.check(&["S10"], (r.current, r.first, r.length) == (m.cur, m.first, m.len), || format!("round {r:?}"));
			let next = <Staking as EstimateNextSessionRotation<u64>>::estimate_next_session_rotation(m.now).0;
			cx.check(&["S10"], next == Some(m.first + m.len as u64), || format!("the next round is estimated for block {next:?}"));
			let avg = <Staking as EstimateNextSessionRotation<u64>>::average_session_length();
			cx.check(&["S10"], avg == m.len as u64, || format!("the length of a session is given as {avg}"));
			let p = ps::Points::<Test>::get(m.cur);
			let want = m.points.get(&m.cur).map_or(0, |p| p.values().sum());
			cx.check(&["S10"], p == want, || format!("round {} has {p} points, must be {want}", m.cur));
			for a in m.acc.keys() {
				let p = ps::AwardedPts::<Test>::get(m.cur, a);
				let want = m.points.get(&m.cur).and_then(|p| p.get(a)).copied().unwrap_or(0);
				cx.check(&["S10"], p == want, || format!("account {a} has {p} points, must be {want}"));
			}
		}
		if cx.on(&["S11"]) {
			let i = Staking::inflation_config();
			let r = |x: &ps::Range<Perbill>| [x.min, x.ideal, x.max].map(|p| p.deconstruct());
			cx.check(&["S11"], [i.expect.min, i.expect.ideal, i.expect.max] == m.cfg.expect, || format!("expectations {:?}", i.expect));
			cx.check(&["S11"], r(&i.annual) == m.cfg.annual, || format!("inflation {:?}", i.annual));
			cx.check(&["S11"], r(&i.round).iter().zip(m.cfg.round).all(|(a, b)| a.abs_diff(b) <= 1), || {
				format!("inflation of a round {:?}, must be {:?} parts", i.round, m.cfg.round)
			});
			let b = Staking::parachain_bond_info();
			cx.check(&["S11"], (b.account, b.percent) == (m.cfg.bond.0, Percent::from_percent(m.cfg.bond.1)), || format!("{b:?}"));
			let s = Staking::total_selected();
			cx.check(&["S11"], s == m.cfg.selected, || format!("{s} collators are selected, must be {}", m.cfg.selected));
			let c = Staking::collator_commission();
			cx.check(&["S11"], c.deconstruct() == m.cfg.commission, || format!("commission {c:?}"));
			let l = Staking::round().length;
			cx.check(&["S11"], l == m.len && l > s, || format!("rounds of {l} blocks, must be {}, with {s} collators", m.len));
		}
	}

	/// What is recorded about candidates and delegators.
	fn records(&self, m: &M, cx: &mut Cx) {
		let all: &[&str] = &["S02", "S05", "S06"];
		let t = Staking::total();
		cx.check(&["S02"], t == m.total(), || format!("the total stake is recorded as {t}, must be {}", m.total()));
		let st = ps::Staked::<Test>::get(m.cur);
		let want = m.staked.get(&m.cur).copied().unwrap_or(0);
		cx.check(&["S02"], st == want, || format!("the stake of round {} is recorded as {st}, must be {want}", m.cur));
		for a in m.acc.keys() {
			let (info, c) = (Staking::candidate_info(a), m.cands.get(a));
			if info.is_some() != c.is_some() {
				cx.check(all, false, || format!("account {a} is a candidate: {}", info.is_some()));
				continue;
			}
			let left = top(*a).is_some() || bottom(*a).is_some();
			cx.check(&["S02", "S06"], left == c.is_some(), || format!("delegations to {a}, who is no candidate, are left behind"));
			if let (Some(i), Some(c)) = (info, c) {
				cx.check(all, i.bond == c.bond, || format!("candidate {a} has a bond of {}, must be {}", i.bond, c.bond));
				let status = match i.status {
					ps::CollatorStatus::Active => Status::Active,
					ps::CollatorStatus::Idle => Status::Idle,
					ps::CollatorStatus::Leaving(r) => Status::Leaving(r),
				};
				cx.check(&["S06"], status == c.status, || format!("candidate {a} is {status:?}, must be {:?}", c.status));
				let req = i.request.map(|r| (r.amount, r.when_executable));
				cx.check(&["S05", "S06"], req == c.req, || format!("candidate {a} has asked for {req:?}, must be {:?}", c.req));
				cx.check(&["S02"], i.delegation_count as usize == c.dels.len(), || {
					format!("candidate {a} has {} delegations on record, must be {}", i.delegation_count, c.dels.len())
				});
				let p: &[&str] = &["S02", "S03"];
				cx.check(p, i.total_counted == c.counted(), || {
					format!("candidate {a} has a counted stake of {}, must be {}", i.total_counted, c.counted())
				});
				for (what, d, list) in [("counted", top(*a), &c.top), ("other", bottom(*a), &c.bottom)] {
					let d = d.unwrap_or_default();
					let got: Vec<(u64, u128)> = d.delegations.iter().map(|b| (b.owner, b.amount)).collect();
					let want: Vec<(u64, u128)> = list.iter().map(|x| (*x, c.amount(*x))).collect();
					cx.check(p, got == want, || format!("candidate {a}: the {what} delegations are {got:?}, must be {want:?}"));
					cx.check(p, got.windows(2).all(|w| w[0].1 >= w[1].1), || {
						format!("candidate {a}: the {what} delegations {got:?} are not sorted")
					});
					let sum: u128 = want.iter().map(|x| x.1).sum();
					cx.check(&["S02"], d.total == sum, || {
						format!("candidate {a}: the {what} delegations are recorded to sum up to {}, must be {sum}", d.total)
					});
				}
				let amounts = |l: &[u64]| -> Vec<u128> { l.iter().map(|x| c.amount(*x)).collect() };
				let (tops, bots) = (amounts(&c.top), amounts(&c.bottom));
				let want = (
					tops.last().copied().unwrap_or(0),
					bots.first().copied().unwrap_or(0),
					bots.last().copied().unwrap_or(0),
				);
				let got = (i.lowest_top_delegation_amount, i.highest_bottom_delegation_amount, i.lowest_bottom_delegation_amount);
				cx.check(&["S03"], got == want, || {
					format!("candidate {a}: lowest counted, highest and lowest other delegation are {got:?}, must be {want:?}")
				});
				let cap = |n: usize, max: u32| match n {
					n if n >= max as usize => ps::CapacityStatus::Full,
					0 => ps::CapacityStatus::Empty,
					_ => ps::CapacityStatus::Partial,
				};
				let want = (cap(tops.len(), MaxTop::val()), cap(bots.len(), MaxBottom::val()));
				let got = (i.top_capacity, i.bottom_capacity);
				cx.check(&["S03"], got == want, || format!("candidate {a}: capacities are {got:?}, must be {want:?}"));
			}
			// requests of delegators
			let mut got: Vec<(u64, Act, u128, u32)> = Staking::delegation_scheduled_requests(a)
				.into_iter()
				.map(|r| match r.action {
					ps::DelegationAction::Revoke(x) => (r.delegator, Act::Revoke, x, r.when_executable),
					ps::DelegationAction::Decrease(x) => (r.delegator, Act::Less(x), x, r.when_executable),
				})
				.collect();
			got.sort_by_key(|x| x.0);
			let want: Vec<(u64, Act, u128, u32)> = c.map_or(vec![], |c| {
				c.dels.iter().filter_map(|(w, d)| d.req.map(|(act, when)| (*w, act, d.pending(), when))).collect()
			});
			cx.check(&["S02", "S05"], got == want, || format!("candidate {a}: requests {got:?}, must be {want:?}"));
			for w in m.acc.keys() {
				let d = c.and_then(|c| c.dels.get(w));
				let e = Staking::delegation_request_exists(a, w);
				cx.check(&["S05"], e == d.is_some_and(|d| d.req.is_some()), || format!("a request of {w} to {a} is reported: {e}"));
				let e = Staking::delegation_request_revoke_exists(a, w);
				cx.check(&["S05"], e == d.is_some_and(|d| d.revoked()), || format!("a revocation of {w} to {a} is reported: {e}"));
			}
			// delegators
			let mine = m.dels_of(*a);
			let s = Staking::delegator_state(a);
			cx.check(all, s.is_some() == !mine.is_empty(), || format!("account {a} is recorded as a delegator: {}", s.is_some()));
			if let Some(s) = s {
				let got: Vec<(u64, u128)> = s.delegations.0.iter().map(|b| (b.owner, b.amount)).collect();
				let want: Vec<(u64, u128)> = mine.iter().map(|d| (d.0, d.1.amount)).collect();
				cx.check(all, got == want, || format!("delegator {a} has delegations {got:?}, must be {want:?}"));
				let (t, l) = (m.delegated(*a), m.pending(*a));
				cx.check(&["S02"], s.total == t, || format!("delegator {a} has a total of {}, must be {t}", s.total));
				cx.check(&["S02", "S05"], s.less_total == l, || {
					format!("delegator {a} has {} waiting to be withdrawn, must be {l}", s.less_total)
				});
			}
		}
	}
}
