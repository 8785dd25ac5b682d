//! Binds the reference model to the real pallet.
use crate::{model::*, runtime::*};
use engine::{Cx, Harness, Ignore};
use frame_support::traits::{fungible::{InspectFreeze, InspectHold}, OnInitialize, StorePreimage};
use pallet_democracy as pd;
use pd::{AccountVote, Conviction, MetadataOwner, ReferendumInfo, Vote, VoteThreshold, Voting};
use sp_runtime::{
	traits::{Dispatchable, Hash},
	BuildStorage,
};
use std::collections::BTreeMap;

pub type Hash32 = <Test as frame_system::Config>::Hash;
pub type Bound = pd::BoundedCallOf<Test>;

fn the_call(id: u8) -> RuntimeCall {
	// call 3 is too large to be stored inline: it lives as a noted preimage
	let pad = if id == 3 { vec![7; 200] } else { vec![] };
	RuntimeCall::Probe(probe::Call::hit { id, pad })
}
pub struct Calls {
	pub bound: Vec<Bound>,
	pub hash: Vec<Hash32>,
	pub meta: Vec<Hash32>,
}
pub fn calls() -> &'static Calls {
	static C: std::sync::OnceLock<Calls> = std::sync::OnceLock::new();
	C.get_or_init(|| {
		use frame_support::traits::Bounded;
		use parity_scale_codec::Encode;
		let bound: Vec<Bound> = (0..=3u8)
			.map(|i| {
				let e = the_call(i).encode();
				if e.len() <= 128 {
					Bounded::Inline(e.try_into().unwrap())
				} else {
					Bounded::Lookup { hash: sp_runtime::traits::BlakeTwo256::hash(&e), len: e.len() as u32 }
				}
			})
			.collect();
		let hash = bound.iter().map(|b| b.hash()).collect();
		let meta = (0..=2u8).map(|i| sp_runtime::traits::BlakeTwo256::hash(&[i; 40])).collect();
		Calls { bound, hash, meta }
	})
}
fn call_id(h: &Hash32) -> u8 {
	calls().hash.iter().position(|x| x == h).map_or(99, |p| p as u8)
}
fn meta_id(h: &Hash32) -> u8 {
	calls().meta.iter().position(|x| x == h).map_or(99, |p| p as u8)
}
fn origin(o: O) -> RuntimeOrigin {
	match o {
		O::Root => RuntimeOrigin::root(),
		O::Signed(a) => RuntimeOrigin::signed(a),
		O::None => RuntimeOrigin::none(),
	}
}
fn conv(c: u8) -> Conviction {
	Conviction::try_from(c).expect("conviction")
}
fn avote(v: V) -> AccountVote<u64> {
	match v {
		V::Std { aye, conv: c, bal } => AccountVote::Standard { vote: Vote { aye, conviction: conv(c) }, balance: bal },
		V::Split { aye, nay } => AccountVote::Split { aye, nay },
	}
}
fn mvote(v: &AccountVote<u64>) -> V {
	match *v {
		AccountVote::Standard { vote, balance } =>
			V::Std { aye: vote.aye, conv: u8::from(vote.conviction), bal: balance },
		AccountVote::Split { aye, nay } => V::Split { aye, nay },
	}
}
fn thr(t: VoteThreshold) -> Thr {
	match t {
		VoteThreshold::SuperMajorityApprove => Thr::Approve,
		VoteThreshold::SuperMajorityAgainst => Thr::Against,
		VoteThreshold::SimpleMajority => Thr::Simple,
	}
}
pub fn to_thr(t: Thr) -> VoteThreshold {
	match t {
		Thr::Approve => VoteThreshold::SuperMajorityApprove,
		Thr::Against => VoteThreshold::SuperMajorityAgainst,
		Thr::Simple => VoteThreshold::SimpleMajority,
	}
}
fn owner(o: Own) -> MetadataOwner {
	match o {
		Own::External => MetadataOwner::External,
		Own::Proposal(p) => MetadataOwner::Proposal(p),
		Own::Referendum(r) => MetadataOwner::Referendum(r),
	}
}
fn mowner(o: &MetadataOwner) -> Own {
	match o {
		MetadataOwner::External => Own::External,
		MetadataOwner::Proposal(p) => Own::Proposal(*p),
		MetadataOwner::Referendum(p) => Own::Referendum(*p),
	}
}

/// Users of the calls that anybody signed may make; two of them are no users at all.
fn user(who: u64) -> O {
	match who {
		AS_ROOT => O::Root,
		UNSIGNED => O::None,
		w => O::Signed(w),
	}
}
fn to_call(op: &Op) -> (O, RuntimeCall) {
	let c = calls();
	let (o, call) = match *op {
		Op::Next | Op::Jump { .. } => unreachable!(),
		Op::Propose { who, call, value } =>
			(who, pd::Call::propose { proposal: c.bound[call as usize].clone(), value }),
		Op::Second { who, prop } => (user(who), pd::Call::second { proposal: prop }),
		Op::Vote { who, r, v } => (user(who), pd::Call::vote { ref_index: r, vote: avote(v) }),
		Op::RemoveVote { who, r } => (user(who), pd::Call::remove_vote { index: r }),
		Op::RemoveOther { who, target, r } => (user(who), pd::Call::remove_other_vote { target, index: r }),
		Op::Delegate { who, to, conv: k, bal } =>
			(user(who), pd::Call::delegate { to, conviction: conv(k), balance: bal }),
		Op::Undelegate { who } => (user(who), pd::Call::undelegate {}),
		Op::Unlock { who, target } => (user(who), pd::Call::unlock { target }),
		Op::ExtPropose { thr, by, call } => {
			let proposal = c.bound[call as usize].clone();
			(
				by,
				match thr {
					Thr::Approve => pd::Call::external_propose { proposal },
					Thr::Simple => pd::Call::external_propose_majority { proposal },
					Thr::Against => pd::Call::external_propose_default { proposal },
				},
			)
		},
		Op::FastTrack { by, call, period, delay } =>
			(by, pd::Call::fast_track { proposal_hash: c.hash[call as usize], voting_period: period, delay }),
		Op::Veto { by, call } => (by, pd::Call::veto_external { proposal_hash: c.hash[call as usize] }),
		Op::EmergencyCancel { by, r } => (by, pd::Call::emergency_cancel { ref_index: r }),
		Op::CancelRef { by, r } => (by, pd::Call::cancel_referendum { ref_index: r }),
		Op::ClearPublic { by } => (by, pd::Call::clear_public_proposals {}),
		Op::Blacklist { by, call, r } =>
			(by, pd::Call::blacklist { proposal_hash: c.hash[call as usize], maybe_ref_index: r }),
		Op::CancelProposal { by, prop } => (by, pd::Call::cancel_proposal { prop_index: prop }),
		Op::SetMeta { by, owner: w, set } =>
			(by, pd::Call::set_metadata { owner: owner(w), maybe_hash: set.map(|s| c.meta[s as usize]) }),
	};
	(o, RuntimeCall::Democracy(call))
}

fn name(op: &Op) -> &'static str {
	match op {
		Op::Next => "next_block",
		Op::Jump { .. } => "later_block",
		Op::Propose { .. } => "propose",
		Op::Second { .. } => "second",
		Op::Vote { .. } => "vote",
		Op::RemoveVote { .. } => "remove_vote",
		Op::RemoveOther { .. } => "remove_other_vote",
		Op::Delegate { .. } => "delegate",
		Op::Undelegate { .. } => "undelegate",
		Op::Unlock { .. } => "unlock",
		Op::ExtPropose { .. } => "external_propose",
		Op::FastTrack { .. } => "fast_track",
		Op::Veto { .. } => "veto_external",
		Op::EmergencyCancel { .. } => "emergency_cancel",
		Op::CancelRef { .. } => "cancel_referendum",
		Op::ClearPublic { .. } => "clear_public_proposals",
		Op::Blacklist { .. } => "blacklist",
		Op::CancelProposal { .. } => "cancel_proposal",
		Op::SetMeta { .. } => "set_metadata",
	}
}
/// Which properties speak about a call being accepted or refused.
fn about(op: &Op) -> &'static [&'static str] {
	if op.unsigned() {
		return &["D11"];
	}
	match op {
		Op::Next | Op::Jump { .. } => &[],
		Op::Propose { .. } => &["D05", "D06", "D10", "D11", "D13"],
		Op::Second { .. } => &["D05", "D13"],
		Op::Vote { .. } => &["D01", "D02", "D03", "D07", "D13"],
		Op::RemoveVote { .. } => &["D01", "D03", "D04"],
		Op::RemoveOther { .. } => &["D03", "D04"],
		Op::Delegate { .. } => &["D01", "D02", "D03"],
		Op::Undelegate { .. } => &["D01", "D02", "D04"],
		Op::Unlock { .. } => &["D04"],
		Op::ExtPropose { .. } => &["D06", "D10", "D11"],
		Op::FastTrack { .. } => &["D06", "D11"],
		Op::Veto { .. } => &["D10", "D11", "D13"],
		Op::EmergencyCancel { .. } => &["D08", "D10", "D11"],
		Op::CancelRef { .. } => &["D08", "D11"],
		Op::ClearPublic { .. } => &["D11"],
		Op::Blacklist { .. } => &["D05", "D10", "D11"],
		Op::CancelProposal { .. } => &["D05", "D11"],
		Op::SetMeta { .. } => &["D12"],
	}
}

/// The operations a scenario offers.
#[derive(Clone, Default)]
pub struct Cfg {
	pub balances: Vec<(u64, u64)>,
	pub votes: Vec<(u64, V)>,
	pub delegate: Vec<(u64, u64, u8, u64)>,
	pub undelegate: Vec<u64>,
	pub unlock: Vec<(u64, u64)>,
	pub remove: Vec<u64>,
	pub remove_other: Vec<(u64, u64)>,
	pub propose: Vec<(O, u8, u64)>,
	pub second: Vec<u64>,
	pub ext: Vec<(Thr, O, u8)>,
	pub fast: Vec<(O, u8, u64, u64)>,
	pub veto: Vec<(O, u8)>,
	pub emergency: Vec<O>,
	pub cancel_ref: Vec<O>,
	pub clear: Vec<O>,
	pub black: Vec<(O, u8, bool)>,
	pub cancel_prop: Vec<O>,
	pub meta: Vec<(O, u8, Option<u8>)>,
	pub max_now: u64,
	/// also try the first index that does not exist
	pub bogus: bool,
	/// highest number of referenda a vote alphabet applies to
	pub max_refs: u32,
	/// where the history begins: block, number of past referenda and of past public proposals
	pub first: (u64, u32, u32),
	/// the only referenda and proposals of interest, if not all
	pub only: Vec<u32>,
	/// time jumps to the block where funds come free, and the one before it
	pub jump: bool,
}

pub struct Sys {
	pub cfg: Cfg,
}

impl Harness for Sys {
	type Op = Op;
	type Model = M;

	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
		pallet_balances::GenesisConfig::<Test> { balances: self.cfg.balances.clone() }
			.assimilate_storage(&mut t)
			.unwrap();
		pd::GenesisConfig::<Test>::default().assimilate_storage(&mut t).unwrap();
		t.top.into_iter().collect()
	}

	fn ignore(&self) -> Ignore {
		let sys = sp_io::hashing::twox_128(b"System").to_vec();
		let acc = [sys.clone(), sp_io::hashing::twox_128(b"Account").to_vec()].concat();
		let num = [sys.clone(), sp_io::hashing::twox_128(b"Number").to_vec()].concat();
		Ignore { prefixes: vec![sys], keep: vec![acc, num] }
	}

	fn init(&self) -> M {
		use parity_scale_codec::Encode;
		let (past_blocks, past_refs, past_props) = self.cfg.first;
		System::set_block_number(past_blocks + 1);
		pd::ReferendumCount::<Test>::put(past_refs);
		pd::LowestUnbaked::<Test>::put(past_refs);
		pd::PublicPropCount::<Test>::put(past_props);
		// preimages of the large proposal and of one metadata document
		<Preimage as StorePreimage>::note(the_call(3).encode().into()).unwrap();
		<Preimage as StorePreimage>::note(vec![1u8; 40].into()).unwrap();
		M {
			now: past_blocks + 1,
			acc: self.cfg.balances.iter().map(|(a, b)| (*a, Acc { free: *b, ..Default::default() })).collect(),
			props: vec![],
			deposits: BTreeMap::new(),
			prop_count: past_props,
			refs: BTreeMap::new(),
			ref_count: past_refs,
			external: None,
			last_external: false,
			blacklist: BTreeMap::new(),
			cancelled: vec![],
			meta: BTreeMap::new(),
			agenda: vec![],
			hits: vec![],
			issuance: self.cfg.balances.iter().map(|x| x.1).sum(),
		}
	}

	fn ops(&self, m: &M) -> Vec<Op> {
		let c = &self.cfg;
		let mut o = vec![];
		if m.now < c.first.0 + c.max_now {
			o.push(Op::Next);
		}
		if c.jump && m.quiet() {
			let mut to: Vec<u64> = m.expiries().into_iter().flat_map(|t| [t - 1, t]).filter(|t| *t > m.now).collect();
			to.dedup();
			o.extend(to.into_iter().map(|to| Op::Jump { to }));
		}
		let wanted = |i: &u32| c.only.is_empty() || c.only.contains(i);
		let refs: Vec<u32> =
			(c.first.1..(m.ref_count + c.bogus as u32).min(c.first.1 + c.max_refs)).filter(wanted).collect();
		let props: Vec<u32> = (c.first.2..m.prop_count + c.bogus as u32).filter(wanted).collect();
		for &(who, call, value) in &c.propose {
			o.push(Op::Propose { who, call, value });
		}
		for &who in &c.second {
			for &prop in &props {
				o.push(Op::Second { who, prop });
			}
		}
		for &r in &refs {
			for &(who, v) in &c.votes {
				o.push(Op::Vote { who, r, v });
			}
			for &who in &c.remove {
				o.push(Op::RemoveVote { who, r });
			}
			for &(who, target) in &c.remove_other {
				o.push(Op::RemoveOther { who, target, r });
			}
			for &by in &c.emergency {
				o.push(Op::EmergencyCancel { by, r });
			}
			for &by in &c.cancel_ref {
				o.push(Op::CancelRef { by, r });
			}
		}
		for &(who, to, conv, bal) in &c.delegate {
			o.push(Op::Delegate { who, to, conv, bal });
		}
		for &who in &c.undelegate {
			o.push(Op::Undelegate { who });
		}
		for &(who, target) in &c.unlock {
			o.push(Op::Unlock { who, target });
		}
		for &(thr, by, call) in &c.ext {
			o.push(Op::ExtPropose { thr, by, call });
		}
		for &(by, call, period, delay) in &c.fast {
			o.push(Op::FastTrack { by, call, period, delay });
		}
		for &(by, call) in &c.veto {
			o.push(Op::Veto { by, call });
		}
		for &by in &c.clear {
			o.push(Op::ClearPublic { by });
		}
		for &(by, call, with_ref) in &c.black {
			o.push(Op::Blacklist { by, call, r: None });
			if with_ref {
				for &r in &refs {
					o.push(Op::Blacklist { by, call, r: Some(r) });
				}
			}
		}
		for &by in &c.cancel_prop {
			for &prop in &props {
				o.push(Op::CancelProposal { by, prop });
			}
		}
		for &(by, kind, set) in &c.meta {
			match kind {
				0 => o.push(Op::SetMeta { by, owner: Own::External, set }),
				1 => o.extend(props.iter().map(|p| Op::SetMeta { by, owner: Own::Proposal(*p), set })),
				_ => o.extend(
					// the owner of a referendum's metadata is an existing referendum
					refs.iter()
						.filter(|r| set.is_none() || by != O::Root || m.refs.contains_key(r))
						.map(|r| Op::SetMeta { by, owner: Own::Referendum(*r), set }),
				),
			}
		}
		o
	}

	fn step(&self, m: &mut M, op: &Op, cx: &mut Cx) {
		System::reset_events();
		let kind = name(op);
		if let Op::Jump { to } = op {
			System::set_block_number(to - 1);
			m.now = to - 1;
		}
		if matches!(op, Op::Next | Op::Jump { .. }) {
			let before: Vec<u32> = pd::PublicProps::<Test>::get().iter().map(|p| p.0).collect();
			let n = System::block_number() + 1;
			System::set_block_number(n);
			<AllPalletsWithSystem as OnInitialize<u64>>::on_initialize(n);
			let after: Vec<u32> = pd::PublicProps::<Test>::get().iter().map(|p| p.0).collect();
			let gone: Vec<u32> = before.iter().copied().filter(|p| !after.contains(p)).collect();
			if gone.len() > 1 {
				cx.check(&["D06"], false, || format!("one launch removed public proposals {gone:?}"));
			}
			let hits0 = m.hits.len();
			let fin0 = m.refs.values().filter(|r| r.approved.is_some()).count();
			let yes0 = m.refs.values().filter(|r| r.approved == Some(true)).count();
			let refs0 = m.ref_count;
			let r = m.next(gone.first().copied());
			if m.hits.len() > hits0 {
				cx.outcome(kind, "enacts");
			}
			if m.refs.values().filter(|r| r.approved.is_some()).count() > fin0 {
				let yes = m.refs.values().filter(|r| r.approved == Some(true)).count() > yes0;
				cx.outcome(kind, if yes { "approves" } else { "rejects" });
			}
			if m.ref_count > refs0 {
				cx.outcome(kind, "tables");
			}
			cx.outcome(kind, "ok");
			if let Err(e) = r {
				cx.check(&["D06"], false, || e);
				cx.prune = true;
				return;
			}
		} else {
			let frozen0: Vec<(u64, u64)> = m.acc.keys().map(|a| (*a, frozen(*a))).collect();
			let (o, call) = to_call(op);
			let res = call.dispatch(origin(o));
			let want = m.apply(op);
			let got = res.is_ok();
			cx.outcome(kind, if got { "ok" } else { "refused" });
			if got != want {
				cx.check(about(op), false, || {
					format!(
						"{kind} must be {} but was {}",
						if want { "accepted" } else { "refused" },
						match res {
							Ok(_) => "accepted".into(),
							Err(e) => format!("refused with {:?}", e.error),
						}
					)
				});
				cx.prune = true;
				return;
			}
			if matches!(op, Op::Unlock { .. }) {
				for (a, f0) in frozen0 {
					cx.check(&["D03", "D04"], frozen(a) <= f0, || {
						format!("unlock raised what account {a} has frozen from {f0} to {}", frozen(a))
					});
				}
			}
		}
		self.compare(m, cx);
	}
}

fn frozen(a: u64) -> u64 {
	Balances::balance_frozen(&pd::FreezeReason::Vote.into(), &a)
}
fn held(a: u64) -> u64 {
	Balances::balance_on_hold(&pd::HoldReason::Proposal.into(), &a)
}

impl Sys {
	fn compare(&self, m: &mut M, cx: &mut Cx) {
		if cx.on(&["D01", "D06", "D07", "D10"]) {
			let mut seen = vec![];
			for (i, info) in pd::ReferendumInfoOf::<Test>::iter() {
				seen.push(i);
				let Some(r) = m.refs.get(&i) else {
					cx.check(&["D06", "D07", "D10"], false, || format!("referendum {i} exists but must not: {info:?}"));
					continue;
				};
				match (&info, r.approved) {
					(ReferendumInfo::Ongoing(s), None) => {
						let want = m.tally(i);
						let got = (s.tally.ayes, s.tally.nays, s.tally.turnout);
						cx.check(&["D01"], got == want, || {
							format!("referendum {i}: (ayes, nays, turnout) is {got:?}, the votes in force give {want:?}")
						});
						let got = (s.end, call_id(&s.proposal.hash()), thr(s.threshold), s.delay);
						let want = (r.end, r.call, r.thr, r.delay);
						cx.check(&["D06", "D07"], got == want, || {
							format!("referendum {i}: (end, proposal, threshold, delay) is {got:?}, must be {want:?}")
						});
					},
					(ReferendumInfo::Finished { end, approved }, Some(a)) => {
						cx.check(&["D07"], *end == r.end && *approved == a, || {
							format!("referendum {i} finished at {end}, approved={approved}; must be at {}, approved={a}", r.end)
						});
					},
					(ReferendumInfo::Ongoing(_), Some(a)) => cx.check(&["D07"], false, || {
						format!("block {}: referendum {i} is still open, must have ended at {} approved={a}", m.now, r.end)
					}),
					(ReferendumInfo::Finished { end, approved }, None) => cx.check(&["D07"], false, || {
						format!("referendum {i} finished at {end} approved={approved}; must be open until {}", r.end)
					}),
				}
			}
			for i in m.refs.keys() {
				cx.check(&["D06", "D07", "D10"], seen.contains(i), || format!("referendum {i} must exist but does not"));
			}
			let n = pd::ReferendumCount::<Test>::get();
			cx.check(&["D06"], n == m.ref_count, || format!("{n} referenda were started, must be {}", m.ref_count));
		}
		if cx.on(&["D02", "D04"]) {
			let accs: Vec<u64> = m.acc.keys().copied().collect();
			for a in accs {
				let (got_recv, got_voting) = match pd::VotingOf::<Test>::get(a) {
					Voting::Direct { votes, delegations, .. } => (
						(delegations.votes, delegations.capital),
						MV::Direct(votes.iter().map(|(r, v)| (*r, mvote(v))).collect()),
					),
					Voting::Delegating { balance, target, conviction, delegations, .. } => (
						(delegations.votes, delegations.capital),
						MV::Deleg { to: target, conv: u8::from(conviction), bal: balance },
					),
				};
				let want = m.received(a);
				cx.check(&["D02"], got_recv == want, || {
					format!("account {a} is recorded with delegated (votes, capital) {got_recv:?}, its delegators give {want:?}")
				});
				let want = &m.acc[&a].voting;
				cx.check(&["D02", "D04"], got_voting == *want, || {
					format!("account {a} is recorded as {got_voting:?}, must be {want:?}")
				});
			}
		}
		// locks: between what is owed and what the documented aggregation allows
		let accs: Vec<u64> = m.acc.keys().copied().collect();
		for a in accs {
			let f = frozen(a);
			let upper = m.acc[&a].frozen;
			let lower = m.must_be_frozen(a);
			cx.check(&["D03"], f >= lower, || {
				format!("block {}: account {a} has {f} frozen, its votes and delegations still bind {lower}", m.now)
			});
			cx.check(&["D04"], f <= upper, || {
				format!("block {}: account {a} has {f} frozen, the rules allow at most {upper}", m.now)
			});
			m.a(a).frozen = f;
		}
		if cx.on(&["D05", "D13"]) {
			let got: BTreeMap<u32, (Vec<u64>, u64)> =
				pd::DepositOf::<Test>::iter().map(|(p, (w, d))| (p, (w.to_vec(), d))).collect();
			cx.check(&["D05"], got == m.deposits, || {
				format!("recorded deposits {got:?}, must be {:?}", m.deposits)
			});
			for d in got.values() {
				cx.check(&["D13"], d.0.len() as u32 <= <MaxDeposits as frame_support::traits::Get<u32>>::get(), || {
					format!("a proposal has {} deposits", d.0.len())
				});
			}
			for (a, x) in &m.acc {
				cx.check(&["D05"], held(*a) == x.held, || {
					format!("account {a} has {} held for proposals, must be {}", held(*a), x.held)
				});
				let free = Balances::free_balance(a);
				cx.check(&["D05"], free == x.free, || format!("account {a} has {free} free, must be {}", x.free));
			}
			let ti = Balances::total_issuance();
			cx.check(&["D05"], ti == m.issuance, || format!("total issuance {ti}, must be {}", m.issuance));
		}
		if cx.on(&["D05", "D06", "D10", "D11", "D13"]) {
			let mut got: Vec<(u32, u8, u64)> =
				pd::PublicProps::<Test>::get().iter().map(|p| (p.0, call_id(&p.1.hash()), p.2)).collect();
			got.sort();
			m.props.sort();
			cx.check(&["D05", "D06", "D10", "D11"], got == m.props, || {
				format!("queued public proposals {got:?}, must be {:?}", m.props)
			});
			cx.check(&["D13"], got.len() as u32 <= <MaxProposals as frame_support::traits::Get<u32>>::get(), || {
				format!("{} public proposals are queued", got.len())
			});
			let e = pd::NextExternal::<Test>::get().map(|(p, t)| (call_id(&p.hash()), thr(t)));
			cx.check(&["D06", "D10", "D11"], e == m.external, || {
				format!("next external proposal is {e:?}, must be {:?}", m.external)
			});
		}
		if cx.on(&["D10", "D13"]) {
			let got: BTreeMap<u8, (u64, Vec<u64>)> =
				pd::Blacklist::<Test>::iter().map(|(h, (u, w))| (call_id(&h), (u, w.to_vec()))).collect();
			cx.check(&["D10"], got == m.blacklist, || format!("block list {got:?}, must be {:?}", m.blacklist));
			for v in got.values() {
				cx.check(&["D13"], v.1.len() as u32 <= <MaxBlacklisted as frame_support::traits::Get<u32>>::get(), || {
					format!("{} vetoers recorded for one proposal", v.1.len())
				});
			}
			let mut c: Vec<u8> =
				pd::Cancellations::<Test>::iter().filter(|x| x.1).map(|(h, _)| call_id(&h)).collect();
			c.sort();
			cx.check(&["D10"], c == m.cancelled, || format!("emergency-cancelled {c:?}, must be {:?}", m.cancelled));
		}
		if cx.on(&["D13"]) {
			for (a, v) in pd::VotingOf::<Test>::iter() {
				if let Voting::Direct { votes, .. } = v {
					cx.check(&["D13"], votes.len() as u32 <= <MaxVotes as frame_support::traits::Get<u32>>::get(), || {
						format!("account {a} has {} votes", votes.len())
					});
				}
			}
		}
		if cx.on(&["D08"]) {
			let mut got = probe::Hits::<Test>::get().to_vec();
			got.sort();
			cx.check(&["D08"], got == m.hits, || {
				format!("block {}: enacted (proposal, block) {got:?}, must be {:?}", m.now, m.hits)
			});
		}
		if cx.on(&["D12"]) {
			let got: BTreeMap<Own, u8> =
				pd::MetadataOf::<Test>::iter().map(|(o, h)| (mowner(&o), meta_id(&h))).collect();
			cx.check(&["D12"], got == m.meta, || format!("metadata {got:?}, must be {:?}", m.meta));
		}
	}
}
