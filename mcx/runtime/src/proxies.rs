//! What a proxy of each type can do.
use crate::{sys::*, *};
use engine::{Cx, Harness, Run, Scenario};
use frame_support::traits::{fungible::Inspect as _, fungibles::Inspect as _, InstanceFilter};
use shared_configuration::proxy::Type;
use sp_runtime::{DispatchError, DispatchResult};
use Type::*;

pub const TYPES: [Type; 5] = [Any, NonTransfer, Governance, Staking, IdentityJudgement];

/// The calls that a proxy may make, by type: what the property says.
pub fn allows(t: Type, call: (&str, &str)) -> bool {
	let governance = ["Treasury", "Democracy", "Council", "TechnicalCommittee", "Elections", "Preimage", "Scheduler"];
	let others = [
		"System", "ParachainSystem", "Timestamp", "Utility", "Multisig", "Proxy", "ParachainStaking", "Oracle",
		"OracleProvidersMembership",
	];
	match t {
		Any => true,
		NonTransfer =>
			governance.contains(&call.0) ||
				others.contains(&call.0) ||
				call == ("Vesting", "vest") ||
				call == ("Vesting", "vest_other"),
		Governance => governance.contains(&call.0),
		Staking => call.0 == "ParachainStaking",
		IdentityJudgement => call == ("Identity", "provide_judgement"),
	}
}
/// Everything that a proxy of type `y` may do, one of type `x` may.
pub fn covers(x: Type, y: Type) -> bool {
	x == y || x == Any || (x == NonTransfer && (y == Governance || y == Staking))
}
/// ... with the rule for calls on proxies themselves
pub fn permits(t: Type, c: &RuntimeCall) -> bool {
	match c {
		RuntimeCall::Proxy(stubs::pallet_proxy::Call::add_proxy { proxy_type, .. }) |
		RuntimeCall::Proxy(stubs::pallet_proxy::Call::remove_proxy { proxy_type, .. }) =>
			allows(t, names(c)) && covers(t, *proxy_type),
		RuntimeCall::Proxy(stubs::pallet_proxy::Call::remove_proxies { .. }) |
		RuntimeCall::Proxy(stubs::pallet_proxy::Call::kill_pure { .. }) => t == Any,
		_ => allows(t, names(c)),
	}
}

pub const REAL: u8 = 1;
/// the proxies that the account has at first
pub const FIRST: [(u8, Type); 6] =
	[(2, Any), (3, NonTransfer), (4, Governance), (5, Staking), (6, IdentityJudgement), (6, Governance)];
/// accounts without any right at first
pub const NEW: [u8; 2] = [7, 8];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Leaf {
	Transfer,
	TransferDot,
	Remark,
	Vest,
	VestedTransfer,
	Release,
	Join,
	More,
	Propose,
	Elect,
	Note,
	Judge,
	Identity,
	Feed,
	Send,
	Add(u8, Type),
	Remove(u8, Type),
	RemoveAll,
	Kill,
}
use Leaf::*;
impl Leaf {
	pub fn call(&self) -> RuntimeCall {
		use sp_runtime::MultiAddress::Id;
		use stubs::{pallet_identity::Call as I, pallet_proxy::Call as P};
		match *self {
			Transfer =>
				pallet_balances::Call::transfer_allow_death { dest: Id(acc(99)), value: 10 * PLMC }.into(),
			TransferDot => RuntimeCall::ForeignAssets(pallet_assets::Call::transfer {
				id: 10u32.into(),
				target: acc(99),
				amount: 5_000_000_000,
			}),
			Remark => frame_system::Call::remark { remark: vec![1] }.into(),
			Vest => pallet_vesting::Call::vest {}.into(),
			VestedTransfer => pallet_vesting::Call::vested_transfer {
				target: Id(acc(99)),
				schedule: pallet_vesting::VestingInfo::new(5 * PLMC, PLMC, 1),
			}
			.into(),
			Release => pallet_linear_release::Call::vest_all {}.into(),
			Join => pallet_parachain_staking::Call::join_candidates {
				bond: shared_configuration::staking::MinCandidateStk::get(),
				candidate_count: 10,
			}
			.into(),
			More => pallet_parachain_staking::Call::candidate_bond_more { more: 3 * PLMC }.into(),
			Propose => pallet_democracy::Call::propose {
				proposal: frame_support::traits::Bounded::Inline(RuntimeCall::from(frame_system::Call::remark { remark: vec![] }).encode().try_into().unwrap()),
				value: shared_configuration::governance::MinimumDeposit::get(),
			}
			.into(),
			Elect => pallet_elections_phragmen::Call::submit_candidacy { candidate_count: 100 }.into(),
			Note => pallet_preimage::Call::note_preimage { bytes: vec![3] }.into(),
			Judge => I::provide_judgement { reg_index: 0, target: acc(99), judgement: 1, identity: Default::default() }.into(),
			Identity => I::set_identity { info: 1 }.into(),
			Feed => orml_oracle::Call::feed_values {
				values: vec![(10, <Price as FixedPointNumber>::saturating_from_integer(4))].try_into().unwrap(),
			}
			.into(),
			Send => pallet_xcm::Call::transfer_assets { dest: xcm::v4::Location::parent() }.into(),
			Add(d, t) => P::add_proxy { delegate: acc(d), proxy_type: t, delay: 0 }.into(),
			Remove(d, t) => P::remove_proxy { delegate: acc(d), proxy_type: t, delay: 0 }.into(),
			RemoveAll => P::remove_proxies {}.into(),
			Kill => P::kill_pure {}.into(),
		}
	}
}
/// what a proxy has the account do
#[derive(Clone, Debug)]
pub enum What {
	One(Leaf),
	Batch(Vec<Leaf>),
	/// a batch in a batch
	Deep(Leaf, Leaf),
}
impl What {
	fn call(&self) -> RuntimeCall {
		use stubs::pallet_utility::Call::batch;
		match self {
			What::One(l) => l.call(),
			What::Batch(v) => batch { calls: v.iter().map(|l| l.call()).collect() }.into(),
			What::Deep(a, b) =>
				batch { calls: vec![a.call(), batch { calls: vec![b.call()] }.into()] }.into(),
		}
	}
	/// What is to come of it for a proxy of this type: done one by one, directly, until one is not permitted or
	/// fails.
	fn expected(&self, t: Type) -> DispatchResult {
		let filtered: DispatchError = frame_system::Error::<Runtime>::CallFiltered.into();
		let one = |l: &Leaf| match permits(t, &l.call()) {
			true => dispatch(l.call(), signed(REAL)),
			false => Err(filtered),
		};
		match self {
			What::One(l) => one(l),
			_ if !allows(t, ("Utility", "batch")) => Err(filtered),
			What::Batch(v) => {
				for l in v {
					if one(l).is_err() {
						break;
					}
				}
				Ok(())
			},
			What::Deep(a, b) => {
				let _ = one(a).and_then(|_| one(b));
				Ok(())
			},
		}
	}
}
#[derive(Clone, Debug)]
pub enum Op {
	/// a proxy acts, optionally in a given capacity
	Proxied(u8, Option<Type>, What),
	/// the account itself
	Own(Leaf),
}
pub struct Sys {
	pub leaves: Vec<Leaf>,
	pub pairs: Vec<Leaf>,
	pub who: Vec<u8>,
	pub own: Vec<Leaf>,
}
fn rights() -> Vec<(Acc, Type)> {
	stubs::pallet_proxy::Proxies::<Runtime>::get(acc(REAL))
}
fn worth() -> (Balance, Vec<Balance>) {
	(Balances::total_balance(&acc(REAL)), ASSETS.iter().map(|a| ForeignAssets::balance(a.0, &acc(REAL))).collect())
}
impl Harness for Sys {
	type Model = ();
	type Op = Op;

	fn genesis(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
		genesis(
			(1..=9).map(|n| (acc(n), FUNDS)).collect(),
			vec![(10, acc(REAL), 100_000_000_000), (1984, acc(REAL), 100_000_000)],
		)
	}
	fn ignore(&self) -> engine::Ignore {
		ignore()
	}
	fn init(&self) {
		System::set_block_number(1);
		for (d, t) in FIRST {
			dispatch(Leaf::Add(d, t).call(), signed(REAL)).unwrap();
		}
		let vesting = pallet_vesting::VestingInfo::new(50 * PLMC, PLMC, 0);
		dispatch(
			pallet_vesting::Call::vested_transfer { target: sp_runtime::MultiAddress::Id(acc(REAL)), schedule: vesting }
				.into(),
			signed(9),
		)
		.unwrap();
		dispatch(
			pallet_linear_release::Call::vested_transfer {
				target: acc(REAL),
				schedule: pallet_linear_release::VestingInfo::new(50 * PLMC, 25 * PLMC, 0),
				reason: participation(),
			}
			.into(),
			signed(9),
		)
		.unwrap();
		stubs::pallet_membership::Pallet::<Runtime, stubs::pallet_membership::Instance1>::add_member(root(), acc(REAL))
			.unwrap();
	}
	fn ops(&self, _: &()) -> Vec<Op> {
		let mut out: Vec<Op> = self.own.iter().map(|l| Op::Own(*l)).collect();
		let all = rights();
		for who in &self.who {
			let has: Vec<Type> = all.iter().filter(|r| r.0 == acc(*who)).map(|r| r.1).collect();
			let mut as_what = vec![None];
			as_what.extend(TYPES.iter().filter(|t| has.len() > 1 || !has.contains(t)).map(|t| Some(*t)));
			for force in as_what {
				let idle = force.map_or(has.is_empty(), |t| !has.contains(&t));
				let all = self.leaves.len();
				for l in self.leaves.iter().take(if idle { 2 } else { all }) {
					out.push(Op::Proxied(*who, force, What::One(*l)));
				}
				if !idle && has.iter().any(|t| allows(*t, ("Utility", "batch"))) {
					for a in &self.pairs {
						for b in &self.pairs {
							out.push(Op::Proxied(*who, force, What::Batch(vec![*a, *b])));
							out.push(Op::Proxied(*who, force, What::Deep(*a, *b)));
						}
					}
				} else if !idle {
					out.push(Op::Proxied(*who, force, What::Batch(vec![self.pairs[0]])));
				}
			}
		}
		out
	}
	fn step(&self, _: &mut (), op: &Op, cx: &mut Cx) {
		match op {
			Op::Own(l) => {
				let r = dispatch(l.call(), signed(REAL));
				cx.outcome("own", result(r));
			},
			Op::Proxied(who, force, what) => {
				let def = rights().into_iter().find(|r| r.0 == acc(*who) && force.map_or(true, |t| t == r.1));
				let before = (fingerprint(), worth());
				let expected = def.as_ref().map(|d| undone(|| (what.expected(d.1), fingerprint())));
				let call = stubs::pallet_proxy::Call::proxy {
					real: acc(REAL),
					force_proxy_type: *force,
					call: Box::new(what.call()),
				};
				let r = dispatch(call.into(), signed(*who));
				let got = fingerprint();
				match expected {
					None => {
						cx.outcome("no proxy", result(r));
						cx.check(&["T01"], r.is_err() && got == before.0, || {
							format!("account {who} is no such proxy, and {what:?} comes to {r:?}")
						});
					},
					Some((want, state)) => {
						let inner = stubs::INNER.with(|i| i.borrow().last().copied());
						cx.outcome("proxied", result(want));
						let t = def.unwrap().1;
						cx.check(&["T01"], r.is_ok() && inner == Some(want), || {
							format!("{what:?} by a {t:?} proxy comes to {r:?}, {inner:?}; what it may do comes to {want:?}")
						});
						cx.check(&["T01"], got == state, || {
							format!("{what:?} by a {t:?} proxy does not do what its permitted calls do")
						});
						let now = worth();
						let less = now.0 < before.1 .0 || now.1.iter().zip(&before.1 .1).any(|(a, b)| a < b);
						cx.check(&["T01"], t == Any || !less, || {
							format!("a {t:?} proxy takes from the account: {:?} becomes {now:?}", before.1)
						});
					},
				}
			},
		}
	}
}

pub fn t01(run: &mut Run) {
	explore(run, vec![(acc(1), FUNDS), (acc(2), FUNDS)], vec![], || {
		let calls = every_call();
		let mut t = Tally::new("every-call-by-every-type", "calls that the type of proxy does not permit");
		for n in all_names() {
			t.case(false, calls.iter().any(|c| (c.0, c.1) == n), || format!("no example of {}.{}", n.0, n.1));
		}
		for (pallet, name, c) in &calls {
			for p in TYPES {
				let want = allows(p, (*pallet, *name));
				t.case(!want, p.filter(c) == want, || {
					format!("{pallet}.{name} by {p:?}: the filter says {}, to be {want}", p.filter(c))
				});
			}
		}
		let mut s = Tally::new("every-type-appoints-every-type", "pairs where the first does not cover the second");
		for x in TYPES {
			for y in TYPES {
				let want = covers(x, y);
				s.case(!want, x.is_superset(&y) == want, || {
					format!("{x:?} covers {y:?}: {}, to be {want}", x.is_superset(&y))
				});
				let subset = calls.iter().find(|c| y.filter(&c.2) && !x.filter(&c.2));
				s.case(true, !x.is_superset(&y) || subset.is_none(), || {
					let c = subset.map_or(("-", "-"), |c| (c.0, c.1));
					format!("a {x:?} proxy can appoint a {y:?} proxy, which may call {}.{} that it may not call itself", c.0, c.1)
				});
			}
		}
		let mut e = Tally::new("every-call-through-a-proxy", "calls refused by the filter of the origin");
		for p in TYPES {
			undone(|| {
				dispatch(Add(2, p).call(), signed(1)).unwrap();
				for (pallet, name, c) in &calls {
					let r = undone(|| {
						let call = stubs::pallet_proxy::Call::proxy {
							real: acc(1),
							force_proxy_type: None,
							call: Box::new(c.clone()),
						};
						dispatch(call.into(), signed(2)).ok().and_then(|_| stubs::INNER.with(|i| i.borrow().first().copied()))
					});
					let filtered = r == Some(Err(frame_system::Error::<Runtime>::CallFiltered.into()));
					let want = permits(p, c) && crate::gates::open((*pallet, *name));
					// the inner proxy call reports for itself
					e.case(!want, filtered == !want, || format!("{pallet}.{name} through a {p:?} proxy: {r:?}"));
				}
			})
		}
		vec![t, s, e]
	});
	let mut leaves = vec![
		Transfer, TransferDot, Remark, Vest, VestedTransfer, Release, Join, More, Propose, Elect, Note, Judge, Identity,
		Feed, Send, RemoveAll, Kill,
	];
	let effects = leaves.clone();
	for t in TYPES {
		leaves.push(Add(7, t));
		leaves.push(Remove(7, t));
	}
	leaves.push(Remove(2, Any));
	leaves.push(Remove(5, Staking));
	let pairs = vec![Transfer, Remark, Join, Add(7, Any), Add(7, Governance), Vest, RemoveAll, Judge];
	let d = |q, t| if run.thorough { t } else { q };
	let (d1, d2) = (d(2, 3), d(3, 4));
	run.scenario(Scenario {
		name: "everything".into(),
		sys: Sys { leaves, pairs, who: vec![2, 3, 4, 5, 6, 7], own: vec![] },
		prefix: vec![],
		depth: d1,
	});
	// who can come to appoint whom
	let mut leaves: Vec<Leaf> = TYPES.iter().flat_map(|t| [Add(7, *t), Add(8, *t), Remove(7, *t)]).collect();
	leaves.extend([Transfer, Judge, RemoveAll]);
	run.scenario(Scenario {
		name: "appointments".into(),
		sys: Sys { leaves, pairs: vec![Add(7, NonTransfer), Add(8, Any)], who: vec![3, 4, 5, 6, 7, 8], own: vec![RemoveAll] },
		prefix: vec![],
		depth: d2,
	});
	let _ = effects;
	run.assume("a proxied account is no proxy of another account itself, and owns no multisig account with funds");
}
