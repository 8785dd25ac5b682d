//! Which calls are open, and who may make them.
use crate::{sys::*, *};
use engine::Run;
use frame_support::traits::{Contains, EnsureOrigin, PrivilegeCmp};
use sp_runtime::{DispatchError, DispatchResult};
use std::cmp::Ordering;
use stubs::pallet_collective::RawOrigin as Col;

/// The calls of the funding pallet that are released.
pub const RELEASED: [&str; 18] = [
	"create_project", "remove_project", "edit_project", "start_evaluation", "evaluate", "end_evaluation", "bid",
	"end_auction", "contribute", "end_funding", "start_settlement", "settle_evaluation", "settle_bid",
	"settle_contribution", "mark_project_as_settled", "start_offchain_migration", "confirm_offchain_migration",
	"mark_project_ct_migration_as_finished",
];
pub fn open(call: (&str, &str)) -> bool {
	call.0 != "Funding" || RELEASED.contains(&call.1)
}
fn filtered() -> DispatchResult {
	Err(frame_system::Error::<Runtime>::CallFiltered.into())
}
/// they replace the code that runs, which this build cannot
fn skip(call: (&str, &str)) -> bool {
	call.0 == "System" && ["set_code", "set_code_without_checks", "apply_authorized_upgrade"].contains(&call.1)
}

pub fn t02(run: &mut Run) {
	explore(run, vec![(acc(1), FUNDS), (acc(2), FUNDS)], vec![], || {
		let calls = every_call();
		let mut t = Tally::new("every-call-by-every-way", "calls that are not released");
		use stubs::{
			pallet_collective::Call as C, pallet_multisig::Call as M, pallet_proxy::Call as P, pallet_utility::Call as U,
		};
		for g in [1, 2] {
			let _ = dispatch(
				match g {
					1 => RuntimeCall::Council(C::set_members { new_members: vec![acc(1)], prime: None, old_count: 0 }),
					_ => RuntimeCall::TechnicalCommittee(C::set_members {
						new_members: vec![acc(1)],
						prime: None,
						old_count: 0,
					}),
				},
				root(),
			);
		}
		dispatch(P::add_proxy { delegate: acc(1), proxy_type: shared_configuration::proxy::Type::Any, delay: 0 }.into(), signed(2))
			.unwrap();
		for (pallet, name, c) in &calls {
			let want = !open((*pallet, *name));
			let says = <<Runtime as frame_system::Config>::BaseCallFilter as Contains<RuntimeCall>>::contains(c);
			t.case(want, says != want, || format!("{pallet}.{name}: the filter lets it pass: {says}, to be {}", !want));
			let b = || Box::new(c.clone());
			let ways: Vec<(&str, RuntimeCall, RuntimeOrigin)> = vec![
				("signed", c.clone(), signed(1)),
				("unsigned", c.clone(), none()),
				("council", c.clone(), Col::<Acc, stubs::pallet_collective::Instance1>::Members(3, 3).into()),
				("technical", c.clone(), Col::<Acc, stubs::pallet_collective::Instance2>::Members(3, 3).into()),
				("batch", U::batch { calls: vec![c.clone()] }.into(), signed(1)),
				("batched batch", U::batch { calls: vec![U::batch { calls: vec![c.clone()] }.into()] }.into(), signed(1)),
				("multisig", M::as_multi_threshold_1 { other_signatories: vec![acc(2)], call: b() }.into(), signed(1)),
				("proxy", P::proxy { real: acc(2), force_proxy_type: None, call: b() }.into(), signed(1)),
				("member", RuntimeCall::Council(C::execute { proposal: b(), length_bound: 9 }), signed(1)),
				("technician", RuntimeCall::TechnicalCommittee(C::execute { proposal: b(), length_bound: 9 }), signed(1)),
			];
			for (way, call, origin) in ways {
				let r = undone(|| {
					let r = dispatch(call, origin);
					// the innermost is reported first
					r.and_then(|_| match way {
						"signed" | "unsigned" | "council" | "technical" | "multisig" => Ok(()),
						_ => stubs::INNER.with(|i| i.borrow().first().copied()).unwrap_or(Ok(())),
					})
				});
				t.case(want, (r == filtered()) == want, || format!("{pallet}.{name} by {way} comes to {r:?}"));
			}
			// root is not held up
			if !skip((*pallet, *name)) {
				let r = undone(|| dispatch(c.clone(), root()));
				t.case(want, r != filtered(), || format!("{pallet}.{name} by root comes to {r:?}"));
			}
		}
		vec![t]
	});
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Who {
	Unsigned,
	Root,
	/// anybody's account
	Someone(u8),
	/// the account that sets what the dispenser gives
	Admin,
	/// n of m
	Council(u32, u32),
	Technical(u32, u32),
	Councillor,
	Technician,
	Relay,
	Sibling,
}
use Who::*;
pub fn admin() -> Acc {
	hex("d85a4f58eb7dba17bc436b16f394b242271237021f7880e1ccaf36cd9a616c99").into()
}
fn hex(s: &str) -> [u8; 32] {
	let mut o = [0; 32];
	for i in 0..32 {
		o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
	}
	o
}
impl Who {
	pub fn origin(&self) -> RuntimeOrigin {
		use stubs::pallet_collective::{Instance1 as I1, Instance2 as I2};
		match *self {
			Unsigned => none(),
			Root => root(),
			Someone(n) => signed(n),
			Admin => frame_system::RawOrigin::Signed(admin()).into(),
			Council(n, m) => Col::<Acc, I1>::Members(n, m).into(),
			Technical(n, m) => Col::<Acc, I2>::Members(n, m).into(),
			Councillor => Col::<Acc, I1>::Member(acc(1)).into(),
			Technician => Col::<Acc, I2>::Member(acc(1)).into(),
			Relay => cumulus_pallet_xcm_shim::Origin::Relay.into(),
			Sibling => cumulus_pallet_xcm_shim::Origin::SiblingParachain(1000.into()).into(),
		}
	}
	fn signed(&self) -> bool {
		matches!(self, Someone(_) | Admin)
	}
}
/// Is the call open to them at all: what the property says.
pub fn accepts(call: (&str, &str), w: Who) -> bool {
	let council = |x, y| matches!(w, Council(n, m) if n * y >= m * x);
	let technical = |x, y| matches!(w, Technical(n, m) if n * y >= m * x);
	let rooted = w == Root;
	match call {
		// governance
		("Democracy", "external_propose") => council(1, 2),
		("Democracy", "external_propose_majority") => council(3, 5),
		("Democracy", "external_propose_default") => council(1, 1),
		("Democracy", "emergency_cancel") => council(2, 3),
		// with less than the time that is usual for it
		("Democracy", "fast_track") => technical(1, 1),
		("Democracy", "fast_track at leisure") => technical(3, 5),
		("Democracy", "veto_external") => w == Technician,
		("Democracy", "cancel_proposal") => rooted || technical(1, 1),
		("Democracy", "cancel_referendum" | "clear_public_proposals" | "blacklist") => rooted,
		("Treasury", "approve_proposal") => rooted || council(1, 1),
		("Treasury", "reject_proposal") => rooted || council(1, 2),
		("Treasury", "spend_local") => false,
		("Council" | "TechnicalCommittee", "set_members") => rooted,
		("Elections", "remove_member" | "clean_defunct_voters") => rooted,
		("Scheduler", _) => rooted,
		("Preimage", "request_preimage" | "unrequest_preimage") => rooted,
		("Preimage", "note_preimage" | "unnote_preimage") => rooted || w.signed(),
		("OracleProvidersMembership", _) => rooted,
		("Oracle", "feed_values") => rooted || w.signed(),
		// staking
		(
			"ParachainStaking",
			"set_staking_expectations" | "set_inflation" | "set_parachain_bond_account" |
			"set_parachain_bond_reserve_percent" | "set_total_selected" | "set_collator_commission" | "set_blocks_per_round",
		) => rooted,
		// money
		("Balances", "force_transfer" | "force_unreserve" | "force_set_balance" | "force_adjust_total_issuance") => rooted,
		("Vesting", "force_vested_transfer" | "force_remove_vesting_schedule") => rooted,
		("LinearRelease", "force_vested_transfer") => rooted,
		("Dispenser", "set_dispense_amount") => w == Admin,
		// each needs a token of its own
		("Dispenser", "dispense") => false,
		(
			"Funding",
			"create_project" | "remove_project" | "edit_project" | "start_evaluation" | "evaluate" | "bid" | "contribute" |
			"start_offchain_migration" | "start_pallet_migration" | "start_pallet_migration_readiness_check",
		) => false,
		("Funding", "pallet_migration_readiness_response") => false,
		// the system
		("System", "remark") | ("System", "apply_authorized_upgrade") | ("Democracy", "set_metadata") => true,
		("System", "remark_with_event") => w.signed(),
		("System", _) => rooted,
		("ParachainSystem", "sudo_send_upward_message") => rooted,
		("XcmpQueue", _) => rooted,
		("PolkadotXcm", "send") => rooted,
		("Timestamp", "set") => w == Unsigned,
		("Utility", "batch") => w != Unsigned,
		("Utility", "dispatch_as") => rooted,
		_ => w.signed(),
	}
}
pub fn everybody(council: u32, technical: u32) -> Vec<Who> {
	let mut v = vec![Unsigned, Root, Someone(1), Someone(0xff), Admin, Councillor, Technician, Relay, Sibling];
	v.extend((0..=council).flat_map(|m| (0..=m).map(move |n| Council(n, m))).filter(|w| *w != Council(0, 0)));
	v.extend((0..=technical).flat_map(|m| (0..=m).map(move |n| Technical(n, m))).filter(|w| *w != Technical(0, 0)));
	v
}
pub fn t06(run: &mut Run) {
	let size = if run.thorough { (50, 50) } else { (20, 20) };
	explore(run, vec![(acc(1), FUNDS), (admin(), FUNDS)], vec![], || {
		let who = everybody(size.0, size.1);
		let mut t = Tally::new("every-call-by-every-origin", "calls that the origin may not make");
		let mut calls = every_call();
		let more = |voting_period| pallet_democracy::Call::fast_track { proposal_hash: Default::default(), voting_period, delay: 1 };
		let period = shared_configuration::governance::FastTrackVotingPeriod::get();
		calls.push(("Democracy", "fast_track", more(period - 1).into()));
		calls.push(("Democracy", "fast_track at leisure", more(period).into()));
		for (pallet, name, c) in &calls {
			for w in &who {
				if skip((*pallet, *name)) && (*w == Root || *name == "apply_authorized_upgrade") {
					continue;
				}
				// what is not released is not for anybody but root
				if !open((*pallet, *name)) && *w != Root {
					continue;
				}
				let want = accepts((*pallet, *name), *w);
				let r = undone(|| dispatch(c.clone(), w.origin()));
				t.case(!want, (r != Err(DispatchError::BadOrigin)) == want, || {
					format!("{pallet}.{name} by {w:?} comes to {}, and is {}for them", result(r), if want { "" } else { "not " })
				});
			}
		}
		// those that the stand-in does not call
		for w in &who {
			let root_only = [
				("identity force", <cfg_pallet_identity::ForceOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(w.origin()).is_ok()),
				("registrars", <cfg_pallet_identity::RegistrarOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(w.origin()).is_ok()),
				(
					"instant",
					<<Runtime as pallet_democracy::Config>::InstantOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(w.origin())
						.is_ok() == matches!(w, Technical(n, m) if n == m) &&
						*w != Root,
				),
			];
			for (what, got) in root_only {
				let want = match what {
					"instant" => *w != Root,
					_ => *w == Root,
				};
				t.case(!want, got == want, || format!("the origin for {what} is wrong for {w:?}"));
			}
		}
		let mut p = Tally::new("every-pair-of-origins", "pairs where the first has no privilege over the second");
		let who = everybody(5, 4);
		for a in &who {
			for b in &who {
				use frame_support::traits::OriginTrait;
				let (x, y) = (a.origin().caller().clone(), b.origin().caller().clone());
				let got = <<Runtime as pallet_scheduler::Config>::OriginPrivilegeCmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&x, &y);
				let at_least = matches!(got, Some(Ordering::Equal | Ordering::Greater));
				let want = a == b || *a == Root;
				p.case(!want, at_least == want, || format!("{a:?} compared with {b:?}: {got:?}"));
			}
		}
		vec![t, p]
	});
}
