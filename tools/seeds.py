DL = "pallets/democracy/src/lib.rs"; DV = "pallets/democracy/src/vote.rs"; DT = "pallets/democracy/src/types.rs"
DC = "pallets/democracy/src/conviction.rs"; DH = "pallets/democracy/src/vote_threshold.rs"
EL = "pallets/elections-phragmen/src/lib.rs"; VL = "pallets/on-slash-vesting/src/lib.rs"; MA = "macros/src/generate_accounts.rs"
SEEDS = []
def S(id, property, kind, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, property=property, kind=kind, edits=edits, needs=needs, breaks=breaks, main=main))

S("d01-split-revote", "D01", "democracy", {DL: [("""						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
""", """						if let (Some(approve), Some(_)) = (votes[i].1.as_standard(), vote.as_standard()) {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
""")]}, "a voter with delegations who changes a standard vote into a split vote",
"The delegated votes stay in the tally although the delegate's vote no longer carries them.", """
fn main() {
	ext(&[(1, 100), (2, 100), (3, 100)]).execute_with(|| {
		let r = start(1, 1);
		assert_ok!(Democracy::delegate(s(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::vote(s(1), r, aye(Conviction::Locked1x, 10)));
		assert_eq!(tally(r), Tally { ayes: 30, nays: 0, turnout: 30 });
		assert_ok!(Democracy::vote(s(1), r, AccountVote::Split { aye: 10, nay: 10 }));
		assert_eq!(tally(r), Tally { ayes: 1, nays: 1, turnout: 20 });
	});
}
""")

S("d02-redelegate-same-target", "D02", "democracy", {DL: [("""					// remove any delegation votes to our current target.
					Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					let now""", """					// remove any delegation votes to our current target.
					let active = matches!(VotingOf::<T>::get(&target), Voting::Direct { .. });
					if active {
						Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					}
					let now""")]}, "delegating anew while the former target itself delegates",
"A target that meanwhile delegates keeps the power it was given by an account that has moved on.", """
fn main() {
	ext(&[(1, 100), (2, 100), (3, 100), (4, 100)]).execute_with(|| {
		assert_ok!(Democracy::delegate(s(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::delegate(s(1), 3, Conviction::Locked1x, 5));
		assert_ok!(Democracy::delegate(s(2), 4, Conviction::Locked1x, 20));
		assert_ok!(Democracy::undelegate(s(1)));
		let r = start(1, 1);
		assert_ok!(Democracy::vote(s(1), r, aye(Conviction::Locked1x, 10)));
		assert_eq!(tally(r), Tally { ayes: 10, nays: 0, turnout: 10 });
	});
}
""")

S("d05-slash-seconders-once", "D05", "democracy", {DL: [("""			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));
			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				for who in whos.into_iter() {
""", """			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));
			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				let mut whos = whos.into_inner();
				whos.dedup();
				for who in whos.into_iter() {
""")]}, "a proposal cancelled after its proposer seconded it as well",
"A depositor with two deposits is slashed once, the other deposit stays on hold for good.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		assert_ok!(Democracy::propose(s(1), prop(1), 10));
		assert_ok!(Democracy::second(s(1), 0));
		assert_eq!(held(1), 20);
		assert_ok!(Democracy::cancel_proposal(s(CANCELPROP), 0));
		assert_eq!(held(1), 0);
		assert_eq!(Balances::total_balance(&1), 80);
	});
}
""")

S("d06-turn-not-taken", "D06", "democracy", {DL: [("""		if LastTabledWasExternal::<T>::take() {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
""", """		if LastTabledWasExternal::<T>::get() {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
""")]}, "an external proposal waiting behind two public ones after an external one was tabled",
"After one external referendum the public queue goes first in every launch block until it is empty.", """
fn main() {
	LaunchPeriod::set(2);
	VotingPeriod::set(20);
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		assert_ok!(Democracy::external_propose(s(EXT), prop(9)));
		to(2);
		assert_ok!(Democracy::external_propose(s(EXT), prop(8)));
		assert_ok!(Democracy::propose(s(1), prop(1), 10));
		assert_ok!(Democracy::propose(s(1), prop(2), 10));
		to(4); // public
		assert!(pallet_democracy::NextExternal::<Test>::get().is_some());
		to(6); // external
		assert!(pallet_democracy::NextExternal::<Test>::get().is_none());
	});
}
""")

S("d07-hole-stops-the-scan", "D07", "democracy", {DL: [("""			.filter_map(|(i, maybe_info)| match maybe_info {
				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),
				_ => None,
			})
""", """			.take_while(|(_, maybe_info)| maybe_info.is_some())
			.filter_map(|(i, maybe_info)| match maybe_info {
				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),
				_ => None,
			})
""")]}, "a referendum that ends while an earlier one runs on and one between them was cancelled",
"A referendum behind a cancelled one is never decided at its end block.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		VotingPeriod::set(9);
		start(1, 1);
		VotingPeriod::set(4);
		start(2, 1);
		let r = start(3, 1);
		assert_ok!(Democracy::cancel_referendum(O::root(), 1));
		to(5);
		assert_eq!(Democracy::referendum_info(r), Some(ReferendumInfo::Finished { approved: false, end: 5 }));
	});
}
""")

S("d08-fast-track-delay-from-launch", "D08", "democracy", {DL: [("""			let when = now.saturating_add(status.delay.max(One::one()));
""", """			let when = now.saturating_add(status.delay).max(
				<frame_system::Pallet<T>>::block_number().saturating_add(T::EnactmentPeriod::get().min(One::one())),
			);
"""), ("""				(DEMOCRACY_ID, index).encode_into(),
""", """				(DEMOCRACY_ID, status.proposal.hash()).encode_into(),
""")]}, "the same proposal approved again while its first approval waits for enactment",
"The enactment of a proposal approved twice is scheduled only once.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let r = start(1, 5);
		VotingPeriod::set(4);
		let q = start(1, 5);
		for x in [r, q] { assert_ok!(Democracy::vote(s(1), x, aye(Conviction::Locked1x, 10))); }
		to(12);
		assert_eq!(hits(), vec![(1, 9), (1, 10)]);
	});
}
""")

S("d09-turnout-against", "D09", "democracy", {DH: [("""		if r2.is_zero() {
			return false;
		}
		if r1.is_zero() {
			return true;
		}
""", """		if r1.is_zero() {
			return true;
		}
		if r2.is_zero() {
			return false;
		}
""")]}, "a tally exactly on the threshold",
"A tally that only equals the threshold is approved.", """
fn main() {
	// nays / sqrt(turnout) == ayes / sqrt(electorate)
	use pallet_democracy::Approved;
	assert!(!VoteThreshold::SuperMajorityApprove.approved(Tally { ayes: 40u64, nays: 20, turnout: 100 }, 400));
	assert!(VoteThreshold::SuperMajorityApprove.approved(Tally { ayes: 41u64, nays: 20, turnout: 100 }, 400));
}
""")

S("d10-unsorted-vetoers", "D10", "democracy", {DL: [("""			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
""", """			ensure!(existing_vetoers.binary_search(&who).is_err(), Error::<T>::AlreadyVetoed);
			existing_vetoers.try_push(who.clone()).map_err(|_| Error::<T>::TooMany)?;
""")]}, "two vetoers, the second with the smaller account id, and a third attempt by the first",
"A vetoer can veto the same proposal twice.", """
fn main() {
	MaxBlacklisted::set(5);
	ext(&[(1, 100)]).execute_with(|| {
		let h = prop(1).hash();
		let mut n = 1;
		for v in [VETO2, VETO1] {
			assert_ok!(Democracy::external_propose(s(EXT), prop(1)));
			assert_ok!(Democracy::veto_external(s(v), h));
			n += 5;
			System::set_block_number(n);
		}
		assert_ok!(Democracy::external_propose(s(EXT), prop(1)));
		assert!(Democracy::veto_external(s(VETO2), h).is_err());
	});
}
""")

S("d11-instant-not-allowed", "D11", "democracy", {DL: [("""				T::InstantOrigin::ensure_origin(ensure_instant)?;
				ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
""", """				T::InstantOrigin::ensure_origin(ensure_instant)?;
				let short = voting_period < T::FastTrackVotingPeriod::get();
				ensure!(!short || T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
""")]}, "the instant authority fast-tracking with a long voting period while instant voting is switched off",
"The instant authority can act although InstantAllowed is false.", """
fn main() {
	ext(&[(1, 100)]).execute_with(|| {
		InstantAllowedN::set(0);
		assert_ok!(Democracy::external_propose_majority(s(EXT_MAJ), prop(1)));
		assert!(Democracy::fast_track(s(INSTANT), prop(1).hash(), 5, 1).is_err());
	});
}
""")

S("d13-one-deposit-too-many", "D13", "democracy", {DL: [("""			ensure!(seconds < T::MaxDeposits::get(), Error::<T>::TooMany);
""", """			ensure!(seconds <= T::MaxDeposits::get(), Error::<T>::TooMany);
""")]}, "seconding a proposal that already has the maximum of deposits",
"A deposit is taken that is recorded nowhere and never given back.", """
fn main() {
	MaxDeposits::set(3);
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		assert_ok!(Democracy::propose(s(1), prop(1), 10));
		for _ in 0..4 { let _ = Democracy::second(s(2), 0); }
		to(2);
		assert_eq!(held(2), 0);
	});
}
""")

S("d14-conviction-mask", "D14", "democracy", {DV: [("""			conviction: Conviction::try_from(b & 0b0111_1111)
""", """			conviction: Conviction::try_from(b & 0b0011_1111)
""")]}, "a byte with the unused bit 6 set", "A byte that encodes no vote is decoded into one.", """
fn main() {
	use parity_scale_codec::{Decode, Encode};
	for b in 0u8..=255 {
		if let Ok(v) = Vote::decode(&mut &[b][..]) { assert_eq!(v.encode(), vec![b]); }
	}
}
""")

S("e01-current-bond", "E01", "elections", {EL: [("""						let (_, deposit) = candidates.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
""", """						candidates.remove(index);
						let deposit = T::CandidacyBond::get();
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::BestEffort)
""")]}, "a bond lowered by an upgrade between candidacy and renouncing",
"A candidate who renounces gets back today's bond, not the one it put up.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		CandidacyBond::put(7);
		run(1);
		CandidacyBond::put(3);
		assert_ok!(Elections::renounce_candidacy(s(1), Renouncing::Candidate(1)));
		assert_eq!(Balances::balance(&1), 100);
	});
}
""")

S("e04-worst-runner", "E04", "elections", {EL: [("""			let maybe_next_best = <RunnersUp<T>>::mutate(|r| r.pop()).map(|next_best| {
""", """			let maybe_next_best = <RunnersUp<T>>::mutate(|r| {
				let best = r.iter().enumerate().max_by_key(|(_, x)| x.deposit).map(|(i, _)| i);
				best.map(|i| r.remove(i))
			})
			.map(|next_best| {
""")]}, "runners-up who put up different bonds", "A worse runner-up with the higher bond replaces the member.", """
fn main() {
	DesiredMembers::set(1); DesiredRunnersUp::set(2);
	let b: Vec<_> = (1..9).map(|i| (i, 100)).collect();
	ext(&b).execute_with(|| {
		run(1); run(2);
		CandidacyBond::put(9);
		run(3);
		vote(5, &[1], 50); vote(6, &[2], 40); vote(7, &[3], 30);
		to(3);
		assert_eq!(runners(), vec![3, 2]);
		assert_ok!(Elections::remove_member(O::root(), 1, false, false));
		assert_eq!(members(), vec![2]);
	});
}
""")

S("e06-lockup-not-renewed", "E06", "elections", {EL: [("""				Voter { votes, stake: locked_stake, lockup_till: current_block + T::VotingLockPeriod::get() },
""", """				Voter {
					votes,
					stake: locked_stake,
					lockup_till: if current_block < voter.lockup_till {
						voter.lockup_till
					} else {
						current_block + T::VotingLockPeriod::get()
					},
				},
""")]}, "a second vote cast while the lock of the first still runs",
"A vote cast later is only locked until the end of the first one's lock.", """
fn main() {
	VotingLockPeriod::set(5); TermDuration::set(0);
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		run(1);
		vote(2, &[1], 50);
		to(4);
		vote(2, &[1], 60);
		to(7);
		assert!(Elections::remove_voter(s(2)).is_err());
		to(9);
		assert_ok!(Elections::remove_voter(s(2)));
	});
}
""")

S("e07-defunct-without-runners", "E07", "elections", {EL: [("""		votes.iter().all(|v| !Self::is_member(v) && !Self::is_runner_up(v) && Self::is_candidate(v).is_err())
""", """		let candidates_open = <Candidates<T>>::decode_len().unwrap_or(0) > 0;
		votes.iter().all(|v| {
			!Self::is_member(v) && (candidates_open || !Self::is_runner_up(v)) && Self::is_candidate(v).is_err()
		})
""")]}, "cleaning while candidacies are open and a voter backs only a runner-up",
"A ballot for a runner-up is cleaned away.", """
fn main() {
	DesiredMembers::set(1); DesiredRunnersUp::set(1); TermDuration::set(3);
	let b: Vec<_> = (1..9).map(|i| (i, 100)).collect();
	ext(&b).execute_with(|| {
		run(1); run(2);
		vote(5, &[1], 50); vote(6, &[2], 40);
		to(3);
		assert_eq!(runners(), vec![2]);
		run(3);
		assert_ok!(Elections::clean_defunct_voters(O::root(), 10, 10));
		assert_eq!(frozen(6), 40);
	});
}
""")

S("e09-clean-by-members", "E09", "elections", {EL: [("""			let actual_count = <Candidates<T>>::decode_len().unwrap_or(0) as u32;
			ensure!(actual_count <= candidate_count, Error::<T>::InvalidWitnessData);
""", """			let actual_count = <Candidates<T>>::decode_len().unwrap_or(0) as u32;
			ensure!(actual_count <= candidate_count.saturating_add(1), Error::<T>::InvalidWitnessData);
""")]}, "a candidacy with a count one below the real one", "A wrong witness (and with it a too small weight) is accepted.", """
fn main() {
	let b: Vec<_> = (1..9).map(|i| (i, 100)).collect();
	ext(&b).execute_with(|| {
		run(1); run(2);
		assert!(Elections::submit_candidacy(s(3), 1).is_err());
	});
}
""")

S("d04-cancelled-needs-owner", "D04", "democracy", {DL: [("""					None => {}, // Referendum was cancelled.
""", """					None => ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission),
""")]}, "somebody else removing a vote on a cancelled referendum",
"A vote on a cancelled referendum cannot be removed by others although it binds nothing.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let a = start(1, 1);
		assert_ok!(Democracy::vote(s(1), a, aye(Conviction::Locked3x, 10)));
		assert_ok!(Democracy::cancel_referendum(O::root(), a));
		assert_ok!(Democracy::remove_other_vote(s(2), 1, a));
		assert_ok!(Democracy::unlock(s(2), 1));
		assert_eq!(frozen(1), 0);
	});
}
""")

S("d12-any-depositor", "D12", "democracy", {DL: [("""					let (_, _, proposer) = Self::proposal(index)?;
					ensure!(proposer == who, Error::<T>::NoPermission);
""", """					let (_, _, proposer) = Self::proposal(index)?;
					let seconded = DepositOf::<T>::get(index).map_or(false, |(d, _)| d.contains(&who));
					ensure!(proposer == who || seconded, Error::<T>::NoPermission);
""")]}, "a seconder of a public proposal setting its metadata", "Metadata is set by an account that is not the proposer.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		assert_ok!(Democracy::propose(s(1), prop(1), 10));
		assert_ok!(Democracy::second(s(2), 0));
		let h = <Preimage as StorePreimage>::note(vec![1u8, 2, 3].into()).unwrap();
		assert!(Democracy::set_metadata(s(2), MetadataOwner::Proposal(0), Some(h)).is_err());
		assert!(Democracy::set_metadata(s(1), MetadataOwner::Proposal(0), Some(h)).is_ok());
	});
}
""")

S("e02-swap-remove", "E02", "elections", {EL: [("""						let (_, deposit) = candidates.remove(index);
""", """						let (_, deposit) = candidates.swap_remove(index);
""")]}, "three candidates of which a lower one renounces", "The candidates are no longer listed in account order, and one can stand twice.", """
fn main() {
	let b: Vec<_> = (1..9).map(|i| (i, 100)).collect();
	ext(&b).execute_with(|| {
		run(1); run(2); run(3);
		assert_ok!(Elections::renounce_candidacy(s(1), Renouncing::Candidate(3)));
		let c: Vec<u64> = Elections::candidates().iter().map(|c| c.0).collect();
		assert_eq!(c, vec![2, 3]);
	});
}
""")

S("e03-runners-by-stake", "E03", "elections", {EL: [("""					new_set_with_stake.reverse();
					let new_runners_up_sorted_by_rank = new_set_with_stake;
""", """					new_set_with_stake.sort_by_key(|(_, stake)| *stake);
					let new_runners_up_sorted_by_rank = new_set_with_stake;
""")]}, "two runners-up whose order of election differs from the order of their backing", "The runners-up are ranked by their backing instead of the order they were elected in.", """
fn main() {
	DesiredMembers::set(1); DesiredRunnersUp::set(2);
	let b: Vec<_> = (1..9).map(|i| (i, 100)).collect();
	ext(&b).execute_with(|| {
		run(1); run(2); run(3);
		// equal backing: the first elected has to rank above the other
		vote(5, &[1], 50); vote(6, &[2], 20); vote(7, &[3], 20);
		while members().is_empty() { next() }
		assert_eq!(runners(), vec![3, 2]);
	});
}
""")

S("e05-points-for-seats-only", "E05", "elections", {EL: [("""						for (vote_multiplier, who) in votes.iter().enumerate().map(|(vote_position, who)| {
""", """						for (vote_multiplier, who) in votes.iter().take(desired_seats).enumerate().map(|(vote_position, who)| {
""")]}, "ballots that name more accounts than there are seats", "Lower positions of a ballot do not count for the prime.", """
fn main() {
	DesiredMembers::set(2); DesiredRunnersUp::set(0);
	let b: Vec<_> = (1..9).map(|i| (i, 100)).collect();
	ext(&b).execute_with(|| {
		run(1); run(2); run(3); run(4);
		vote(5, &[2, 4, 1], 60); vote(6, &[3], 40); vote(7, &[1], 15);
		while members().is_empty() { next() }
		assert_eq!(members(), vec![1, 3]);
		// 60 * 2 + 15 * 4 against 40 * 4
		assert_eq!(Body::prime(), Some(1));
	});
}
""")

S("v01-lock-after-write-only", "V01", "vesting", {VL: [("""			let vest_result = <pallet_vesting::Pallet<T>>::vest(T::RuntimeOrigin::signed(account.clone()));
			debug_assert!(vest_result.is_ok());
""", """			if <Vesting<T>>::get(account).map_or(false, |s| !s.is_empty()) {
				let vest_result = <pallet_vesting::Pallet<T>>::vest(T::RuntimeOrigin::signed(account.clone()));
				debug_assert!(vest_result.is_ok());
			}
""")]}, "a slash that uses up every schedule", "The lock of the schedules stays on the account although nothing is left to vest.", """
fn main() {
	ext(&[(1, 100), (3, 1000)]).execute_with(|| {
		grant(3, 1, (50, 5, 1));
		System::set_block_number(4);
		slash(1, 60);
		assert_eq!(lock(1), 0);
	});
}
""")

S("v02-duration-from-now", "V02", "vesting", {VL: [("""				let duration = end_block.saturating_sub(start_block);
""", """				let duration = end_block.saturating_sub(T::BlockNumberToBalance::convert(now));
""")]}, "a slash before a schedule has started", "The rest of a future schedule vests until long after its original end.", """
fn main() {
	ext(&[(1, 100), (3, 1000)]).execute_with(|| {
		grant(3, 1, (50, 5, 21)); // 21..31
		slash(1, 10);
		assert_eq!(locked(1, 21), 40);
		assert_eq!(locked(1, 31), 0);
	});
}
""")

S("m01-folded-twice", "M01", "macros", {MA: [("""			value[i % 32] ^= byte;
""", """			value[i % 31] ^= byte;
""")]}, "names of 32 characters that differ in the first and the last one", "Two names give the same account id.", """
macros::generate_accounts!(ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEA, DBCDEFGHIJKLMNOPQRSTUVWXYZABCDED);
fn main() {
	assert_ne!(ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEA, DBCDEFGHIJKLMNOPQRSTUVWXYZABCDED);
	assert_eq!(names().len(), 2);
}
""")

# ---- the funding pallets
FA = "pallets/funding/src/functions/1_application.rs"; FE = "pallets/funding/src/functions/2_evaluation.rs"
FB = "pallets/funding/src/functions/3_auction.rs"; FC = "pallets/funding/src/functions/4_contribution.rs"
FS = "pallets/funding/src/functions/6_settlement.rs"; FM = "pallets/funding/src/functions/7_ct_migration.rs"
FX = "pallets/funding/src/functions/misc.rs"; FT = "pallets/funding/src/types.rs"
PB = "pallets/proxy-bonding/src/lib.rs"; PF = "pallets/proxy-bonding/src/functions.rs"
CR = "polimec-common/common/src/credentials/mod.rs"
LI = "pallets/linear-release/src/impls.rs"; LL = "pallets/linear-release/src/lib.rs"; LT = "pallets/linear-release/src/types.rs"
def F(id, property, edits, needs, breaks, main): S(id, property, "funding", edits, needs, breaks, "\nfn main() {\n\trun(|| {\n" + main.strip("\n") + "\n\t});\n}\n")
def L(id, property, edits, needs, breaks, main): S(id, property, "linear", edits, needs, breaks, "\nfn main() {\n" + main.strip("\n") + "\n}\n")

F("f01-settled-with-rejected-bids", "F01", {FS: [("""		let no_bids_remaining = || Bids::<T>::iter_prefix((project_id,)).next().is_none();
""", """		let no_bids_remaining =
			|| !Bids::<T>::iter_prefix((project_id,)).any(|(_, bid)| bid.status != BidStatus::Rejected);
""")]}, "a rejected bid that nobody has settled when all other participations are",
"The project is marked as settled while a bidder's funds are still in its escrow.", """
		auction();
		assert_ok!(bid(3, I, 2250, Classic(2), USDT));
		assert_ok!(bid(4, I, 250, OTM, USDT).or_else(|_| bid(4, I, 500, OTM, USDT)));
		assert_ok!(bid(5, I, 500, Classic(1), USDT));
		to_community();
		finish();
		assert_eq!(Bids::<Rt>::iter().filter(|b| b.1.status == BidStatus::Rejected).count(), 1);
		for ((_, a, id), e) in Evaluations::<Rt>::iter().collect::<Vec<_>>() { let _ = e; assert_ok!(call(8, C::settle_evaluation { project_id: 0, evaluator: a, evaluation_id: id })); }
		for ((_, a, id), b) in Bids::<Rt>::iter().collect::<Vec<_>>() {
			if b.status != BidStatus::Rejected { assert_ok!(call(8, C::settle_bid { project_id: 0, bidder: a, bid_id: id })); }
		}
		assert!(mark().is_err());
""")

F("f02-edit-keeps-the-bucket", "F02", {FA: [("""		ProjectsDetails::<T>::insert(project_id, project_details);
		Buckets::<T>::insert(project_id, bucket);

		// * Emit events *
		Self::deposit_event(Event::MetadataEdited""", """		ProjectsDetails::<T>::insert(project_id, project_details);
		if Buckets::<T>::get(project_id).map_or(true, |b| b.current_price != bucket.current_price) {
			Buckets::<T>::insert(project_id, bucket);
		}

		// * Emit events *
		Self::deposit_event(Event::MetadataEdited""")]}, "an edit that changes the size of the auction but not the price",
"The auction runs on the buckets of the metadata before the edit.", """
		assert_ok!(create(meta()));
		assert_ok!(edit(Meta { auction_round_allocation_percentage: Percent::from_percent(100), ..meta() }));
		assert_ok!(start_evaluation());
		assert_ok!(evaluate(2, 5000));
		at(now() + EVAL);
		assert_ok!(end_evaluation());
		assert_ok!(bid(3, I, 3000, Classic(2), USDT));
		let b: Vec<_> = Bids::<Rt>::iter().map(|b| (b.1.original_ct_amount, b.1.original_ct_usd_price)).collect();
		assert_eq!(b, vec![(3000 * CT, FixedU128::from_u32(10))]);
""")

F("f03-own-project-by-account", "F03", {FE: [("""		ensure!(project_details.issuer_did != did, Error::<T>::ParticipationToOwnProject);
""", """		ensure!(&project_details.issuer_account != evaluator, Error::<T>::ParticipationToOwnProject);
""")]}, "an issuer with a second account",
"The issuer evaluates its own project from another account of the same identity.", """
		assert_ok!(create(meta()));
		assert_ok!(start_evaluation());
		let jwt = token(&Cred { did: 1, ..cred(7, I) });
		assert!(call(7, C::evaluate { jwt, project_id: 0, usd_amount: 5000 * USD }).is_err());
""")

F("f03-early-share", "F03", {FE: [("""		let previous_total_evaluation_bonded_usd = evaluation_round_info.total_bonded_usd;
""", """		let previous_total_evaluation_bonded_usd: Balance =
			Evaluations::<T>::iter_prefix_values((project_id,)).map(|e| e.early_usd_amount).max().unwrap_or_default();
""")]}, "two evaluations of the project before the threshold is reached",
"More is counted as early than the threshold allows.", """
		assert_ok!(create(meta()));
		assert_ok!(start_evaluation());
		assert_ok!(evaluate(2, 2000));
		assert_ok!(evaluate(3, 2000));
		assert_ok!(evaluate(4, 2000));
		let early: u128 = Evaluations::<Rt>::iter().map(|e| e.1.early_usd_amount).sum();
		assert_eq!(early, 5000 * USD);
""")

F("f04-bucket-skipped", "F04", {FT: [("""			self.amount_left.saturating_reduce(removed_amount);
			if self.amount_left.is_zero() {
				self.next();
			}
""", """			self.amount_left.saturating_reduce(removed_amount);
			// nothing can be bought with less than a thousandth of a bucket
			if self.amount_left <= self.delta_amount / 1000 {
				self.next();
			}
""")]}, "a bid that leaves almost nothing of a bucket",
"The last tokens of a bucket are never sold at its price.", """
		auction();
		assert_ok!(call(3, C::bid { jwt: jwt(3, I), project_id: 0, ct_amount: 2500 * CT - 100, mode: Classic(1), funding_asset: USDT }));
		assert_eq!(Buckets::<Rt>::get(0).unwrap().amount_left, 100);
		assert_eq!(Buckets::<Rt>::get(0).unwrap().current_price, FixedU128::from_u32(10));
""")

F("f05-ties-by-hash", "F05", {FX: [("""		bids.sort_by(|a, b| b.cmp(a));
""", """		bids.sort_by(|a, b| b.original_ct_usd_price.cmp(&a.original_ct_usd_price));
""")]}, "several bids at the price at which the allocation runs out",
"Which of the bids at the same price win depends on where they are stored, not on which came first.", """
		auction();
		for (n, ct) in [(3, 800), (4, 800), (5, 900), (6, 700)] { assert_ok!(bid(n, I, ct, Classic(1), USDT)); }
		to_community();
		let mut v: Vec<_> = Bids::<Rt>::iter().map(|b| (b.1.id, b.1.status)).collect();
		v.sort_by_key(|x| x.0);
		let first: Vec<_> = v.iter().take(2).map(|x| x.1.clone()).collect();
		assert_eq!(first, vec![BidStatus::Accepted, BidStatus::Accepted], "{v:?}");
		assert_eq!(v[2].1, BidStatus::PartiallyAccepted(200 * CT), "{v:?}");
""")

F("f05-wap-last-bucket", "F05", {FT: [("""			let mut amount: Balance = self.delta_amount.saturating_sub(self.amount_left);
""", """			let mut amount: Balance =
				if self.amount_left.is_zero() { self.delta_amount } else { self.delta_amount.min(self.amount_left) };
""")]}, "a last bucket that is not half full when the auction ends",
"The price everyone pays weighs the last bucket by what was left in it instead of by what was sold.", """
		auction();
		assert_ok!(bid(3, I, 2500, Classic(1), USDT));
		assert_ok!(call(4, C::bid { jwt: jwt(4, I), project_id: 0, ct_amount: 250 * CT, mode: Classic(1), funding_asset: USDT }).or(bid(4, I, 550, Classic(1), USDT)));
		let sold: u128 = Buckets::<Rt>::get(0).map(|b| b.delta_amount - b.amount_left).unwrap();
		assert_eq!(sold, 50 * CT);
		to_community();
		// 50 tokens at 13, 250 at 12, 250 at 11 and 1950 at 10, each weighed by what was paid
		let parts = [(50u128, 13u128), (250, 12), (250, 11), (1950, 10)];
		let all: u128 = parts.iter().map(|p| p.0 * p.1).sum();
		let want: f64 = parts.iter().map(|p| (p.0 * p.1 * p.1) as f64 / all as f64).sum();
		let wap = details().weighted_average_price.unwrap().into_inner() as f64 / 1e18;
		assert!((wap - want).abs() < 1e-6, "{wap} {want}");
""")

F("f06-partial-winners", "F06", {FX: [("""					bid.status = BidStatus::PartiallyAccepted(buyable_amount);
					DidWithWinningBids::<T>::mutate(project_id, bid.did.clone(), |flag| {
						*flag = true;
					});
""", """					bid.status = BidStatus::PartiallyAccepted(buyable_amount);
""")]}, "the bidder of the only bid that is accepted in part",
"A bidder who won tokens takes part in the round that is reserved for the others.", """
		auction();
		assert_ok!(bid(3, I, 2500, Classic(1), USDT));
		assert_ok!(bid(4, I, 500, Classic(1), USDT));
		to_community();
		assert!(matches!(Bids::<Rt>::get((0, acc(3), 0)).unwrap().status, BidStatus::PartiallyAccepted(_)));
		assert!(contribute(3, I, 100, Classic(1), USDT).is_err());
		assert_ok!(contribute(5, R, 100, Classic(1), USDT));
""")

F("f07-parts-of-a-bid", "F07", {FB: [("""				total_bids_by_bidder: existing_bids_amount.saturating_add(perform_bid_calls),
""", """				total_bids_by_bidder: existing_bids_amount,
""")]}, "a bid that spans buckets by someone with almost the most bids allowed",
"An account ends up with more bids than allowed.", """
		auction();
		assert_ok!(bid(3, I, 500, Classic(1), USDT));
		assert_ok!(bid(3, I, 500, Classic(1), USDT));
		assert_ok!(bid(4, I, 1000, Classic(1), USDT));
		assert!(bid(3, I, 750, Classic(1), USDT).is_err());
		assert_eq!(Bids::<Rt>::iter_prefix((0, acc(3))).count(), 2);
""")

F("f07-did-limit-by-account", "F07", {FC: [("""		let total_usd_bought_by_did = ContributionBoughtUSD::<T>::get((project_id, did.clone()));
""", """		let total_usd_bought_by_did: Balance =
			caller_existing_contributions.iter().map(|c| c.usd_contribution_amount).sum();
""")]}, "one identity that contributes from two accounts",
"The most an identity may contribute applies to each of its accounts instead.", """
		auction();
		assert_ok!(bid(3, I, 1000, Classic(1), USDT));
		to_community();
		assert_ok!(contribute(5, R, 500, Classic(1), USDT));
		let jwt = token(&Cred { did: 5, ..cred(6, R) });
		assert!(call(6, C::contribute { jwt, project_id: 0, ct_amount: 500 * CT, mode: Classic(1), funding_asset: USDT }).is_err());
""")

F("f08-conversion-of-the-last", "F08", {FX: [("""		let mut to_convert = amount;
		for mut evaluation in user_evaluations {
""", """		let mut to_convert = amount;
		let mut converted_from = None;
		for mut evaluation in user_evaluations {
"""), ("""			evaluation.current_plmc_bond = evaluation.current_plmc_bond.saturating_sub(converted);
			Evaluations::<T>::insert((project_id, who, evaluation.id), evaluation);
""", """			evaluation.current_plmc_bond = evaluation.current_plmc_bond.saturating_sub(converted);
			converted_from = Some(evaluation);
"""), ("""			to_convert = to_convert.saturating_sub(converted)
		}
""", """			to_convert = to_convert.saturating_sub(converted)
		}
		if let Some(evaluation) = converted_from {
			Evaluations::<T>::insert((project_id, who, evaluation.id), evaluation);
		}
""")]}, "a participant with two evaluations whose bid needs the bonds of both",
"The record of one evaluation still claims a bond that has become the bond of the bid.", """
		assert_ok!(create(meta()));
		assert_ok!(start_evaluation());
		assert_ok!(evaluate(2, 3000));
		assert_ok!(evaluate(2, 3000));
		at(now() + EVAL);
		assert_ok!(end_evaluation());
		assert_ok!(bid(2, I, 1000, Classic(2), USDT));
		let bonds: u128 = Evaluations::<Rt>::iter().map(|e| e.1.current_plmc_bond).sum();
		assert_eq!(held(2, HoldReason::Evaluation), bonds);
""")

F("f09-vesting-from-settlement", "F09", {FS: [("""				vesting_info.total_amount,
				vesting_info.amount_per_block,
				funding_end_block,
""", """				vesting_info.total_amount,
				vesting_info.amount_per_block,
				funding_end_block.max(<frame_system::Pallet<T>>::block_number()),
""")]}, "a participation settled later than the settlement was started",
"Bonds start to vest when somebody settles them instead of when funding ended.", """
		auction();
		assert_ok!(bid(3, I, 2000, Classic(5), USDT));
		to_community();
		finish();
		let end = now();
		at(now() + 7);
		assert_ok!(settle_bid(3, 0));
		let v = pallet_linear_release::Vesting::<Rt>::get(acc(3), RuntimeHoldReason::from(HoldReason::Participation)).unwrap();
		assert_eq!(v[0].starting_block, end);
""")

F("f10-deposit-of-what-is-left", "F10", {FX: [("""			let slash_deposit = <T as Config>::EvaluatorSlash::get() * evaluation.original_plmc_bond;
""", """			let slash_deposit = <T as Config>::EvaluatorSlash::get() * evaluation.current_plmc_bond;
""")]}, "an evaluator who takes part twice in a project that then fails",
"The bond that the slash is taken from is used up by the second participation, the evaluation cannot be settled.", """
		auction();
		assert_ok!(bid(2, I, 500, Classic(1), USDT));
		assert_ok!(bid(2, I, 500, Classic(1), USDT));
		to_community();
		finish();
		assert_eq!(details().status, ProjectStatus::SettlementStarted(FundingOutcome::Failure));
		let before = plmc(2);
		assert_ok!(settle_evaluation(2, 0));
		assert!(plmc(2) < before);
		settle_all();
		assert_ok!(mark());
""")

F("f11-whole-percent-of-fee", "F11", {FX: [("""		let fee_percentage = Perquintill::from_rational(fee_usd, funding_amount_reached);
""", """		let fee_percentage = Percent::from_rational(fee_usd, funding_amount_reached);
""")]}, "funding that reaches beyond the first fee bracket",
"The fee is rounded to whole percents, the pots are too small.", """
		auction();
		assert_ok!(bid(3, I, 2500, Classic(1), USDT));
		to_community();
		finish();
		assert_eq!(details().funding_amount_reached_usd, 25_000 * USD);
		// 10 % of 20000 and 8 % of 5000, of the 2500 tokens sold
		let fee = 2500 * CT * 2400 / 25_000;
		let Some(EvaluatorsOutcome::Rewarded(r)) = details().evaluation_round_info.evaluators_outcome else { panic!() };
		assert_eq!(r.early_evaluator_reward_pot + r.normal_evaluator_reward_pot, fee * 30 / 100);
""")

F("f12-bonds-back-a-block-early", "F12", {PB: [("""			ensure!(release_block <= now, Error::<T>::TooEarlyToUnlock);
""", """			ensure!(release_block.saturating_sub(now) <= 1u32.into(), Error::<T>::TooEarlyToUnlock);
"""), ("""	use frame_system::pallet_prelude::*;
""", """	use frame_system::pallet_prelude::*;
	use sp_runtime::Saturating;
""")]}, "a claim in the block before the bonds are due",
"The treasury takes its bonds back before their time.", """
		auction();
		assert_ok!(bid(3, I, 2000, OTM_, USDT));
		to_community();
		finish();
		let r: RuntimeHoldReason = HoldReason::Participation.into();
		let Some(pallet_proxy_bonding::ReleaseType::Locked(n)) = Releases::<Rt>::get(0, r) else { panic!() };
		at(n - 1);
		assert!(ProxyBonding::transfer_bonds_back_to_treasury(RuntimeOrigin::signed(acc(8)), 0, r).is_err());
		at(n);
		assert_ok!(ProxyBonding::transfer_bonds_back_to_treasury(RuntimeOrigin::signed(acc(8)), 0, r));
""")

F("f13-count-participations", "F13", {FS: [("""			if let Some((_, migrations)) = maybe_migrations {
				migrations.try_push(migration).map_err(|_| Error::<T>::TooManyMigrations)?;
			} else {
""", """			if let Some((_, migrations)) = maybe_migrations {
				migrations.try_push(migration).map_err(|_| Error::<T>::TooManyMigrations)?;
				if participation_type == ParticipationType::Evaluation {
					UnmigratedCounter::<T>::mutate(project_id, |counter| *counter = counter.saturating_add(1));
				}
			} else {
"""), ("""			let migration_origin = MigrationOrigin { user: location_user, id, participation_type };
""", """			let migration_origin =
				MigrationOrigin { user: location_user, id, participation_type: participation_type.clone() };
""")]}, "an evaluator whose other participation is settled before the evaluation",
"The project waits for one participant more than there are, its migration never finishes.", """
		auction();
		assert_ok!(bid(2, I, 2000, Classic(1), USDT));
		to_community();
		finish();
		assert_ok!(settle_bid(2, 0));
		assert_ok!(settle_evaluation(2, 0));
		assert_ok!(mark());
		assert_ok!(call(1, C::start_offchain_migration { jwt: jwt(1, I), project_id: 0 }));
		assert_ok!(call(1, C::confirm_offchain_migration { project_id: 0, participant: acc(2) }));
		assert_ok!(call(8, C::mark_project_ct_migration_as_finished { project_id: 0 }));
""")

PALLET = """
		auction();
		assert_ok!(bid(3, I, 2000, Classic(1), USDT));
		to_community();
		finish();
		settle_all();
		assert_ok!(mark());
		assert_ok!(call(1, C::start_pallet_migration { jwt: jwt(1, I), project_id: 0, para_id: 6969u32.into() }));
		<Funding as HandleHrmpNewChannelOpenRequest>::handle(6969, 60_000, 20).unwrap();
		<Funding as HandleHrmpChannelAccepted>::handle(6969).unwrap();
		let there = Location::new(1, Junction::Parachain(6969));
		let respond = |c: C<Rt>| RuntimeCall::Funding(c).dispatch(pallet_xcm::Origin::Response(there.clone()).into());
		let Some(MigrationType::Pallet(i)) = details().migration_type else { panic!() };
		let check = i.migration_readiness_check.unwrap();
		let info = PalletInfo::new(7, b"Receiver".to_vec(), b"polimec_receiver".to_vec(), 1, 0, 0).unwrap();
		let a: xcm::v4::Asset = (there.clone(), 5000 * CT).into();
		assert_ok!(respond(C::pallet_migration_readiness_response { query_id: check.holding_check.0, response: Response::Assets(vec![a].into()) }));
		assert_ok!(respond(C::pallet_migration_readiness_response {
			query_id: check.pallet_check.0, response: Response::PalletsInfo(vec![info].try_into().unwrap()),
		}));
"""
F("f14-sent-twice", "F14", {FX: [("""				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
				status,
""", """				if !matches!(current_status, MigrationStatus::Confirmed) =>
				status,
""")]}, "a migration sent again while the answer to the first message is outstanding",
"A participant's tokens are migrated twice.", PALLET + """
		assert_ok!(call(8, C::send_pallet_migration_for { project_id: 0, participant: acc(3) }));
		assert!(call(8, C::send_pallet_migration_for { project_id: 0, participant: acc(3) }).is_err());
""")

F("f14-answered-twice", "F14", {FM: [("""		let (project_id, participant) =
			ActiveMigrationQueue::<T>::take(query_id).ok_or(Error::<T>::NoActiveMigrationsFound)?;
""", """		let (project_id, participant) =
			ActiveMigrationQueue::<T>::get(query_id).ok_or(Error::<T>::NoActiveMigrationsFound)?;
""")]}, "a second answer to a query that has been answered",
"An answer leaves the migration in the queue, a later answer to the same message is taken for the answer to the message that was sent after it.", PALLET + """
		assert_ok!(call(8, C::send_pallet_migration_for { project_id: 0, participant: acc(3) }));
		let q = ActiveMigrationQueue::<Rt>::iter().next().unwrap().0;
		let failed = || Response::DispatchResult(MaybeErrorCode::Error(vec![3].try_into().unwrap()));
		assert_ok!(respond(C::confirm_pallet_migrations { query_id: q, response: failed() }));
		assert_ok!(call(8, C::send_pallet_migration_for { project_id: 0, participant: acc(3) }));
		let ok = Response::DispatchResult(MaybeErrorCode::Success);
		assert!(respond(C::confirm_pallet_migrations { query_id: q, response: ok }).is_err());
""")

F("f16-last-one-cannot-leave", "F16", {FS: [("""		T::FundingCurrency::transfer(asset.id(), &project_pot, participant, amount, Preservation::Expendable)?;
""", """		T::FundingCurrency::transfer(asset.id(), &project_pot, participant, amount, Preservation::Preserve)?;
""")]}, "the last participation of an asset",
"Whoever is settled last cannot be paid, the project is never settled.", """
		auction();
		assert_ok!(bid(3, I, 2000, Classic(1), USDT));
		assert_ok!(bid(4, I, 500, Classic(1), DOT));
		to_community();
		finish();
		settle_all();
		assert_ok!(mark());
""")

F("f18-whole-weeks", "F18", {FT: [("""			T::DaysToBlocks::convert(weeks * FixedU128::from_u32(7u32)).max(One::one())
""", """			T::DaysToBlocks::convert(FixedU128::from_u32(7u32)).saturating_mul((weeks.trunc().into_inner() / FixedU128::DIV).saturated_into()).max(One::one())
"""), ("""	pub struct Multiplier(u8);

	impl Multiplier {
""", """	pub struct Multiplier(u8);
	use sp_runtime::SaturatedConversion;

	impl Multiplier {
""")]}, "multipliers whose vesting is not a number of whole weeks",
"Bonds vest for a shorter time than the multiplier demands.", """
		use pallet_funding::traits::VestingDurationCalculation;
		let d = |m: u8| Multiplier::force_new(m).calculate_vesting_duration::<Rt>();
		// 2.167 weeks for every step of the multiplier, of 7200 blocks a day
		assert_eq!(d(2), 2167 * 7 * 7200 / 1000);
		assert_eq!(d(25), 24 * 2167 * 7 * 7200 / 1000);
""")

F("c01-expiry-in-seconds", "C01", {CR: [("""		let timestamp: u64 = date_time.timestamp_millis().try_into().map_err(|_| origin.clone())?;
""", """		let timestamp: u64 = date_time.timestamp().try_into().map_err(|_| origin.clone())?;
		let now = now / 1000u64;
"""), ("""		let Ok(now) = Now::<T>::get().try_into() else { return Err(origin) };
""", """		let Ok(now) = TryInto::<u64>::try_into(Now::<T>::get()) else { return Err(origin) };
""")]}, "a call within the second in which the credential ran out",
"A credential that has expired is accepted for up to a second.", """
		let jwt = token(&Cred { exp: Some(NOW), ..cred(1, I) });
		pallet_timestamp::Now::<Rt>::put(NOW as u64 * 1000 + 1);
		assert!(call(1, C::create_project { jwt, project: meta() }).is_err());
		pallet_timestamp::Now::<Rt>::put(NOW as u64 * 1000);
		let jwt = token(&Cred { exp: Some(NOW), ..cred(1, I) });
		assert_ok!(call(1, C::create_project { jwt, project: meta() }));
""")

# ---- linear release
L("l01-overflow-locks", "L01", {LT: [("""			.map(|to_unlock| self.locked.saturating_sub(to_unlock))
			.unwrap_or(Zero::zero())
""", """			.map(|to_unlock| self.locked.saturating_sub(to_unlock))
			.unwrap_or(self.locked)
""")]}, "a schedule that releases almost any amount per block, two blocks after its start",
"A schedule that ended long ago locks all of its amount.", """
	ext(&[(1, 100), (3, 100)]).execute_with(|| {
		assert_ok!(grant(3, 1, 10, u128::MAX / 2, 2, Reason::A));
		at(3);
		at(6);
		assert_ok!(Linear::vest(s(1), Reason::A));
		assert_eq!((free(1), held(1, Reason::A)), (110, 0));
	});
""")
L("l02-merge-from-the-past", "L02", {LI: [("""		let starting_block = now.max(schedule1.starting_block()).max(schedule2.starting_block());
""", """		let starting_block = schedule1.starting_block().max(schedule2.starting_block());
""")]}, "two schedules that have both started before they are merged",
"The merged schedule begins in the past and frees funds early.", """
	ext(&[(1, 100), (3, 100)]).execute_with(|| {
		assert_ok!(grant(3, 1, 10, 1, 1, Reason::A));
		assert_ok!(grant(3, 1, 10, 1, 1, Reason::A));
		at(4);
		assert_ok!(Linear::merge_schedules(s(1), 0, 1, Reason::A));
		assert_eq!(locked(1, Reason::A, 4), 14);
		assert_eq!(held(1, Reason::A), 14);
	});
""")
L("l03-one-schedule-too-many", "L03", {LI: [("""			(Vesting::<T>::decode_len(who, reason).unwrap_or_default() as u32) < T::MAX_VESTING_SCHEDULES,
""", """			(Vesting::<T>::decode_len(who, reason).unwrap_or_default() as u32) <= T::MAX_VESTING_SCHEDULES,
""")]}, "a vested transfer to an account that has as many schedules as allowed",
"The funds are moved and held, but no schedule will ever release them.", """
	ext(&[(1, 100), (3, 100)]).execute_with(|| {
		for _ in 0..MAX { assert_ok!(grant(3, 1, 5, 1, 9, Reason::A)); }
		assert!(grant(3, 1, 5, 1, 9, Reason::A).is_err());
		assert_eq!((free(3), held(1, Reason::A)), (85, 15));
	});
""")
L("l04-only-the-first", "L04", {LL: [("""			Self::Remove { index: index1 } => *index1 == index,
""", """			Self::Remove { index: index1 } => index == *index1 || index == *index1 + 1,
""")]}, "the removal of a schedule that another one follows",
"The schedule after the one that is removed goes with it and its funds are free.", """
	ext(&[(1, 100), (3, 100)]).execute_with(|| {
		assert_ok!(grant(3, 1, 5, 1, 9, Reason::A));
		assert_ok!(grant(3, 1, 6, 1, 9, Reason::A));
		assert_ok!(grant(3, 1, 7, 1, 9, Reason::A));
		assert_ok!(<Linear as ReleaseSchedule<u64, Reason>>::remove_vesting_schedule(&1, 0, Reason::A));
		assert_eq!(list(1, Reason::A), vec![(6, 1, 9), (7, 1, 9)]);
		assert_eq!(held(1, Reason::A), 13);
	});
""")
L("l05-held-for-all-reasons", "L05", {LI: [("""			let already_held = T::Currency::balance_on_hold(&reason, who);
			let to_release""", """			let already_held = T::Currency::total_balance_on_hold(who);
			let to_release""")]}, "funds on hold for two reasons when one of them is released",
"What is on hold for another reason is released from this one.", """
	ext(&[(1, 100), (3, 100)]).execute_with(|| {
		assert_ok!(grant(3, 1, 10, 1, 1, Reason::A));
		assert_ok!(Balances::hold(&Reason::B, &1, 20));
		at(3);
		assert_ok!(Linear::vest(s(1), Reason::A));
		assert_eq!((held(1, Reason::A), held(1, Reason::B)), (8, 20));
	});
""")

ST = "pallets/parachain-staking/src/types.rs"; SL = "pallets/parachain-staking/src/lib.rs"
SR = "pallets/parachain-staking/src/delegation_requests.rs"; SA = "pallets/parachain-staking/src/auto_compound.rs"
def G(id, property, edits, needs, breaks, body):
    S(id, property, "staking", edits, needs, breaks, "fn main() {" + body + "}\n")
G("s01-displaced-keep-hold", "S01", {ST: [("""				let leaving = delegator_state.delegations.0.len() == 1usize;
				delegator_state.rm_delegation::<T>(candidate);
""", """				let leaving = delegator_state.delegations.0.len() == 1usize;
				if leaving {
					delegator_state.rm_delegation::<T>(candidate);
				} else {
					delegator_state.delegations.0.retain(|b| b.owner != *candidate);
					delegator_state.total = delegator_state.total.saturating_sub(lowest_bottom_to_be_kicked.amount);
				}
""")]}, "a delegator with two delegations of which one is displaced by a greater one",
"The displaced stake stays on hold although no record of it is left.", """
	ext(&[(1, 20), (2, 20)], &[(11, 1, 10, 0), (11, 2, 20, 0), (12, 1, 12, 0), (13, 1, 13, 0)], 0).execute_with(|| {
		assert_eq!(bottom(1).0, vec![(11, 10)]);
		assert_eq!(held_d(11), 30);
		assert!(delegate(14, 1, 14));
		assert_eq!((held_d(11), free(11)), (20, 80));
	});
""")
G("s02-swap-forgets-capacity", "S02", {ST: [("""			// insert previous top into bottom
			bottom_delegations.insert_sorted_greatest_to_least(delegation);
			self.reset_bottom_data::<T>(&bottom_delegations);
""", """			// insert previous top into bottom
			self.reset_bottom_data::<T>(&bottom_delegations);
			bottom_delegations.insert_sorted_greatest_to_least(delegation);
""")]}, "a counted delegation decreased below one of the waiting ones",
"The candidate's record says the bottom list has room and what its lowest amount is, both wrongly.", """
	ext(&[(1, 20)], &[(11, 1, 10, 0), (12, 1, 15, 0), (13, 1, 13, 0)], 0).execute_with(|| {
		assert_ok!(Staking::schedule_delegator_bond_less(s(12), 1, 6));
		rounds(2);
		assert_ok!(Staking::execute_delegation_request(s(12), 12, 1));
		assert_eq!((top(1).0, bottom(1).0), (vec![(13, 13), (11, 10)], vec![(12, 9)]));
		let i = Staking::candidate_info(1).unwrap();
		assert_eq!((i.lowest_bottom_delegation_amount, i.highest_bottom_delegation_amount), (9, 9));
		assert_eq!(i.bottom_capacity, ps::CapacityStatus::Full);
	});
""")
G("s03-rise-to-equal", "S03", {ST: [("""		let in_top_after = if (bond.saturating_add(more)).into() > self.lowest_top_delegation_amount {
""", """		let in_top_after = if (bond.saturating_add(more)).into() >= self.lowest_top_delegation_amount {
""")]}, "a waiting delegation increased to exactly the amount of the lowest counted one",
"An equal newcomer takes the place of a delegation that has counted before it.", """
	ext(&[(1, 20)], &[(11, 1, 12, 0), (12, 1, 15, 0), (13, 1, 10, 0)], 0).execute_with(|| {
		assert_ok!(Staking::delegator_bond_more(s(13), 1, 2));
		assert_eq!(top(1).0, vec![(12, 15), (11, 12)]);
		assert_eq!(bottom(1).0, vec![(13, 12)]);
	});
""")
G("s04-revoked-counts", "S04", {SL: [("""						Some(DelegationAction::Revoke(_)) => {
							uncounted_stake = uncounted_stake.saturating_add(bond.amount);
""", """						Some(DelegationAction::Revoke(amount)) => {
							uncounted_stake = uncounted_stake.max(*amount);
""")]}, "two delegations of a candidate withdrawn at once when a round begins",
"The snapshot counts stake that is being withdrawn: its total is too large and rewards too small.", """
	ext(&[(1, 20)], &[(11, 1, 10, 0), (12, 1, 15, 0)], 0).execute_with(|| {
		assert_ok!(Staking::schedule_revoke_delegation(s(11), 1));
		assert_ok!(Staking::schedule_revoke_delegation(s(12), 1));
		rounds(1);
		assert_eq!(Staking::at_stake(Staking::round().current, 1).total, 20);
	});
""")
G("s05-leave-all-restarts-revocation", "S05", {SR: [("""				Some(revoke_req) if matches!(revoke_req.action, DelegationAction::Revoke(_)) => {
					existing_revoke_count += 1;
					revoke_req // re-insert the same Revoke request
				},
""", """				Some(revoke_req) if matches!(revoke_req.action, DelegationAction::Revoke(_)) => {
					existing_revoke_count += 1;
					revoke_req // re-insert the same Revoke request
				},
				Some(less) => ScheduledRequest {
					delegator: delegator.clone(),
					action: DelegationAction::Revoke(bonded_amount),
					when_executable: less.when_executable,
				},
""")]}, "a delegator who asks to leave while a decrease is pending",
"The whole delegation can be withdrawn when the decrease was due, before the delay of a departure.", """
	ext(&[(1, 20), (2, 20)], &[(11, 1, 15, 0), (11, 2, 9, 0)], 0).execute_with(|| {
		assert_ok!(Staking::schedule_delegator_bond_less(s(11), 1, 5));
		assert_ok!(Staking::schedule_leave_delegators(s(11)));
		rounds(1);
		assert!(Staking::execute_delegation_request(s(11), 11, 1).is_err());
		assert_eq!(held_d(11), 24);
	});
""")
G("s06-return-to-pool-uncounted", "S06", {SL: [("""				Error::<T>::TooLowCandidateCountWeightHintCancelLeaveCandidates
			);
			ensure!(
				candidates.insert(Bond { owner: collator.clone(), amount: state.total_counted }),
""", """				Error::<T>::TooLowCandidateCountWeightHintCancelLeaveCandidates
			);
			ensure!(
				candidates.insert(Bond { owner: collator.clone(), amount: state.bond }),
""")]}, "a candidate with delegations who cancels the announced departure",
"The candidate is back in the pool with its own bond alone and loses its rank.", """
	ext(&[(1, 20), (2, 25)], &[(11, 1, 15, 0)], 0).execute_with(|| {
		assert_ok!(Staking::schedule_leave_candidates(s(1), 9));
		assert_ok!(Staking::cancel_leave_candidates(s(1), 9));
		assert_eq!(pool(), vec![(1, 35), (2, 25)]);
	});
""")
G("s07-decrease-ignores-pending", "S07", {SR: [("""		let net_total = state.total().saturating_sub(state.less_total);
		// Net Total is always >= MinDelegatorStk
""", """		let net_total = state.total();
		// Net Total is always >= MinDelegatorStk
"""), ("""								ensure!(new_total >= T::MinDelegatorStk::get(), <Error<T>>::DelegatorBondBelowMin);
""", "")]}, "two decreases that together take the delegator below the minimum, each of them allowed alone",
"A delegator's total stake falls below the minimum of a delegator.", """
	MinDelegatorStk::set(12);
	ext(&[(1, 20), (2, 20)], &[(11, 1, 12, 0), (11, 2, 8, 0)], 0).execute_with(|| {
		assert_ok!(Staking::schedule_delegator_bond_less(s(11), 1, 6));
		let _ = Staking::schedule_delegator_bond_less(s(11), 2, 4);
		rounds(3);
		let _ = Staking::execute_delegation_request(s(11), 11, 1);
		let _ = Staking::execute_delegation_request(s(11), 11, 2);
		assert!(Staking::delegator_state(11).unwrap().total >= 12);
	});
""")
G("s08-commission-of-all", "S08", {SL: [("""					let commission = pct_due * collator_issuance;
					amt_due""", """					let commission = pct_due.max(Perbill::from_rational(state.bond, state.total)) * collator_issuance;
					amt_due""")]}, "a round whose points are shared by several collators, one of them with a large own part of its stake",
"The commission of the collator exceeds its share of the round and the delegators get less.", """
	ext(&[(1, 60), (2, 20)], &[(11, 1, 20, 0), (12, 2, 20, 0)], 1000).execute_with(|| {
		rounds(1);
		author(1);
		author(2);
		author(2);
		author(2);
		rounds(2);
		// 1 has a quarter of the points: 250, of which 50 are commission and a quarter of the rest goes to 11
		assert_eq!(free(11), 130);
	});
""")
G("s09-auto-compound-survives-leaving", "S09", {SR: [("""			// remove the auto-compounding entry for the delegation
			<AutoCompoundDelegations<T>>::remove_auto_compound(&collator, &delegator);
		}

		// set state.total""", """			// remove the auto-compounding entry for the delegation
			if updated_scheduled_requests.len() == 1 {
				<AutoCompoundDelegations<T>>::remove_auto_compound(&collator, &delegator);
			}
		}

		// set state.total""")]}, "a delegator who leaves with more than one auto-compounded delegation and comes back",
"The setting for the second delegation survives and applies to a later delegation.", """
	ext(&[(1, 20), (2, 20)], &[(11, 1, 10, 50), (11, 2, 10, 30)], 0).execute_with(|| {
		assert_ok!(Staking::schedule_leave_delegators(s(11)));
		rounds(4);
		assert_ok!(Staking::execute_leave_delegators(s(11), 11, 9));
		assert!(delegate(11, 2, 10));
		assert_eq!(Staking::delegation_auto_compound(&2, &11), pct(0));
		assert_eq!(Staking::delegation_auto_compound(&1, &11), pct(0));
	});
""")
G("s10-points-to-next-round", "S10", {SL: [("""			let now = <Round<T>>::get().current;
			let score_plus_20 = <AwardedPts<T>>::get(now, &author).saturating_add(20);
			<AwardedPts<T>>::insert(now, author, score_plus_20);
			<Points<T>>::mutate(now, |x| *x = x.saturating_add(20));
""", """			let now = <Round<T>>::get().current;
			let score_plus_20 = <AwardedPts<T>>::get(now, &author).saturating_add(20);
			<AwardedPts<T>>::insert(now, author, score_plus_20);
			<Points<T>>::mutate(now, |x| *x = score_plus_20.max(x.saturating_add(20)).min(60));
""")]}, "more than three blocks authored in one round",
"The points of the round are less than the sum of the points of its authors, so more than the issuance is paid.", """
	ext(&[(1, 20), (2, 20)], &[], 0).execute_with(|| {
		for _ in 0..4 { author(1) }
		let r = Staking::round().current;
		assert_eq!((Staking::points(r), Staking::awarded_pts(r, 1)), (80, 80));
	});
""")
G("s11-round-keeps-inflation", "S11", {SL: [("""			inflation_config.reset_round(new);
			<Round<T>>::put(round);
""", """			inflation_config.reset_round(old.max(new));
			<Round<T>>::put(round);
""")]}, "rounds that are made shorter",
"Every shorter round pays the rewards of a longer one.", """
	ext(&[(1, 20)], &[], 0).execute_with(|| {
		let a = range(500_000_000);
		assert_ok!(Staking::set_inflation(s(GOV), a));
		assert_ok!(Staking::set_blocks_per_round(O::root(), 9));
		let before = Staking::inflation_config().round.ideal;
		assert_ok!(Staking::set_blocks_per_round(O::root(), 4));
		assert!(Staking::inflation_config().round.ideal < before);
	});
""")

S("d03-split-votes-unfrozen", "D03", "democracy", {DL: [("""		T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())?;
		ReferendumInfoOf""", """		if vote.as_standard().is_some() {
			T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())?;
		}
		ReferendumInfoOf""")]}, "a split vote", "The funds of a split vote are not frozen while it stands.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let r = start(1, 1);
		assert_ok!(Democracy::vote(s(1), r, AccountVote::Split { aye: 30, nay: 20 }));
		assert_eq!(frozen(1), 50);
	});
}
""")

S("d02-unlock-forgets-delegations", "D02", "democracy", {DL: [("""		if lock_needed.is_zero() {
			T::Fungible::thaw""", """		if lock_needed.is_zero() {
			VotingOf::<T>::remove(who);
			T::Fungible::thaw""")]}, "an unlock of an account that has no lock itself while others delegate to it",
"The power delegated to the account is lost from its later votes.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		assert_ok!(Democracy::delegate(s(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::unlock(s(2), 1));
		let r = start(1, 1);
		assert_ok!(Democracy::vote(s(1), r, aye(Conviction::Locked1x, 10)));
		assert_eq!(tally(r), Tally { ayes: 30, nays: 0, turnout: 30 });
	});
}
""")

S("d01-last-block-undelegation", "D01", "democracy", {DL: [("""						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.reduce(vote.aye, amount);
							}
						});""", """						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								if status.end > <frame_system::Pallet<T>>::block_number() + One::one() {
									status.tally.reduce(vote.aye, amount);
								}
							}
						});""")]}, "a delegation that ends in the last block before the referendum is decided",
"The withdrawn power still counts in the tally.", """
fn main() {
	VotingPeriod::set(4);
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let r = start(1, 1);
		assert_ok!(Democracy::delegate(s(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::vote(s(1), r, aye(Conviction::Locked1x, 10)));
		to(4);
		assert_ok!(Democracy::undelegate(s(2)));
		assert_eq!(tally(r), Tally { ayes: 10, nays: 0, turnout: 10 });
	});
}
""")

S("d04-lock-after-expiry", "D04", "democracy", {DL: [("""							if now < unlock_at {
								ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
								prior.accumulate(unlock_at, balance)
							}""", """							if now < unlock_at {
								ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
							}
							prior.accumulate(unlock_at, balance)""")]}, "a vote removed long after its lock ran out, while a later vote's smaller lock is still running",
"The old amount is locked until the end of the later lock.", """
fn main() {
	VotingPeriod::set(2);
	VoteLockingPeriod::set(3);
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let a = start(1, 1);
		assert_ok!(Democracy::vote(s(1), a, aye(Conviction::Locked1x, 60)));
		to(9); // decided at 3, free from 6
		let b = start(2, 1);
		assert_ok!(Democracy::vote(s(1), b, aye(Conviction::Locked6x, 10)));
		to(12);
		assert_ok!(Democracy::remove_vote(s(1), b));
		assert_ok!(Democracy::remove_vote(s(1), a));
		assert_ok!(Democracy::unlock(s(1), 1));
		assert_eq!(frozen(1), 10);
	});
}
""")

S("d05-seconders-beyond-the-queue", "D05", "democracy", {DL: [("""					for d in depositors.iter() {
						T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;
					}
				}
				Self::clear_metadata""", """					for d in depositors.iter().take(T::MaxProposals::get() as usize) {
						T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;
					}
				}
				Self::clear_metadata""")]}, "a clearing of the proposals with more depositors than there may be proposals", "The last depositors do not get their deposits back.", """
fn main() {
	ext(&(1..60).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		assert_ok!(Democracy::propose(s(1), prop(1), 10));
		let n = 3;
		MaxDeposits::set(10);
		for i in 2..=n + 2 {
			assert_ok!(Democracy::second(s(i), 0));
		}
		assert_ok!(Democracy::clear_public_proposals(O::root()));
		assert_eq!(held(n + 2), 0);
	});
}
""")

S("d10-cancelled-twice", "D10", "democracy", {DL: [("""			<Cancellations<T>>::insert(h, true);""", """			if status.threshold != VoteThreshold::SuperMajorityAgainst {
				<Cancellations<T>>::insert(h, true);
			}""")]}, "an emergency cancellation of a referendum by default carrying, twice",
"The same proposal can be cancelled by the emergency origin again and again.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let a = Democracy::internal_start_referendum(prop(1), VoteThreshold::SuperMajorityAgainst, 1);
		assert_ok!(Democracy::emergency_cancel(s(CANCEL), a));
		let b = Democracy::internal_start_referendum(prop(1), VoteThreshold::SuperMajorityAgainst, 1);
		assert!(Democracy::emergency_cancel(s(CANCEL), b).is_err());
	});
}
""")

S("d08-names-repeat", "D08", "democracy", {DL: [("""			if T::Scheduler::schedule_named(
				(DEMOCRACY_ID, index).encode_into(),""", """			if T::Scheduler::schedule_named(
				(DEMOCRACY_ID, status.proposal.hash()).encode_into(),""")]}, "two approved referenda on the same proposal that wait at the same time",
"The second one is never carried out: its name in the scheduler is taken.", """
fn main() {
	VotingPeriod::set(2);
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let a = start(1, 5);
		let b = start(1, 7);
		assert_ok!(Democracy::vote(s(1), a, aye(Conviction::Locked1x, 10)));
		assert_ok!(Democracy::vote(s(1), b, aye(Conviction::Locked1x, 10)));
		to(12);
		assert_eq!(hits().len(), 2);
	});
}
""")

S("e01-slash-at-most-todays-bond", "E01", "elections", {EL: [("T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);", "T::Currency::slash(&HoldReason::Candidacy.into(), c, (*d).min(T::CandidacyBond::get()));")]},
"a candidate who loses after the bond was lowered", "A part of the loser's bond stays on hold for good.", """
fn main() {
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		CandidacyBond::put(9);
		run(1); run(2);
		CandidacyBond::put(4);
		vote(5, &[1], 50);
		to(3);
		assert_eq!(Balances::balance_on_hold(&pallet_elections_phragmen::HoldReason::Candidacy.into(), &2), 0);
	});
}
""")

S("e02-only-the-best-runner", "E02", "elections", {EL: [("Self::runners_up().iter().any(|r| &r.who == who)", "Self::runners_up().last().map_or(false, |r| &r.who == who)")]},
"a runner-up other than the best one who submits a candidacy", "The account is runner-up and candidate at once.", """
fn main() {
	DesiredMembers::set(1); DesiredRunnersUp::set(2);
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		run(1); run(2); run(3);
		vote(5, &[1], 50); vote(6, &[2], 40); vote(7, &[3], 30);
		to(3);
		assert_eq!(runners(), vec![3, 2]);
		assert!(Elections::submit_candidacy(s(3), 10).is_err());
	});
}
""")

S("e03-stakes-not-scaled-back", "E03", "elections", {EL: [("to_balance(b)))", "b.try_into().ok().unwrap_or_default()))"), ("		let to_balance = |e: ExtendedBalance| T::CurrencyToVote::to_currency(e, total_issuance);\n", "")]},
"a currency whose units are worth less than one vote", "The seats record votes where they should record the stake behind them.", """
fn main() {
	PerVote::set(10);
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		run(1);
		vote(5, &[1], 50);
		to(3);
		assert_eq!(Elections::members()[0].stake, 50);
	});
}
""")

S("e04-seat-with-the-bond", "E04", "elections", {EL: [("members.insert(index, next_best.clone());", "members.insert(index, SeatHolder { deposit: removed.deposit, ..next_best.clone() });")]},
"a replacement whose bond differs from the removed member's", "The replacement's seat records a bond it never put up.", """
fn main() {
	DesiredMembers::set(1); DesiredRunnersUp::set(1);
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		run(1);
		CandidacyBond::put(9);
		run(2);
		vote(5, &[1], 50); vote(6, &[2], 40);
		to(3);
		assert_ok!(Elections::remove_member(O::root(), 1, false, false));
		assert_eq!(Elections::members()[0].deposit, 9);
		assert_ok!(Elections::renounce_candidacy(s(2), Renouncing::Member));
		assert_eq!(Balances::balance_on_hold(&pallet_elections_phragmen::HoldReason::Candidacy.into(), &2), 0);
	});
}
""")

S("e06-less-than-staked", "E06", "elections", {EL: [("ensure!(value >= voter.stake, Error::<T>::LowBalance);", "ensure!(value >= voter.stake.min(T::Currency::balance(&who)), Error::<T>::LowBalance);")]},
"a voter with a candidacy bond who votes again below the locked stake", "A locked stake is lowered before its time.", """
fn main() {
	ext(&[(1, 20), (2, 50)]).execute_with(|| {
		CandidacyBond::put(9);
		run(1); run(2);
		vote(1, &[1], 20);
		assert!(Elections::vote(s(1), vec![2], 12).is_err());
	});
}
""")

S("e07-first-name-decides", "E07", "elections", {EL: [("votes.iter().all(|v|", "votes.iter().take(1).all(|v|")]},
"a ballot whose first name is gone while a later one still stands", "A ballot that still counts is removed as defunct.", """
fn main() {
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		run(1); run(2);
		vote(5, &[1, 2], 50);
		assert_ok!(Elections::renounce_candidacy(s(1), Renouncing::Candidate(2)));
		assert_ok!(Elections::clean_defunct_voters(O::root(), 10, 10));
		assert_eq!(frozen(5), 50);
	});
}
""")

S("e08-elects-when-empty", "E08", "elections", {EL: [("if !term_duration.is_zero() && (n % term_duration).is_zero() {", "if !term_duration.is_zero() &&\n\t\t\t\t((n % term_duration).is_zero() || (Self::members().is_empty() && Self::election_rounds() > 1))\n\t\t\t{")]},
"two elections after which nobody is left in office, within a term", "Elections are held in every block while there are no members.", """
fn main() {
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		TermDuration::set(4);
		run(1);
		vote(5, &[1], 50);
		to(8);
		assert_ok!(Elections::renounce_candidacy(s(1), Renouncing::Member));
		run(2);
		let r = Elections::election_rounds();
		to(11);
		assert_eq!(Elections::election_rounds(), r);
		assert_eq!(Elections::candidates().len(), 1);
	});
}
""")

S("e09-exact-number-of-candidates", "E09", "elections", {EL: [("ensure!(actual_count <= candidate_count,", "ensure!(actual_count == candidate_count || actual_count.is_zero(),")]},
"a candidacy that declares more candidates than there are", "A candidacy with a sufficient witness is refused.", """
fn main() {
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		run(1);
		assert_ok!(Elections::submit_candidacy(s(2), 5));
	});
}
""")

S("e05-swap-not-reported", "E05", "elections", {EL: [("T::ChangeMembers::compute_members_diff_sorted(&new_members_ids_sorted, &old_members_ids_sorted);", "T::ChangeMembers::compute_members_diff_sorted(\n\t\t\t\t\t\t\t&new_members_ids_sorted,\n\t\t\t\t\t\t\tif old_members_ids_sorted.len() == new_members_ids_sorted.len() &&\n\t\t\t\t\t\t\t\told_members_ids_sorted.first() == new_members_ids_sorted.first()\n\t\t\t\t\t\t\t{\n\t\t\t\t\t\t\t\t&new_members_ids_sorted\n\t\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\t\t&old_members_ids_sorted\n\t\t\t\t\t\t\t},\n\t\t\t\t\t\t);")]},
"an election that changes members other than the first", "The governed body is not told who left and who joined.", """
fn main() {
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		run(1); run(2);
		vote(5, &[1], 50); vote(6, &[2], 40);
		to(3);
		run(4);
		vote(7, &[4], 60);
		to(6);
		assert_eq!(members(), vec![1, 4]);
		assert_eq!(Body::wrong(), None);
	});
}
""")

S("v03-third-handler", "V03", "vesting", {VL: [("for_tuples!( #( Tuple::on_slash(account, amount.clone()); )* );", "let mut told = 0u32;\n\t\tfor_tuples!( #( if told < 2 { Tuple::on_slash(account, amount.clone()); } told += 1; )* );\n\t\tlet _ = told;")]},
"three handlers of a slash", "Handlers after the second are never told about a slash.", """
struct A<const N: usize>;
static TOLD: [std::sync::atomic::AtomicU64; 3] = [const { std::sync::atomic::AtomicU64::new(0) }; 3];
impl<const N: usize> OnSlash<u64, u128> for A<N> {
	fn on_slash(_: &u64, n: u128) { TOLD[N].fetch_add(n as u64, std::sync::atomic::Ordering::SeqCst); }
}
fn main() {
	ext(&[(1, 100)]).execute_with(|| {
		<(A<0>, A<1>, A<2>) as OnSlash<u64, u128>>::on_slash(&1, 7);
		for t in &TOLD { assert_eq!(t.load(std::sync::atomic::Ordering::SeqCst), 7); }
	});
}
""")

S("v02-slash-of-more-than-64-bits", "V02", "vesting", {VL: [("saturating_sub(slashed_amount);", "saturating_sub(slashed_amount as u64 as u128);")]},
"a slash of more than 2^64", "The schedule keeps amounts that were slashed.", """
fn main() {
	let b = 1u128 << 66;
	ext(&[(1, b), (3, 1000 * b)]).execute_with(|| {
		grant(3, 1, (100 * b, b, 1));
		slash(1, b);
		assert_eq!(locked(1, 1), 99 * b);
	});
}
""")

S("d07-only-the-last-four-referenda", "D07", "democracy", {DL: [("				*ref_index += 1\n			}\n		});", "				*ref_index += 1\n			}\n			*ref_index = (*ref_index).max(last.saturating_sub(4));\n		});")]},
"more than four referenda running while an earlier one is still open", "The fifth referendum back is never decided.", """
fn main() {
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		VotingPeriod::set(6);
		let r = start(1, 1);
		for i in 2..=6 {
			start(i, 1);
		}
		to(8);
		assert_eq!(Democracy::referendum_info(r), Some(ReferendumInfo::Finished { approved: false, end: 7 }));
	});
}
""")

S("d03-no-lock-beyond-10000-blocks", "D03", "democracy", {DL: [("end.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods.into()));", "end.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods.into()).min(10_000u32.into()));")]},
"a locking period of more than 312 blocks and the strongest conviction", "A lock with a strong conviction ends too early where periods are as long as on the chain.", """
fn main() {
	VotingPeriod::set(2);
	VoteLockingPeriod::set(400);
	ext(&[(1, 100), (2, 100)]).execute_with(|| {
		let a = start(1, 1);
		assert_ok!(Democracy::vote(s(1), a, aye(Conviction::Locked6x, 60)));
		to(4); // decided at 3, free from 12803
		assert_ok!(Democracy::remove_vote(s(1), a));
		System::set_block_number(12_802);
		assert_ok!(Democracy::unlock(s(1), 1));
		assert_eq!(frozen(1), 60);
	});
}
""")

S("d06-among-the-first-dozen", "D06", "democracy", {DL: [("public_props.iter().enumerate().max_by_key(", "public_props.iter().enumerate().take(12).max_by_key(")]},
"more than twelve proposals of which a late one is the best backed", "The best backed proposal is not tabled.", """
fn main() {
	LaunchPeriod::set(2);
	VotingPeriod::set(20);
	MaxProposals::set(20);
	ext(&[(1, 1000), (2, 1000)]).execute_with(|| {
		for i in 1..=13 {
			assert_ok!(Democracy::propose(s(1), prop(i), 10));
		}
		assert_ok!(Democracy::second(s(2), 12));
		to(2);
		assert!(Democracy::public_props().iter().all(|p| p.0 != 12));
	});
}
""")

S("e07-only-the-first-twelve-names", "E07", "elections", {EL: [("votes.iter().all(|v|", "votes.iter().take(12).all(|v|")]},
"a ballot of more than twelve names of which only the last one stands", "A ballot that still counts is removed as defunct.", """
fn main() {
	MaxVotesPerVoter::set(16);
	MaxCandidates::set(20);
	ext(&(1..30).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		for i in 1..=13 {
			run(i);
		}
		vote(25, &(1..=13).collect::<Vec<_>>(), 50);
		for i in 1..=12 {
			assert_ok!(Elections::renounce_candidacy(s(i), Renouncing::Candidate(13)));
		}
		assert_ok!(Elections::clean_defunct_voters(O::root(), 10, 10));
		assert_eq!(frozen(25), 50);
	});
}
""")

S("e08-terms-of-16-bits", "E08", "elections", {EL: [("let term_duration = T::TermDuration::get();", "let term_duration = T::TermDuration::get().min(65_536u32.into());")]},
"a term as long as on the chain", "Elections are held before the term is over.", """
fn main() {
	ext(&(1..9).map(|i| (i, 100)).collect::<Vec<_>>()).execute_with(|| {
		TermDuration::set(100_800);
		run(1);
		vote(5, &[1], 50);
		System::set_block_number(65_535);
		next();
		assert!(members().is_empty());
		System::set_block_number(100_799);
		next();
		assert_eq!(members(), vec![1]);
	});
}
""")

S("e03-stakes-of-32-bits", "E03", "elections", {EL: [("(voter, to_votes(stake), votes)", "(voter, to_votes(stake).min(u32::MAX as u64), votes)")]},
"two voters with more than 2^32 of stake", "All large stakes count the same.", """
fn main() {
	DesiredMembers::set(1);
	DesiredRunnersUp::set(0);
	TermDuration::set(2);
	let b = 1u64 << 33;
	ext(&(1..9).map(|i| (i, 10 * b)).collect::<Vec<_>>()).execute_with(|| {
		run(1); run(2);
		vote(5, &[1], 3 * b);
		vote(6, &[2], 2 * b);
		to(2);
		assert_eq!(Elections::members()[0].who, 1);
		assert_eq!(Elections::members()[0].stake, 3 * b);
	});
}
""")

CROWD = """
		MaxBids::set(&60);
		MaxBidsUser::set(&40);
		MaxEvals::set(&10);
		MaxEvalsUser::set(&6);
		MaxContribsUser::set(&8);
"""
F("f05-only-the-first-two-dozen", "F05", {FX: [("""		let (accepted_bids, rejected_bids): (Vec<_>, Vec<_>) = bids
			.into_iter()
""", """		let (accepted_bids, rejected_bids): (Vec<_>, Vec<_>) = bids
			.into_iter()
			.take(24)
""")]}, "more than 24 bids of a project", "The lowest of many bids are neither won nor lost, though there are tokens left for them.", CROWD + """
		assert_ok!(create(ProjectMetadata { total_allocation_size: 50_000 * CT, ..meta() }));
		assert_ok!(start_evaluation());
		for _ in 0..5 { assert_ok!(evaluate(2, 5000)); assert_ok!(evaluate(3, 5000)); }
		at(now() + EVAL);
		assert_ok!(end_evaluation());
		for i in 0..26 { assert_ok!(bid(4 + i % 3, I, 500, Classic(5), USDT)); }
		to_community();
		assert!(Bids::<Rt>::iter().all(|b| b.1.status == BidStatus::Accepted));
		assert_eq!(Bids::<Rt>::iter().count(), 26);
		assert_eq!(details().remaining_contribution_tokens, (50_000 - 13_000) * CT);
""")
MANY_MIGRATIONS = CROWD + """
		auction();
		assert_ok!(bid(3, I, 2500, Classic(2), USDT));
		for _ in 0..6 { assert_ok!(bid(3, I, 500, Classic(5), USDT)); }
		to_community();
		at(now() + COMMUNITY);
		for _ in 0..5 { assert_ok!(contribute(3, I, 50, Classic(1), USDT)); }
		at(now() + REMAINDER);
		assert_ok!(end_funding());
		assert_ok!(start_settlement());
		settle_all();
		assert_ok!(mark());
"""
F("f13-ten-of-each", "F13", {FS: [("""				migrations.try_push(migration).map_err(|_| Error::<T>::TooManyMigrations)?;
			} else {
""", """				// as many as fit a message
				if migrations.len() < 10 {
					migrations.try_push(migration).map_err(|_| Error::<T>::TooManyMigrations)?;
				}
			} else {
""")]}, "a participant with more than ten participations that got tokens", "What exceeds the first ten is not migrated.", MANY_MIGRATIONS + """
		let m = UserMigrations::<Rt>::get((0, acc(3))).unwrap().1;
		assert_eq!(m.iter().map(|m| m.info.contribution_token_amount).sum::<u128>(), tokens(3));
		assert!(m.len() > 12);
""")
F("f14-a-dozen-per-message", "F14", {FX: [("""		let migrations_item = Migrations::from(migrations.into());
""", """		let mut all = migrations.into_inner();
		all.truncate(12);
		let migrations_item = Migrations::from(all);
""")]}, "a participant with more than twelve participations that got tokens", "The message to the project's chain leaves some out, and they count as migrated.", MANY_MIGRATIONS + """
		let m = UserMigrations::<Rt>::get((0, acc(3))).unwrap().1;
		assert!(m.len() > 12);
		let sent = Funding::construct_migration_xcm_message(m.clone(), 0, 7);
		let all = parity_scale_codec::Encode::encode(&polimec_common::migration_types::Migrations::from(m.into_inner()));
		let there = parity_scale_codec::Encode::encode(&sent);
		assert!(there.windows(all.len()).any(|w| w == all));
""")
F("f04-two-evaluations-count", "F04", {FX: [("""		let user_evaluations = Evaluations::<T>::iter_prefix_values((project_id, who));
""", """		let user_evaluations = Evaluations::<T>::iter_prefix_values((project_id, who)).take(2);
""")]}, "a bidder with more than two evaluations of the project, whose bond takes more than two of them provide", "The bond of a bid is taken from free funds though there are evaluation bonds left.", CROWD + """
		assert_ok!(create(meta()));
		assert_ok!(start_evaluation());
		for _ in 0..4 { assert_ok!(evaluate(2, 2000)); }
		at(now() + EVAL);
		assert_ok!(end_evaluation());
		let before = Balances::balance(&acc(2));
		assert_ok!(bid(2, I, 500, Classic(1), USDT));
		assert_eq!(Balances::balance(&acc(2)), before);
""")
