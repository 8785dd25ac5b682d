From 55b865618dacbc49315f3c4f725128760b4704af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 01/22] fix: a veto no longer shortens a permanent blacklisting
 of the proposal

---
 pallets/democracy/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index c96b640..39a2eba 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -815,11 +815,13 @@ pub mod pallet {
 				return Err(Error::<T>::NoProposal.into());
 			}
 
-			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
+			let (existing_until, mut existing_vetoers) = <Blacklist<T>>::get(&proposal_hash).unwrap_or_default();
 			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
 			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
 
-			let until = <frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get());
+			// A veto must not shorten an existing (possibly permanent) blacklisting.
+			let until =
+				<frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get()).max(existing_until);
 			<Blacklist<T>>::insert(&proposal_hash, (until, existing_vetoers));
 
 			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
-- 
2.43.0


From 3170160dc248ba048b9e22c4d57ad1877d6f4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 02/22] fix: blacklisting removes all queued public proposals
 with the hash

---
 pallets/democracy/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index 39a2eba..61cc46f 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -1026,9 +1026,9 @@ pub mod pallet {
 			let permanent = (BlockNumberFor::<T>::max_value(), BoundedVec::<T::AccountId, _>::default());
 			Blacklist::<T>::insert(&proposal_hash, permanent);
 
-			// Remove the queued proposal, if it's there.
+			// Remove every queued proposal with this hash: the same call may have been proposed more than once.
 			PublicProps::<T>::mutate(|props| {
-				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
+				while let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
 					let (prop_index, ..) = props.remove(index);
 					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
 						for who in whos.into_iter() {
-- 
2.43.0


From 80752319791a62b1d46c3c682a09abb1eae2f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 03/22] fix: clearing the public proposals refunds their
 deposits and clears their metadata

---
 pallets/democracy/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index 61cc46f..41d532a 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -907,16 +907,25 @@ pub mod pallet {
 			Ok(Some(T::WeightInfo::undelegate(votes)).into())
 		}
 
-		/// Clears all public proposals.
+		/// Clears all public proposals, refunding their deposits.
 		///
 		/// The dispatch origin of this call must be _Root_.
 		///
-		/// Weight: `O(1)`.
+		/// Weight: `O(p)` (though as this is an high-privilege dispatch, we assume it has a
+		///   reasonable value).
 		#[pallet::call_index(12)]
 		#[pallet::weight(T::WeightInfo::clear_public_proposals())]
 		pub fn clear_public_proposals(origin: OriginFor<T>) -> DispatchResult {
 			ensure_root(origin)?;
-			<PublicProps<T>>::kill();
+			for (prop_index, ..) in <PublicProps<T>>::take() {
+				if let Some((depositors, deposit)) = <DepositOf<T>>::take(prop_index) {
+					// refund depositors
+					for d in depositors.iter() {
+						T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;
+					}
+				}
+				Self::clear_metadata(MetadataOwner::Proposal(prop_index));
+			}
 			Ok(())
 		}
 
-- 
2.43.0


From 4b4263a2e15b6b1498bdceaed6204c223e86b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 04/22] fix: slashing an account whose vesting schedule has
 ended does not divide by zero

---
 pallets/on-slash-vesting/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..36e56e4 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -39,6 +39,10 @@ where
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
+				if duration == 0 {
+					// The schedule has already ended, nothing of it is locked anymore.
+					continue;
+				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
 				if new_schedule.is_valid() {
-- 
2.43.0


From 2b4ddacccebfdc89b5a5addc00aecbb8775bc09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 05/22] fix: a slash does not make a vesting schedule start
 before its starting block

---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 36e56e4..107710a 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -36,7 +36,9 @@ where
 			let now = T::BlockNumberProvider::current_block_number();
 			for schedule in vesting_schedules {
 				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
-				let start_block = T::BlockNumberToBalance::convert(now);
+				// A schedule that has not started yet keeps its starting block.
+				let starting_block = now.max(schedule.starting_block());
+				let start_block = T::BlockNumberToBalance::convert(starting_block);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
 				if duration == 0 {
@@ -44,7 +46,7 @@ where
 					continue;
 				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
-				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
+				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, starting_block);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
 					let push_result = new_vesting_schedules.try_push(new_schedule);
-- 
2.43.0


From 0f9c3dc97b8dc4777fa6b9333e8ed3af2ef43c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 06/22] fix: adding a release schedule keeps completed
 schedules whose funds are still held

---
 pallets/linear-release/src/impls.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index bb89b64..f45c0fd 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -284,13 +284,11 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 
 		let mut schedules = Self::vesting(who, reason).unwrap_or_default();
 
-		// NOTE: we must push the new schedule so that `exec_action`
-		// will give the correct new locked amount.
+		// NOTE: nothing is released here, so schedules that already completed have to stay until `vest` or
+		// `vest_other` releases their funds.
 		ensure!(schedules.try_push(vesting_schedule).is_ok(), Error::<T>::AtMaxVestingSchedules);
 
-		let (schedules, _) = Self::exec_action(schedules.to_vec(), VestingAction::Passive)?;
-
-		Self::write_vesting_schedule(who, schedules, reason)?;
+		Self::write_vesting_schedule(who, schedules.to_vec(), reason)?;
 		Ok(())
 	}
 
-- 
2.43.0


From 6376ff14f5a4ae6ec91e3f03f1479e17656e2592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 07/22] fix: removing all vesting schedules succeeds when some
 of them have completed

---
 pallets/linear-release/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index f45c0fd..930f5e3 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -371,7 +371,8 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 	fn remove_all_vesting_schedules(who: &T::AccountId, reason: ReasonOf<T>) -> DispatchResult {
 		let schedules_count = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?.len();
 		for _ in 0..schedules_count {
-			let current_schedules = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?;
+			// Schedules that already completed are all dropped along with the first one.
+			let Some(current_schedules) = Self::vesting(who, reason) else { break };
 			let remove_action = VestingAction::Remove { index: 0usize };
 			let (schedules, locked_now) = Self::exec_action(current_schedules.to_vec(), remove_action)?;
 			Self::write_vesting_schedule(who, schedules, reason)?;
-- 
2.43.0


From 1f4ca2dc4dbf1e507a934174f6174d6ac78e573b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 08/22] fix: funding can only be ended during the community
 round

A project without contribution tokens left to sell passed the check of
`end_funding` in every state, so that a project whose funding had ended (or that
was already settled or migrated) could be sent back to FundingSuccessful or
FundingFailed, resetting its evaluators' outcome and its issuer's active project.
---
 pallets/funding/src/functions/5_funding_end.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..915e0ae 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,10 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
-				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+			// Only the last funding round can be ended
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// due to running out of CTs, or to its duration being over
+				(remaining_cts == Zero::zero() || project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From 9bc185edba174eaeb2202f93766bec0824acfb55 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 09/22] fix: an offchain migration can be confirmed once only

Each repeated confirmation of the same participant lowered the counter of
unmigrated participants, so that the migration could be marked as finished while
others were still waiting for their tokens.
---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..cf37518 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -369,7 +369,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					!matches!(current_status, MigrationStatus::Confirmed)) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From 2ff5f97a727e41627e6fffea3d252028cc9eacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 10/22] fix: removing a project releases the DID that created
 it

The DID of the token used for the call was released instead, which need not be the
one that the project was created with: that one stayed blocked for good, and the
other could start a second project.
---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..1c28c74 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, _did: Did) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
-- 
2.43.0


From 9417e1e608fb3913f49db0c6886e80c750e615fa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 11/22] fix: settle participations with a bond smaller than its
 vesting duration

The amount released per block was rounded down to zero for such bonds, and a
schedule like that is refused: the participation could never be settled.
---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index cf37518..276dd11 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -66,7 +66,8 @@ impl<T: Config> Pallet<T> {
 		let amount_per_block = if duration_as_balance == Zero::zero() {
 			bonded_amount
 		} else {
-			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?
+			// A schedule that releases nothing per block is refused by the release pallet
+			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?.max(One::one())
 		};
 
 		Ok(VestingInfo { total_amount: bonded_amount, amount_per_block, duration })
-- 
2.43.0


From c4d37c132ad91530a52e9c00846f6c53e3ed1e58 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 12/22] fix: the weighted average price counts no more tokens
 than were auctioned

When the winning bids all lie above the initial price, the lowest winning bucket
was counted in full, even where a part of its bids was rejected.
---
 pallets/funding/src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/funding/src/types.rs b/pallets/funding/src/types.rs
index ee3573b..67e4a56 100644
--- a/pallets/funding/src/types.rs
+++ b/pallets/funding/src/types.rs
@@ -459,6 +459,8 @@ pub mod storage {
 			let mut price: Price = self.current_price;
 			let mut bucket_sizes: Vec<(Balance, Price)> = Vec::new();
 			while price > self.initial_price && total_amount > Balance::zero() {
+				// The lowest winning bucket may have sold only a part of its tokens
+				amount = amount.min(total_amount);
 				total_amount.saturating_reduce(amount);
 				bucket_sizes.push((price.saturating_mul_int(amount), price));
 				price = price.saturating_sub(self.delta_price);
-- 
2.43.0


From d1574d6f64bba7228741fe6e7c4c71b84f04c926 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 13/22] fix: the readiness check asks for responses to the
 queries it registered

The message named the queries 0 and 1 whatever the ids of the new queries were, so
that only the first readiness check ever on the chain could be answered.
---
 pallets/funding/src/functions/7_ct_migration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..ca0d608 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -278,7 +278,7 @@ impl<T: Config> Pallet<T> {
 			ReportHolding {
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 0,
+					query_id: query_id_holdings,
 					max_weight,
 				},
 				assets: Wild(All),
@@ -287,7 +287,7 @@ impl<T: Config> Pallet<T> {
 				module_name: Vec::from("polimec_receiver"),
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 1,
+					query_id: query_id_pallet,
 					max_weight,
 				},
 			},
-- 
2.43.0


From dccb30f9dcdc8658ac9494e6431048035c1a6664 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 14/22] fix: a readiness response without assets fails the
 check

It made the runtime panic.
---
 pallets/funding/src/functions/7_ct_migration.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index ca0d608..3c97a72 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,9 +345,8 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
-				match asset_1 {
-					Asset { id: AssetId(location), fun: Fungible(amount) }
+				match assets.first().cloned() {
+					Some(Asset { id: AssetId(location), fun: Fungible(amount) })
 						if amount >= ct_sold_as_u128 &&
 							get_parachain_id(&location.clone()).ok_or(Error::<T>::WrongParaId)? ==
 								u32::from(para_id) =>
-- 
2.43.0


From b54174e3412e9e917425de99cf61fbf9b65a3740 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 15/22] fix: only the issuer can repeat the readiness check

The issuer was required only after both of its parts had failed. While the
responses were awaited, or after the check had passed, any institutional investor
could discard its result.
---
 pallets/funding/src/functions/7_ct_migration.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 3c97a72..fd01281 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -231,14 +231,15 @@ impl<T: Config> Pallet<T> {
 		);
 		if migration_info.migration_readiness_check.is_none() {
 			ensure!(caller.clone() == T::PalletId::get().into_account_truncating(), Error::<T>::NotAllowed);
-		} else if matches!(
-			migration_info.migration_readiness_check,
-			Some(PalletMigrationReadinessCheck {
-				holding_check: (_, CheckOutcome::Failed),
-				pallet_check: (_, CheckOutcome::Failed),
-				..
-			})
-		) {
+		} else if caller != &T::PalletId::get().into_account_truncating() ||
+			matches!(
+				migration_info.migration_readiness_check,
+				Some(PalletMigrationReadinessCheck {
+					holding_check: (_, CheckOutcome::Failed),
+					pallet_check: (_, CheckOutcome::Failed),
+					..
+				})
+			) {
 			ensure!(caller == &project_details.issuer_account, Error::<T>::NotIssuer);
 		}
 
-- 
2.43.0


From 7a33f7f9fcc5fac0921a420008eec2d5bd2fe63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 16/22] fix: a schedule is fully releasable when the vested
 amount overflows

---
 pallets/linear-release/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/types.rs b/pallets/linear-release/src/types.rs
index 09ca6e6..9192139 100644
--- a/pallets/linear-release/src/types.rs
+++ b/pallets/linear-release/src/types.rs
@@ -109,7 +109,7 @@ where
 		let vested_block_count = BlockNumberToBalance::convert(time_range);
 		// TODO: Find a way to improve this.
 		// Return amount that is releasable in vesting.
-		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(Zero::zero());
+		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(self.locked);
 		res.min(self.locked)
 	}
 
-- 
2.43.0


From 72fc435aa7a28a7993e1a1e354c95df977cba480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 17/22] fix: a decrease of a delegation waits for
 DelegationBondLessDelay

It waited for the delay of revocations instead, and the parameter was not used.
---
 pallets/parachain-staking/src/delegation_requests.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/parachain-staking/src/delegation_requests.rs b/pallets/parachain-staking/src/delegation_requests.rs
index c2fe8b6..c0ae055 100644
--- a/pallets/parachain-staking/src/delegation_requests.rs
+++ b/pallets/parachain-staking/src/delegation_requests.rs
@@ -132,7 +132,7 @@ impl<T: Config> Pallet<T> {
 		ensure!(decrease_amount <= max_subtracted_amount, <Error<T>>::DelegatorBondBelowMin);
 
 		let now = <Round<T>>::get().current;
-		let when = now.saturating_add(T::RevokeDelegationDelay::get());
+		let when = now.saturating_add(T::DelegationBondLessDelay::get());
 		scheduled_requests.push(ScheduledRequest {
 			delegator: delegator.clone(),
 			action: DelegationAction::Decrease(decrease_amount),
-- 
2.43.0


From a253fcd8558f94ea5e69157809feed7b6b43e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 18/22] fix: decreasing a bottom delegation decreases the total
 of the bottom delegations

The stale total was later subtracted from the total stake when the candidate left.
---
 pallets/parachain-staking/src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/parachain-staking/src/types.rs b/pallets/parachain-staking/src/types.rs
index 96b9850..8cb4a44 100644
--- a/pallets/parachain-staking/src/types.rs
+++ b/pallets/parachain-staking/src/types.rs
@@ -1059,6 +1059,7 @@ impl<
 			})
 			.collect();
 		ensure!(in_bottom, Error::<T>::DelegationDNE);
+		bottom_delegations.total = bottom_delegations.total.saturating_sub(less);
 		bottom_delegations.sort_greatest_to_least();
 		self.reset_bottom_data::<T>(&bottom_delegations);
 		<BottomDelegations<T>>::insert(candidate, bottom_delegations);
-- 
2.43.0


From cefb5356c11ce4bb4ee22fbd9b4718a9de0312a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 19/22] fix: delegating with auto-compounding forgets the
 setting of the displaced delegator

The list of settings was read before the displaced delegator was removed from it and
written back afterwards; with a full list the delegation even failed.
---
 pallets/parachain-staking/src/auto_compound.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pallets/parachain-staking/src/auto_compound.rs b/pallets/parachain-staking/src/auto_compound.rs
index 900df94..d38f7e5 100644
--- a/pallets/parachain-staking/src/auto_compound.rs
+++ b/pallets/parachain-staking/src/auto_compound.rs
@@ -189,16 +189,12 @@ where
 			Error::<T>::TooLowCandidateDelegationCountToDelegate
 		);
 
-		let auto_compounding_state = if !auto_compound.is_zero() {
-			let auto_compounding_state = Self::get_storage(&candidate);
+		if !auto_compound.is_zero() {
 			ensure!(
-				auto_compounding_state.len() <= candidate_auto_compounding_delegation_count_hint,
+				Self::get_storage(&candidate).len() <= candidate_auto_compounding_delegation_count_hint,
 				<Error<T>>::TooLowCandidateAutoCompoundingDelegationCountToDelegate,
 			);
-			Some(auto_compounding_state)
-		} else {
-			None
-		};
+		}
 
 		// add delegation to candidate
 		let (delegator_position, less_total_staked) =
@@ -212,8 +208,9 @@ where
 		let net_total_increase = if let Some(less) = less_total_staked { amount.saturating_sub(less) } else { amount };
 		let new_total_locked = <Total<T>>::get().saturating_add(net_total_increase);
 
-		// maybe set auto-compound config, state is Some if the percent is non-zero
-		if let Some(mut state) = auto_compounding_state {
+		// maybe set auto-compound config; a displaced delegator has left the stored one by now
+		if !auto_compound.is_zero() {
+			let mut state = Self::get_storage(&candidate);
 			state.set_for_delegator(delegator.clone(), auto_compound)?;
 			state.set_storage(&candidate);
 		}
-- 
2.43.0


From 809072041b5921993f9de99272cc079877d4d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:30 +0000
Subject: [PATCH 20/22] fix: oracle worker signs with any local key instead of
 the member's

---
 pallets/oracle-ocw/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 0138759..5c0bef4 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -131,7 +131,7 @@ pub mod pallet {
 				None
 			});
 
-			if let Some(_authority_key) = maybe_key {
+			if let Some(authority_key) = maybe_key {
 				let mut lock = StorageLock::<Time>::with_deadline(
 					b"oracle_ocw::lock",
 					Duration::from_millis(LOCK_TIMEOUT_EXPIRATION),
@@ -186,7 +186,7 @@ pub mod pallet {
 					for (asset_name, price) in prices.clone() {
 						log::trace!(target: LOG_TARGET, "Fetched price for {:?}: {}", asset_name, price);
 					}
-					let result = Self::send_signed_transaction(prices.clone());
+					let result = Self::send_signed_transaction(prices.clone(), authority_key);
 					if result.is_ok() {
 						for (asset_name, _) in prices {
 							last_send_for_assets.insert(asset_name, block_number);
@@ -245,8 +245,13 @@ pub mod pallet {
 				.collect::<BTreeMap<AssetName, FixedU128>>()
 		}
 
-		fn send_signed_transaction(prices: BTreeMap<AssetName, FixedU128>) -> Result<(), ()> {
-			let signer = Signer::<T, T::AppCrypto>::any_account();
+		fn send_signed_transaction(
+			prices: BTreeMap<AssetName, FixedU128>,
+			authority_key: RuntimeAppPublicOf<T>,
+		) -> Result<(), ()> {
+			// Sign with the key of the member, not with just any key in the keystore.
+			let authority: T::Public = GenericPublicOf::<T>::from(authority_key).into();
+			let signer = Signer::<T, T::AppCrypto>::any_account().with_filter(vec![authority]);
 			let prices = prices
 				.into_iter()
 				.map(|(asset_name, price)| T::ConvertAssetPricePair::convert((asset_name, price)))
-- 
2.43.0


From 0414984ff98179468cb77468ec95effa9ff9c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 21/22] fix: a replaced external proposal passes its metadata
 to the one that replaces it

---
 pallets/democracy/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index 41d532a..9c1efe1 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -720,6 +720,8 @@ pub mod pallet {
 		#[pallet::weight(T::WeightInfo::external_propose_majority())]
 		pub fn external_propose_majority(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalMajorityOrigin::ensure_origin(origin)?;
+			// The metadata of a proposal that is replaced must not pass to its replacement.
+			Self::clear_metadata(MetadataOwner::External);
 			<NextExternal<T>>::put((proposal, VoteThreshold::SimpleMajority));
 			Ok(())
 		}
@@ -739,6 +741,8 @@ pub mod pallet {
 		#[pallet::weight(T::WeightInfo::external_propose_default())]
 		pub fn external_propose_default(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalDefaultOrigin::ensure_origin(origin)?;
+			// The metadata of a proposal that is replaced must not pass to its replacement.
+			Self::clear_metadata(MetadataOwner::External);
 			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityAgainst));
 			Ok(())
 		}
-- 
2.43.0


From d277bacd2521fad0cbe9eceeba3e552e2ff28565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:56 +0000
Subject: [PATCH 22/22] fix: a NonTransfer proxy could appoint or remove an
 IdentityJudgement proxy, whose calls it may not make itself

---
 runtimes/polimec/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimes/polimec/src/lib.rs b/runtimes/polimec/src/lib.rs
index 5ec9826..ac1df97 100644
--- a/runtimes/polimec/src/lib.rs
+++ b/runtimes/polimec/src/lib.rs
@@ -330,6 +330,8 @@ impl InstanceFilter<RuntimeCall> for Type {
 			(x, y) if x == y => true,
 			(proxy::Type::Any, _) => true,
 			(_, proxy::Type::Any) => false,
+			// The calls of `IdentityJudgement` are not among those of `NonTransfer`.
+			(proxy::Type::NonTransfer, proxy::Type::IdentityJudgement) => false,
 			(proxy::Type::NonTransfer, _) => true,
 			_ => false,
 		}
-- 
2.43.0

