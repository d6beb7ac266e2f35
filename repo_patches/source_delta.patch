From 96313124d8fd009721ba8cf7026bdca82080a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 01/21] fix: blacklisting removes every queued public proposal
 with the hash

The same proposal can be queued several times. blacklist() only removed the
first one, so a blacklisted proposal could still be tabled.
---
 pallets/democracy/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index c96b640..4825823 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -1024,9 +1024,9 @@ pub mod pallet {
 			let permanent = (BlockNumberFor::<T>::max_value(), BoundedVec::<T::AccountId, _>::default());
 			Blacklist::<T>::insert(&proposal_hash, permanent);
 
-			// Remove the queued proposal, if it's there.
+			// Remove the queued proposals with this hash, if there are any.
 			PublicProps::<T>::mutate(|props| {
-				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
+				while let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
 					let (prop_index, ..) = props.remove(index);
 					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
 						for who in whos.into_iter() {
-- 
2.43.0


From 62b15cc4f06c7f865e4850c32832f0ba069fd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 02/21] fix: a veto does not shorten an existing blacklist
 entry

veto_external overwrote the entry of a permanently blacklisted proposal with
now + CooloffPeriod, after which it could be proposed again.
---
 pallets/democracy/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index 4825823..68128ff 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -815,11 +815,14 @@ pub mod pallet {
 				return Err(Error::<T>::NoProposal.into());
 			}
 
-			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
+			let (existing_until, mut existing_vetoers) = <Blacklist<T>>::get(&proposal_hash).unwrap_or_default();
 			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
 			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
 
-			let until = <frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get());
+			// A veto never shortens a suppression already in place, a permanent one in particular.
+			let until = <frame_system::Pallet<T>>::block_number()
+				.saturating_add(T::CooloffPeriod::get())
+				.max(existing_until);
 			<Blacklist<T>>::insert(&proposal_hash, (until, existing_vetoers));
 
 			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
-- 
2.43.0


From b631762a0d8849286656771505c90568ca533709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 03/21] fix: slashing a vesting account neither panics nor
 releases the remaining lock

on_slash divided by the remaining duration, which is zero for a schedule that
has ended but was not vested yet, and a rate rounded down to zero made the
schedule invalid, so that the whole remainder was unlocked.
---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..3a3ce7e 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -7,7 +7,7 @@ mod mock;
 mod test;
 
 use frame_support::{
-	sp_runtime::{traits::Convert, FixedPointNumber, FixedU128},
+	sp_runtime::traits::Convert,
 	traits::{Currency, OriginTrait},
 };
 use pallet_vesting::Vesting;
@@ -39,7 +39,9 @@ where
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
-				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
+				// A schedule past its end has no blocks left. The remaining amount unlocks at no less than 1 per block, as
+				// a schedule with a rate of 0 is invalid and would release everything at once.
+				let per_block = (total_locked / duration.max(1)).max(1);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
-- 
2.43.0


From 96da150922543ba6371f31254cdb0a4dd32a6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 04/21] fix: slashing keeps the start of a vesting schedule
 that lies in the future

on_slash restarted such a schedule at the current block, so that funds became
available before the agreed start.
---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 3a3ce7e..fc6ac04 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -36,13 +36,15 @@ where
 			let now = T::BlockNumberProvider::current_block_number();
 			for schedule in vesting_schedules {
 				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
-				let start_block = T::BlockNumberToBalance::convert(now);
+				// A schedule that has not started yet keeps its start.
+				let start = now.max(schedule.starting_block());
+				let start_block = T::BlockNumberToBalance::convert(start);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
 				// A schedule past its end has no blocks left. The remaining amount unlocks at no less than 1 per block, as
 				// a schedule with a rate of 0 is invalid and would release everything at once.
 				let per_block = (total_locked / duration.max(1)).max(1);
-				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
+				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, start);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
 					let push_result = new_vesting_schedules.try_push(new_schedule);
-- 
2.43.0


From cfedc6f70fa9952ced404632763fa726451fe84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 05/21] fix: a linear release schedule past the number range is
 fully releasable, not unreleasable

---
 pallets/linear-release/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/types.rs b/pallets/linear-release/src/types.rs
index 09ca6e6..9192139 100644
--- a/pallets/linear-release/src/types.rs
+++ b/pallets/linear-release/src/types.rs
@@ -109,7 +109,7 @@ where
 		let vested_block_count = BlockNumberToBalance::convert(time_range);
 		// TODO: Find a way to improve this.
 		// Return amount that is releasable in vesting.
-		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(Zero::zero());
+		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(self.locked);
 		res.min(self.locked)
 	}
 
-- 
2.43.0


From 333983c68808bb48ffa928a684351463fbb0205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 06/21] fix: removing all release schedules succeeds when some
 of them have ended

---
 pallets/linear-release/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index bb89b64..6303d5a 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -373,7 +373,8 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 	fn remove_all_vesting_schedules(who: &T::AccountId, reason: ReasonOf<T>) -> DispatchResult {
 		let schedules_count = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?.len();
 		for _ in 0..schedules_count {
-			let current_schedules = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?;
+			// Removing a schedule also drops the ones that have ended, so there may be none left.
+			let Some(current_schedules) = Self::vesting(who, reason) else { break };
 			let remove_action = VestingAction::Remove { index: 0usize };
 			let (schedules, locked_now) = Self::exec_action(current_schedules.to_vec(), remove_action)?;
 			Self::write_vesting_schedule(who, schedules, reason)?;
-- 
2.43.0


From 4baf58ca680d49030f01a6cf4f4c9df702a8b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 07/21] fix: removing a project frees the DID that created it,
 not the DID of the caller's credential

---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..1c28c74 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, _did: Did) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
-- 
2.43.0


From 4f6fdf0a466a1c62da3742000cb3bed3e4b0e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 08/21] fix: a sold out project can only end its funding during
 the community round

---
 pallets/funding/src/functions/5_funding_end.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..475719c 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,11 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// Can end due to running out of CTs
+				(remaining_cts == Zero::zero() ||
 				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+				project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From aa23c38d190286bdf7ea2a14d20cb4d2a9b0424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 09/21] fix: an offchain migration is confirmed once

---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..e89b7f9 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -369,7 +369,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					current_status != MigrationStatus::Confirmed) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From f8bcbdec899858b4da04f30bcba12e751d9ef6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 10/21] fix: bonds smaller than their vesting duration get a
 valid release schedule

---
 pallets/funding/src/functions/misc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index e89b7f9..9a2d647 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -66,7 +66,9 @@ impl<T: Config> Pallet<T> {
 		let amount_per_block = if duration_as_balance == Zero::zero() {
 			bonded_amount
 		} else {
-			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?
+			// a bond of less than one unit per block still has to be released at some point
+			let amount_per_block = bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?;
+			amount_per_block.max(bonded_amount.min(One::one()))
 		};
 
 		Ok(VestingInfo { total_amount: bonded_amount, amount_per_block, duration })
-- 
2.43.0


From 55461850fe928edb3cb976391e35e272a75699d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 11/21] fix: an empty holding report fails the readiness check
 instead of panicking

---
 pallets/funding/src/functions/7_ct_migration.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..89556ab 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,9 +345,8 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
-				match asset_1 {
-					Asset { id: AssetId(location), fun: Fungible(amount) }
+				match assets.first().cloned() {
+					Some(Asset { id: AssetId(location), fun: Fungible(amount) })
 						if amount >= ct_sold_as_u128 &&
 							get_parachain_id(&location.clone()).ok_or(Error::<T>::WrongParaId)? ==
 								u32::from(para_id) =>
-- 
2.43.0


From d81daaf708d522108760f014d274c3468fd09c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 12/21] fix: the readiness check asks for answers under the ids
 of its own queries

---
 pallets/funding/src/functions/7_ct_migration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 89556ab..3c97a72 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -278,7 +278,7 @@ impl<T: Config> Pallet<T> {
 			ReportHolding {
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 0,
+					query_id: query_id_holdings,
 					max_weight,
 				},
 				assets: Wild(All),
@@ -287,7 +287,7 @@ impl<T: Config> Pallet<T> {
 				module_name: Vec::from("polimec_receiver"),
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 1,
+					query_id: query_id_pallet,
 					max_weight,
 				},
 			},
-- 
2.43.0


From 2403ffe4599f939b40353884061e1b8513d07dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 13/21] fix: only the issuer restarts a readiness check that
 has not failed

---
 pallets/funding/src/functions/7_ct_migration.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 3c97a72..693bdd0 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -240,6 +240,12 @@ impl<T: Config> Pallet<T> {
 			})
 		) {
 			ensure!(caller == &project_details.issuer_account, Error::<T>::NotIssuer);
+		} else {
+			ensure!(
+				caller == &project_details.issuer_account ||
+					caller.clone() == T::PalletId::get().into_account_truncating(),
+				Error::<T>::NotIssuer
+			);
 		}
 
 		// * Update storage *
-- 
2.43.0


From 277a3aa142786b82706311bfd929d8d4ac7749ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 14/21] fix: adding a release schedule that has already ended
 keeps its funds releasable

---
 pallets/linear-release/src/impls.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index 6303d5a..75631ac 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -282,13 +282,13 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 			return Err(Error::<T>::InvalidScheduleParams.into());
 		};
 
-		let mut schedules = Self::vesting(who, reason).unwrap_or_default();
-
-		// NOTE: we must push the new schedule so that `exec_action`
-		// will give the correct new locked amount.
-		ensure!(schedules.try_push(vesting_schedule).is_ok(), Error::<T>::AtMaxVestingSchedules);
+		let schedules = Self::vesting(who, reason).unwrap_or_default();
+		ensure!((schedules.len() as u32) < T::MAX_VESTING_SCHEDULES, Error::<T>::AtMaxVestingSchedules);
 
-		let (schedules, _) = Self::exec_action(schedules.to_vec(), VestingAction::Passive)?;
+		// NOTE: nothing is released here, so the new schedule is kept even if it has already ended. Otherwise
+		// the funds on hold for it (and for the ended schedules dropped here) could not be vested anymore.
+		let (mut schedules, _) = Self::exec_action(schedules.to_vec(), VestingAction::Passive)?;
+		schedules.push(vesting_schedule);
 
 		Self::write_vesting_schedule(who, schedules, reason)?;
 		Ok(())
-- 
2.43.0


From 00084827d1b237c33c01e34d927abf46f34f0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 15/21] fix: rounding does not bring the weighted average price
 below the minimum price

---
 pallets/funding/src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/funding/src/types.rs b/pallets/funding/src/types.rs
index ee3573b..013ae68 100644
--- a/pallets/funding/src/types.rs
+++ b/pallets/funding/src/types.rs
@@ -475,6 +475,8 @@ pub mod storage {
 				.into_iter()
 				.map(|x| <Price as FixedPointNumber>::saturating_from_rational(x.0, sum).saturating_mul(x.1))
 				.fold(Price::zero(), |acc: Price, p: Price| acc.saturating_add(p))
+				// each term is rounded down, but no token is sold below the initial price
+				.max(self.initial_price)
 		}
 	}
 }
-- 
2.43.0


From f65ddf0e6ee556e87d7f7025a607af70245e1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 16/21] fix: parachain-staking: a kicked delegation keeps no
 auto-compounding entry

---
 pallets/parachain-staking/src/auto_compound.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pallets/parachain-staking/src/auto_compound.rs b/pallets/parachain-staking/src/auto_compound.rs
index 900df94..5c545d9 100644
--- a/pallets/parachain-staking/src/auto_compound.rs
+++ b/pallets/parachain-staking/src/auto_compound.rs
@@ -189,16 +189,12 @@ where
 			Error::<T>::TooLowCandidateDelegationCountToDelegate
 		);
 
-		let auto_compounding_state = if !auto_compound.is_zero() {
-			let auto_compounding_state = Self::get_storage(&candidate);
+		if !auto_compound.is_zero() {
 			ensure!(
-				auto_compounding_state.len() <= candidate_auto_compounding_delegation_count_hint,
+				Self::get_storage(&candidate).len() <= candidate_auto_compounding_delegation_count_hint,
 				<Error<T>>::TooLowCandidateAutoCompoundingDelegationCountToDelegate,
 			);
-			Some(auto_compounding_state)
-		} else {
-			None
-		};
+		}
 
 		// add delegation to candidate
 		let (delegator_position, less_total_staked) =
@@ -212,8 +208,10 @@ where
 		let net_total_increase = if let Some(less) = less_total_staked { amount.saturating_sub(less) } else { amount };
 		let new_total_locked = <Total<T>>::get().saturating_add(net_total_increase);
 
-		// maybe set auto-compound config, state is Some if the percent is non-zero
-		if let Some(mut state) = auto_compounding_state {
+		// maybe set auto-compound config; read again, as adding the delegation may have kicked another delegator, along
+		// with its entry
+		if !auto_compound.is_zero() {
+			let mut state = Self::get_storage(&candidate);
 			state.set_for_delegator(delegator.clone(), auto_compound)?;
 			state.set_storage(&candidate);
 		}
-- 
2.43.0


From 19af569291383c82d14fa84e62373e1367e838e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 17/21] fix: parachain-staking: the total of the bottom
 delegations falls with each of them

---
 pallets/parachain-staking/src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/parachain-staking/src/types.rs b/pallets/parachain-staking/src/types.rs
index 96b9850..8cb4a44 100644
--- a/pallets/parachain-staking/src/types.rs
+++ b/pallets/parachain-staking/src/types.rs
@@ -1059,6 +1059,7 @@ impl<
 			})
 			.collect();
 		ensure!(in_bottom, Error::<T>::DelegationDNE);
+		bottom_delegations.total = bottom_delegations.total.saturating_sub(less);
 		bottom_delegations.sort_greatest_to_least();
 		self.reset_bottom_data::<T>(&bottom_delegations);
 		<BottomDelegations<T>>::insert(candidate, bottom_delegations);
-- 
2.43.0


From 94aa794e6a3ff1117695caeeddf3135832668c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 18/21] fix: parachain-staking: rounds longer than a year do
 not divide by zero

---
 pallets/parachain-staking/src/inflation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pallets/parachain-staking/src/inflation.rs b/pallets/parachain-staking/src/inflation.rs
index 62c5fab..b07b416 100644
--- a/pallets/parachain-staking/src/inflation.rs
+++ b/pallets/parachain-staking/src/inflation.rs
@@ -29,9 +29,9 @@ const SECONDS_PER_YEAR: u32 = 31557600;
 const SECONDS_PER_BLOCK: u32 = 12;
 pub const BLOCKS_PER_YEAR: u32 = SECONDS_PER_YEAR / SECONDS_PER_BLOCK;
 
-fn rounds_per_year<T: Config>() -> u32 {
-	let blocks_per_round = <Pallet<T>>::round().length;
-	BLOCKS_PER_YEAR / blocks_per_round
+/// Number of rounds of this length in a year, at least one
+fn rounds_per_year(blocks_per_round: u32) -> u32 {
+	(BLOCKS_PER_YEAR / blocks_per_round).max(1)
 }
 
 #[derive(
@@ -68,7 +68,7 @@ pub fn perbill_annual_to_perbill_round(annual: Range<Perbill>, rounds_per_year:
 }
 /// Convert annual inflation rate range to round inflation range
 pub fn annual_to_round<T: Config>(annual: Range<Perbill>) -> Range<Perbill> {
-	let periods = rounds_per_year::<T>();
+	let periods = rounds_per_year(<Pallet<T>>::round().length);
 	perbill_annual_to_perbill_round(annual, periods)
 }
 
@@ -100,7 +100,7 @@ impl<Balance> InflationInfo<Balance> {
 
 	/// Reset round inflation rate based on changes to round length
 	pub fn reset_round(&mut self, new_length: u32) {
-		let periods = BLOCKS_PER_YEAR / new_length;
+		let periods = rounds_per_year(new_length);
 		self.round = perbill_annual_to_perbill_round(self.annual, periods);
 	}
 
-- 
2.43.0


From f416f4cd498df1ad602ab42cca3f3e8a6f65a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 19/21] fix: oracle worker signs with the key that is a member

---
 pallets/oracle-ocw/src/lib.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 0138759..181b8c8 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -118,20 +118,15 @@ pub mod pallet {
 			let local_keys = RuntimeAppPublicOf::<T>::all();
 			log::trace!(target: LOG_TARGET, "Num of Local keys: {:?}", local_keys.len());
 			// Check if Signing key is in the permissioned set of keys.
-			let maybe_key: Option<RuntimeAppPublicOf<T>> = local_keys.into_iter().find_map(|key| {
+			let maybe_key: Option<T::Public> = local_keys.into_iter().find_map(|key| {
 				log::trace!(target: LOG_TARGET, "runtime key: {:?}", key.to_raw_vec());
 				let generic_public = GenericPublicOf::<T>::from(key);
 				let public: T::Public = generic_public.into();
 				let account = public.clone().into_account();
-				if <T as pallet::Config>::Members::contains(&account) {
-					if let Ok(generic_public) = TryInto::<GenericPublicOf<T>>::try_into(public) {
-						return Some(generic_public.into());
-					}
-				}
-				None
+				<T as pallet::Config>::Members::contains(&account).then_some(public)
 			});
 
-			if let Some(_authority_key) = maybe_key {
+			if let Some(authority_key) = maybe_key {
 				let mut lock = StorageLock::<Time>::with_deadline(
 					b"oracle_ocw::lock",
 					Duration::from_millis(LOCK_TIMEOUT_EXPIRATION),
@@ -186,7 +181,7 @@ pub mod pallet {
 					for (asset_name, price) in prices.clone() {
 						log::trace!(target: LOG_TARGET, "Fetched price for {:?}: {}", asset_name, price);
 					}
-					let result = Self::send_signed_transaction(prices.clone());
+					let result = Self::send_signed_transaction(authority_key, prices.clone());
 					if result.is_ok() {
 						for (asset_name, _) in prices {
 							last_send_for_assets.insert(asset_name, block_number);
@@ -245,8 +240,11 @@ pub mod pallet {
 				.collect::<BTreeMap<AssetName, FixedU128>>()
 		}
 
-		fn send_signed_transaction(prices: BTreeMap<AssetName, FixedU128>) -> Result<(), ()> {
-			let signer = Signer::<T, T::AppCrypto>::any_account();
+		fn send_signed_transaction(
+			authority_key: T::Public,
+			prices: BTreeMap<AssetName, FixedU128>,
+		) -> Result<(), ()> {
+			let signer = Signer::<T, T::AppCrypto>::any_account().with_filter(vec![authority_key]);
 			let prices = prices
 				.into_iter()
 				.map(|(asset_name, price)| T::ConvertAssetPricePair::convert((asset_name, price)))
-- 
2.43.0


From c91bd7443adf12a2ee3867ab32feb571c1e07ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 20/21] fix: oracle worker drops absurd candles instead of
 overflowing

---
 pallets/oracle-ocw/src/lib.rs    |  2 +-
 pallets/oracle-ocw/src/traits.rs |  2 +-
 pallets/oracle-ocw/src/types.rs  | 38 ++++++++++++++++----------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 181b8c8..aec16cb 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -230,7 +230,7 @@ pub mod pallet {
 					}
 					let combined_prices =
 						price_list.into_iter().fold((FixedU128::zero(), FixedU128::zero()), |acc, (price, volume)| {
-							(acc.0 + price, acc.1 + volume)
+							(acc.0.saturating_add(price), acc.1.saturating_add(volume))
 						});
 					if combined_prices.1.is_zero() {
 						return None;
diff --git a/pallets/oracle-ocw/src/traits.rs b/pallets/oracle-ocw/src/traits.rs
index a09a355..2d997ef 100644
--- a/pallets/oracle-ocw/src/traits.rs
+++ b/pallets/oracle-ocw/src/traits.rs
@@ -69,7 +69,7 @@ pub(crate) trait FetchPrice {
 			.filter_map(|(asset, ocv_data)| {
 				let (w_price_sum, total_vol) =
 					ocv_data.into_iter().fold((FixedU128::zero(), FixedU128::zero()), |(w_price_sum, vol_sum), ocv| {
-						(w_price_sum + ocv.vwp(), vol_sum.saturating_add(ocv.volume))
+						(w_price_sum.saturating_add(ocv.vwp()), vol_sum.saturating_add(ocv.volume))
 					});
 				if total_vol.is_zero() {
 					return None;
diff --git a/pallets/oracle-ocw/src/types.rs b/pallets/oracle-ocw/src/types.rs
index dba09f6..0873957 100644
--- a/pallets/oracle-ocw/src/types.rs
+++ b/pallets/oracle-ocw/src/types.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License
 // along with this program.  If not, see <https://www.gnu.org/licenses/>.
 use super::{FetchPrice, FixedU128, LOG_TARGET, NUMBER_OF_CANDLES};
-use core::{ops::Mul, str::FromStr};
+use core::str::FromStr;
 use heapless::{LinearMap, Vec as HVec};
 use parity_scale_codec::{Decode, Encode};
 use scale_info::TypeInfo;
@@ -52,17 +52,17 @@ impl OpenCloseVolume {
 		self.volume.saturating_mul(avg_price)
 	}
 
-	pub fn from_u100f28(high: U100F28, low: U100F28, close: U100F28, volume: U100F28) -> Self {
-		let high_as_fixedu128_inner: u128 = high.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		let low_as_fixedu128_inner: u128 = low.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		let close_as_fixedu128_inner: u128 = close.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		let volume_as_fixedu128_inner: u128 = volume.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		OpenCloseVolume {
-			high: FixedU128::from_inner(high_as_fixedu128_inner),
-			low: FixedU128::from_inner(low_as_fixedu128_inner),
-			close: FixedU128::from_inner(close_as_fixedu128_inner),
-			volume: FixedU128::from_inner(volume_as_fixedu128_inner),
-		}
+	pub fn from_u100f28(high: U100F28, low: U100F28, close: U100F28, volume: U100F28) -> Result<Self, ()> {
+		let to_fixed_u128 = |value: U100F28| -> Result<FixedU128, ()> {
+			let inner = value.checked_mul(U100F28::from_num(FixedU128::accuracy())).ok_or(())?;
+			Ok(FixedU128::from_inner(inner.to_num::<u128>()))
+		};
+		Ok(OpenCloseVolume {
+			high: to_fixed_u128(high)?,
+			low: to_fixed_u128(low)?,
+			close: to_fixed_u128(close)?,
+			volume: to_fixed_u128(volume)?,
+		})
 	}
 
 	pub fn from_f64(high: f64, low: f64, close: f64, volume: f64) -> Result<Self, ()> {
@@ -70,15 +70,15 @@ impl OpenCloseVolume {
 		let low = low.checked_to_fixed::<U100F28>().ok_or(())?;
 		let close = close.checked_to_fixed::<U100F28>().ok_or(())?;
 		let volume = volume.checked_to_fixed::<U100F28>().ok_or(())?;
-		Ok(Self::from_u100f28(high, low, close, volume))
+		Self::from_u100f28(high, low, close, volume)
 	}
 
-	pub fn from_str(high: &str, low: &str, close: &str, volume: &str) -> Result<Self, <U100F28 as FromStr>::Err> {
-		let high = U100F28::from_str(high)?;
-		let low = U100F28::from_str(low)?;
-		let close = U100F28::from_str(close)?;
-		let volume = U100F28::from_str(volume)?;
-		Ok(Self::from_u100f28(high, low, close, volume))
+	pub fn from_str(high: &str, low: &str, close: &str, volume: &str) -> Result<Self, ()> {
+		let high = U100F28::from_str(high).map_err(|_| ())?;
+		let low = U100F28::from_str(low).map_err(|_| ())?;
+		let close = U100F28::from_str(close).map_err(|_| ())?;
+		let volume = U100F28::from_str(volume).map_err(|_| ())?;
+		Self::from_u100f28(high, low, close, volume)
 	}
 }
 
-- 
2.43.0


From 21807fc17c807bb4c3c2b07ac31094331521f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 21/21] fix: a NonTransfer proxy cannot hand out an
 IdentityJudgement proxy

NonTransfer was taken for a superset of IdentityJudgement although it admits no call of the identity pallet, so its
holder could add a proxy that gives judgements in the principal's name.
---
 runtimes/polimec/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimes/polimec/src/lib.rs b/runtimes/polimec/src/lib.rs
index 5ec9826..dac7556 100644
--- a/runtimes/polimec/src/lib.rs
+++ b/runtimes/polimec/src/lib.rs
@@ -330,6 +330,8 @@ impl InstanceFilter<RuntimeCall> for Type {
 			(x, y) if x == y => true,
 			(proxy::Type::Any, _) => true,
 			(_, proxy::Type::Any) => false,
+			// `NonTransfer` admits no call of `Identity`, so it must not be able to add a proxy that does.
+			(proxy::Type::NonTransfer, proxy::Type::IdentityJudgement) => false,
 			(proxy::Type::NonTransfer, _) => true,
 			_ => false,
 		}
-- 
2.43.0

