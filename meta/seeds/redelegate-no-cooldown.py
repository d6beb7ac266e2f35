PKG="pallet-democracy"; PROPERTY="D03"
NEEDS="a delegator who delegates again to the same account, no less than before, but with a shorter conviction"
BREAKS="the lock of the former delegation is not kept, so the funds come free before that conviction period has passed"
EDITS=[("pallets/democracy/src/lib.rs","""		let votes = VotingOf::<T>::try_mutate(&who, |voting| -> Result<u32, DispatchError> {
			let mut old = Voting::Delegating {""","""		let (new_balance, new_target) = (balance, target.clone());
		let votes = VotingOf::<T>::try_mutate(&who, |voting| -> Result<u32, DispatchError> {
			let mut old = Voting::Delegating {"""),
("pallets/democracy/src/lib.rs","""					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);
				},""","""					// a delegation that is merely extended has not ended yet
					if new_target != target || new_balance < balance {
						prior.accumulate(unlock_block, balance);
					}
					voting.set_common(delegations, prior);
				},""")]
DEMO="""
use super::*;

#[test]
fn former_conviction_period_is_served() {
	new_test_ext().execute_with(|| {
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked6x, 10));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::None, 10));
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
		System::set_block_number(20);
		assert_ok!(Democracy::unlock(RuntimeOrigin::signed(2), 2));
		assert_eq!(balance_frozen_of(2), 10);
	});
}
"""
