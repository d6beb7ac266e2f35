PKG="pallet-democracy"; PROPERTY="D05"
NEEDS="two referenda that end in the same block and both pass, with a delay that leaves the first one's enactment waiting"
BREAKS="enactments are named by the block of the decision, so the scheduler takes only the first of a block and the other passed proposal is never executed"
EDITS=[("pallets/democracy/src/lib.rs","				(DEMOCRACY_ID, index).encode_into(),","				(DEMOCRACY_ID, now).encode_into(),")]
DEMO="""
use super::*;

#[test]
fn both_are_enacted() {
	new_test_ext().execute_with(|| {
		let a = Democracy::inject_referendum(2, set_balance_proposal(2), VoteThreshold::SimpleMajority, 2);
		let b = Democracy::inject_referendum(2, set_balance_proposal(3), VoteThreshold::SimpleMajority, 2);
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), a, aye(1)));
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), b, aye(1)));
		fast_forward_to(3);
		let due: usize = pallet_scheduler::Agenda::<Test>::iter().map(|(_, a)| a.iter().filter(|x| x.is_some()).count()).sum();
		assert_eq!(due, 2);
	});
}
"""
