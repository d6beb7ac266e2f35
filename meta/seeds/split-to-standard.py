PKG="pallet-democracy"; PROPERTY="D01"
NEEDS="an account that others delegate to changes a split vote into a standard one"
BREAKS="the delegated votes are left out of the tally"
EDITS=[("pallets/democracy/src/lib.rs","""			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},
""","""			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				let mut carries = true;
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						carries = votes[i].1.as_standard().is_some();
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},
"""),("pallets/democracy/src/lib.rs","""				if let Some(approve) = vote.as_standard() {
					status.tally.increase(approve, *delegations);
				}
				Ok(())
			} else {
				Err(Error::<T>::AlreadyDelegating.into())""","""				if let Some(approve) = vote.as_standard().filter(|_| carries) {
					status.tally.increase(approve, *delegations);
				}
				Ok(())
			} else {
				Err(Error::<T>::AlreadyDelegating.into())""")]
DEMO="""
use super::*;

#[test]
fn delegated_votes_follow_the_change() {
	new_test_ext().execute_with(|| {
		let r = begin_referendum();
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, AccountVote::Split { aye: 4, nay: 6 }));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, aye(1)));
		assert_eq!(tally(r), Tally { ayes: 21, nays: 0, turnout: 30 });
	});
}
"""
