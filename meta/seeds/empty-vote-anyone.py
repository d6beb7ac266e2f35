PKG="pallet-democracy"; PROPERTY="D10"
NEEDS="a vote of zero balance on an ongoing referendum by an account others delegate to, removed by somebody else"
BREAKS="anyone can remove another account's vote, and with it the delegated power it carries, while the referendum is ongoing"
EDITS=[("pallets/democracy/src/lib.rs","""					Some(ReferendumInfo::Ongoing(mut status)) => {
						ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);""","""					Some(ReferendumInfo::Ongoing(mut status)) => {
						// a vote with nothing at stake can be cleaned up by anyone
						let permitted = matches!(scope, UnvoteScope::Any) || votes[i].1.balance().is_zero();
						ensure!(permitted, Error::<T>::NoPermission);""")]
DEMO="""
use super::*;

#[test]
fn nobody_removes_anothers_vote_early() {
	new_test_ext().execute_with(|| {
		let r = begin_referendum();
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, AccountVote::Standard { vote: BIG_AYE, balance: 0 }));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(5), 1, Conviction::Locked1x, 50));
		let before = tally(r);
		let _ = Democracy::remove_other_vote(RuntimeOrigin::signed(3), 1, r);
		assert_eq!(tally(r), before);
	});
}
"""
