PKG="pallet-democracy"; PROPERTY="D01"
NEEDS="an account changes only the conviction of its vote on an ongoing referendum, keeping side and balance"
BREAKS="the tally keeps the weight of the former conviction although the recorded vote has the new one"
EDITS=[("pallets/democracy/src/lib.rs","""		let mut status = Self::referendum_status(ref_index)?;
		ensure!(vote.balance() <= T::Fungible::total_balance(&who), Error::<T>::InsufficientFunds);
		VotingOf::<T>::try_mutate(who, |voting| -> DispatchResult {
			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
""","""		let mut status = Self::referendum_status(ref_index)?;
		ensure!(vote.balance() <= T::Fungible::total_balance(&who), Error::<T>::InsufficientFunds);
		VotingOf::<T>::try_mutate(who, |voting| -> DispatchResult {
			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					// The same capital on the same side: nothing moves between the sides of the tally.
					Ok(i)
						if votes[i].1.as_standard().is_some() &&
							votes[i].1.as_standard() == vote.as_standard() &&
							votes[i].1.balance() == vote.balance() =>
					{
						votes[i].1 = vote;
						Self::deposit_event(Event::<T>::Voted { voter: who.clone(), ref_index, vote });
						return Ok(());
					},
					Ok(i) => {
""")]
DEMO="""
use super::*;

#[test]
fn a_change_of_conviction_counts() {
	new_test_ext().execute_with(|| {
		let r = begin_referendum();
		let v = |conviction| AccountVote::Standard { vote: Vote { aye: true, conviction }, balance: 10 };
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, v(Conviction::Locked1x)));
		assert_eq!(tally(r), Tally { ayes: 10, nays: 0, turnout: 10 });
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, v(Conviction::Locked3x)));
		assert_eq!(tally(r), Tally { ayes: 30, nays: 0, turnout: 10 });
	});
}
"""
