PKG="pallet-democracy"; PROPERTY="D14"
NEEDS="a delegation to an account that has split votes, or votes on referenda that have ended"
BREAKS="the delegator is charged only for the delegate's votes whose tally moves, though all of them are read"
EDITS=[("pallets/democracy/src/lib.rs","""				*delegations = delegations.saturating_add(amount);
				for &(ref_index, account_vote) in votes.iter() {
					if let AccountVote::Standard { vote, .. } = account_vote {
						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.increase(vote.aye, amount);
							}
						});
					}
				}
				votes.len() as u32""","""				*delegations = delegations.saturating_add(amount);
				let mut updated = 0u32;
				for &(ref_index, account_vote) in votes.iter() {
					if let AccountVote::Standard { vote, .. } = account_vote {
						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.increase(vote.aye, amount);
								updated += 1;
							}
						});
					}
				}
				updated""")]
DEMO="""
use super::*;
use crate::weights::WeightInfo;

#[test]
fn every_vote_of_the_delegate_is_charged() {
	new_test_ext().execute_with(|| {
		let mut rs = vec![];
		for i in 0..3 {
			rs.push(Democracy::inject_referendum(2, set_balance_proposal(i), VoteThreshold::SimpleMajority, 0));
		}
		for r in rs {
			assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, AccountVote::Split { aye: 1, nay: 1 }));
		}
		let post = Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::None, 1).unwrap();
		assert_eq!(post.actual_weight, Some(<Test as Config>::WeightInfo::delegate(3)));
	});
}
"""
