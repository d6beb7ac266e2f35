PKG="pallet-democracy"; PROPERTY="D11"
NEEDS="an account delegates again to the same target with another amount and conviction that happen to give the same number of votes"
BREAKS="the delegated capital recorded with the target, and with it the turnout of its referenda, keeps the former amount"
EDITS=[("pallets/democracy/src/lib.rs","""			sp_std::mem::swap(&mut old, voting);
			match old {
				Voting::Delegating { balance, target, conviction, delegations, mut prior, .. } => {
					// remove any delegation votes to our current target.
					Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					let now""","""			sp_std::mem::swap(&mut old, voting);
			let new_target = target.clone();
			let new_votes = conviction.votes(balance);
			let mut power_unchanged = false;
			match old {
				Voting::Delegating { balance, target, conviction, delegations, mut prior, .. } => {
					let old_votes = conviction.votes(balance);
					power_unchanged = target == new_target && old_votes.votes == new_votes.votes;
					if !power_unchanged {
						// remove any delegation votes to our current target.
						Self::reduce_upstream_delegation(&target, old_votes);
					}
					let now"""),
("pallets/democracy/src/lib.rs","""			let votes = Self::increase_upstream_delegation(&target, conviction.votes(balance));
			// Extend""","""			let votes = if power_unchanged { 0 } else { Self::increase_upstream_delegation(&target, new_votes) };
			// Extend""")]
DEMO="""
use super::*;

#[test]
fn capital_follows_the_new_delegation() {
	new_test_ext().execute_with(|| {
		let r = begin_referendum();
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, big_aye(1)));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(5), 1, Conviction::None, 50));
		assert_eq!(tally(r), Tally { ayes: 15, nays: 0, turnout: 60 });
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(5), 1, Conviction::Locked1x, 5));
		assert_eq!(tally(r), Tally { ayes: 15, nays: 0, turnout: 15 });
	});
}
"""
