PKG="pallet-democracy"; PROPERTY="D02"
NEEDS="a super-majority referendum whose turnout differs from its ayes and nays added up (convictions other than 1x or split votes), near the boundary"
BREAKS="the comparison uses the weighted votes instead of the turnout, so a referendum passes or fails wrongly"
EDITS=[("pallets/democracy/src/vote_threshold.rs","""		let sqrt_voters = tally.turnout.integer_sqrt();""","""		// somebody who voted counts towards the turnout with at least the weight of the vote
		let sqrt_voters = tally.turnout.max(tally.ayes + tally.nays).integer_sqrt();""")]
DEMO="""
use super::*;

#[test]
fn turnout_is_what_counts() {
	// 2000 ayes to 1200 nays from 600 accounts' coins out of 10000: 1200/24 < 2000/100 is false
	let t = Tally::<u64> { ayes: 2000, nays: 1200, turnout: 600 };
	assert!(!VoteThreshold::SuperMajorityApprove.approved(t, 10000));
	let t = Tally::<u64> { ayes: 2000, nays: 1200, turnout: 3200 };
	assert!(!VoteThreshold::SuperMajorityApprove.approved(t, 10000));
	let t = Tally::<u64> { ayes: 6000, nays: 3000, turnout: 1600 };
	assert!(!VoteThreshold::SuperMajorityApprove.approved(t, 10000));
}
"""
