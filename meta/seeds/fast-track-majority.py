PKG="pallet-democracy"; PROPERTY="D08"
NEEDS="a fast-track of a proposal queued with external_propose_default"
BREAKS="the referendum starts with the simple-majority threshold instead of the one the proposal was queued with"
EDITS=[("pallets/democracy/src/lib.rs","""			let ref_index = Self::inject_referendum(now.saturating_add(voting_period), ext_proposal, threshold, delay);
			Self::transfer""","""			let ref_index = Self::inject_referendum(
				now.saturating_add(voting_period),
				ext_proposal,
				VoteThreshold::SimpleMajority,
				delay,
			);
			Self::transfer""")]
DEMO="""
use super::*;

#[test]
fn the_threshold_stays() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(Democracy::external_propose_default(RuntimeOrigin::signed(1), set_balance_proposal(2)));
		let h = NextExternal::<Test>::get().unwrap().0.hash();
		assert_ok!(Democracy::fast_track(RuntimeOrigin::signed(5), h, 2, 0));
		match Democracy::referendum_info(0) {
			Some(ReferendumInfo::Ongoing(s)) => assert_eq!(s.threshold, VoteThreshold::SuperMajorityAgainst),
			x => panic!("{x:?}"),
		}
	});
}
"""
