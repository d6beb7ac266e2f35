PKG="pallet-elections-phragmen"; PROPERTY="E08"
NEEDS="a voter all of whose choices are runners-up, and a clean-up"
BREAKS="the vote is removed as defunct although its choices can still be elected"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""		votes.iter().all(|v| !Self::is_member(v) && !Self::is_runner_up(v) && Self::is_candidate(v).is_err())""","""		let runners_up = Self::runners_up();
		votes.iter().all(|v| {
			!Self::is_member(v) &&
				runners_up.binary_search_by(|r| r.who.cmp(v)).is_err() &&
				Self::is_candidate(v).is_err()
		})""")]
DEMO="""
#[test]
fn voters_of_runners_up_stay() {
	ExtBuilder::default().desired_members(1).desired_runners_up(3).balance_factor(10).build_and_execute(|| {
		for (who, stake) in [(2, 150), (3, 100), (4, 50), (5, 200)] {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(who)));
			assert_ok!(vote(RuntimeOrigin::signed(who), vec![who], if who == 2 { 20 } else { stake }));
		}
		assert_ok!(vote(RuntimeOrigin::signed(6), vec![2], 130));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(runners_up_ids(), vec![4, 3, 2]);
		assert_ok!(Elections::clean_defunct_voters(RuntimeOrigin::root(), 10, 10));
		let mut v = all_voters();
		v.sort();
		assert_eq!(v, vec![2, 3, 4, 5, 6]);
	});
}
"""
