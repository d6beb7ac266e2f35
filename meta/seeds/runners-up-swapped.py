PKG="pallet-elections-phragmen"; PROPERTY="E06"
NEEDS="three or more runners-up of which one that is neither of the two best renounces, and then a member leaves"
BREAKS="the order of the remaining runners-up is disturbed, so the seat does not go to the best of them"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""						let SeatHolder { deposit, .. } = runners_up.remove(index);""","""						let SeatHolder { deposit, .. } = runners_up.swap_remove(index);""")]
DEMO="""
#[test]
fn the_best_runner_up_gets_the_seat() {
	ExtBuilder::default().desired_members(1).desired_runners_up(3).balance_factor(10).build_and_execute(|| {
		for (who, stake) in [(2, 50), (3, 100), (4, 150), (5, 200)] {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(who)));
			assert_ok!(vote(RuntimeOrigin::signed(who), vec![who], stake));
		}
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!((members_ids(), runners_up_ids()), (vec![5], vec![2, 3, 4]));
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(2), Renouncing::RunnerUp));
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(5), Renouncing::Member));
		assert_eq!((members_ids(), runners_up_ids()), (vec![4], vec![3]));
	});
}
"""
