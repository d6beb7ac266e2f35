PKG="pallet-elections-phragmen"; PROPERTY="E07"
NEEDS="nobody stands, there are runners-up, and a voter names more accounts than there are members"
BREAKS="the vote is refused although there are enough seat holders to vote for"
EDITS=[("pallets/elections-phragmen/src/lib.rs","candidates_count.saturating_add(members_count).saturating_add(runners_up_count);","candidates_count.saturating_add(members_count).saturating_add(if candidates_count.is_zero() { 0 } else { runners_up_count });")]
DEMO="""
#[test]
fn runners_up_count_as_choices() {
	ExtBuilder::default().desired_runners_up(2).build_and_execute(|| {
		for i in [2, 3, 4, 5] {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(i)));
			assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], 10 * i));
		}
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert!(Elections::candidates().is_empty());
		assert_ok!(vote(RuntimeOrigin::signed(6), vec![5, 4, 3], 20));
	});
}
"""
