PKG="pallet-elections-phragmen"; PROPERTY="E11"
NEEDS="a voter whose first choice no longer stands, but others of the list do"
BREAKS="such a voter's whole vote is left out of the count, so its later choices get nothing"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""		let voters_and_votes = voters_and_stakes
			.iter()
			.cloned()
""","""		let voters_and_votes = voters_and_stakes
			.iter()
			.filter(|(_, _, votes)| votes.first().map_or(false, |first| candidate_ids.contains(first)))
			.cloned()
""")]
DEMO="""
#[test]
fn later_choices_count() {
	ExtBuilder::default().build_and_execute(|| {
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(3)));
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(4)));
		assert_ok!(vote(RuntimeOrigin::signed(6), vec![3, 4], 60));
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(3), Renouncing::Candidate(2)));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(Elections::members_ids(), vec![4]);
	});
}
"""
