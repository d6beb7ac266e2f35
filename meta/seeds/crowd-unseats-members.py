PKG="pallet-elections-phragmen"; PROPERTY="E10"
NEEDS="an election that cannot be held because there are more voters than MaxVoters, while there are members"
BREAKS="the failed election leaves no members, their bonds held for ever"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""		let max_voters = <T as Config>::MaxVoters::get() as usize;
		// used""","""		// this is already sorted by id.
		let old_members_ids_sorted =
			<Members<T>>::take().into_iter().map(|m| m.who).collect::<Vec<T::AccountId>>();

		let max_voters = <T as Config>::MaxVoters::get() as usize;
		// used"""),("pallets/elections-phragmen/src/lib.rs","""					// this is already sorted by id.
					let old_members_ids_sorted =
						<Members<T>>::take().into_iter().map(|m| m.who).collect::<Vec<T::AccountId>>();
					// this one""","""					// this one""")]
DEMO="""
#[test]
fn a_failed_election_changes_nothing() {
	ExtBuilder::default().build_and_execute(|| {
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(4)));
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
		assert_ok!(vote(RuntimeOrigin::signed(4), vec![4], 40));
		assert_ok!(vote(RuntimeOrigin::signed(5), vec![5], 50));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(members_ids(), vec![4, 5]);
		for i in 0..PhragmenMaxVoters::get() as u64 {
			Voting::<Test>::insert(1000 + i, Voter { votes: vec![4], stake: 5, lockup_till: 0 });
		}
		System::set_block_number(10);
		Elections::on_initialize(System::block_number());
		assert_eq!(members_ids(), vec![4, 5]);
	});
}
"""
