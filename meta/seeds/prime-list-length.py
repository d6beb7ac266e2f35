PKG="pallet-elections-phragmen"; PROPERTY="E05"
NEEDS="vote lists of different lengths in one election"
BREAKS="the first place of a short list weighs less than that of a long one, so another member becomes prime"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""							((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)""","""							((votes.len() - vote_position) as u32, who)""")]
DEMO="""
#[test]
fn first_place_weighs_the_same_in_every_list() {
	ExtBuilder::default().desired_members(3).build_and_execute(|| {
		for who in [3, 4, 5] {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(who)));
		}
		assert_ok!(vote(RuntimeOrigin::signed(6), vec![4], 50));
		assert_ok!(vote(RuntimeOrigin::signed(5), vec![5, 3], 30));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(PRIME.with(|p| *p.borrow()), Some(4));
	});
}
"""
