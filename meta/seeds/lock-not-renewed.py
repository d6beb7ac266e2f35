PKG="pallet-elections-phragmen"; PROPERTY="E03"
NEEDS="voting again with the same stake in a later block, then leaving between the old and the new end of the lock"
BREAKS="the lock is not renewed by a new vote, so the voter can leave before the voting lock period of that vote has passed"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""			Voting::<T>::insert(
				&who,
				Voter { votes, stake: locked_stake, lockup_till: current_block + T::VotingLockPeriod::get() },
			);""","""			let lockup_till = if current_block < voter.lockup_till && locked_stake == voter.stake {
				// only the preferences change, the stake is committed already
				voter.lockup_till
			} else {
				current_block + T::VotingLockPeriod::get()
			};
			Voting::<T>::insert(&who, Voter { votes, stake: locked_stake, lockup_till });""")]
DEMO="""
#[test]
fn a_new_vote_is_locked_afresh() {
	ExtBuilder::default().build_and_execute(|| {
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
		System::set_block_number(1);
		assert_ok!(vote(RuntimeOrigin::signed(2), vec![5], 20));
		System::set_block_number(2);
		assert_ok!(vote(RuntimeOrigin::signed(2), vec![5], 20));
		System::set_block_number(3);
		assert!(Elections::remove_voter(RuntimeOrigin::signed(2)).is_err());
		System::set_block_number(4);
		assert_ok!(Elections::remove_voter(RuntimeOrigin::signed(2)));
	});
}
"""
