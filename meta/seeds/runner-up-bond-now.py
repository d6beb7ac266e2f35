PKG="pallet-elections-phragmen"; PROPERTY="E02"
NEEDS="the candidacy bond is lowered after a runner-up paid it, and the runner-up then renounces"
BREAKS="only the present bond is returned, the rest of what the runner-up paid stays held for ever"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""						let SeatHolder { deposit, .. } = runners_up.remove(index);
						T::Currency""","""						let SeatHolder { deposit, .. } = runners_up.remove(index);
						let deposit = deposit.min(T::CandidacyBond::get());
						T::Currency""")]
DEMO="""
#[test]
fn whole_bond_comes_back() {
	ExtBuilder::default().desired_members(1).desired_runners_up(1).build_and_execute(|| {
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(4)));
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
		assert_ok!(vote(RuntimeOrigin::signed(4), vec![4], 20));
		assert_ok!(vote(RuntimeOrigin::signed(5), vec![5], 40));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(runners_up_ids(), vec![4]);
		CANDIDACY_BOND.with(|b| *b.borrow_mut() = 1);
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(4), Renouncing::RunnerUp));
		assert_eq!(Balances::free_balance(4), 40);
	});
}
"""
