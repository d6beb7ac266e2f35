PKG="pallet-elections-phragmen"; PROPERTY="E13"
NEEDS="an election with members or runners-up from an earlier term"
BREAKS="the election is charged for the new candidates only, though seat holders are counted as well"
EDITS=[("pallets/elections-phragmen/src/lib.rs","		let weight_candidates = candidates_and_deposit.len() as u32;","		let weight_candidates = Self::candidates().len() as u32;")]
DEMO="""
#[test]
fn seat_holders_are_charged() {
	ExtBuilder::default().build_and_execute(|| {
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(3)));
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(4)));
		assert_ok!(vote(RuntimeOrigin::signed(4), vec![4], 40));
		assert_ok!(vote(RuntimeOrigin::signed(3), vec![3], 30));
		System::set_block_number(5);
		Elections::on_initialize(5);
		assert_eq!(Elections::members_ids(), vec![3, 4]);
		System::set_block_number(10);
		let w = Elections::on_initialize(10);
		assert!(w.all_gte(<Test as Config>::WeightInfo::election_phragmen(2, 2, 2)));
	});
}
"""
