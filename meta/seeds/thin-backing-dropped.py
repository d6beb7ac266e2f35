PKG="pallet-elections-phragmen"; PROPERTY="E01"
NEEDS="a winner whose backing in the count is no more than the existential deposit, because one small voter backs several winners"
BREAKS="a candidate the count elects gets no seat and loses its bond"
EDITS=[("pallets/elections-phragmen/src/lib.rs","""						.filter_map(|(m, b)| if b.is_zero() { None } else { Some((m, to_balance(b))) })
""","""						.map(|(m, b)| (m, to_balance(b)))
						.filter(|(_, backing)| *backing > T::Currency::minimum_balance())
""")]
DEMO="""
#[test]
fn a_small_voter_elects_two() {
	ExtBuilder::default().build_and_execute(|| {
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(4)));
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
		assert_ok!(vote(RuntimeOrigin::signed(2), vec![4, 5], 2));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(members_ids(), vec![4, 5]);
	});
}
"""
