PKG="pallet-democracy"; PROPERTY="D07"
NEEDS="vetoes of one proposal by several vetoers, not in the order of their account ids, then a second veto by one of them"
BREAKS="the same vetoer can veto a proposal again and again, although each may do so once"
EDITS=[("pallets/democracy/src/lib.rs","""			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
""","""			let insert_position = insert_position.max(existing_vetoers.len());
			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
""")]
DEMO="""
use super::*;

#[test]
fn each_vetoes_once() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		let mut block = 0;
		for v in [4, 3] {
			block += 20;
			System::set_block_number(block);
			assert_ok!(Democracy::external_propose_majority(RuntimeOrigin::signed(3), set_balance_proposal(2)));
			let h = NextExternal::<Test>::get().unwrap().0.hash();
			assert_ok!(Democracy::veto_external(RuntimeOrigin::signed(v), h));
		}
		System::set_block_number(60);
		assert_ok!(Democracy::external_propose_majority(RuntimeOrigin::signed(3), set_balance_proposal(2)));
		let h = NextExternal::<Test>::get().unwrap().0.hash();
		assert_noop!(Democracy::veto_external(RuntimeOrigin::signed(4), h), Error::<Test>::AlreadyVetoed);
		assert_noop!(Democracy::veto_external(RuntimeOrigin::signed(3), h), Error::<Test>::AlreadyVetoed);
	});
}
"""
