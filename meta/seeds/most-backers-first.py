PKG="pallet-democracy"; PROPERTY="D06"
NEEDS="two proposals of which one has more backers and the other more money behind it"
BREAKS="the proposal with more backers is tabled instead of the one with the larger deposit in total"
EDITS=[("pallets/democracy/src/lib.rs","			|x| Self::backing_for((x.1).0).defensive_unwrap_or_else(Zero::zero),","			|x| Self::deposit_of((x.1).0).map(|(backers, each)| (backers.len(), each)),")]
DEMO="""
use super::*;

#[test]
fn money_decides() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(propose_set_balance(1, 2, 2));
		assert_ok!(propose_set_balance(5, 4, 30));
		assert_ok!(Democracy::second(RuntimeOrigin::signed(2), 0));
		fast_forward_to(2);
		// the second proposal was tabled, the first waits
		assert!(Democracy::deposit_of(0).is_some());
		assert!(Democracy::deposit_of(1).is_none());
	});
}
"""
