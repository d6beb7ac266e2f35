PKG="pallet-democracy"; PROPERTY="D04"
NEEDS="three proposals queued, the first one tabled (which moves the last to the front), then another proposal"
BREAKS="the new proposal gets the index of a waiting one, whose depositors are overwritten and never refunded"
EDITS=[("pallets/democracy/src/lib.rs","""			let index = Self::public_prop_count();
			let real_prop_count = PublicProps::<T>::decode_len().unwrap_or(0) as u32;""","""			let queue = Self::public_props();
			// indices follow on from the youngest waiting proposal
			let index = queue.last().map_or(Self::public_prop_count(), |(last, ..)| last + 1);
			let real_prop_count = queue.len() as u32;""")]
DEMO="""
use super::*;

#[test]
fn every_depositor_gets_the_deposit_back() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(propose_set_balance(1, 2, 9));
		assert_ok!(propose_set_balance(2, 3, 3));
		assert_ok!(propose_set_balance(3, 4, 4));
		fast_forward_to(2);
		assert_ok!(propose_set_balance(4, 5, 2));
		fast_forward_to(8);
		for who in 1..=4u64 {
			assert_eq!(Balances::free_balance(who), who * 10);
		}
	});
}
"""
