PKG="pallet-democracy"; PROPERTY="D06"
NEEDS="a launch with only public proposals waiting, then one with an external proposal waiting as well"
BREAKS="a turn the external queue could not use counts as used, so the public queue goes first again"
EDITS=[("pallets/democracy/src/lib.rs","""		if LastTabledWasExternal::<T>::take() {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
		} else {
			Self::launch_external(now).or_else(|_| Self::launch_public(now))
		}
		.map_err(|_| Error::<T>::NoneWaiting.into())
""","""		// each queue has its turn
		let public_first = LastTabledWasExternal::<T>::mutate(|last| sp_std::mem::replace(last, !*last));
		if public_first {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
		} else {
			Self::launch_external(now).or_else(|_| Self::launch_public(now))
		}
		.map_err(|_| Error::<T>::NoneWaiting.into())
""")]
DEMO="""
use super::*;

#[test]
fn the_external_queue_gets_its_turn() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(propose_set_balance(6, 2, 2));
		fast_forward_to(2);
		assert_eq!(Democracy::referendum_count(), 1);
		assert_ok!(propose_set_balance(6, 3, 2));
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(12)));
		fast_forward_to(4);
		// a public proposal was tabled last: now the external one was
		assert_eq!(Democracy::public_props().len(), 1);
		assert!(!NextExternal::<Test>::exists());
	});
}
"""
