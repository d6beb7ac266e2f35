PKG="pallet-democracy"; PROPERTY="D13"
NEEDS="metadata set on an owner that has metadata already"
BREAKS="replacing metadata reports it as cleared as well as set"
EDITS=[("pallets/democracy/src/lib.rs","				MetadataOf::<T>::insert(owner.clone(), hash);\n","				Self::clear_metadata(owner.clone());\n				MetadataOf::<T>::insert(owner.clone(), hash);\n")]
DEMO="""
use super::*;

#[test]
fn replacing_metadata_is_one_event() {
	new_test_ext().execute_with(|| {
		System::set_block_number(1);
		assert_ok!(propose_set_balance(1, 2, 2));
		let hash = note_preimage(1);
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(1), MetadataOwner::Proposal(0), Some(hash)));
		System::reset_events();
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(1), MetadataOwner::Proposal(0), Some(hash)));
		let n = System::events().into_iter().filter(|e| matches!(e.event, RuntimeEvent::Democracy(_))).count();
		assert_eq!(n, 1);
	});
}
"""
