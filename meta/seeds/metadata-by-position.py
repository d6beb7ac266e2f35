PKG="pallet-democracy"; PROPERTY="D09"
NEEDS="a public proposal with metadata whose position in the queue differs from its index when it is tabled"
BREAKS="the referendum gets the metadata of another proposal, or none"
EDITS=[("pallets/democracy/src/lib.rs","""				Self::transfer_metadata(MetadataOwner::Proposal(prop_index), MetadataOwner::Referendum(ref_index))""",
"""				let owner = MetadataOwner::Proposal(winner_index as PropIndex);
				Self::transfer_metadata(owner, MetadataOwner::Referendum(ref_index))""")]
DEMO="""
use super::*;

#[test]
fn metadata_follows_its_own_proposal() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(propose_set_balance(1, 2, 9));
		assert_ok!(propose_set_balance(2, 3, 3));
		let hash = note_preimage(2);
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(2), MetadataOwner::Proposal(1), Some(hash)));
		fast_forward_to(4);
		assert!(Democracy::referendum_info(1).is_some());
		assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Referendum(1)), Some(hash));
		assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Proposal(1)), None);
	});
}
"""
