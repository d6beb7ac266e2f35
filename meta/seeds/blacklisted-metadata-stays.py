PKG="pallet-democracy"; PROPERTY="D09"
NEEDS="a blacklisted proposal that is queued both as external proposal and by the public, with metadata on the former"
BREAKS="the metadata of the external proposal stays and turns up on the next one"
EDITS=[("pallets/democracy/src/lib.rs","""			// Remove the external queued referendum, if it's there.
			if matches!(NextExternal""","""			let queued = PublicProps::<T>::decode_len().unwrap_or(0) < queued;
			// Remove the external queued referendum, if it's there.
			if matches!(NextExternal"""),
("pallets/democracy/src/lib.rs","""				NextExternal::<T>::kill();
				Self::clear_metadata(MetadataOwner::External);
			}

			// Remove the referendum, if""","""				NextExternal::<T>::kill();
				if !queued {
					Self::clear_metadata(MetadataOwner::External);
				}
			}

			// Remove the referendum, if"""),
("pallets/democracy/src/lib.rs","""			Blacklist::<T>::insert(&proposal_hash, permanent);
""","""			Blacklist::<T>::insert(&proposal_hash, permanent);
			let queued = PublicProps::<T>::decode_len().unwrap_or(0);
""")]
DEMO="""
use super::*;

#[test]
fn nothing_is_left_of_a_blacklisted_proposal() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(propose_set_balance(1, 2, 4));
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
		let hash = note_preimage(2);
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(2), MetadataOwner::External, Some(hash)));
		assert_ok!(Democracy::blacklist(RuntimeOrigin::root(), set_balance_proposal(2).hash(), None));
		assert_eq!(MetadataOf::<Test>::get(MetadataOwner::External), None);
	});
}
"""
