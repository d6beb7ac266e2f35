PKG = "pallet-democracy"
PROPERTY = "D09"
NEEDS = "a proposal with a seconder, and the last seconder setting its metadata"
BREAKS = "an account that merely seconded a proposal may change or clear what the proposal says about itself"
EDITS = [("pallets/democracy/src/lib.rs",
"""					let (_, _, proposer) = Self::proposal(index)?;
					ensure!(proposer == who, Error::<T>::NoPermission);
""",
"""					let (_, _, proposer) = Self::proposal(index)?;
					let backs = |w: &[T::AccountId]| w.last() == Some(&who);
					let backer = Self::deposit_of(index).map_or(false, |(w, _)| backs(&w));
					ensure!(proposer == who || backer, Error::<T>::NoPermission);
""")]
DEMO = """
use super::*;

#[test]
fn only_the_proposer_owns_the_metadata() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		let hash = note_preimage(1);
		let other = note_preimage(2);
		assert_ok!(propose_set_balance(1, 2, 5));
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(1), MetadataOwner::Proposal(0), Some(hash)));
		assert_ok!(Democracy::second(RuntimeOrigin::signed(2), 0));
		assert!(Democracy::set_metadata(RuntimeOrigin::signed(2), MetadataOwner::Proposal(0), Some(other)).is_err());
		assert!(Democracy::set_metadata(RuntimeOrigin::signed(2), MetadataOwner::Proposal(0), None).is_err());
		assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Proposal(0)), Some(hash));
	});
}
"""
