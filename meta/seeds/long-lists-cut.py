PKG = "pallet-elections-phragmen"
PROPERTY = "E01"
NEEDS = "a voter that votes for more than twelve who stand"
BREAKS = "the choices of a voter beyond the twelfth get nothing in the count"
EDITS = [("pallets/elections-phragmen/src/lib.rs",
"""				num_edges = num_edges.saturating_add(votes.len() as u32);
				(voter, to_votes(stake), votes)""",
"""				num_edges = num_edges.saturating_add(votes.len() as u32);
				(voter, to_votes(stake), votes.into_iter().take(12).collect::<Vec<_>>())""")]
DEMO = """
use super::*;

#[test]
fn the_thirteenth_choice_counts() {
	ExtBuilder::default().desired_members(14).build_and_execute(|| {
		let all: Vec<u64> = (101..=114).collect();
		for c in &all {
			let _ = <Balances as frame_support::traits::fungible::Mutate<u64>>::mint_into(c, 100);
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(*c)));
		}
		assert_ok!(vote(RuntimeOrigin::signed(2), all.clone(), 20));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(members_ids(), all);
	});
}
"""
