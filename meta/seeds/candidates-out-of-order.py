PKG="pallet-elections-phragmen"; PROPERTY="E04"
NEEDS="at least three candidates, of which one that is neither the last nor the last but one renounces"
BREAKS="the list of candidates is no longer sorted, so candidates are not found and can stand twice"
EDITS=[("pallets/elections-phragmen/src/lib.rs","						let (_, deposit) = candidates.remove(index);","						let (_, deposit) = candidates.swap_remove(index);")]
DEMO="""
#[test]
fn candidates_stay_sorted() {
	ExtBuilder::default().build_and_execute(|| {
		for i in [2, 3, 4, 5] {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(i)));
		}
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(2), Renouncing::Candidate(4)));
		assert_eq!(Elections::candidates().into_iter().map(|c| c.0).collect::<Vec<_>>(), vec![3, 4, 5]);
	});
}
"""
