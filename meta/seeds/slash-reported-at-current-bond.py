PKG="pallet-elections-phragmen"; PROPERTY="E12"
NEEDS="the candidacy bond changes between a candidacy and the election it loses"
BREAKS="the event names the bond of today instead of the amount taken"
EDITS=[("pallets/elections-phragmen/src/lib.rs","Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });","Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: T::CandidacyBond::get() });")]
DEMO="""
#[test]
fn the_event_names_what_was_taken() {
	ExtBuilder::default().build_and_execute(|| {
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(3)));
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(4)));
		assert_ok!(vote(RuntimeOrigin::signed(4), vec![4], 40));
		CANDIDACY_BOND.with(|v| *v.borrow_mut() = 7);
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		System::assert_has_event(RuntimeEvent::Elections(super::Event::CandidateSlashed { candidate: 3, amount: 3 }));
	});
}
"""
