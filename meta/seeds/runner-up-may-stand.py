PKG="pallet-elections-phragmen"; PROPERTY="E09"
NEEDS="several runners-up, of which one that is not the best submits its candidacy"
BREAKS="it becomes a candidate while it is a runner-up and pays a second bond"
EDITS=[("pallets/elections-phragmen/src/lib.rs","			ensure!(!Self::is_runner_up(&who), Error::<T>::RunnerUpSubmit);","			let next_in_line = Self::runners_up().pop().map(|r| r.who);\n			ensure!(next_in_line.as_ref() != Some(&who), Error::<T>::RunnerUpSubmit);")]
DEMO="""
#[test]
fn no_runner_up_stands_again() {
	ExtBuilder::default().desired_runners_up(2).build_and_execute(|| {
		for i in [2, 3, 4, 5] {
			assert_ok!(submit_candidacy(RuntimeOrigin::signed(i)));
			assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], 10 * i));
		}
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		for r in Elections::runners_up() {
			assert!(submit_candidacy(RuntimeOrigin::signed(r.who)).is_err());
		}
	});
}
"""
