PKG="on-slash-vesting"; PROPERTY="S02"
NEEDS="schedules with different ends, of which the first ends before the others"
BREAKS="after a slash all schedules end when the first one would, so later ones unlock sooner than agreed"
EDITS=[("pallets/on-slash-vesting/src/lib.rs","			let now = T::BlockNumberProvider::current_block_number();","			let now = T::BlockNumberProvider::current_block_number();\n			let term = vesting_schedules.first().map(|s| s.ending_block_as_balance::<T::BlockNumberToBalance>()).unwrap_or(u128::MAX);"),
("pallets/on-slash-vesting/src/lib.rs","				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();","				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>().min(term.max(start_block.saturating_add(1)));")]
DEMO="""
use frame_support::traits::VestingSchedule;
#[test]
fn later_schedules_keep_their_term() {
	ExtBuilder { existential_deposit: 1 }.build().execute_with(|| {
		<PalletBalances as Mutate<u64>>::set_balance(&1, 0);
		<PalletBalances as Mutate<u64>>::set_balance(&2, 1000);
		assert_ok!(PalletVesting::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(100, 20, 0)));
		assert_ok!(PalletVesting::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(200, 5, 0)));
		assert_ok!(<PalletBalances as MutateHold<u64>>::hold(&MockRuntimeHoldReason::Reason, &1u64, 50u128));
		PalletSystem::set_block_number(1);
		let _ = <PalletBalances as BalancedHold<u64>>::slash(&MockRuntimeHoldReason::Reason, &1u64, 50u128);
		<PalletVesting as OnSlash<u64, u128>>::on_slash(&1, 50);
		PalletSystem::set_block_number(10);
		// the second schedule, 40 blocks long, locked 200 - 50 = 150 - 50 at block 10 at the least
		assert!(PalletVesting::vesting_balance(&1).unwrap_or(0) >= 100);
	});
}
"""
