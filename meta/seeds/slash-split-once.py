PKG="on-slash-vesting"; PROPERTY="S01"
NEEDS="several schedules of which one locks less than the slashed amount"
BREAKS="what one schedule cannot absorb is no longer applied to the next ones in full: later schedules are reduced by what is left of the amount only"
EDITS=[("pallets/on-slash-vesting/src/lib.rs","""			let now = T::BlockNumberProvider::current_block_number();
			for schedule in vesting_schedules {
				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);""","""			let now = T::BlockNumberProvider::current_block_number();
			let mut slashed_amount = slashed_amount;
			for schedule in vesting_schedules {
				let locked_now = schedule.locked_at::<T::BlockNumberToBalance>(now);
				// no schedule can absorb more than it locks
				slashed_amount = slashed_amount.min(locked_now.max(1));
				let total_locked = locked_now.saturating_sub(slashed_amount);""")]
DEMO="""
use frame_support::traits::VestingSchedule;
#[test]
fn each_schedule_is_lowered_by_the_amount() {
	ExtBuilder { existential_deposit: 1 }.build().execute_with(|| {
		<PalletBalances as Mutate<u64>>::set_balance(&1, 0);
		<PalletBalances as Mutate<u64>>::set_balance(&2, 1000);
		assert_ok!(PalletVesting::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(20, 10, 0)));
		assert_ok!(PalletVesting::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(200, 10, 0)));
		assert_ok!(<PalletBalances as MutateHold<u64>>::hold(&MockRuntimeHoldReason::Reason, &1u64, 50u128));
		PalletSystem::set_block_number(1);
		let _ = <PalletBalances as BalancedHold<u64>>::slash(&MockRuntimeHoldReason::Reason, &1u64, 50u128);
		<PalletVesting as OnSlash<u64, u128>>::on_slash(&1, 50);
		// 10 and 190 were locked
		assert_eq!(PalletVesting::vesting_balance(&1), Some(140));
	});
}
"""
