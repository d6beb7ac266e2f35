PKG="on-slash-vesting"; PROPERTY="S03"
NEEDS="a slash of more than one of several schedules still locks"
BREAKS="that schedule stays as it was, so the account's lock exceeds what the slash left and later income is frozen"
EDITS=[("pallets/on-slash-vesting/src/lib.rs","				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);","				let locked = schedule.locked_at::<T::BlockNumberToBalance>(now);\n				let total_locked = locked.checked_sub(slashed_amount).unwrap_or(locked);")]
DEMO="""
use frame_support::traits::VestingSchedule;
#[test]
fn a_slash_beyond_a_schedule_ends_it() {
	ExtBuilder { existential_deposit: 1 }.build().execute_with(|| {
		<PalletBalances as Mutate<u64>>::set_balance(&1, 0);
		<PalletBalances as Mutate<u64>>::set_balance(&2, 1000);
		assert_ok!(PalletVesting::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(20, 1, 0)));
		assert_ok!(PalletVesting::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(100, 5, 0)));
		assert_ok!(<PalletBalances as MutateHold<u64>>::hold(&MockRuntimeHoldReason::Reason, &1u64, 60u128));
		PalletSystem::set_block_number(1);
		let _ = <PalletBalances as BalancedHold<u64>>::slash(&MockRuntimeHoldReason::Reason, &1u64, 60u128);
		<PalletVesting as OnSlash<u64, u128>>::on_slash(&1, 60);
		// 95 - 60 of the second is all that is left to vest
		assert!(PalletVesting::vesting_balance(&1).unwrap_or(0) <= 35);
	});
}
"""
