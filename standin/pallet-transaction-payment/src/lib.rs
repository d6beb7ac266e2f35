//! Stand-in for `pallet-transaction-payment`: its configuration trait and how it charges a fee in the native
//! currency (withdraw before, refund and hand over to the handler of fees and tips after).
#![cfg_attr(not(feature = "std"), no_std)]
use core::marker::PhantomData;
use frame_support::traits::{
	fungible::{Balanced, Credit, Debt, Inspect},
	tokens::{Fortitude, Precision, Preservation},
	Get, Imbalance, OnUnbalanced,
};
use sp_runtime::{
	traits::{DispatchInfoOf, PostDispatchInfoOf, Saturating, Zero},
	transaction_validity::{InvalidTransaction, TransactionValidityError},
};

pub trait Config: frame_system::Config {
	type RuntimeEvent;
	type OnChargeTransaction: OnChargeTransaction<Self>;
	type OperationalFeeMultiplier: Get<u8>;
	type WeightToFee: frame_support::weights::WeightToFee<Balance = <<Self as Config>::OnChargeTransaction as OnChargeTransaction<Self>>::Balance>;
	type LengthToFee: frame_support::weights::WeightToFee<Balance = <<Self as Config>::OnChargeTransaction as OnChargeTransaction<Self>>::Balance>;
	type FeeMultiplierUpdate;
}

pub trait OnChargeTransaction<T: Config + ?Sized> {
	type Balance: frame_support::traits::tokens::Balance;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>;
}

pub struct FungibleAdapter<F, OU>(PhantomData<(F, OU)>);
impl<T, F, OU> OnChargeTransaction<T> for FungibleAdapter<F, OU>
where
	T: Config,
	F: Balanced<T::AccountId>,
	OU: OnUnbalanced<Credit<T::AccountId, F>>,
{
	type Balance = <F as Inspect<T::AccountId>>::Balance;
	type LiquidityInfo = Option<Credit<T::AccountId, F>>;

	fn withdraw_fee(
		who: &T::AccountId,
		_: &T::RuntimeCall,
		_: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		_: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None)
		}
		F::withdraw(who, fee, Precision::Exact, Preservation::Preserve, Fortitude::Polite)
			.map(Some)
			.map_err(|_| InvalidTransaction::Payment.into())
	}

	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_: &DispatchInfoOf<T::RuntimeCall>,
		_: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already_withdrawn {
			let refund_amount = paid.peek().saturating_sub(corrected_fee);
			let refund = if F::total_balance(who) > Zero::zero() {
				F::deposit(who, refund_amount, Precision::BestEffort).unwrap_or_else(|_| Debt::<T::AccountId, F>::zero())
			} else {
				Debt::<T::AccountId, F>::zero()
			};
			let adjusted = paid
				.offset(refund)
				.same()
				.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}
