//! Stand-in for `pallet-asset-tx-payment`: its configuration trait and the traits to charge a fee in another asset.
#![cfg_attr(not(feature = "std"), no_std)]
use frame_support::traits::fungibles::{Balanced, Credit, Inspect};
use sp_runtime::{
	traits::{DispatchInfoOf, PostDispatchInfoOf},
	transaction_validity::TransactionValidityError,
};

pub type AssetBalanceOf<T> =
	<<T as Config>::Fungibles as Inspect<<T as frame_system::Config>::AccountId>>::Balance;

pub trait Config: frame_system::Config + pallet_transaction_payment::Config {
	type RuntimeEvent;
	type Fungibles: Balanced<Self::AccountId>;
	type OnChargeAssetTransaction: OnChargeAssetTransaction<Self>;
}

pub trait OnChargeAssetTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance;
	type AssetId: Clone + core::fmt::Debug + Eq;
	type LiquidityInfo;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		asset_id: Self::AssetId,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(AssetBalanceOf<T>, AssetBalanceOf<T>), TransactionValidityError>;
}

pub trait HandleCredit<AccountId, B: Balanced<AccountId>> {
	fn handle_credit(credit: Credit<AccountId, B>);
}
impl<A, B: Balanced<A>> HandleCredit<A, B> for () {
	fn handle_credit(_: Credit<A, B>) {}
}
