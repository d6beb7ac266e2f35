//! Stand-in: the types and constants of a parachain with twelve seconds per block, and the handler that gives fees
//! paid in an asset to the author of the block.
#![no_std]
use frame_support::weights::{constants::WEIGHT_REF_TIME_PER_SECOND, Weight};
use sp_runtime::{
	traits::{IdentifyAccount, Verify},
	MultiSignature, Perbill,
};
pub type BlockNumber = u32;
pub type Balance = u128;
pub type Signature = MultiSignature;
pub type AccountId = <<Signature as Verify>::Signer as IdentifyAccount>::AccountId;
pub type AssetIdForTrustBackedAssets = u32;
pub const MILLISECS_PER_BLOCK: u64 = 12000;
pub const SLOT_DURATION: u64 = MILLISECS_PER_BLOCK;
pub const MINUTES: BlockNumber = 60_000 / (MILLISECS_PER_BLOCK as BlockNumber);
pub const HOURS: BlockNumber = MINUTES * 60;
pub const DAYS: BlockNumber = HOURS * 24;
pub const AVERAGE_ON_INITIALIZE_RATIO: Perbill = Perbill::from_percent(5);
pub const NORMAL_DISPATCH_RATIO: Perbill = Perbill::from_percent(75);
pub const MAXIMUM_BLOCK_WEIGHT: Weight =
	Weight::from_parts(WEIGHT_REF_TIME_PER_SECOND.saturating_div(2), 5 * 1024 * 1024);

pub mod impls {
	use core::marker::PhantomData;
	use frame_support::traits::fungibles::{Balanced, Credit};
	use pallet_asset_tx_payment::HandleCredit;
	pub type AccountIdOf<R> = <R as frame_system::Config>::AccountId;
	pub struct AssetsToBlockAuthor<R, I>(PhantomData<(R, I)>);
	impl<R, I> HandleCredit<AccountIdOf<R>, pallet_assets::Pallet<R, I>> for AssetsToBlockAuthor<R, I>
	where
		I: 'static,
		R: pallet_authorship::Config + pallet_assets::Config<I>,
	{
		fn handle_credit(credit: Credit<AccountIdOf<R>, pallet_assets::Pallet<R, I>>) {
			if let Some(author) = pallet_authorship::Pallet::<R>::author() {
				let _ = pallet_assets::Pallet::<R, I>::resolve(&author, credit);
			}
		}
	}
}
