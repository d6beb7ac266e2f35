//! A runtime of System, Balances, the foreign assets, Authorship and the staking pallet, with the Polimec runtime's
//! own configuration of fees, dust and the electorate.
use frame_support::{construct_runtime, derive_impl, parameter_types, traits::AsEnsureOriginWithArg};
use shared_configuration::{OraclePriceProvider, Price};
use sp_runtime::traits::{AccountIdConversion, IdentityLookup};
use std::{cell::RefCell, collections::BTreeMap};

pub type AccountId = parachains_common::AccountId;
pub type Balance = u128;
pub type AssetId = u32;
pub type Block = frame_system::mocking::MockBlockU32<Runtime>;

construct_runtime!(
    pub enum Runtime {
        System: frame_system,
        Balances: pallet_balances,
        ForeignAssets: pallet_assets::<Instance2>,
        Authorship: pallet_authorship,
        ParachainStaking: pallet_parachain_staking,
    }
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Runtime {
    type AccountData = pallet_balances::AccountData<Balance>;
    type AccountId = AccountId;
    type Block = Block;
    type Lookup = IdentityLookup<AccountId>;
}
thread_local! {
    pub static AUTHOR: RefCell<Option<AccountId>> = const { RefCell::new(None) };
    pub static PRICES: RefCell<BTreeMap<AssetId, Price>> = const { RefCell::new(BTreeMap::new()) };
}
pub struct BlockAuthor;
impl frame_support::traits::FindAuthor<AccountId> for BlockAuthor {
    fn find_author<'a, I: 'a + IntoIterator<Item = (frame_support::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<AccountId> {
        AUTHOR.with(|a| a.borrow().clone())
    }
}
impl pallet_authorship::Config for Runtime {
    type EventHandler = ();
    type FindAuthor = BlockAuthor;
}
parameter_types! {
    pub const Zero: Balance = 0;
    pub const StringLimit: u32 = 50;
    pub const RemoveItemsLimit: u32 = 10;
}
impl pallet_assets::Config<pallet_assets::Instance2> for Runtime {
    type ApprovalDeposit = Zero;
    type AssetAccountDeposit = Zero;
    type AssetDeposit = Zero;
    type AssetId = AssetId;
    type AssetIdParameter = parity_scale_codec::Compact<AssetId>;
    type Balance = Balance;
    type CallbackHandle = ();
    type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<AccountId>>;
    type Currency = Balances;
    type Extra = ();
    type ForceOrigin = frame_system::EnsureRoot<AccountId>;
    type Freezer = ();
    type MetadataDepositBase = Zero;
    type MetadataDepositPerByte = Zero;
    type RemoveItemsLimit = RemoveItemsLimit;
    type RuntimeEvent = RuntimeEvent;
    type StringLimit = StringLimit;
    type WeightInfo = ();
}
/// The oracle's values.
pub struct Oracle;
impl orml_traits::DataProvider<AssetId, Price> for Oracle {
    fn get(key: &AssetId) -> Option<Price> {
        PRICES.with(|p| p.borrow().get(key).copied())
    }
}
impl crate::stubs::pallet_funding::HasPrices for Runtime {
    type PriceProvider = OraclePriceProvider<AssetId, Price, Oracle>;
}
pub struct Treasury;
impl Treasury {
    pub fn account_id() -> AccountId {
        shared_configuration::TreasuryId::get().into_account_truncating()
    }
}
pub mod prelude {
    pub use super::{
        AccountId, AssetId, Balance, Balances, Block, ForeignAssets, Oracle, OriginCaller, ParachainStaking, Runtime, RuntimeCall,
        RuntimeEvent, RuntimeFreezeReason, RuntimeHoldReason, RuntimeOrigin, System, Treasury,
    };
    pub use ::{pallet_asset_tx_payment, pallet_assets, pallet_authorship, pallet_balances, pallet_transaction_payment};
    pub mod weights {
        pub mod pallet_balances {
            pub use ::pallet_balances::weights::SubstrateWeight as WeightInfo;
        }
        pub mod pallet_parachain_staking {
            pub use ::pallet_parachain_staking::weights::SubstrateWeight as WeightInfo;
        }
    }
}
