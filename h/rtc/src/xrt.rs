//! What the runtime's message configuration is set against.
pub mod prelude {
    #![allow(dead_code)]
    use std::cell::RefCell;
    use xcm::v4::Location;
    pub type AccountId = parachains_common::AccountId;
    pub type Balance = u128;
    pub use frame_system::EnsureRoot;
    pub use shared_configuration::WeightToFee;
    macro_rules! units { ($($n:ident)*) => { $(pub struct $n;)* } }
    units! { Runtime RuntimeCall RuntimeEvent Balances Funding ParachainSystem ToTreasury AllPalletsWithSystem XcmRouter XcmWeightInfo ForeignAssets ContributionTokens }
    pub fn treasury() -> AccountId {
        AccountId::from([8u8; 32])
    }
    pub struct TreasuryAccount;
    impl frame_support::traits::Get<AccountId> for TreasuryAccount {
        fn get() -> AccountId {
            treasury()
        }
    }
    thread_local! {
        /// who was given what for the weight sold
        pub static REVENUE: RefCell<Vec<(AccountId, Location, u128)>> = const { RefCell::new(Vec::new()) };
    }
    impl xcm_builder::NativeRevenue for ToTreasury {
        fn take(amount: u128) {
            REVENUE.with(|r| r.borrow_mut().push((treasury(), Location::here(), amount)));
        }
    }
    pub struct RuntimeOrigin;
    impl From<crate::stubs::cumulus_pallet_xcm::Origin> for RuntimeOrigin {
        fn from(_: crate::stubs::cumulus_pallet_xcm::Origin) -> Self {
            RuntimeOrigin
        }
    }
    pub const PARA: u32 = 3344;
    pub struct ParachainInfo;
    impl ParachainInfo {
        pub fn parachain_id() -> u32 {
            PARA
        }
    }
    pub type AssetIdPalletAssets = u32;
    impl ForeignAssets {
        pub fn index() -> usize {
            14
        }
    }
    impl ContributionTokens {
        pub fn index() -> usize {
            13
        }
    }
    thread_local! {
        pub static AWAITED: RefCell<Vec<(Location, u64)>> = const { RefCell::new(Vec::new()) };
    }
    /// The awaited responses are those of the case at hand.
    pub struct PolkadotXcm;
    impl PolkadotXcm {
        pub fn check_account() -> AccountId {
            AccountId::from([7u8; 32])
        }
    }
    impl xcm_executor::traits::OnResponse for PolkadotXcm {
        fn expecting_response(origin: &Location, query_id: u64, _: Option<&Location>) -> bool {
            AWAITED.with(|a| a.borrow().iter().any(|(o, q)| o == origin && *q == query_id))
        }
    }
}
