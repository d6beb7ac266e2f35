//! A runtime like the one of pallets/funding/src/mock.rs, with 32 byte accounts (a u64 account truncates the derived
//! accounts of all projects to the same value), small limits and a router that records what is sent.
use frame_support::{
    construct_runtime, derive_impl,
    parameter_types,
    traits::{AsEnsureOriginWithArg, ConstU32, ConstU64, Everything, WithdrawReasons},
    PalletId,
};
use frame_system::{EnsureRoot, EnsureSigned};
use pallet_funding::{self, AcceptedFundingAsset, Balance, DaysToBlocks, Multiplier};
use polimec_common::{credentials::EnsureInvestor, ProvideAssetPrice, PLMC_DECIMALS, PLMC_FOREIGN_ID, USD_DECIMALS, USD_UNIT};
use sp_arithmetic::{FixedU128, Perbill, Percent};
use sp_core::ConstU8;
use sp_runtime::{
    traits::{AccountIdConversion, ConvertBack, ConvertInto, IdentityLookup},
    AccountId32, BuildStorage, Perquintill,
};
use std::{cell::RefCell, collections::BTreeMap, ops::RangeInclusive};
use xcm::v4::prelude::*;

pub type Acc = AccountId32;
pub type Block = frame_system::mocking::MockBlock<Test>;
pub const PLMC: Balance = 10u128.pow(PLMC_DECIMALS as u32);
pub const ED: Balance = PLMC / 100;

pub const EVALUATION: u64 = 10;
pub const AUCTION: u64 = 15;
pub const COMMUNITY: u64 = 18;
pub const REMAINDER: u64 = 6;
pub const MAX_EVALS: u32 = 14;
pub const MAX_EVALS_USER: u32 = 4;
pub const MAX_BIDS: u32 = 40;
pub const MAX_BIDS_USER: u32 = 14;
pub const MAX_CONTRIBS_USER: u32 = 5;
pub const CT_STRING: u32 = 50;
pub const STRING: u32 = 64;

thread_local! {
    static SENT: RefCell<Vec<(Location, Xcm<()>)>> = const { RefCell::new(vec![]) };
    static PRICES: RefCell<BTreeMap<u32, FixedU128>> = const { RefCell::new(BTreeMap::new()) };
    static FAIL_SEND: RefCell<bool> = const { RefCell::new(false) };
}
pub fn sent() -> Vec<(Location, Xcm<()>)> {
    SENT.with(|s| s.borrow_mut().drain(..).collect())
}
pub fn fail_send(b: bool) {
    FAIL_SEND.with(|f| *f.borrow_mut() = b)
}
pub fn price(asset: u32) -> FixedU128 {
    PRICES.with(|p| p.borrow()[&asset])
}
pub fn set_price(asset: u32, x: FixedU128) {
    PRICES.with(|p| p.borrow_mut().insert(asset, x));
}

pub struct Router;
impl SendXcm for Router {
    type Ticket = (Location, Xcm<()>);
    fn validate(d: &mut Option<Location>, m: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket> {
        Ok(((d.take().unwrap(), m.take().unwrap()), Assets::new()))
    }
    fn deliver(t: Self::Ticket) -> Result<XcmHash, SendError> {
        if FAIL_SEND.with(|f| *f.borrow()) {
            return Err(SendError::Unroutable);
        }
        SENT.with(|s| s.borrow_mut().push(t));
        Ok([0; 32])
    }
}

pub struct Id32;
impl sp_runtime::traits::Convert<Acc, [u8; 32]> for Id32 {
    fn convert(a: Acc) -> [u8; 32] {
        a.into()
    }
}
impl ConvertBack<Acc, [u8; 32]> for Id32 {
    fn convert_back(b: [u8; 32]) -> Acc {
        b.into()
    }
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
    type AssetId = u32;
    type Price = FixedU128;
    fn get_price(a: u32) -> Option<FixedU128> {
        PRICES.with(|p| p.borrow().get(&a).cloned())
    }
}

parameter_types! {
    pub UniversalLocation: InteriorLocation = (GlobalConsensus(Polkadot), Parachain(3344u32)).into();
    pub const ExistentialDeposit: Balance = ED;
    pub const AssetDeposit: Balance = PLMC;
    pub const AssetAccountDeposit: Balance = PLMC / 9;
    pub const Zero: Balance = 0;
    pub const FundingPalletId: PalletId = PalletId(*b"plmc-fun");
    pub const RootId: PalletId = PalletId(*b"treasury");
    pub FeeBrackets: Vec<(Percent, Balance)> = vec![
        (Percent::from_percent(10), 1_000_000 * USD_UNIT),
        (Percent::from_percent(8), 4_000_000 * USD_UNIT),
        (Percent::from_percent(6), u128::MAX),
    ];
    pub EvaluationThreshold: Percent = Percent::from_percent(10);
    pub EvaluatorSlash: Percent = Percent::from_percent(20);
    pub FundingThreshold: Perquintill = Perquintill::from_percent(33);
    pub OpsTreasury: Acc = Acc::new([201; 32]);
    pub BondTreasury: Acc = Acc::new([202; 32]);
    pub CtTreasury: Acc = Acc::new([203; 32]);
    pub FeeRecipient: Acc = Acc::new([204; 32]);
    pub FeePercentage: Perbill = Perbill::from_rational(75u32, 1000u32);
    pub MaxMessageSizeThresholds: RangeInclusive<u32> = 50000..=102_400;
    pub MaxCapacityThresholds: RangeInclusive<u32> = 8..=1000;
    pub MinUsdPerEvaluation: Balance = 100 * USD_UNIT;
    pub Unvested: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
    pub VerifierPublicKey: [u8; 32] = [
        32, 118, 30, 171, 58, 212, 197, 27, 146, 122, 255, 243, 34, 245, 90, 244, 221, 37, 253,
        195, 18, 202, 111, 55, 39, 48, 123, 17, 101, 78, 215, 94,
    ];
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Balance>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = IdentityLookup<Acc>;
}
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Balance;
    type DustRemoval = ();
    type ExistentialDeposit = ExistentialDeposit;
    type FreezeIdentifier = ();
    type MaxFreezes = ConstU32<1024>;
    type MaxLocks = ConstU32<1024>;
    type MaxReserves = ConstU32<1024>;
    type ReserveIdentifier = [u8; 8];
    type RuntimeEvent = RuntimeEvent;
    type RuntimeFreezeReason = RuntimeFreezeReason;
    type RuntimeHoldReason = RuntimeHoldReason;
    type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
    type MinimumPeriod = ConstU64<5>;
    type Moment = u64;
    type OnTimestampSet = ();
    type WeightInfo = ();
}
impl pallet_assets::Config<pallet_assets::Instance1> for Test {
    type ApprovalDeposit = ExistentialDeposit;
    type AssetAccountDeposit = Zero;
    type AssetDeposit = AssetDeposit;
    type AssetId = u32;
    type AssetIdParameter = parity_scale_codec::Compact<u32>;
    type Balance = Balance;
    type CallbackHandle = ();
    type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<Acc>>;
    type Currency = Balances;
    type Extra = ();
    type ForceOrigin = EnsureRoot<Acc>;
    type Freezer = ();
    type MetadataDepositBase = Zero;
    type MetadataDepositPerByte = Zero;
    type RemoveItemsLimit = ConstU32<1000>;
    type RuntimeEvent = RuntimeEvent;
    type StringLimit = ConstU32<CT_STRING>;
    type WeightInfo = ();
}
impl pallet_assets::Config<pallet_assets::Instance2> for Test {
    type ApprovalDeposit = ExistentialDeposit;
    type AssetAccountDeposit = AssetAccountDeposit;
    type AssetDeposit = AssetDeposit;
    type AssetId = u32;
    type AssetIdParameter = parity_scale_codec::Compact<u32>;
    type Balance = Balance;
    type CallbackHandle = ();
    type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<Acc>>;
    type Currency = Balances;
    type Extra = ();
    type ForceOrigin = EnsureRoot<Acc>;
    type Freezer = ();
    type MetadataDepositBase = Zero;
    type MetadataDepositPerByte = Zero;
    type RemoveItemsLimit = ConstU32<1000>;
    type RuntimeEvent = RuntimeEvent;
    type StringLimit = ConstU32<CT_STRING>;
    type WeightInfo = ();
}
impl pallet_linear_release::Config for Test {
    type Balance = Balance;
    type BlockNumberToBalance = ConvertInto;
    type Currency = Balances;
    type MinVestedTransfer = ConstU128<512>;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeHoldReason = RuntimeHoldReason;
    type UnvestedFundsAllowedWithdrawReasons = Unvested;
    type WeightInfo = ();
    const MAX_VESTING_SCHEDULES: u32 = 100;
}
use frame_support::traits::ConstU128;
impl pallet_xcm::Config for Test {
    type AdminOrigin = EnsureRoot<Acc>;
    type AdvertisedXcmVersion = pallet_xcm::CurrentXcmVersion;
    type Currency = Balances;
    type CurrencyMatcher = ();
    type ExecuteXcmOrigin = frame_system::EnsureRootWithSuccess<Acc, Here0>;
    type MaxLockers = ConstU32<8>;
    type MaxRemoteLockConsumers = ConstU32<0>;
    type RemoteLockConsumerIdentifier = ();
    type RuntimeCall = RuntimeCall;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeOrigin = RuntimeOrigin;
    type SendXcmOrigin = frame_system::EnsureRootWithSuccess<Acc, Here0>;
    type SovereignAccountOf = ();
    type TrustedLockers = ();
    type UniversalLocation = UniversalLocation;
    type Weigher = ();
    type WeightInfo = pallet_xcm::TestWeightInfo;
    type XcmExecuteFilter = Everything;
    type XcmExecutor = ();
    type XcmReserveTransferFilter = Everything;
    type XcmRouter = Router;
    type XcmTeleportFilter = Everything;
    const VERSION_DISCOVERY_QUEUE_SIZE: u32 = 100;
}
parameter_types! { pub Here0: Location = Location::here(); }

impl pallet_funding::Config for Test {
    type AccountId32Conversion = Id32;
    type AllPalletsWithoutSystem = (Balances, ContributionTokens, ForeignAssets, Funding, LinearRelease);
    type AuctionRoundDuration = ConstU64<AUCTION>;
    type BlockNumber = u64;
    type BlockchainOperationTreasury = OpsTreasury;
    type CommunityRoundDuration = ConstU64<COMMUNITY>;
    type ContributionTokenCurrency = ContributionTokens;
    type ContributionTreasury = CtTreasury;
    type DaysToBlocks = DaysToBlocks;
    type EvaluationRoundDuration = ConstU64<EVALUATION>;
    type EvaluationSuccessThreshold = EvaluationThreshold;
    type EvaluatorSlash = EvaluatorSlash;
    type FeeBrackets = FeeBrackets;
    type FundingCurrency = ForeignAssets;
    type FundingSuccessThreshold = FundingThreshold;
    type InvestorOrigin = EnsureInvestor<Test>;
    type MaxBidsPerProject = ConstU32<MAX_BIDS>;
    type MaxBidsPerUser = ConstU32<MAX_BIDS_USER>;
    type MaxCapacityThresholds = MaxCapacityThresholds;
    type MaxContributionsPerUser = ConstU32<MAX_CONTRIBS_USER>;
    type MaxEvaluationsPerProject = ConstU32<MAX_EVALS>;
    type MaxEvaluationsPerUser = ConstU32<MAX_EVALS_USER>;
    type MaxMessageSizeThresholds = MaxMessageSizeThresholds;
    type MinUsdPerEvaluation = MinUsdPerEvaluation;
    type Multiplier = Multiplier;
    type NativeCurrency = Balances;
    type OnSlash = ();
    type PalletId = FundingPalletId;
    type Price = FixedU128;
    type PriceProvider = Prices;
    type RemainderRoundDuration = ConstU64<REMAINDER>;
    type RequiredMaxCapacity = ConstU32<8>;
    type RequiredMaxMessageSize = ConstU32<102_400>;
    type RuntimeCall = RuntimeCall;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeHoldReason = RuntimeHoldReason;
    type RuntimeOrigin = RuntimeOrigin;
    type StringLimit = ConstU32<STRING>;
    type VerifierPublicKey = VerifierPublicKey;
    type WeightInfo = pallet_funding::weights::SubstrateWeight<Test>;
}
impl pallet_proxy_bonding::Config for Test {
    type BondingToken = Balances;
    type BondingTokenDecimals = ConstU8<PLMC_DECIMALS>;
    type BondingTokenId = ConstU32<PLMC_FOREIGN_ID>;
    type FeePercentage = FeePercentage;
    type FeeRecipient = FeeRecipient;
    type FeeToken = ForeignAssets;
    type Id = PalletId;
    type PriceProvider = Prices;
    type RootId = RootId;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeHoldReason = RuntimeHoldReason;
    type Treasury = BondTreasury;
    type UsdDecimals = ConstU8<USD_DECIMALS>;
}
construct_runtime!(
    pub enum Test {
        System: frame_system,
        Timestamp: pallet_timestamp,
        Balances: pallet_balances,
        LinearRelease: pallet_linear_release,
        ContributionTokens: pallet_assets::<Instance1>::{Pallet, Call, Storage, Event<T>},
        ForeignAssets: pallet_assets::<Instance2>::{Pallet, Call, Storage, Event<T>, Config<T>},
        PolkadotXcm: pallet_xcm,
        Funding: pallet_funding::{Pallet, Call, Storage, Event<T>, HoldReason} = 52,
        ProxyBonding: pallet_proxy_bonding,
    }
);
pub const ASSETS: [AcceptedFundingAsset; 3] = [AcceptedFundingAsset::USDT, AcceptedFundingAsset::USDC, AcceptedFundingAsset::DOT];
pub fn decimals(a: AcceptedFundingAsset) -> u8 {
    if matches!(a, AcceptedFundingAsset::DOT) { 10 } else { 6 }
}
pub fn minimum(a: u32) -> Balance {
    if a == 10 { 100_000_000 } else { 70_000 }
}
pub fn pallet_account() -> Acc {
    FundingPalletId::get().into_account_truncating()
}
pub fn escrow(p: u32) -> Acc {
    FundingPalletId::get().into_sub_account_truncating(p + 1)
}
pub fn bonding(p: u32) -> Acc {
    RootId::get().into_sub_account_truncating(p + 1)
}

/// accounts: (account, PLMC, units of each funding asset in USD)
pub fn ext(accs: &[(Acc, Balance, [Balance; 3])]) -> sp_io::TestExternalities {
    PRICES.with(|p| {
        *p.borrow_mut() = BTreeMap::from([
            (10, FixedU128::from_rational(69, 1)),
            (1337, FixedU128::from_rational(97, 100)),
            (1984, FixedU128::from_rational(1, 1)),
            (PLMC_FOREIGN_ID, FixedU128::from_rational(84, 10)),
        ])
    });
    let _ = sent();
    fail_send(false);
    let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    let mut balances = vec![(pallet_account(), ED), (CtTreasury::get(), ED), (OpsTreasury::get(), ED), (BondTreasury::get(), 1_000_000_000_000 * PLMC), (FeeRecipient::get(), ED)];
    balances.extend(accs.iter().filter(|a| a.1 > 0).map(|a| (a.0.clone(), a.1)));
    let mut accounts = vec![];
    for (a, _, x) in accs {
        for (i, f) in ASSETS.iter().enumerate() {
            if x[i] > 0 {
                accounts.push((f.id(), a.clone(), x[i]));
            }
        }
    }
    pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
    pallet_assets::GenesisConfig::<Test, pallet_assets::Instance2> {
        assets: ASSETS.iter().map(|f| (f.id(), pallet_account(), true, minimum(f.id()))).collect(),
        metadata: ASSETS.iter().map(|f| (f.id(), b"X".to_vec(), b"X".to_vec(), decimals(*f))).collect(),
        accounts,
        ..Default::default()
    }
    .assimilate_storage(&mut t)
    .unwrap();
    let mut e = sp_io::TestExternalities::new(t);
    e.execute_with(|| System::set_block_number(1));
    e
}
