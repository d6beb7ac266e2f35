//! A runtime of System, Balances, Session, Authorship and the staking pallet.
use frame_support::{construct_runtime, derive_impl, parameter_types};
use sp_runtime::traits::{ConvertInto, IdentityLookup};

pub type Acc = u64;
pub type Bal = u128;
type Block = frame_system::mocking::MockBlockU32<Test>;

construct_runtime!(
    pub enum Test {
        System: frame_system,
        Balances: pallet_balances,
        Session: pallet_session,
        Staking: pallet_parachain_staking,
        Authorship: pallet_authorship,
    }
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = IdentityLookup<Acc>;
}
pub const ED: Bal = 10;
pub const PAYMASTER: Acc = 1337;
parameter_types! {
    pub const ExistentialDeposit: Bal = ED;
    pub const PayMaster: Acc = PAYMASTER;
    pub static MinBlocksPerRound: u32 = 3;
    pub static LeaveCandidatesDelay: u32 = 2;
    pub static CandidateBondLessDelay: u32 = 2;
    pub static LeaveDelegatorsDelay: u32 = 2;
    pub static RevokeDelegationDelay: u32 = 2;
    pub static DelegationBondLessDelay: u32 = 2;
    pub static RewardPaymentDelay: u32 = 2;
    pub static MinSelectedCandidates: u32 = 2;
    pub static MaxTop: u32 = 2;
    pub static MaxBottom: u32 = 2;
    pub static MaxDelegationsPerDelegator: u32 = 4;
    pub static MinCandidateStk: Bal = 10;
    pub static MinDelegatorStk: Bal = 5;
    pub static MinDelegation: Bal = 3;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig)]
impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type ExistentialDeposit = ExistentialDeposit;
    type RuntimeHoldReason = RuntimeHoldReason;
}
pub struct NoAuthor;
impl frame_support::traits::FindAuthor<Acc> for NoAuthor {
    fn find_author<'a, I: 'a + IntoIterator<Item = (frame_support::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<Acc> {
        None
    }
}
impl pallet_authorship::Config for Test {
    type EventHandler = Staking;
    type FindAuthor = NoAuthor;
}
impl pallet_session::Config for Test {
    type Keys = ();
    type NextSessionRotation = Staking;
    type RuntimeEvent = RuntimeEvent;
    type SessionHandler = ();
    type SessionManager = Staking;
    type ShouldEndSession = Staking;
    type ValidatorId = Acc;
    type ValidatorIdOf = ConvertInto;
    type WeightInfo = ();
}
impl pallet_parachain_staking::Config for Test {
    type Balance = Bal;
    type CandidateBondLessDelay = CandidateBondLessDelay;
    type Currency = Balances;
    type DelegationBondLessDelay = DelegationBondLessDelay;
    type LeaveCandidatesDelay = LeaveCandidatesDelay;
    type LeaveDelegatorsDelay = LeaveDelegatorsDelay;
    type MaxBottomDelegationsPerCandidate = MaxBottom;
    type MaxDelegationsPerDelegator = MaxDelegationsPerDelegator;
    type MaxTopDelegationsPerCandidate = MaxTop;
    type MinBlocksPerRound = MinBlocksPerRound;
    type MinCandidateStk = MinCandidateStk;
    type MinDelegation = MinDelegation;
    type MinDelegatorStk = MinDelegatorStk;
    type MinSelectedCandidates = MinSelectedCandidates;
    type MonetaryGovernanceOrigin = frame_system::EnsureRoot<Acc>;
    type OnCollatorPayout = ();
    type OnNewRound = ();
    type PayMaster = PayMaster;
    type PayoutCollatorReward = ();
    type RevokeDelegationDelay = RevokeDelegationDelay;
    type RewardPaymentDelay = RewardPaymentDelay;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeHoldReason = RuntimeHoldReason;
    type WeightInfo = ();
}
