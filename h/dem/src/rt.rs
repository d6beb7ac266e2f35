//! The runtime the real pallet is mounted in, with every parameter of the pallet settable per case.
use frame_support::{
    derive_impl, parameter_types,
    traits::{
        fungible::Credit,
        ConstU32, EqualPrivilegeOnly, OnUnbalanced, SortedMembers,
    },
    weights::Weight,
};
use frame_system::{EnsureRoot, EnsureSigned, EnsureSignedBy};
use sp_runtime::{traits::IdentityLookup, Perbill};

pub type Bal = u128;
pub type Acc = u64;
pub type Bn = u64;
type Block = frame_system::mocking::MockBlock<Test>;

/// records that a proposal was executed with root origin
#[frame_support::pallet]
pub mod probe {
    use frame_support::pallet_prelude::*;
    use frame_system::pallet_prelude::*;
    #[pallet::pallet]
    #[pallet::without_storage_info]
    pub struct Pallet<T>(_);
    #[pallet::config]
    pub trait Config: frame_system::Config {}
    #[pallet::storage]
    pub type Log<T: Config> = StorageValue<_, Vec<u32>, ValueQuery>;
    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::from_parts(10, 0))]
        pub fn record(origin: OriginFor<T>, tag: u32, pad: Vec<u8>) -> DispatchResult {
            ensure_root(origin)?;
            let _ = pad;
            Log::<T>::append(tag);
            Ok(())
        }
    }
}

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system,
        Balances: pallet_balances,
        Preimage: pallet_preimage,
        Scheduler: pallet_scheduler,
        Democracy: pallet_democracy,
        Probe: probe,
    }
);

parameter_types! {
    pub BlockWeights: frame_system::limits::BlockWeights =
        frame_system::limits::BlockWeights::simple_max(Weight::from_parts(2_000_000_000_000, u64::MAX));
    pub MaximumSchedulerWeight: Weight = Perbill::from_percent(80) * BlockWeights::get().max_block;
    pub static ExistentialDeposit: Bal = 1;
    pub static EnactmentPeriod: Bn = 2;
    pub static LaunchPeriod: Bn = 2;
    pub static VotingPeriod: Bn = 2;
    pub static VoteLockingPeriod: Bn = 3;
    pub static FastTrackVotingPeriod: Bn = 2;
    pub static CooloffPeriod: Bn = 2;
    pub static InstantAllowed: bool = false;
    pub static MinimumDeposit: Bal = 1;
    pub static MaxVotes: u32 = 100;
    pub static MaxProposals: u32 = 100;
    pub static MaxDeposits: u32 = 1000;
    pub static MaxBlacklisted: u32 = 5;
    pub static Slashed: Bal = 0;
    pub static ElectorateFixed: Option<Bal> = None;
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
    type AccountData = pallet_balances::AccountData<Bal>;
    type AccountId = Acc;
    type Block = Block;
    type Lookup = IdentityLookup<Acc>;
}

impl probe::Config for Test {}

impl pallet_preimage::Config for Test {
    type Consideration = ();
    type Currency = Balances;
    type ManagerOrigin = EnsureRoot<Acc>;
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}

impl pallet_scheduler::Config for Test {
    type MaxScheduledPerBlock = ConstU32<512>;
    type MaximumWeight = MaximumSchedulerWeight;
    type OriginPrivilegeCmp = EqualPrivilegeOnly;
    type PalletsOrigin = OriginCaller;
    type Preimages = Preimage;
    type RuntimeCall = RuntimeCall;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeOrigin = RuntimeOrigin;
    type ScheduleOrigin = EnsureRoot<Acc>;
    type WeightInfo = ();
}

impl pallet_balances::Config for Test {
    type AccountStore = System;
    type Balance = Bal;
    type DustRemoval = ();
    type ExistentialDeposit = ExistentialDeposit;
    type FreezeIdentifier = RuntimeFreezeReason;
    type MaxFreezes = ConstU32<10>;
    type MaxLocks = ConstU32<10>;
    type MaxReserves = ();
    type ReserveIdentifier = [u8; 8];
    type RuntimeEvent = RuntimeEvent;
    type RuntimeFreezeReason = RuntimeFreezeReason;
    type RuntimeHoldReason = RuntimeHoldReason;
    type WeightInfo = ();
}

macro_rules! who {
    ($($name:ident = [$($a:expr),*];)*) => { $(
        pub struct $name;
        impl SortedMembers<Acc> for $name {
            fn sorted_members() -> Vec<Acc> { vec![$($a),*] }
        }
    )* };
}
who! {
    AExternal = [12];
    AMajority = [13];
    ADefault = [14];
    ACancel = [15];
    AFast = [16];
    AInstant = [17];
    AVeto = [1, 2, 3, 21, 22];
    ABlacklist = [18];
    ACancelProp = [19];
}

pub struct Electorate;
impl pallet_democracy::GetElectorate<Bal> for Electorate {
    fn get_electorate() -> Bal {
        ElectorateFixed::get().unwrap_or_else(Balances::total_issuance)
    }
}

pub struct SlashSink;
impl OnUnbalanced<Credit<Acc, Balances>> for SlashSink {
    fn on_nonzero_unbalanced(amount: Credit<Acc, Balances>) {
        let s = Slashed::get();
        Slashed::set(s + frame_support::traits::Imbalance::peek(&amount));
    }
}

impl pallet_democracy::Config for Test {
    type BlacklistOrigin = EnsureSignedBy<ABlacklist, Acc>;
    type CancelProposalOrigin = EnsureSignedBy<ACancelProp, Acc>;
    type CancellationOrigin = EnsureSignedBy<ACancel, Acc>;
    type CooloffPeriod = CooloffPeriod;
    type Electorate = Electorate;
    type EnactmentPeriod = EnactmentPeriod;
    type ExternalDefaultOrigin = EnsureSignedBy<ADefault, Acc>;
    type ExternalMajorityOrigin = EnsureSignedBy<AMajority, Acc>;
    type ExternalOrigin = EnsureSignedBy<AExternal, Acc>;
    type FastTrackOrigin = EnsureSignedBy<AFast, Acc>;
    type FastTrackVotingPeriod = FastTrackVotingPeriod;
    type Fungible = Balances;
    type InstantAllowed = InstantAllowed;
    type InstantOrigin = EnsureSignedBy<AInstant, Acc>;
    type LaunchPeriod = LaunchPeriod;
    type MaxBlacklisted = MaxBlacklisted;
    type MaxDeposits = MaxDeposits;
    type MaxProposals = MaxProposals;
    type MaxVotes = MaxVotes;
    type MinimumDeposit = MinimumDeposit;
    type PalletsOrigin = OriginCaller;
    type Preimages = Preimage;
    type RuntimeEvent = RuntimeEvent;
    type RuntimeFreezeReason = RuntimeFreezeReason;
    type RuntimeHoldReason = RuntimeHoldReason;
    type Scheduler = Scheduler;
    type Slash = SlashSink;
    type SubmitOrigin = EnsureSigned<Acc>;
    type VetoOrigin = EnsureSignedBy<AVeto, Acc>;
    type VoteLockingPeriod = VoteLockingPeriod;
    type VotingPeriod = VotingPeriod;
    type WeightInfo = Meter;
}

/// Weights that tell which work was accounted for, and how much of it: no two kinds of work cover each other.
pub struct Meter;
impl Meter {
    fn w(kind: u64, n: u32) -> Weight {
        Weight::from_parts(kind * 1_000_000 + n as u64 * 1000, (1000 - kind) * 1_000_000 + n as u64 * 1000)
    }
}
impl pallet_democracy::WeightInfo for Meter {
    fn propose() -> Weight {
        Meter::w(1, 0)
    }
    fn second() -> Weight {
        Meter::w(2, 0)
    }
    fn vote_new() -> Weight {
        Meter::w(3, 0)
    }
    fn vote_existing() -> Weight {
        Meter::w(4, 0)
    }
    fn emergency_cancel() -> Weight {
        Meter::w(5, 0)
    }
    fn blacklist() -> Weight {
        Meter::w(6, 0)
    }
    fn external_propose() -> Weight {
        Meter::w(7, 0)
    }
    fn external_propose_majority() -> Weight {
        Meter::w(8, 0)
    }
    fn external_propose_default() -> Weight {
        Meter::w(9, 0)
    }
    fn fast_track() -> Weight {
        Meter::w(10, 0)
    }
    fn veto_external() -> Weight {
        Meter::w(11, 0)
    }
    fn cancel_proposal() -> Weight {
        Meter::w(12, 0)
    }
    fn cancel_referendum() -> Weight {
        Meter::w(13, 0)
    }
    fn clear_public_proposals() -> Weight {
        Meter::w(14, 0)
    }
    fn set_external_metadata() -> Weight {
        Meter::w(15, 0)
    }
    fn clear_external_metadata() -> Weight {
        Meter::w(16, 0)
    }
    fn set_proposal_metadata() -> Weight {
        Meter::w(17, 0)
    }
    fn clear_proposal_metadata() -> Weight {
        Meter::w(18, 0)
    }
    fn set_referendum_metadata() -> Weight {
        Meter::w(19, 0)
    }
    fn clear_referendum_metadata() -> Weight {
        Meter::w(20, 0)
    }
    fn on_initialize_base(r: u32) -> Weight {
        Meter::w(21, r)
    }
    fn on_initialize_base_with_launch_period(r: u32) -> Weight {
        Meter::w(22, r)
    }
    fn delegate(r: u32) -> Weight {
        Meter::w(23, r)
    }
    fn undelegate(r: u32) -> Weight {
        Meter::w(24, r)
    }
    fn unlock_remove(r: u32) -> Weight {
        Meter::w(25, r)
    }
    fn unlock_set(r: u32) -> Weight {
        Meter::w(26, r)
    }
    fn remove_vote(r: u32) -> Weight {
        Meter::w(27, r)
    }
    fn remove_other_vote(r: u32) -> Weight {
        Meter::w(28, r)
    }
}
