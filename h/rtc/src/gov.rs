//! X09, X10: who has which power in the runtime, and where its pallets hand on what they take.
use crate::govs as code;
use frame_support::traits::EnsureOrigin;
use frame_system::RawOrigin;
use std::cell::RefCell;
use std::cmp::Ordering;

/// What the pallets' `Config` traits name, without what they ask of it.
pub mod stubs {
    #![allow(dead_code)]
    pub mod pallet_treasury {
        pub trait Config {
            type ApproveOrigin;
            type AssetKind;
            type BalanceConverter;
            type Beneficiary;
            type BeneficiaryLookup;
            type Burn;
            type BurnDestination;
            type Currency;
            type MaxApprovals;
            type OnSlash;
            type PalletId;
            type Paymaster;
            type PayoutPeriod;
            type ProposalBond;
            type ProposalBondMaximum;
            type ProposalBondMinimum;
            type RejectOrigin;
            type RuntimeEvent;
            type SpendFunds;
            type SpendOrigin;
            type SpendPeriod;
            type WeightInfo;
        }
    }
    pub mod pallet_democracy {
        pub use ::pallet_democracy::GetElectorate;
        pub trait Config {
            type BlacklistOrigin;
            type CancelProposalOrigin;
            type CancellationOrigin;
            type CooloffPeriod;
            type Electorate;
            type EnactmentPeriod;
            type ExternalDefaultOrigin;
            type ExternalMajorityOrigin;
            type ExternalOrigin;
            type FastTrackOrigin;
            type FastTrackVotingPeriod;
            type Fungible;
            type InstantAllowed;
            type InstantOrigin;
            type LaunchPeriod;
            type MaxBlacklisted;
            type MaxDeposits;
            type MaxProposals;
            type MaxVotes;
            type MinimumDeposit;
            type PalletsOrigin;
            type Preimages;
            type RuntimeEvent;
            type RuntimeFreezeReason;
            type RuntimeHoldReason;
            type Scheduler;
            type Slash;
            type SubmitOrigin;
            type VetoOrigin;
            type VoteLockingPeriod;
            type VotingPeriod;
            type WeightInfo;
        }
    }
    pub mod pallet_scheduler {
        pub trait Config {
            type MaxScheduledPerBlock;
            type MaximumWeight;
            type OriginPrivilegeCmp;
            type PalletsOrigin;
            type Preimages;
            type RuntimeCall;
            type RuntimeEvent;
            type RuntimeOrigin;
            type ScheduleOrigin;
            type WeightInfo;
        }
    }
    pub mod pallet_preimage {
        pub enum HoldReason {
            Preimage,
        }
        pub trait Config {
            type Consideration;
            type Currency;
            type ManagerOrigin;
            type RuntimeEvent;
            type WeightInfo;
        }
    }
    pub mod pallet_membership {
        pub struct Instance1;
        pub trait Config<I> {
            type AddOrigin;
            type MaxMembers;
            type MembershipChanged;
            type MembershipInitialized;
            type PrimeOrigin;
            type RemoveOrigin;
            type ResetOrigin;
            type RuntimeEvent;
            type SwapOrigin;
            type WeightInfo;
        }
    }
    pub mod pallet_elections_phragmen {
        pub trait Config {
            type Balance;
            type CandidacyBond;
            type ChangeMembers;
            type Currency;
            type CurrencyToVote;
            type DesiredMembers;
            type DesiredRunnersUp;
            type InitializeMembers;
            type LoserCandidate;
            type MaxCandidates;
            type MaxVoters;
            type MaxVotesPerVoter;
            type RuntimeEvent;
            type RuntimeFreezeReason;
            type RuntimeHoldReason;
            type TermDuration;
            type VotingLockPeriod;
            type WeightInfo;
        }
    }
    pub mod pallet_identity {
        pub mod legacy {
            pub struct IdentityInfo<T>(core::marker::PhantomData<T>);
        }
        pub trait Config {
            type BasicDeposit;
            type ByteDeposit;
            type Currency;
            type ForceOrigin;
            type IdentityInformation;
            type MaxRegistrars;
            type MaxSubAccounts;
            type MaxSuffixLength;
            type MaxUsernameLength;
            type OffchainSignature;
            type PendingUsernameExpiration;
            type RegistrarOrigin;
            type RuntimeEvent;
            type SigningPublicKey;
            type Slashed;
            type SubAccountDeposit;
            type UsernameAuthorityOrigin;
            type WeightInfo;
        }
    }
    pub mod pallet_dispenser {
        pub trait Config {
            type AdminOrigin;
            type BlockNumberToBalance;
            type FreeDispenseAmount;
            type InitialDispenseAmount;
            type InvestorOrigin;
            type LockPeriod;
            type PalletId;
            type RuntimeEvent;
            type VerifierPublicKey;
            type VestPeriod;
            type VestingSchedule;
            type WeightInfo;
            type WhitelistedPolicy;
        }
    }
    pub mod pallet_parachain_staking {
        pub trait Config {
            type Balance;
            type CandidateBondLessDelay;
            type Currency;
            type DelegationBondLessDelay;
            type LeaveCandidatesDelay;
            type LeaveDelegatorsDelay;
            type MaxBottomDelegationsPerCandidate;
            type MaxDelegationsPerDelegator;
            type MaxTopDelegationsPerCandidate;
            type MinBlocksPerRound;
            type MinCandidateStk;
            type MinDelegation;
            type MinDelegatorStk;
            type MinSelectedCandidates;
            type MonetaryGovernanceOrigin;
            type OnCollatorPayout;
            type OnNewRound;
            type PayMaster;
            type PayoutCollatorReward;
            type RevokeDelegationDelay;
            type RewardPaymentDelay;
            type RuntimeEvent;
            type RuntimeHoldReason;
            type WeightInfo;
        }
    }
    pub mod pallet_assets {
        pub struct Instance1;
        pub struct Instance2;
        pub trait Config<I> {
            type ApprovalDeposit;
            type AssetAccountDeposit;
            type AssetDeposit;
            type AssetId;
            type AssetIdParameter;
            type Balance;
            type CallbackHandle;
            type CreateOrigin;
            type Currency;
            type Extra;
            type ForceOrigin;
            type Freezer;
            type MetadataDepositBase;
            type MetadataDepositPerByte;
            type RemoveItemsLimit;
            type RuntimeEvent;
            type StringLimit;
            type WeightInfo;
        }
    }
    pub mod pallet_proxy_bonding {
        pub trait Config {
            type BondingToken;
            type BondingTokenDecimals;
            type BondingTokenId;
            type FeePercentage;
            type FeeRecipient;
            type FeeToken;
            type Id;
            type PriceProvider;
            type RootId;
            type RuntimeEvent;
            type RuntimeHoldReason;
            type Treasury;
            type UsdDecimals;
        }
    }
}
pub type AccountId = parachains_common::AccountId;
type Coll<I> = crate::stubs::pallet_collective::RawOrigin<AccountId, I>;
use crate::stubs::pallet_collective::{Instance1, Instance2};

/// An origin of the runtime.
#[derive(Clone, Debug, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum OriginCaller {
    system(RawOrigin<AccountId>),
    Council(Coll<Instance1>),
    TechnicalCommittee(Coll<Instance2>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RuntimeOrigin(pub OriginCaller);
macro_rules! caller {
    ($t:ty, $v:ident) => {
        impl From<$t> for RuntimeOrigin {
            fn from(o: $t) -> Self {
                RuntimeOrigin(OriginCaller::$v(o))
            }
        }
        impl From<RuntimeOrigin> for Result<$t, RuntimeOrigin> {
            fn from(o: RuntimeOrigin) -> Self {
                match o.0 {
                    OriginCaller::$v(o) => Ok(o),
                    o => Err(RuntimeOrigin(o)),
                }
            }
        }
    };
}
caller!(RawOrigin<AccountId>, system);
caller!(Coll<Instance1>, Council);
caller!(Coll<Instance2>, TechnicalCommittee);

pub mod prelude {
    #![allow(dead_code)]
    pub use super::stubs::{
        pallet_treasury, pallet_democracy, pallet_scheduler, pallet_preimage, pallet_membership, pallet_elections_phragmen, pallet_identity, pallet_dispenser, pallet_parachain_staking, pallet_assets, pallet_proxy_bonding,
    };
    pub use super::{OriginCaller, RuntimeOrigin};
    pub use crate::rt::prelude::{AccountId, AssetId, Balance, Balances, Block, ForeignAssets, Oracle, Runtime, RuntimeEvent, System, Treasury};
    macro_rules! units { ($($n:ident)*) => { $(pub struct $n;)* } }
    units! { RuntimeCall RuntimeFreezeReason ParachainStaking Preimage Scheduler Vesting Council OracleProvidersMembership PLMCPrice CurrencyToVote }
    pub use sp_runtime::MultiSignature as Signature;
    pub enum RuntimeHoldReason {
        Preimage(pallet_preimage::HoldReason),
    }
    pub mod hex_literal {
        pub const fn decode<const N: usize>(s: &str) -> [u8; N] {
            const fn d(c: u8) -> u8 {
                match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    b'A'..=b'F' => c - b'A' + 10,
                    _ => panic!("not hex"),
                }
            }
            let (b, mut r, mut i) = (s.as_bytes(), [0; N], 0);
            while i < N {
                r[i] = d(b[2 * i]) * 16 + d(b[2 * i + 1]);
                i += 1;
            }
            r
        }
        macro_rules! hex {
            ($s:literal) => {
                crate::gov::prelude::hex_literal::decode::<{ $s.len() / 2 }>($s)
            };
        }
        pub(crate) use hex;
    }
    pub mod weights {
        macro_rules! w { ($($n:ident)*) => { $(pub mod $n { pub struct WeightInfo<T>(core::marker::PhantomData<T>); })* } }
        w! { pallet_assets pallet_collective pallet_democracy pallet_dispenser pallet_elections_phragmen pallet_identity
            pallet_parachain_staking pallet_preimage pallet_scheduler pallet_treasury }
    }
}

#[derive(Clone, Copy, Debug)]
enum Body {
    Council,
    Committee,
}
/// Who may.
#[derive(Clone, Debug)]
enum Who {
    Root,
    /// a share of a body, and root if so said
    Share(Body, u32, u32, bool),
    /// any member of the technical committee
    Member,
    /// anyone who signs
    Signed,
    By(AccountId),
    Nobody,
}
type Try = fn(RuntimeOrigin) -> Result<Option<AccountId>, RuntimeOrigin>;
fn none<E: EnsureOrigin<RuntimeOrigin>>(o: RuntimeOrigin) -> Result<Option<AccountId>, RuntimeOrigin> {
    E::try_origin(o).map(|_| None)
}
fn some<E: EnsureOrigin<RuntimeOrigin, Success = AccountId>>(o: RuntimeOrigin) -> Result<Option<AccountId>, RuntimeOrigin> {
    E::try_origin(o).map(Some)
}
fn for_asset<E: frame_support::traits::EnsureOriginWithArg<RuntimeOrigin, u32, Success = AccountId>>(o: RuntimeOrigin) -> Result<Option<AccountId>, RuntimeOrigin> {
    E::try_origin(o, &ASSET.with(|a| *a.borrow())).map(Some)
}
thread_local! {
    static ASSET: RefCell<u32> = const { RefCell::new(0) };
}
fn powers() -> Vec<(&'static str, Try, Who)> {
    use stubs::*;
    use Body::*;
    use Who::*;
    type R = crate::rt::Runtime;
    macro_rules! of {
        ($p:ident $(<$i:ty>)?, $t:ident) => {
            <R as $p::Config$(<$i>)?>::$t
        };
    }
    let dispenser = AccountId::from(prelude::hex_literal::decode::<32>("d85a4f58eb7dba17bc436b16f394b242271237021f7880e1ccaf36cd9a616c99"));
    vec![
        ("blacklist a proposal", none::<of!(pallet_democracy, BlacklistOrigin)>, Root),
        ("cancel a public proposal", none::<of!(pallet_democracy, CancelProposalOrigin)>, Share(Committee, 1, 1, true)),
        ("cancel a referendum", none::<of!(pallet_democracy, CancellationOrigin)>, Share(Council, 2, 3, false)),
        ("propose a referendum that passes by default", none::<of!(pallet_democracy, ExternalDefaultOrigin)>, Share(Council, 1, 1, false)),
        ("propose a referendum by simple majority", none::<of!(pallet_democracy, ExternalMajorityOrigin)>, Share(Council, 3, 5, false)),
        ("propose a referendum by super-majority", none::<of!(pallet_democracy, ExternalOrigin)>, Share(Council, 1, 2, false)),
        ("fast-track a referendum", none::<of!(pallet_democracy, FastTrackOrigin)>, Share(Committee, 3, 5, false)),
        ("table a referendum at once", none::<of!(pallet_democracy, InstantOrigin)>, Share(Committee, 1, 1, false)),
        ("veto a proposal of the council", some::<of!(pallet_democracy, VetoOrigin)>, Member),
        ("propose a referendum as the public", some::<of!(pallet_democracy, SubmitOrigin)>, Signed),
        ("approve a spending", none::<of!(pallet_treasury, ApproveOrigin)>, Share(Council, 1, 1, true)),
        ("reject a spending", none::<of!(pallet_treasury, RejectOrigin)>, Share(Council, 1, 2, true)),
        ("spend without a proposal", none::<of!(pallet_treasury, SpendOrigin)>, Nobody),
        ("schedule a call", none::<of!(pallet_scheduler, ScheduleOrigin)>, Root),
        ("note a preimage for free", none::<of!(pallet_preimage, ManagerOrigin)>, Root),
        ("set the council", none::<<R as crate::stubs::pallet_collective::Config<Instance1>>::SetMembersOrigin>, Root),
        ("set the technical committee", none::<<R as crate::stubs::pallet_collective::Config<Instance2>>::SetMembersOrigin>, Root),
        ("add an oracle provider", none::<of!(pallet_membership<pallet_membership::Instance1>, AddOrigin)>, Root),
        ("remove an oracle provider", none::<of!(pallet_membership<pallet_membership::Instance1>, RemoveOrigin)>, Root),
        ("swap an oracle provider", none::<of!(pallet_membership<pallet_membership::Instance1>, SwapOrigin)>, Root),
        ("reset the oracle providers", none::<of!(pallet_membership<pallet_membership::Instance1>, ResetOrigin)>, Root),
        ("set the prime oracle provider", none::<of!(pallet_membership<pallet_membership::Instance1>, PrimeOrigin)>, Root),
        ("kill an identity", none::<of!(pallet_identity, ForceOrigin)>, Root),
        ("add a registrar", none::<of!(pallet_identity, RegistrarOrigin)>, Root),
        ("grant usernames", none::<of!(pallet_identity, UsernameAuthorityOrigin)>, Nobody),
        ("set the dispense amounts", none::<of!(pallet_dispenser, AdminOrigin)>, By(dispenser)),
        ("change the staking parameters", none::<of!(pallet_parachain_staking, MonetaryGovernanceOrigin)>, Root),
        ("create a foreign asset", for_asset::<of!(pallet_assets<pallet_assets::Instance2>, CreateOrigin)>, Root),
        ("force a foreign asset's state", none::<of!(pallet_assets<pallet_assets::Instance2>, ForceOrigin)>, Root),
        ("create a contribution token", for_asset::<of!(pallet_assets<pallet_assets::Instance1>, CreateOrigin)>, Signed),
        ("force a contribution token's state", none::<of!(pallet_assets<pallet_assets::Instance1>, ForceOrigin)>, Root),
    ]
}
fn may(who: &Who, o: &OriginCaller) -> bool {
    let root = matches!(o, OriginCaller::system(RawOrigin::Root));
    match who {
        Who::Root => root,
        Who::Share(b, n, d, or_root) => {
            let share = match (b, o) {
                (Body::Council, OriginCaller::Council(Coll::Members(yes, all))) => Some((*yes, *all)),
                (Body::Committee, OriginCaller::TechnicalCommittee(Coll::Members(yes, all))) => Some((*yes, *all)),
                _ => None,
            };
            (root && *or_root) || share.is_some_and(|(yes, all)| yes as u64 * *d as u64 >= *n as u64 * all as u64)
        },
        Who::Member => matches!(o, OriginCaller::TechnicalCommittee(Coll::Member(_))),
        Who::Signed => matches!(o, OriginCaller::system(RawOrigin::Signed(_))),
        Who::By(a) => matches!(o, OriginCaller::system(RawOrigin::Signed(b)) if a == b),
        Who::Nobody => false,
    }
}
fn origin(s: &mut pbt::Src) -> OriginCaller {
    let person = |s: &mut pbt::Src| match s.below(4) {
        0 => AccountId::from(prelude::hex_literal::decode::<32>("d85a4f58eb7dba17bc436b16f394b242271237021f7880e1ccaf36cd9a616c99")),
        1 => AccountId::from([0xffu8; 32]),
        _ => AccountId::from([s.below(4) as u8; 32]),
    };
    let votes = |s: &mut pbt::Src| {
        // bodies of one to twenty; the shares that matter are met exactly, just missed and just passed
        let all = s.range(1, 20) as u32;
        let yes = match s.weighted(&[2, 3]) {
            0 => s.below(all as u64 + 1) as u32,
            _ => {
                let (n, d) = *s.pick(&[(1u32, 2u32), (3, 5), (2, 3), (1, 1), (3, 4), (1, 3)]);
                (all * n / d + s.below(3) as u32).saturating_sub(1).min(all)
            },
        };
        (yes, all)
    };
    match s.weighted(&[2, 1, 2, 4, 4, 2, 2]) {
        0 => OriginCaller::system(RawOrigin::Root),
        1 => OriginCaller::system(RawOrigin::None),
        2 => OriginCaller::system(RawOrigin::Signed(person(s))),
        3 => {
            let (y, a) = votes(s);
            OriginCaller::Council(Coll::Members(y, a))
        },
        4 => {
            let (y, a) = votes(s);
            OriginCaller::TechnicalCommittee(Coll::Members(y, a))
        },
        5 => OriginCaller::Council(Coll::Member(person(s))),
        _ => OriginCaller::TechnicalCommittee(Coll::Member(person(s))),
    }
}
/// X09
pub fn power(s: &mut pbt::Src, rec: &mut pbt::Rec) -> Result<(), pbt::Fail> {
    use frame_support::traits::PrivilegeCmp;
    use pbt::{check, check_eq, fnv};
    let all = powers();
    // tabling at once needs to be enabled for anybody to have that power
    check!(<<crate::rt::Runtime as stubs::pallet_democracy::Config>::InstantAllowed as frame_support::traits::Get<bool>>::get(), "instant", "tabling at once is disabled");
    s.plan(1, 10);
    while s.more() {
        rec.op();
        let o = origin(s);
        if s.chance(1, 5) {
            // may `o` change what `p` scheduled
            let p = if s.chance(1, 3) { o.clone() } else { origin(s) };
            let got = <<crate::rt::Runtime as stubs::pallet_scheduler::Config>::OriginPrivilegeCmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&o, &p);
            rec.log(|| format!("{o:?} against {p:?}: {got:?}"));
            let root = matches!(o, OriginCaller::system(RawOrigin::Root));
            let over = matches!(got, Some(Ordering::Greater | Ordering::Equal));
            check_eq!(over, root || o == p, "privilege", "whether {o:?} may change what {p:?} scheduled");
            check!(!(got == Some(Ordering::Less) && !matches!(p, OriginCaller::system(RawOrigin::Root))), "order", "{o:?} is below {p:?}");
            rec.label("scheduled by another");
            rec.nontrivial();
            continue;
        }
        let (name, f, who) = &all[s.idx(all.len())];
        ASSET.with(|a| *a.borrow_mut() = s.below(2000) as u32);
        let r = f(RuntimeOrigin(o.clone()));
        rec.log(|| format!("{o:?} wants to {name}: {}", if r.is_ok() { "granted" } else { "refused" }));
        let want = may(who, &o);
        check_eq!(r.is_ok(), want, "power", "whether {o:?} can {name} ({who:?})");
        match r {
            Ok(who_it_is) => {
                if let Some(w) = who_it_is {
                    let want = match &o {
                        OriginCaller::system(RawOrigin::Signed(a)) => a.clone(),
                        OriginCaller::TechnicalCommittee(Coll::Member(a)) => a.clone(),
                        // what root creates belongs to the operator's account
                        _ => AccountId::from([0xffu8; 32]),
                    };
                    check_eq!(w, want, "identity", "in whose name {o:?} can {name}");
                }
                rec.label("granted");
            },
            Err(back) => {
                check_eq!(back.0, o, "origin", "the origin that comes back");
                rec.label("refused");
            },
        }
        rec.nontrivial();
        rec.feature(fnv(want as u64, name.as_bytes()));
    }
    Ok(())
}
