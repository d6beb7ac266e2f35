//! What the runtime names from crates that are not here, as far as the code that is taken out of it needs it.
#![allow(dead_code, non_snake_case)]
use core::marker::PhantomData;
macro_rules! markers {
    ($($n:ident<$($p:ident),*>;)*) => { $(pub struct $n<$($p),*>(PhantomData<($($p,)*)>);)* };
}
pub mod pallet_funding {
    pub use ::pallet_funding::*;
    pub trait HasPrices {
        type PriceProvider: polimec_common::ProvideAssetPrice<AssetId = u32, Price = sp_runtime::FixedU128>;
    }
    pub type PriceProviderOf<T> = <T as HasPrices>::PriceProvider;
}
pub mod polkadot_runtime_common {
    use core::marker::PhantomData;
    pub struct SlowAdjustingFeeUpdate<T>(PhantomData<T>);
    pub mod xcm_sender {
        pub struct NoPriceForMessageDelivery<T>(core::marker::PhantomData<T>);
    }
}
pub mod polkadot_parachain_primitives {
    pub mod primitives {
        pub struct Sibling(pub u32);
    }
}
pub mod cumulus_primitives_core {
    pub struct ParaId(pub u32);
}
pub mod cumulus_primitives_utility {
    use super::PhantomData;
    markers! { XcmFeesTo32ByteAccount<A, B, C>; ParentAsUmp<A, B, C>; }
    impl<A, B, C: frame_support::traits::Get<parachains_common::AccountId>> xcm_builder::TakeRevenue for XcmFeesTo32ByteAccount<A, B, C> {
        fn take_revenue(asset: xcm::v4::AssetId, amount: u128) {
            crate::xrt::prelude::REVENUE.with(|r| r.borrow_mut().push((C::get(), asset.0, amount)));
        }
    }
}
pub mod cumulus_pallet_xcm {
    #[derive(Clone, Debug)]
    pub enum Origin {
        Relay,
        SiblingParachain(u32),
    }
    pub trait Config {}
}
pub mod assets_common {
    pub mod fungible_conversion {
        pub fn convert() {}
        pub fn convert_balance() {}
    }
    pub struct TrustBackedAssetsConvertedConcreteId<A, B>(core::marker::PhantomData<(A, B)>);
}
/// As upstream.
pub mod pallet_collective {
    use core::marker::PhantomData;
    use frame_support::traits::EnsureOrigin;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Instance1;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Instance2;
    /// what the runtime sets is readable
    pub trait Config<I> {
        type DefaultVote;
        type MaxMembers;
        type MaxProposalWeight;
        type MaxProposals;
        type MotionDuration;
        type Proposal;
        type RuntimeEvent;
        type RuntimeOrigin;
        type SetMembersOrigin;
        type WeightInfo;
    }
    pub struct MoreThanMajorityThenPrimeDefaultVote;
    pub struct PrimeDefaultVote;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum RawOrigin<AccountId, I> {
        Members(u32, u32),
        Member(AccountId),
        _Phantom(PhantomData<I>),
    }
    pub struct EnsureMember<AccountId, I>(PhantomData<(AccountId, I)>);
    impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, I, A> EnsureOrigin<O> for EnsureMember<A, I> {
        type Success = A;
        fn try_origin(o: O) -> Result<A, O> {
            o.into().and_then(|o| match o {
                RawOrigin::Member(id) => Ok(id),
                r => Err(O::from(r)),
            })
        }
    }
    pub struct EnsureMembers<AccountId, I, const N: u32>(PhantomData<(AccountId, I)>);
    impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, I, A, const N: u32> EnsureOrigin<O> for EnsureMembers<A, I, N> {
        type Success = (u32, u32);
        fn try_origin(o: O) -> Result<(u32, u32), O> {
            o.into().and_then(|o| match o {
                RawOrigin::Members(n, m) if n >= N => Ok((n, m)),
                r => Err(O::from(r)),
            })
        }
    }
    pub struct EnsureProportionMoreThan<AccountId, I, const N: u32, const D: u32>(PhantomData<(AccountId, I)>);
    impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, I, A, const N: u32, const D: u32> EnsureOrigin<O>
        for EnsureProportionMoreThan<A, I, N, D>
    {
        type Success = ();
        fn try_origin(o: O) -> Result<(), O> {
            o.into().and_then(|o| match o {
                RawOrigin::Members(n, m) if n * D > N * m => Ok(()),
                r => Err(O::from(r)),
            })
        }
    }
    pub struct EnsureProportionAtLeast<AccountId, I, const N: u32, const D: u32>(PhantomData<(AccountId, I)>);
    impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, I, A, const N: u32, const D: u32> EnsureOrigin<O>
        for EnsureProportionAtLeast<A, I, N, D>
    {
        type Success = ();
        fn try_origin(o: O) -> Result<(), O> {
            o.into().and_then(|o| match o {
                RawOrigin::Members(n, m) if n * D >= N * m => Ok(()),
                r => Err(O::from(r)),
            })
        }
    }
}
pub mod pallet_xcm {
    pub struct XcmPassthrough<T>(core::marker::PhantomData<T>);
    pub struct CurrentXcmVersion;
    /// what the runtime sets is readable
    pub trait Config {
        type AdminOrigin;
        type AdvertisedXcmVersion;
        type Currency;
        type CurrencyMatcher;
        type ExecuteXcmOrigin;
        type MaxLockers;
        type MaxRemoteLockConsumers;
        type RemoteLockConsumerIdentifier;
        type RuntimeCall;
        type RuntimeEvent;
        type RuntimeOrigin;
        type SendXcmOrigin;
        type SovereignAccountOf;
        type TrustedLockers;
        type UniversalLocation;
        type Weigher;
        type WeightInfo;
        type XcmExecuteFilter;
        type XcmExecutor;
        type XcmReserveTransferFilter;
        type XcmRouter;
        type XcmTeleportFilter;
        const VERSION_DISCOVERY_QUEUE_SIZE: u32;
    }
}
