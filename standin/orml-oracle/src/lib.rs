//! Stand-in for `orml-oracle`: members feed values, which are kept as they come.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;

pub struct DefaultCombineData<T, MinimumCount, ExpiresIn, I = ()>(core::marker::PhantomData<(T, MinimumCount, ExpiresIn, I)>);

#[frame_support::pallet]
pub mod pallet {
	use frame_support::{pallet_prelude::*, traits::{Contains, Time}};
	use frame_system::pallet_prelude::*;

	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnNewData;
		type CombineData;
		type Time: Time;
		type OracleKey: Parameter + Member + MaxEncodedLen;
		type OracleValue: Parameter + Member + Ord + MaxEncodedLen;
		type RootOperatorAccountId: Get<Self::AccountId>;
		type Members: Contains<Self::AccountId>;
		type MaxHasDispatchedSize: Get<u32>;
		type WeightInfo;
		type MaxFeedValues: Get<u32>;
		#[cfg(feature = "runtime-benchmarks")]
		type BenchmarkHelper;
	}

	#[pallet::error]
	pub enum Error<T, I = ()> {
		NoPermission,
	}

	#[pallet::event]
	#[pallet::generate_deposit(pub(crate) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		NewFeedData { sender: T::AccountId, values: sp_std::vec::Vec<(T::OracleKey, T::OracleValue)> },
	}

	#[pallet::storage]
	pub type RawValues<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Twox64Concat, T::AccountId, Twox64Concat, T::OracleKey, T::OracleValue>;

	#[pallet::hooks]
	impl<T: Config<I>, I: 'static> Hooks<BlockNumberFor<T>> for Pallet<T, I> {}

	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn feed_values(
			origin: OriginFor<T>,
			values: BoundedVec<(T::OracleKey, T::OracleValue), T::MaxFeedValues>,
		) -> DispatchResult {
			let who = ensure_signed(origin)?;
			ensure!(T::Members::contains(&who), Error::<T, I>::NoPermission);
			for (k, v) in values.iter() {
				RawValues::<T, I>::insert(&who, k, v);
			}
			Self::deposit_event(Event::NewFeedData { sender: who, values: values.into_inner() });
			Ok(())
		}
	}
}
