//! Stand-in for `pallet-timestamp`: one storage value with the time in milliseconds, and the inherent that sets it.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use frame_support::{
		pallet_prelude::*,
		traits::{OnTimestampSet, Time, UnixTime},
	};
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::{AtLeast32Bit, SaturatedConversion, Scale, Zero};

	pub mod config_preludes {
		use super::*;
		use frame_support::derive_impl;
		pub struct TestDefaultConfig;
		#[derive_impl(frame_system::config_preludes::TestDefaultConfig, no_aggregated_types)]
		impl frame_system::DefaultConfig for TestDefaultConfig {}
		#[frame_support::register_default_impl(TestDefaultConfig)]
		impl DefaultConfig for TestDefaultConfig {
			type Moment = u64;
			type OnTimestampSet = ();
			type MinimumPeriod = frame_support::traits::ConstU64<1>;
			type WeightInfo = ();
		}
	}

	#[pallet::config(with_default)]
	pub trait Config: frame_system::Config {
		#[pallet::no_default_bounds]
		type Moment: Parameter
			+ Default
			+ AtLeast32Bit
			+ Scale<BlockNumberFor<Self>, Output = Self::Moment>
			+ Copy
			+ MaxEncodedLen
			+ scale_info::StaticTypeInfo;
		type OnTimestampSet: OnTimestampSet<Self::Moment>;
		#[pallet::constant]
		type MinimumPeriod: Get<Self::Moment>;
		type WeightInfo;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::zero(), DispatchClass::Mandatory))]
		pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult {
			ensure_none(origin)?;
			let prev = Now::<T>::get();
			assert!(
				prev.is_zero() || now >= prev + T::MinimumPeriod::get(),
				"Timestamp must increment by at least <MinimumPeriod> between sequential blocks"
			);
			Now::<T>::put(now);
			<T::OnTimestampSet as OnTimestampSet<_>>::on_timestamp_set(now);
			Ok(())
		}
	}

	impl<T: Config> Pallet<T> {
		pub fn get() -> T::Moment {
			Now::<T>::get()
		}
		pub fn set_timestamp(now: T::Moment) {
			Now::<T>::put(now);
			<T::OnTimestampSet as OnTimestampSet<_>>::on_timestamp_set(now);
		}
	}
	impl<T: Config> Time for Pallet<T> {
		type Moment = T::Moment;
		fn now() -> T::Moment {
			Now::<T>::get()
		}
	}
	impl<T: Config> UnixTime for Pallet<T> {
		fn now() -> core::time::Duration {
			core::time::Duration::from_millis(Now::<T>::get().saturated_into::<u64>())
		}
	}
}
