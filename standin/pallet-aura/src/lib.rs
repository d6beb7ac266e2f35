//! Stand-in for `pallet-aura`: finds nobody; there are no digests where this is used.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use frame_support::{
		pallet_prelude::*,
		traits::{FindAuthor, OnTimestampSet},
		ConsensusEngineId,
	};

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type AuthorityId: Member + Parameter + sp_runtime::RuntimeAppPublic + MaybeSerializeDeserialize + MaxEncodedLen;
		type MaxAuthorities: Get<u32>;
		type DisabledValidators;
		type AllowMultipleBlocksPerSlot: Get<bool>;
		type SlotDuration: Get<u64>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Authorities<T: Config> = StorageValue<_, BoundedVec<T::AuthorityId, T::MaxAuthorities>, ValueQuery>;

	impl<T: Config> FindAuthor<u32> for Pallet<T> {
		fn find_author<'a, I>(_: I) -> Option<u32>
		where
			I: 'a + IntoIterator<Item = (ConsensusEngineId, &'a [u8])>,
		{
			None
		}
	}
	impl<T: Config> OnTimestampSet<u64> for Pallet<T> {
		fn on_timestamp_set(_: u64) {}
	}
	impl<T: Config> sp_runtime::BoundToRuntimeAppPublic for Pallet<T> {
		type Public = T::AuthorityId;
	}
}
