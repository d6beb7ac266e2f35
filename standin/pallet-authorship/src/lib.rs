//! Stand-in for `pallet-authorship`: tells a handler who the author of the current block is.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;

pub trait EventHandler<Author, BlockNumber> {
	fn note_author(author: Author);
}
impl<A, B> EventHandler<A, B> for () {
	fn note_author(_: A) {}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::{pallet_prelude::*, traits::FindAuthor};
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type FindAuthor: FindAuthor<Self::AccountId>;
		type EventHandler: EventHandler<Self::AccountId, BlockNumberFor<Self>>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Author<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;

	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(_: BlockNumberFor<T>) -> Weight {
			if let Some(author) = Pallet::<T>::author() {
				T::EventHandler::note_author(author);
			}
			Weight::zero()
		}
		fn on_finalize(_: BlockNumberFor<T>) {
			Author::<T>::kill();
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn author() -> Option<T::AccountId> {
			if let Some(author) = Author::<T>::get() {
				return Some(author)
			}
			let digest = frame_system::Pallet::<T>::digest();
			let pre = digest.logs.iter().filter_map(|d| d.as_pre_runtime());
			T::FindAuthor::find_author(pre).inspect(|a| Author::<T>::put(a))
		}
	}
}
