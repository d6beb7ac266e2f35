//! Stand-in for `pallet-session`: the traits that connect it to a staking pallet, and the rotation of sessions: when
//! one should end, the set chosen in the previous rotation is enacted and the next one is asked for.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;
use sp_staking::SessionIndex;

pub trait ShouldEndSession<BlockNumber> {
	fn should_end_session(now: BlockNumber) -> bool;
}
pub trait SessionManager<ValidatorId> {
	fn new_session(new_index: SessionIndex) -> Option<scale_info::prelude::vec::Vec<ValidatorId>>;
	fn new_session_genesis(new_index: SessionIndex) -> Option<scale_info::prelude::vec::Vec<ValidatorId>> {
		Self::new_session(new_index)
	}
	fn end_session(end_index: SessionIndex);
	fn start_session(start_index: SessionIndex);
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use scale_info::prelude::vec::Vec;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type ValidatorId: Parameter + Member + MaybeSerializeDeserialize + MaxEncodedLen;
		type ValidatorIdOf;
		type ShouldEndSession: ShouldEndSession<BlockNumberFor<Self>>;
		type NextSessionRotation: frame_support::traits::EstimateNextSessionRotation<BlockNumberFor<Self>>;
		type SessionManager: SessionManager<Self::ValidatorId>;
		type SessionHandler;
		type Keys;
		type WeightInfo;
	}
	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T>(_);

	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub keys: Vec<(T::AccountId, T::ValidatorId)>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::storage]
	pub type Validators<T: Config> = StorageValue<_, Vec<T::ValidatorId>, ValueQuery>;
	#[pallet::storage]
	pub type Queued<T: Config> = StorageValue<_, Vec<T::ValidatorId>, ValueQuery>;
	#[pallet::storage]
	pub type CurrentIndex<T: Config> = StorageValue<_, SessionIndex, ValueQuery>;

	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event {
		NewSession { session_index: SessionIndex },
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {}

	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(n: BlockNumberFor<T>) -> Weight {
			if T::ShouldEndSession::should_end_session(n) {
				let i = CurrentIndex::<T>::get();
				T::SessionManager::end_session(i);
				Validators::<T>::put(Queued::<T>::get());
				CurrentIndex::<T>::put(i + 1);
				T::SessionManager::start_session(i + 1);
				if let Some(v) = T::SessionManager::new_session(i + 2) {
					Queued::<T>::put(v);
				}
				Self::deposit_event(Event::NewSession { session_index: i + 1 });
			}
			Weight::zero()
		}
	}
}

pub struct FindAccountFromAuthorIndex<T, Inner>(core::marker::PhantomData<(T, Inner)>);
impl<T: Config, Inner: frame_support::traits::FindAuthor<u32>> frame_support::traits::FindAuthor<T::ValidatorId>
	for FindAccountFromAuthorIndex<T, Inner>
{
	fn find_author<'a, I>(digests: I) -> Option<T::ValidatorId>
	where
		I: 'a + IntoIterator<Item = (frame_support::ConsensusEngineId, &'a [u8])>,
	{
		let i = Inner::find_author(digests)?;
		Validators::<T>::get().get(i as usize).cloned()
	}
}
