//! Stand-in for `cumulus-pallet-xcm`: the origins of messages from the relay chain and from sibling parachains.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;
use polkadot_parachain_primitives::primitives::Id as ParaId;
use sp_runtime::{traits::BadOrigin, RuntimeDebug};

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
	}

	#[pallet::event]
	pub enum Event<T: Config> {
		Nothing,
		#[codec(skip)]
		_Phantom(PhantomData<T>),
	}

	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo, RuntimeDebug, MaxEncodedLen)]
	pub enum Origin {
		Relay,
		SiblingParachain(ParaId),
	}
	impl From<ParaId> for Origin {
		fn from(id: ParaId) -> Origin {
			Origin::SiblingParachain(id)
		}
	}
}

pub fn ensure_sibling_para<OuterOrigin>(o: OuterOrigin) -> Result<ParaId, BadOrigin>
where
	OuterOrigin: Into<Result<Origin, OuterOrigin>>,
{
	match o.into() {
		Ok(Origin::SiblingParachain(id)) => Ok(id),
		_ => Err(BadOrigin),
	}
}
