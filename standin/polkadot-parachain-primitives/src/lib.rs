//! Stand-in for `polkadot-parachain-primitives`.
pub mod primitives {
	use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	use serde::{Deserialize, Serialize};
	use sp_runtime::TypeId;

	#[derive(
		Clone, CompactAs, Copy, Decode, Default, Encode, Eq, Hash, MaxEncodedLen, Ord, PartialEq, PartialOrd, Debug,
		Serialize, Deserialize, TypeInfo,
	)]
	pub struct Id(u32);
	impl TypeId for Id {
		const TYPE_ID: [u8; 4] = *b"para";
	}
	impl From<Id> for u32 {
		fn from(x: Id) -> Self {
			x.0
		}
	}
	impl From<u32> for Id {
		fn from(x: u32) -> Self {
			Id(x)
		}
	}
	impl Id {
		pub const fn new(id: u32) -> Self {
			Self(id)
		}
	}
	#[derive(Clone, Copy, Decode, Encode, Eq, MaxEncodedLen, Ord, PartialEq, PartialOrd, Debug, TypeInfo)]
	pub struct Sibling(pub Id);
	impl From<Id> for Sibling {
		fn from(i: Id) -> Self {
			Self(i)
		}
	}
	impl From<Sibling> for Id {
		fn from(i: Sibling) -> Self {
			i.0
		}
	}
	impl TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
}
