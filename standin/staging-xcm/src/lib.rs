//! Stand-in for `staging-xcm`: the version 4 data types with their encoding, and the traits to send and to execute
//! messages. Versions 2 and 3 and everything the repository does not name are left out.
extern crate alloc;
use alloc::{vec, vec::Vec};
use derivative::Derivative;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Derivative, Encode, Decode, TypeInfo)]
#[derivative(Clone(bound = ""), Eq(bound = ""), PartialEq(bound = ""), Debug(bound = ""))]
#[codec(encode_bound())]
#[codec(decode_bound())]
#[scale_info(bounds(), skip_type_params(T))]
pub struct DoubleEncoded<T> {
	encoded: Vec<u8>,
	#[codec(skip)]
	#[derivative(Debug = "ignore", PartialEq = "ignore")]
	decoded: core::marker::PhantomData<fn() -> T>,
}
impl<T> From<Vec<u8>> for DoubleEncoded<T> {
	fn from(encoded: Vec<u8>) -> Self {
		Self { encoded, decoded: Default::default() }
	}
}
impl<T> DoubleEncoded<T> {
	pub fn into_encoded(self) -> Vec<u8> {
		self.encoded
	}
	pub fn encoded(&self) -> &[u8] {
		&self.encoded
	}
}

pub type Version = u32;
pub trait Unwrappable {
	type Inner;
}

#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum VersionedLocation {
	#[codec(index = 4)]
	V4(v4::Location),
}
#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub enum VersionedXcmOf<T> {
	#[codec(index = 4)]
	V4(v4::Xcm<T>),
}
pub type VersionedXcm<T> = VersionedXcmOf<T>;

pub mod opaque {
	pub mod v4 {
		pub use crate::v4::*;
		pub type Xcm = crate::v4::Xcm<()>;
	}
	pub type VersionedXcm = super::VersionedXcmOf<()>;
}

/// Version 3 locations, which can be copied.
pub mod v3 {
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	pub use crate::v4::{BodyId, BodyPart, Junction, NetworkId};
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Junctions {
		#[default]
		Here,
		X1(Junction),
		X2(Junction, Junction),
		X3(Junction, Junction, Junction),
		X4(Junction, Junction, Junction, Junction),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct MultiLocation {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl MultiLocation {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
			Self { parents, interior: interior.into() }
		}
		pub const fn here() -> Self {
			Self { parents: 0, interior: Junctions::Here }
		}
		pub const fn parent() -> Self {
			Self { parents: 1, interior: Junctions::Here }
		}
	}
	pub mod prelude {
		pub use super::{
			Junction::{self, *},
			Junctions::{self, *},
			MultiLocation,
		};
	}
}
pub mod latest {
	pub use super::v4::*;
}
pub mod prelude {
	pub use super::v4::prelude::*;
	pub use super::{VersionedLocation, VersionedXcm};
}

pub mod v4 {
	use super::*;
	pub use crate::DoubleEncoded;
	pub use bounded_collections::{BoundedVec, ConstU32};
	pub use sp_weights::Weight;

	pub type XcmHash = [u8; 32];
	pub type QueryId = u64;
	pub const VERSION: u32 = 4;

	pub mod opaque {
		pub type Xcm = super::Xcm<()>;
		pub type Instruction = super::Instruction<()>;
	}

	pub mod prelude {
		pub use super::{
			Asset,
			AssetFilter::{self, *},
			AssetId,
			AssetInstance::{self, *},
			Assets, BodyId, BodyPart,
			Error as XcmError,
			ExecuteXcm,
			Fungibility::{self, *},
			Instruction::{self, *},
			InteriorLocation,
			Junction::{self, *},
			Junctions::{self, Here},
			Location, MaybeErrorCode,
			NetworkId::{self, *},
			OriginKind, Outcome, PalletInfo, Parent, ParentThen, PreparedMessage, QueryId, QueryResponseInfo,
			Response, Result as XcmResult, SendError, SendResult, SendXcm, Weight,
			WeightLimit::{self, *},
			WildAsset::{self, *},
			WildFungibility::{self, Fungible as WildFungible, NonFungible as WildNonFungible},
			Xcm, XcmContext, XcmHash, VERSION as XCM_VERSION,
		};
	}

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum NetworkId {
		ByGenesis([u8; 32]),
		ByFork { block_number: u64, block_hash: [u8; 32] },
		Polkadot,
		Kusama,
		Westend,
		Rococo,
		Wococo,
		Ethereum {
			#[codec(compact)]
			chain_id: u64,
		},
		BitcoinCore,
		BitcoinCash,
		PolkadotBulletin,
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum BodyId {
		Unit,
		Moniker([u8; 4]),
		Index(#[codec(compact)] u32),
		Executive,
		Technical,
		Legislative,
		Judicial,
		Defense,
		Administration,
		Treasury,
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum BodyPart {
		Voice,
		Members {
			#[codec(compact)]
			count: u32,
		},
		Fraction {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
		AtLeastProportion {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
		MoreThanProportion {
			#[codec(compact)]
			nom: u32,
			#[codec(compact)]
			denom: u32,
		},
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 {
			network: Option<NetworkId>,
			id: [u8; 32],
		},
		AccountIndex64 {
			network: Option<NetworkId>,
			#[codec(compact)]
			index: u64,
		},
		AccountKey20 {
			network: Option<NetworkId>,
			key: [u8; 20],
		},
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
		GeneralKey {
			length: u8,
			data: [u8; 32],
		},
		OnlyChild,
		Plurality {
			id: BodyId,
			part: BodyPart,
		},
		GlobalConsensus(NetworkId),
	}
	impl Junction {
		pub fn into_location(self) -> Location {
			self.into()
		}
	}

	/// Up to eight junctions. The encoding is the upstream one: the number of junctions, then each of them.
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo)]
	pub enum Junctions {
		Here,
		X1([Junction; 1]),
		X2([Junction; 2]),
		X3([Junction; 3]),
		X4([Junction; 4]),
		X5([Junction; 5]),
		X6([Junction; 6]),
		X7([Junction; 7]),
		X8([Junction; 8]),
	}
	pub type InteriorLocation = Junctions;
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] {
			match self {
				Junctions::Here => &[],
				Junctions::X1(a) => &a[..],
				Junctions::X2(a) => &a[..],
				Junctions::X3(a) => &a[..],
				Junctions::X4(a) => &a[..],
				Junctions::X5(a) => &a[..],
				Junctions::X6(a) => &a[..],
				Junctions::X7(a) => &a[..],
				Junctions::X8(a) => &a[..],
			}
		}
		pub fn from_slice(s: &[Junction]) -> Option<Self> {
			Some(match s.len() {
				0 => Junctions::Here,
				1 => Junctions::X1(s.try_into().ok()?),
				2 => Junctions::X2(s.try_into().ok()?),
				3 => Junctions::X3(s.try_into().ok()?),
				4 => Junctions::X4(s.try_into().ok()?),
				5 => Junctions::X5(s.try_into().ok()?),
				6 => Junctions::X6(s.try_into().ok()?),
				7 => Junctions::X7(s.try_into().ok()?),
				8 => Junctions::X8(s.try_into().ok()?),
				_ => return None,
			})
		}
		pub fn len(&self) -> usize {
			self.as_slice().len()
		}
		pub fn is_empty(&self) -> bool {
			self.len() == 0
		}
		/// Where this place, given from the root of all consensus systems, is when seen from `viewer`.
		pub fn relative_to(self, viewer: &Junctions) -> Location {
			let same = self.iter().zip(viewer.iter()).take_while(|(a, b)| a == b).count();
			Location {
				parents: (viewer.len() - same) as u8,
				interior: Junctions::from_slice(&self.as_slice()[same..]).expect("no longer than before"),
			}
		}
		pub fn iter(&self) -> core::slice::Iter<'_, Junction> {
			self.as_slice().iter()
		}
		pub fn into_location(self) -> Location {
			Location { parents: 0, interior: self }
		}
	}
	impl Encode for Junctions {
		fn encode_to<W: parity_scale_codec::Output + ?Sized>(&self, dest: &mut W) {
			dest.push_byte(self.len() as u8);
			for j in self.iter() {
				j.encode_to(dest)
			}
		}
	}
	impl parity_scale_codec::EncodeLike for Junctions {}
	impl Decode for Junctions {
		fn decode<I: parity_scale_codec::Input>(i: &mut I) -> core::result::Result<Self, parity_scale_codec::Error> {
			let n = i.read_byte()?;
			if n > 8 {
				return Err("too many junctions".into())
			}
			let mut v = Vec::new();
			for _ in 0..n {
				v.push(Junction::decode(i)?)
			}
			Junctions::from_slice(&v).ok_or_else(|| "junctions".into())
		}
	}
	impl MaxEncodedLen for Junctions {
		fn max_encoded_len() -> usize {
			1 + 8 * Junction::max_encoded_len()
		}
	}
	impl<J: Into<Junction>> From<J> for Junctions {
		fn from(j: J) -> Self {
			Junctions::X1([j.into()])
		}
	}
	impl<const N: usize> From<[Junction; N]> for Junctions {
		fn from(a: [Junction; N]) -> Self {
			Junctions::from_slice(&a).expect("at most eight junctions")
		}
	}
	impl From<()> for Junctions {
		fn from(_: ()) -> Self {
			Junctions::Here
		}
	}
	impl<A: Into<Junction>, B: Into<Junction>> From<(A, B)> for Junctions {
		fn from((a, b): (A, B)) -> Self {
			Junctions::X2([a.into(), b.into()])
		}
	}
	impl<A: Into<Junction>, B: Into<Junction>, C: Into<Junction>> From<(A, B, C)> for Junctions {
		fn from((a, b, c): (A, B, C)) -> Self {
			Junctions::X3([a.into(), b.into(), c.into()])
		}
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Location {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Default for Location {
		fn default() -> Self {
			Self { parents: 0, interior: Junctions::Here }
		}
	}
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
			Self { parents, interior: interior.into() }
		}
		pub const fn here() -> Self {
			Self { parents: 0, interior: Junctions::Here }
		}
		pub const fn parent() -> Self {
			Self { parents: 1, interior: Junctions::Here }
		}
		pub fn unpack(&self) -> (u8, &[Junction]) {
			(self.parents, self.interior.as_slice())
		}
		pub fn is_here(&self) -> bool {
			self.parents == 0 && self.interior.is_empty()
		}
		pub fn parent_count(&self) -> u8 {
			self.parents
		}
		pub fn interior(&self) -> &Junctions {
			&self.interior
		}
		/// Goes down into `suffix` from here.
		pub fn append_with(&mut self, suffix: impl Into<Location>) -> core::result::Result<(), Location> {
			let suffix: Location = suffix.into();
			let up = suffix.parents as usize;
			let mine = self.interior.as_slice();
			let (parents, keep) = if up > mine.len() {
				(self.parents as usize + up - mine.len(), 0)
			} else {
				(self.parents as usize, mine.len() - up)
			};
			let mut v: Vec<Junction> = mine[..keep].to_vec();
			v.extend(suffix.interior.iter().copied());
			match (u8::try_from(parents), Junctions::from_slice(&v)) {
				(Ok(parents), Some(interior)) => {
					*self = Location { parents, interior };
					Ok(())
				},
				_ => Err(suffix),
			}
		}
		pub fn contains_parents_only(&self, n: u8) -> bool {
			self.parents == n && self.interior.is_empty()
		}
	}
	impl<J: Into<Junctions>> From<J> for Location {
		fn from(j: J) -> Self {
			Location { parents: 0, interior: j.into() }
		}
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub struct Parent;
	impl From<Parent> for Location {
		fn from(_: Parent) -> Self {
			Location { parents: 1, interior: Junctions::Here }
		}
	}
	impl<I: Into<Junction>> From<(Parent, I)> for Location {
		fn from((_, i): (Parent, I)) -> Self {
			Location { parents: 1, interior: Junctions::X1([i.into()]) }
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub struct ParentThen(pub Junctions);
	impl From<ParentThen> for Location {
		fn from(p: ParentThen) -> Self {
			Location { parents: 1, interior: p.0 }
		}
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct AssetId(pub Location);
	impl<T: Into<Location>> From<T> for AssetId {
		fn from(x: T) -> Self {
			Self(x.into())
		}
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum AssetInstance {
		Undefined,
		Index(#[codec(compact)] u128),
		Array4([u8; 4]),
		Array8([u8; 8]),
		Array16([u8; 16]),
		Array32([u8; 32]),
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Fungibility {
		Fungible(#[codec(compact)] u128),
		NonFungible(AssetInstance),
	}
	impl From<u128> for Fungibility {
		fn from(a: u128) -> Self {
			Fungibility::Fungible(a)
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Asset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
		fn from((id, fun): (A, B)) -> Self {
			Asset { id: id.into(), fun: fun.into() }
		}
	}
	pub const MAX_ITEMS_IN_ASSETS: usize = 20;
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Encode, TypeInfo, Default)]
	pub struct Assets(Vec<Asset>);
	impl Decode for Assets {
		fn decode<I: parity_scale_codec::Input>(i: &mut I) -> core::result::Result<Self, parity_scale_codec::Error> {
			let v = Vec::<Asset>::decode(i)?;
			if v.len() > MAX_ITEMS_IN_ASSETS {
				return Err("too many assets".into())
			}
			Ok(Self(v))
		}
	}
	impl MaxEncodedLen for Assets {
		fn max_encoded_len() -> usize {
			Asset::max_encoded_len() * MAX_ITEMS_IN_ASSETS + 1
		}
	}
	impl Assets {
		pub fn new() -> Self {
			Self(Vec::new())
		}
		pub fn into_inner(self) -> Vec<Asset> {
			self.0
		}
		pub fn inner(&self) -> &Vec<Asset> {
			&self.0
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn is_empty(&self) -> bool {
			self.0.is_empty()
		}
	}
	impl From<Vec<Asset>> for Assets {
		fn from(v: Vec<Asset>) -> Self {
			let mut v = v;
			v.sort();
			Self(v)
		}
	}
	impl<T: Into<Asset>> From<T> for Assets {
		fn from(x: T) -> Self {
			Self(vec![x.into()])
		}
	}
	#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum WildFungibility {
		Fungible,
		NonFungible,
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum WildAsset {
		All,
		AllOf { id: AssetId, fun: WildFungibility },
		AllCounted(#[codec(compact)] u32),
		AllOfCounted {
			id: AssetId,
			fun: WildFungibility,
			#[codec(compact)]
			count: u32,
		},
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum AssetFilter {
		Definite(Assets),
		Wild(WildAsset),
	}

	pub type MaxPalletNameLen = ConstU32<48>;
	pub type MaxPalletsInfo = ConstU32<64>;
	pub type MaxDispatchErrorLen = ConstU32<128>;

	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum MaybeErrorCode {
		Success,
		Error(BoundedVec<u8, MaxDispatchErrorLen>),
		TruncatedError(BoundedVec<u8, MaxDispatchErrorLen>),
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct PalletInfo {
		#[codec(compact)]
		pub index: u32,
		pub name: BoundedVec<u8, MaxPalletNameLen>,
		pub module_name: BoundedVec<u8, MaxPalletNameLen>,
		#[codec(compact)]
		pub major: u32,
		#[codec(compact)]
		pub minor: u32,
		#[codec(compact)]
		pub patch: u32,
	}
	impl PalletInfo {
		pub fn new(
			index: u32,
			name: Vec<u8>,
			module_name: Vec<u8>,
			major: u32,
			minor: u32,
			patch: u32,
		) -> core::result::Result<Self, Error> {
			let name = BoundedVec::try_from(name).map_err(|_| Error::Overflow)?;
			let module_name = BoundedVec::try_from(module_name).map_err(|_| Error::Overflow)?;
			Ok(Self { index, name, module_name, major, minor, patch })
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Response {
		Null,
		Assets(Assets),
		ExecutionResult(Option<(u32, Error)>),
		Version(super::Version),
		PalletsInfo(BoundedVec<PalletInfo, MaxPalletsInfo>),
		DispatchResult(MaybeErrorCode),
	}
	impl Default for Response {
		fn default() -> Self {
			Self::Null
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
	pub struct QueryResponseInfo {
		pub destination: Location,
		#[codec(compact)]
		pub query_id: QueryId,
		pub max_weight: Weight,
	}
	#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
	pub enum OriginKind {
		Native,
		SovereignAccount,
		Superuser,
		Xcm,
	}
	#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
	pub enum WeightLimit {
		Unlimited,
		Limited(Weight),
	}

	#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Error {
		Overflow,
		Unimplemented,
		UntrustedReserveLocation,
		UntrustedTeleportLocation,
		LocationFull,
		LocationNotInvertible,
		BadOrigin,
		InvalidLocation,
		AssetNotFound,
		FailedToTransactAsset(#[codec(skip)] &'static str),
		NotWithdrawable,
		LocationCannotHold,
		ExceedsMaxMessageSize,
		DestinationUnsupported,
		Transport(#[codec(skip)] &'static str),
		Unroutable,
		UnknownClaim,
		FailedToDecode,
		MaxWeightInvalid,
		NotHoldingFees,
		TooExpensive,
		Trap(u64),
		ExpectationFalse,
		PalletNotFound,
		NameMismatch,
		VersionIncompatible,
		HoldingWouldOverflow,
		ExportError,
		ReanchorFailed,
		NoDeal,
		FeesNotMet,
		LockError,
		NoPermission,
		Unanchored,
		NotDepositable,
		UnhandledXcmVersion,
		WeightLimitReached(Weight),
		Barrier,
		WeightNotComputable,
		ExceedsStackLimit,
	}
	impl From<SendError> for Error {
		fn from(e: SendError) -> Self {
			match e {
				SendError::NotApplicable | SendError::Unroutable | SendError::MissingArgument => Error::Unroutable,
				SendError::Transport(s) => Error::Transport(s),
				SendError::DestinationUnsupported => Error::DestinationUnsupported,
				SendError::ExceedsMaxMessageSize => Error::ExceedsMaxMessageSize,
				SendError::Fees => Error::FeesNotMet,
			}
		}
	}
	pub type Result = core::result::Result<(), Error>;

	#[derive(Derivative, Encode, Decode, TypeInfo)]
	#[derivative(Clone(bound = ""), Eq(bound = ""), PartialEq(bound = ""), Debug(bound = ""))]
	#[codec(encode_bound())]
	#[codec(decode_bound())]
	#[scale_info(bounds(), skip_type_params(Call))]
	pub enum Instruction<Call> {
		#[codec(index = 0)]
		WithdrawAsset(Assets),
		#[codec(index = 1)]
		ReserveAssetDeposited(Assets),
		#[codec(index = 2)]
		ReceiveTeleportedAsset(Assets),
		#[codec(index = 3)]
		QueryResponse {
			#[codec(compact)]
			query_id: QueryId,
			response: Response,
			max_weight: Weight,
			querier: Option<Location>,
		},
		#[codec(index = 4)]
		TransferAsset { assets: Assets, beneficiary: Location },
		#[codec(index = 5)]
		TransferReserveAsset { assets: Assets, dest: Location, xcm: Xcm<()> },
		#[codec(index = 6)]
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
		#[codec(index = 7)]
		HrmpNewChannelOpenRequest {
			#[codec(compact)]
			sender: u32,
			#[codec(compact)]
			max_message_size: u32,
			#[codec(compact)]
			max_capacity: u32,
		},
		#[codec(index = 8)]
		HrmpChannelAccepted {
			#[codec(compact)]
			recipient: u32,
		},
		#[codec(index = 9)]
		HrmpChannelClosing {
			#[codec(compact)]
			initiator: u32,
			#[codec(compact)]
			sender: u32,
			#[codec(compact)]
			recipient: u32,
		},
		#[codec(index = 10)]
		ClearOrigin,
		#[codec(index = 11)]
		DescendOrigin(InteriorLocation),
		#[codec(index = 12)]
		ReportError(QueryResponseInfo),
		#[codec(index = 13)]
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		#[codec(index = 14)]
		DepositReserveAsset { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
		#[codec(index = 15)]
		ExchangeAsset { give: AssetFilter, want: Assets, maximal: bool },
		#[codec(index = 16)]
		InitiateReserveWithdraw { assets: AssetFilter, reserve: Location, xcm: Xcm<()> },
		#[codec(index = 17)]
		InitiateTeleport { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
		#[codec(index = 18)]
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
		#[codec(index = 19)]
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		#[codec(index = 20)]
		RefundSurplus,
		#[codec(index = 21)]
		SetErrorHandler(Xcm<Call>),
		#[codec(index = 22)]
		SetAppendix(Xcm<Call>),
		#[codec(index = 23)]
		ClearError,
		#[codec(index = 24)]
		ClaimAsset { assets: Assets, ticket: Location },
		#[codec(index = 25)]
		Trap(#[codec(compact)] u64),
		#[codec(index = 26)]
		SubscribeVersion {
			#[codec(compact)]
			query_id: QueryId,
			max_response_weight: Weight,
		},
		#[codec(index = 27)]
		UnsubscribeVersion,
		#[codec(index = 28)]
		BurnAsset(Assets),
		#[codec(index = 29)]
		ExpectAsset(Assets),
		#[codec(index = 30)]
		ExpectOrigin(Option<Location>),
		#[codec(index = 33)]
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
		#[codec(index = 34)]
		ExpectPallet {
			#[codec(compact)]
			index: u32,
			name: Vec<u8>,
			module_name: Vec<u8>,
			#[codec(compact)]
			crate_major: u32,
			#[codec(compact)]
			min_crate_minor: u32,
		},
		#[codec(index = 35)]
		ReportTransactStatus(QueryResponseInfo),
		#[codec(index = 36)]
		ClearTransactStatus,
		#[codec(index = 37)]
		UniversalOrigin(Junction),
		#[codec(index = 43)]
		SetFeesMode { jit_withdraw: bool },
		#[codec(index = 44)]
		SetTopic([u8; 32]),
		#[codec(index = 45)]
		ClearTopic,
		#[codec(index = 46)]
		AliasOrigin(Location),
		#[codec(index = 47)]
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
	}
	#[derive(Derivative, Encode, Decode, TypeInfo)]
	#[derivative(Clone(bound = ""), Eq(bound = ""), PartialEq(bound = ""), Debug(bound = ""), Default(bound = ""))]
	#[codec(encode_bound())]
	#[codec(decode_bound())]
	#[scale_info(bounds(), skip_type_params(Call))]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	impl<Call> Xcm<Call> {
		pub fn new() -> Self {
			Self(vec![])
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn is_empty(&self) -> bool {
			self.0.is_empty()
		}
		pub fn inner(&self) -> &[Instruction<Call>] {
			&self.0
		}
	}
	impl<Call> From<Vec<Instruction<Call>>> for Xcm<Call> {
		fn from(v: Vec<Instruction<Call>>) -> Self {
			Self(v)
		}
	}

	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub enum Outcome {
		Complete { used: Weight },
		Incomplete { used: Weight, error: Error },
		Error { error: Error },
	}
	pub trait PreparedMessage {
		fn weight_of(&self) -> Weight;
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct XcmContext {
		pub origin: Option<Location>,
		pub message_id: XcmHash,
		pub topic: Option<[u8; 32]>,
	}
	pub trait ExecuteXcm<Call> {
		type Prepared: PreparedMessage;
		fn prepare(message: Xcm<Call>) -> core::result::Result<Self::Prepared, Xcm<Call>>;
		fn execute(
			origin: impl Into<Location>,
			pre: Self::Prepared,
			id: &mut XcmHash,
			weight_credit: Weight,
		) -> Outcome;
		fn charge_fees(location: impl Into<Location>, fees: Assets) -> Result;
	}

	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub enum SendError {
		NotApplicable,
		Transport(#[codec(skip)] &'static str),
		Unroutable,
		DestinationUnsupported,
		ExceedsMaxMessageSize,
		MissingArgument,
		Fees,
	}
	pub type SendResult<T> = core::result::Result<(T, Assets), SendError>;
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> core::result::Result<XcmHash, SendError>;
	}
	pub fn validate_send<T: SendXcm>(dest: Location, msg: Xcm<()>) -> SendResult<T::Ticket> {
		T::validate(&mut Some(dest), &mut Some(msg))
	}
	pub fn send_xcm<T: SendXcm>(dest: Location, msg: Xcm<()>) -> core::result::Result<(XcmHash, Assets), SendError> {
		let (ticket, price) = T::validate(&mut Some(dest), &mut Some(msg))?;
		let hash = T::deliver(ticket)?;
		Ok((hash, price))
	}
}
