//! Stand-in for `pallet-xcm`: the origins, `new_notify_query`, `send_xcm`. The configuration items are there with the
//! bounds that matter for what is kept.
pub use pallet::*;

pub struct CurrentXcmVersion;
impl frame_support::traits::Get<u32> for CurrentXcmVersion {
	fn get() -> u32 {
		staging_xcm::v4::VERSION
	}
}
pub struct TestWeightInfo;

#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::BadOrigin;
	use staging_xcm::v4::prelude::*;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Currency;
		type CurrencyMatcher;
		type SendXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
		type XcmRouter: SendXcm;
		type ExecuteXcmOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = Location>;
		type XcmExecuteFilter;
		type XcmExecutor;
		type XcmTeleportFilter;
		type XcmReserveTransferFilter;
		type Weigher;
		type UniversalLocation: Get<InteriorLocation>;
		type RuntimeOrigin: From<Origin> + From<<Self as frame_system::Config>::RuntimeOrigin>;
		type RuntimeCall: Parameter + From<<Self as frame_system::Config>::RuntimeCall>;
		const VERSION_DISCOVERY_QUEUE_SIZE: u32;
		type AdvertisedXcmVersion: Get<u32>;
		type AdminOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type TrustedLockers;
		type SovereignAccountOf;
		type MaxLockers: Get<u32>;
		type MaxRemoteLockConsumers: Get<u32>;
		type RemoteLockConsumerIdentifier;
		type WeightInfo;
	}

	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	#[allow(dead_code)]
	pub enum Event<T: Config> {
		Sent { origin: Location, destination: Location, message: Xcm<()>, message_id: XcmHash },
	}

	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		/// It comes from somewhere in the XCM space wanting to transact.
		Xcm(Location),
		/// It comes as an expected response from an XCM location.
		Response(Location),
	}
	impl From<Location> for Origin {
		fn from(location: Location) -> Origin {
			Origin::Xcm(location)
		}
	}

	#[pallet::storage]
	pub type QueryCounter<T: Config> = StorageValue<_, QueryId, ValueQuery>;

	/// Pending queries: who answers, who may, the pallet and call index to notify, and until when.
	#[pallet::storage]
	pub type Queries<T: Config> =
		StorageMap<_, Twox64Concat, QueryId, (Location, Location, (u8, u8), BlockNumberFor<T>)>;

	impl<T: Config> Pallet<T> {
		pub fn new_notify_query(
			responder: impl Into<Location>,
			notify: impl Into<<T as Config>::RuntimeCall>,
			timeout: BlockNumberFor<T>,
			match_querier: impl Into<Location>,
		) -> QueryId {
			let notify: (u8, u8) = notify.into().using_encoded(|mut bytes| Decode::decode(&mut bytes)).expect(
				"decode input is output of Call encode; Call guaranteed to have two enums; qed",
			);
			QueryCounter::<T>::mutate(|q| {
				let r = *q;
				*q = q.saturating_add(1);
				Queries::<T>::insert(r, (responder.into(), match_querier.into(), notify, timeout));
				r
			})
		}

		pub fn send_xcm(
			interior: impl Into<Junctions>,
			dest: impl Into<Location>,
			mut message: Xcm<()>,
		) -> Result<XcmHash, SendError> {
			let interior = interior.into();
			let dest = dest.into();
			if interior != Junctions::Here {
				message.0.insert(0, DescendOrigin(interior));
			}
			let (ticket, _price) = <T as Config>::XcmRouter::validate(&mut Some(dest), &mut Some(message))?;
			<T as Config>::XcmRouter::deliver(ticket)
		}
	}

	pub fn ensure_response<OuterOrigin>(o: OuterOrigin) -> Result<Location, BadOrigin>
	where
		OuterOrigin: Into<Result<Origin, OuterOrigin>>,
	{
		match o.into() {
			Ok(Origin::Response(location)) => Ok(location),
			_ => Err(BadOrigin),
		}
	}
}
