//! Stand-in: the executor traits the repository implements or names.
pub mod traits {
	use frame_support::traits::ProcessMessageError;
	use staging_xcm::v4::{AssetId, Error as XcmError, Instruction, Location, Result as XcmResult, Weight, XcmHash};
	pub trait HandleHrmpNewChannelOpenRequest {
		fn handle(sender: u32, max_message_size: u32, max_capacity: u32) -> XcmResult;
	}
	pub trait HandleHrmpChannelAccepted {
		fn handle(recipient: u32) -> XcmResult;
	}
	pub trait HandleHrmpChannelClosing {
		fn handle(initiator: u32, sender: u32, recipient: u32) -> XcmResult;
	}
	pub trait XcmAssetTransfers {
		type IsReserve;
		type IsTeleporter;
		type AssetTransactor;
	}
	/// What a barrier may note about a message.
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct Properties {
		pub weight_credit: Weight,
		pub message_id: Option<XcmHash>,
	}
	/// Decides whether a message may be executed at all.
	pub trait ShouldExecute {
		fn should_execute<Call>(
			origin: &Location,
			instructions: &mut [Instruction<Call>],
			max_weight: Weight,
			properties: &mut Properties,
		) -> Result<(), ProcessMessageError>;
	}
	macro_rules! tuples {
		($($t:ident),*) => {
			impl<$($t: ShouldExecute),*> ShouldExecute for ($($t,)*) {
				fn should_execute<Call>(
					origin: &Location,
					instructions: &mut [Instruction<Call>],
					max_weight: Weight,
					properties: &mut Properties,
				) -> Result<(), ProcessMessageError> {
					let _ = (&origin, &instructions, &max_weight, &properties);
					$(if $t::should_execute(origin, instructions, max_weight, properties).is_ok() {
						return Ok(())
					})*
					Err(ProcessMessageError::Unsupported)
				}
			}
		};
	}
	tuples!();
	tuples!(A);
	tuples!(A, B);
	tuples!(A, B, C);
	tuples!(A, B, C, D);
	tuples!(A, B, C, D, E);
	tuples!(A, B, C, D, E, F);
	tuples!(A, B, C, D, E, F, G);
	tuples!(A, B, C, D, E, F, G, H);

	/// Fungible assets at hand.
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct AssetsInHolding(pub std::collections::BTreeMap<AssetId, u128>);
	impl AssetsInHolding {
		/// Without `amount` of `id`, or nothing if there is less.
		pub fn checked_sub(mut self, id: &AssetId, amount: u128) -> Result<Self, Self> {
			if amount == 0 {
				return Ok(self)
			}
			match self.0.get_mut(id) {
				Some(x) if *x >= amount => {
					*x -= amount;
					if *x == 0 {
						self.0.remove(id);
					}
					Ok(self)
				},
				_ => Err(self),
			}
		}
	}
	/// Sells weight.
	pub trait WeightTrader: Sized {
		fn new() -> Self;
		fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding) -> Result<AssetsInHolding, XcmError>;
		fn refund_weight(&mut self, weight: Weight) -> Option<(AssetId, u128)>;
	}
	macro_rules! traders {
		($($t:ident $n:tt),*) => {
			impl<$($t: WeightTrader),*> WeightTrader for ($($t,)*) {
				fn new() -> Self {
					($($t::new(),)*)
				}
				fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding) -> Result<AssetsInHolding, XcmError> {
					let mut last = XcmError::TooExpensive;
					let mut expensive = false;
					$(match self.$n.buy_weight(weight, payment.clone()) {
						Ok(rest) => return Ok(rest),
						Err(e) => {
							expensive |= e == XcmError::TooExpensive;
							last = e;
						},
					})*
					Err(if expensive { XcmError::TooExpensive } else { last })
				}
				fn refund_weight(&mut self, weight: Weight) -> Option<(AssetId, u128)> {
					$(if let Some(a) = self.$n.refund_weight(weight) {
						return Some(a)
					})*
					None
				}
			}
		};
	}
	traders!(A 0);
	traders!(A 0, B 1);
	traders!(A 0, B 1, C 2);
	traders!(A 0, B 1, C 2, D 3);
	traders!(A 0, B 1, C 2, D 3, E 4);
	traders!(A 0, B 1, C 2, D 3, E 4, F 5);

	/// Which responses are awaited.
	pub trait OnResponse {
		fn expecting_response(origin: &Location, query_id: u64, querier: Option<&Location>) -> bool;
	}
	pub struct JustTry;
	pub trait ConvertLocation<AccountId> {
		fn convert_location(location: &Location) -> Option<AccountId>;
	}
}

pub struct XcmExecutor<Config>(core::marker::PhantomData<Config>);
/// The executor's configuration, as names only: what the repository sets, a harness can read.
pub trait Config {
	type Aliasers;
	type AssetClaims;
	type AssetExchanger;
	type AssetLocker;
	type AssetTransactor;
	type AssetTrap;
	type Barrier: traits::ShouldExecute;
	type CallDispatcher;
	type FeeManager;
	type HrmpChannelAcceptedHandler;
	type HrmpChannelClosingHandler;
	type HrmpNewChannelOpenRequestHandler;
	type IsReserve;
	type IsTeleporter;
	type MaxAssetsIntoHolding;
	type MessageExporter;
	type OriginConverter;
	type PalletInstancesInfo;
	type ResponseHandler;
	type RuntimeCall;
	type SafeCallFilter;
	type SubscriptionService;
	type Trader: traits::WeightTrader;
	type TransactionalProcessor;
	type UniversalAliases;
	type UniversalLocation;
	type Weigher;
	type XcmRecorder;
	type XcmSender;
}
