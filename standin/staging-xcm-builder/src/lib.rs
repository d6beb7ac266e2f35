//! Stand-in: the barriers of staging-xcm-builder with their upstream behaviour, the matcher they and the repository
//! use, and the other builder types as markers.
use core::{cell::Cell, marker::PhantomData, ops::ControlFlow};
use frame_support::{
	ensure,
	traits::{Contains, EnsureOrigin, Get, OriginTrait, ProcessMessageError},
};
use sp_runtime::traits::TryConvert;
use staging_xcm::{
	opaque::VersionedXcm,
	v4::{
		AssetId, Error as XcmError,
		Instruction::{self, *},
		InteriorLocation, Junctions, Location, Weight,
		WeightLimit::*,
	},
	VersionedLocation,
};
use frame_support::weights::WeightToFee;
use staging_xcm_executor::traits::{AssetsInHolding, OnResponse, Properties, ShouldExecute, WeightTrader};

pub trait InspectMessageQueues {
	fn get_messages() -> Vec<(VersionedLocation, Vec<VersionedXcm>)>;
}
pub struct ParentIsPreset<A>(PhantomData<A>);
pub struct SiblingParachainConvertsVia<I, A>(PhantomData<(I, A)>);
pub struct FixedWeightBounds<T, C, M>(PhantomData<(T, C, M)>);
pub struct EnsureXcmOrigin<RuntimeOrigin, Conversion>(PhantomData<(RuntimeOrigin, Conversion)>);
impl<RuntimeOrigin: OriginTrait + Clone, Conversion: TryConvert<RuntimeOrigin, Location>> EnsureOrigin<RuntimeOrigin>
	for EnsureXcmOrigin<RuntimeOrigin, Conversion>
{
	type Success = Location;
	fn try_origin(o: RuntimeOrigin) -> Result<Self::Success, RuntimeOrigin> {
		Conversion::try_convert(o)
	}
	#[cfg(feature = "runtime-benchmarks")]
	fn try_successful_origin() -> Result<RuntimeOrigin, ()> {
		Err(())
	}
}

macro_rules! markers {
	($($n:ident<$($p:ident),*>;)*) => { $(pub struct $n<$($p),*>(PhantomData<($($p,)*)>);)* };
}
markers! {
	AccountId32Aliases<A, B>;
	FungibleAdapter<A, B, C, D, E>;
	FungiblesAdapter<A, B, C, D, E, F>;
	IsConcrete<A>;
	MatchedConvertedConcreteId<A, B, C, D, E>;
	RelayChainAsNative<A, B>;
	SiblingParachainAsNative<A, B>;
	SignedAccountId32AsNative<A, B>;
	SignedToAccountId32<A, B, C>;
	SovereignSignedViaLocation<A, B>;
}
/// Where the revenue of sold weight goes.
pub trait TakeRevenue {
	fn take_revenue(asset: AssetId, amount: u128);
}
impl TakeRevenue for () {
	fn take_revenue(_: AssetId, _: u128) {}
}
/// Sells weight for one asset at so much per second of time and so much per megabyte of proof.
pub struct FixedRateOfFungible<T: Get<(AssetId, u128, u128)>, R: TakeRevenue>(Weight, u128, PhantomData<(T, R)>);
impl<T: Get<(AssetId, u128, u128)>, R: TakeRevenue> FixedRateOfFungible<T, R> {
	fn price(weight: Weight) -> (AssetId, u128) {
		let (id, second, mb) = T::get();
		(id, second * weight.ref_time() as u128 / 1_000_000_000_000 + mb * weight.proof_size() as u128 / (1024 * 1024))
	}
}
impl<T: Get<(AssetId, u128, u128)>, R: TakeRevenue> WeightTrader for FixedRateOfFungible<T, R> {
	fn new() -> Self {
		Self(Weight::zero(), 0, PhantomData)
	}
	fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding) -> Result<AssetsInHolding, XcmError> {
		let (id, amount) = Self::price(weight);
		if amount == 0 {
			return Ok(payment)
		}
		let rest = payment.checked_sub(&id, amount).map_err(|_| XcmError::TooExpensive)?;
		self.0 = self.0.saturating_add(weight);
		self.1 = self.1.saturating_add(amount);
		Ok(rest)
	}
	fn refund_weight(&mut self, weight: Weight) -> Option<(AssetId, u128)> {
		let weight = weight.min(self.0);
		let (id, amount) = Self::price(weight);
		self.0 -= weight;
		self.1 = self.1.saturating_sub(amount);
		(amount > 0).then_some((id, amount))
	}
}
impl<T: Get<(AssetId, u128, u128)>, R: TakeRevenue> Drop for FixedRateOfFungible<T, R> {
	fn drop(&mut self) {
		if self.1 > 0 {
			R::take_revenue(T::get().0, self.1)
		}
	}
}
/// What becomes of the native currency that was paid for weight.
pub trait NativeRevenue {
	fn take(amount: u128);
}
/// Sells weight for the native currency at the price of a weight in an extrinsic.
pub struct UsingComponents<W, L: Get<Location>, A, C, O: NativeRevenue>(Weight, u128, PhantomData<(W, L, A, C, O)>);
impl<W: WeightToFee<Balance = u128>, L: Get<Location>, A, C, O: NativeRevenue> WeightTrader for UsingComponents<W, L, A, C, O> {
	fn new() -> Self {
		Self(Weight::zero(), 0, PhantomData)
	}
	fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding) -> Result<AssetsInHolding, XcmError> {
		let amount = W::weight_to_fee(&weight);
		let rest = payment.checked_sub(&AssetId(L::get()), amount).map_err(|_| XcmError::TooExpensive)?;
		self.0 = self.0.saturating_add(weight);
		self.1 = self.1.saturating_add(amount);
		Ok(rest)
	}
	fn refund_weight(&mut self, weight: Weight) -> Option<(AssetId, u128)> {
		let weight = weight.min(self.0);
		let amount = W::weight_to_fee(&weight);
		self.0 -= weight;
		self.1 = self.1.saturating_sub(amount);
		(amount > 0).then(|| (AssetId(L::get()), amount))
	}
}
impl<W, L: Get<Location>, A, C, O: NativeRevenue> Drop for UsingComponents<W, L, A, C, O> {
	fn drop(&mut self) {
		if self.1 > 0 {
			O::take(self.1)
		}
	}
}
pub struct FrameTransactionalProcessor;
pub struct NoChecking;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MintLocation {
	Local,
	NonLocal,
}

/// Walks along the instructions of a message.
pub trait CreateMatcher {
	type Matcher;
	fn matcher(self) -> Self::Matcher;
}
pub struct Matcher<'a, Call> {
	xcm: &'a mut [Instruction<Call>],
	at: usize,
}
impl<'a, Call> CreateMatcher for &'a mut [Instruction<Call>] {
	type Matcher = Matcher<'a, Call>;
	fn matcher(self) -> Self::Matcher {
		Matcher { xcm: self, at: 0 }
	}
}
pub trait MatchXcm: Sized {
	type Inst;
	fn assert_remaining_insts(self, n: usize) -> Result<Self, ProcessMessageError>;
	fn match_next_inst<F>(self, f: F) -> Result<Self, ProcessMessageError>
	where
		F: FnMut(&mut Self::Inst) -> Result<(), ProcessMessageError>;
	fn match_next_inst_while<C, F>(self, cond: C, f: F) -> Result<Self, ProcessMessageError>
	where
		C: Fn(&Self::Inst) -> bool,
		F: FnMut(&mut Self::Inst) -> Result<ControlFlow<()>, ProcessMessageError>;
	fn skip_inst_while<C>(self, cond: C) -> Result<Self, ProcessMessageError>
	where
		C: Fn(&Self::Inst) -> bool,
	{
		self.match_next_inst_while(cond, |_| Ok(ControlFlow::Continue(())))
	}
}
impl<'a, Call> MatchXcm for Matcher<'a, Call> {
	type Inst = Instruction<Call>;
	fn assert_remaining_insts(self, n: usize) -> Result<Self, ProcessMessageError> {
		if self.xcm.len() - self.at != n {
			return Err(ProcessMessageError::BadFormat)
		}
		Ok(self)
	}
	fn match_next_inst<F>(mut self, mut f: F) -> Result<Self, ProcessMessageError>
	where
		F: FnMut(&mut Self::Inst) -> Result<(), ProcessMessageError>,
	{
		let i = self.xcm.get_mut(self.at).ok_or(ProcessMessageError::BadFormat)?;
		f(i)?;
		self.at += 1;
		Ok(self)
	}
	fn match_next_inst_while<C, F>(mut self, cond: C, mut f: F) -> Result<Self, ProcessMessageError>
	where
		C: Fn(&Self::Inst) -> bool,
		F: FnMut(&mut Self::Inst) -> Result<ControlFlow<()>, ProcessMessageError>,
	{
		if self.at >= self.xcm.len() {
			return Err(ProcessMessageError::BadFormat)
		}
		while self.at < self.xcm.len() && cond(&self.xcm[self.at]) {
			if let ControlFlow::Break(()) = f(&mut self.xcm[self.at])? {
				break
			}
			self.at += 1;
		}
		Ok(self)
	}
}

macro_rules! should {
	([$($g:tt)*] $t:ty, |$o:ident, $i:ident, $m:ident, $p:ident| $b:block) => {
		impl<$($g)*> ShouldExecute for $t {
			fn should_execute<Call>(
				$o: &Location,
				$i: &mut [Instruction<Call>],
				$m: Weight,
				$p: &mut Properties,
			) -> Result<(), ProcessMessageError> $b
		}
	};
}

pub struct TakeWeightCredit;
should!([] TakeWeightCredit, |_o, _i, max_weight, properties| {
	properties.weight_credit =
		properties.weight_credit.checked_sub(&max_weight).ok_or(ProcessMessageError::Overweight(max_weight))?;
	Ok(())
});

const MAX_ASSETS_FOR_BUY_EXECUTION: usize = 2;
pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
should!([T: Contains<Location>] AllowTopLevelPaidExecutionFrom<T>, |origin, instructions, max_weight, _p| {
	ensure!(T::contains(origin), ProcessMessageError::Unsupported);
	let end = instructions.len().min(5);
	instructions[..end]
		.matcher()
		.match_next_inst(|inst| match inst {
			ReceiveTeleportedAsset(ref assets) |
			ReserveAssetDeposited(ref assets) |
			WithdrawAsset(ref assets) |
			ClaimAsset { ref assets, .. } =>
				if assets.len() <= MAX_ASSETS_FOR_BUY_EXECUTION {
					Ok(())
				} else {
					Err(ProcessMessageError::BadFormat)
				},
			_ => Err(ProcessMessageError::BadFormat),
		})?
		.skip_inst_while(|inst| {
			matches!(inst, ClearOrigin | AliasOrigin(..)) ||
				matches!(inst, DescendOrigin(child) if child != &Junctions::Here)
		})?
		.match_next_inst(|inst| match inst {
			BuyExecution { weight_limit: Limited(ref mut weight), .. } if weight.all_gte(max_weight) => {
				*weight = max_weight;
				Ok(())
			},
			BuyExecution { ref mut weight_limit, .. } if weight_limit == &Unlimited => {
				*weight_limit = Limited(max_weight);
				Ok(())
			},
			_ => Err(ProcessMessageError::Overweight(max_weight)),
		})?;
	Ok(())
});

pub struct WithComputedOrigin<InnerBarrier, LocalUniversal, MaxPrefixes>(
	PhantomData<(InnerBarrier, LocalUniversal, MaxPrefixes)>,
);
should!([B: ShouldExecute, L: Get<InteriorLocation>, M: Get<u32>] WithComputedOrigin<B, L, M>, |origin, instructions, max_weight, properties| {
	let mut actual = origin.clone();
	let skipped = Cell::new(0usize);
	instructions.matcher().match_next_inst_while(
		|_| skipped.get() < M::get() as usize,
		|inst| {
			match inst {
				UniversalOrigin(new_global) => {
					actual = Junctions::from([*new_global]).relative_to(&L::get());
				},
				DescendOrigin(j) => {
					let Ok(_) = actual.append_with(j.clone().into_location()) else {
						return Err(ProcessMessageError::Unsupported)
					};
				},
				_ => return Ok(ControlFlow::Break(())),
			};
			skipped.set(skipped.get() + 1);
			Ok(ControlFlow::Continue(()))
		},
	)?;
	B::should_execute(&actual, &mut instructions[skipped.get()..], max_weight, properties)
});

pub struct TrailingSetTopicAsId<InnerBarrier>(PhantomData<InnerBarrier>);
should!([B: ShouldExecute] TrailingSetTopicAsId<B>, |origin, instructions, max_weight, properties| {
	let until = if let Some(SetTopic(t)) = instructions.last() {
		properties.message_id = Some(*t);
		instructions.len() - 1
	} else {
		instructions.len()
	};
	B::should_execute(origin, &mut instructions[..until], max_weight, properties)
});

pub struct AllowExplicitUnpaidExecutionFrom<T>(PhantomData<T>);
should!([T: Contains<Location>] AllowExplicitUnpaidExecutionFrom<T>, |origin, instructions, max_weight, _p| {
	ensure!(T::contains(origin), ProcessMessageError::Unsupported);
	instructions.matcher().match_next_inst(|inst| match inst {
		UnpaidExecution { weight_limit: Limited(m), .. } if m.all_gte(max_weight) => Ok(()),
		UnpaidExecution { weight_limit: Unlimited, .. } => Ok(()),
		_ => Err(ProcessMessageError::Overweight(max_weight)),
	})?;
	Ok(())
});

pub struct AllowSubscriptionsFrom<T>(PhantomData<T>);
should!([T: Contains<Location>] AllowSubscriptionsFrom<T>, |origin, instructions, _m, _p| {
	ensure!(T::contains(origin), ProcessMessageError::Unsupported);
	instructions.matcher().assert_remaining_insts(1)?.match_next_inst(|inst| match inst {
		SubscribeVersion { .. } | UnsubscribeVersion => Ok(()),
		_ => Err(ProcessMessageError::BadFormat),
	})?;
	Ok(())
});

pub struct AllowUnpaidExecutionFrom<T>(PhantomData<T>);
should!([T: Contains<Location>] AllowUnpaidExecutionFrom<T>, |origin, _i, _m, _p| {
	ensure!(T::contains(origin), ProcessMessageError::Unsupported);
	Ok(())
});

pub struct AllowKnownQueryResponses<ResponseHandler>(PhantomData<ResponseHandler>);
should!([R: OnResponse] AllowKnownQueryResponses<R>, |origin, instructions, _m, _p| {
	instructions.matcher().assert_remaining_insts(1)?.match_next_inst(|inst| match inst {
		QueryResponse { query_id, querier, .. } if R::expecting_response(origin, *query_id, querier.as_ref()) => Ok(()),
		_ => Err(ProcessMessageError::BadFormat),
	})?;
	Ok(())
});

pub struct DenyThenTry<Deny, Allow>(PhantomData<(Deny, Allow)>);
should!([D: ShouldExecute, A: ShouldExecute] DenyThenTry<D, A>, |origin, instructions, max_weight, properties| {
	D::should_execute(origin, instructions, max_weight, properties)?;
	A::should_execute(origin, instructions, max_weight, properties)
});

pub struct DenyReserveTransferToRelayChain;
should!([] DenyReserveTransferToRelayChain, |_o, instructions, _m, _p| {
	instructions.matcher().match_next_inst_while(
		|_| true,
		|inst| match inst {
			InitiateReserveWithdraw { reserve: l, .. } |
			DepositReserveAsset { dest: l, .. } |
			TransferReserveAsset { dest: l, .. }
				if *l == Location::parent() =>
				Err(ProcessMessageError::Unsupported),
			_ => Ok(ControlFlow::Continue(())),
		},
	)?;
	Ok(())
});
