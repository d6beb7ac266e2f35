//! Stand-in for `pallet-assets`: several fungible assets with minimum balances, sufficiency (an asset may keep an
//! account alive on its own, or needs a consumer reference on an account that exists otherwise), account deposits,
//! metadata, teams; behind the `fungibles` traits.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;

use frame_support::{
	pallet_prelude::*,
	traits::{
		fungibles,
		tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
		AccountTouch, ContainsPair, Currency, ReservableCurrency,
	},
};
use sp_runtime::{
	traits::{CheckedAdd, CheckedSub, Saturating, Zero},
	ArithmeticError, TokenError,
};
extern crate alloc;
use alloc::vec::Vec;

pub type DepositBalanceOf<T, I = ()> =
	<<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;

#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub enum AssetStatus {
	Live,
	Frozen,
	Destroying,
}

#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct AssetDetails<Balance, AccountId, DepositBalance> {
	pub owner: AccountId,
	pub issuer: AccountId,
	pub admin: AccountId,
	pub freezer: AccountId,
	pub supply: Balance,
	pub deposit: DepositBalance,
	pub min_balance: Balance,
	pub is_sufficient: bool,
	pub accounts: u32,
	pub sufficients: u32,
	pub approvals: u32,
	pub status: AssetStatus,
}

/// Why the account exists
#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub enum ExistenceReason<Balance, AccountId> {
	Consumer,
	Sufficient,
	DepositHeld(Balance),
	DepositRefunded,
	DepositFrom(AccountId, Balance),
}

#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
pub struct AssetAccount<Balance, DepositBalance, AccountId> {
	pub balance: Balance,
	pub reason: ExistenceReason<DepositBalance, AccountId>,
}

#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, Default, MaxEncodedLen, TypeInfo)]
pub struct AssetMetadata<DepositBalance, BoundedString> {
	pub deposit: DepositBalance,
	pub name: BoundedString,
	pub symbol: BoundedString,
	pub decimals: u8,
	pub is_frozen: bool,
}

/// Amounts of an asset that something else keeps frozen
pub trait FrozenBalance<AssetId, AccountId, Balance> {
	fn frozen_balance(asset: AssetId, who: &AccountId) -> Option<Balance>;
	fn died(asset: AssetId, who: &AccountId);
}
impl<AssetId, AccountId, Balance> FrozenBalance<AssetId, AccountId, Balance> for () {
	fn frozen_balance(_: AssetId, _: &AccountId) -> Option<Balance> {
		None
	}
	fn died(_: AssetId, _: &AccountId) {}
}

pub trait AssetsCallback<AssetId, AccountId> {
	fn created(_id: &AssetId, _owner: &AccountId) -> Result<(), ()> {
		Ok(())
	}
	fn destroyed(_id: &AssetId) -> Result<(), ()> {
		Ok(())
	}
}
impl<AssetId, AccountId> AssetsCallback<AssetId, AccountId> for () {}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::traits::EnsureOriginWithArg;
	use frame_system::pallet_prelude::*;

	pub mod config_preludes {
		use super::*;
		use frame_support::{derive_impl, traits::ConstU64};
		pub struct TestDefaultConfig;
		#[derive_impl(frame_system::config_preludes::TestDefaultConfig, no_aggregated_types)]
		impl frame_system::DefaultConfig for TestDefaultConfig {}
		#[frame_support::register_default_impl(TestDefaultConfig)]
		impl DefaultConfig for TestDefaultConfig {
			#[inject_runtime_type]
			type RuntimeEvent = ();
			type Balance = u64;
			type RemoveItemsLimit = ConstU32<5>;
			type AssetId = u32;
			type AssetIdParameter = u32;
			type AssetDeposit = ConstU64<1>;
			type AssetAccountDeposit = ConstU64<10>;
			type MetadataDepositBase = ConstU64<1>;
			type MetadataDepositPerByte = ConstU64<1>;
			type ApprovalDeposit = ConstU64<1>;
			type StringLimit = ConstU32<50>;
			type Extra = ();
			type CallbackHandle = ();
			type WeightInfo = ();
			#[cfg(feature = "runtime-benchmarks")]
			type BenchmarkHelper = ();
		}
	}

	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(_);

	#[pallet::config(with_default)]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		#[pallet::no_default_bounds]
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: frame_support::traits::tokens::Balance;
		#[pallet::constant]
		type RemoveItemsLimit: Get<u32>;
		type AssetId: Member + Parameter + Clone + MaybeSerializeDeserialize + MaxEncodedLen;
		type AssetIdParameter: Parameter + From<Self::AssetId> + Into<Self::AssetId> + MaxEncodedLen;
		#[pallet::no_default]
		type Currency: ReservableCurrency<Self::AccountId>;
		#[pallet::no_default]
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::AssetId, Success = Self::AccountId>;
		#[pallet::no_default]
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		#[pallet::constant]
		#[pallet::no_default_bounds]
		type AssetDeposit: Get<DepositBalanceOf<Self, I>>;
		#[pallet::constant]
		#[pallet::no_default_bounds]
		type AssetAccountDeposit: Get<DepositBalanceOf<Self, I>>;
		#[pallet::constant]
		#[pallet::no_default_bounds]
		type MetadataDepositBase: Get<DepositBalanceOf<Self, I>>;
		#[pallet::constant]
		#[pallet::no_default_bounds]
		type MetadataDepositPerByte: Get<DepositBalanceOf<Self, I>>;
		#[pallet::constant]
		#[pallet::no_default_bounds]
		type ApprovalDeposit: Get<DepositBalanceOf<Self, I>>;
		#[pallet::constant]
		type StringLimit: Get<u32>;
		#[pallet::no_default]
		type Freezer: FrozenBalance<Self::AssetId, Self::AccountId, Self::Balance>;
		type Extra: Member + Parameter + Default + MaxEncodedLen;
		type CallbackHandle: AssetsCallback<Self::AssetId, Self::AccountId>;
		type WeightInfo;
		#[cfg(feature = "runtime-benchmarks")]
		type BenchmarkHelper;
	}

	pub(super) type DetailsOf<T, I> =
		AssetDetails<<T as Config<I>>::Balance, <T as frame_system::Config>::AccountId, DepositBalanceOf<T, I>>;
	pub(super) type AccountOf<T, I> =
		AssetAccount<<T as Config<I>>::Balance, DepositBalanceOf<T, I>, <T as frame_system::Config>::AccountId>;
	pub(super) type MetadataOf<T, I> =
		AssetMetadata<DepositBalanceOf<T, I>, BoundedVec<u8, <T as Config<I>>::StringLimit>>;

	#[pallet::storage]
	pub type Asset<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, T::AssetId, DetailsOf<T, I>>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, T::AssetId, Blake2_128Concat, T::AccountId, AccountOf<T, I>>;
	#[pallet::storage]
	pub type Metadata<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, T::AssetId, MetadataOf<T, I>, ValueQuery>;

	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		/// id, owner, is_sufficient, min_balance
		pub assets: Vec<(T::AssetId, T::AccountId, bool, T::Balance)>,
		/// id, name, symbol, decimals
		pub metadata: Vec<(T::AssetId, Vec<u8>, Vec<u8>, u8)>,
		/// id, account, balance
		pub accounts: Vec<(T::AssetId, T::AccountId, T::Balance)>,
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			for (id, owner, is_sufficient, min_balance) in &self.assets {
				assert!(!Asset::<T, I>::contains_key(id), "Asset id already in use");
				assert!(!min_balance.is_zero(), "Min balance should not be zero");
				Asset::<T, I>::insert(
					id,
					AssetDetails {
						owner: owner.clone(),
						issuer: owner.clone(),
						admin: owner.clone(),
						freezer: owner.clone(),
						supply: Zero::zero(),
						deposit: Zero::zero(),
						min_balance: *min_balance,
						is_sufficient: *is_sufficient,
						accounts: 0,
						sufficients: 0,
						approvals: 0,
						status: AssetStatus::Live,
					},
				);
			}
			for (id, name, symbol, decimals) in &self.metadata {
				assert!(Asset::<T, I>::contains_key(id), "Asset does not exist");
				Metadata::<T, I>::insert(
					id,
					AssetMetadata {
						deposit: Zero::zero(),
						name: name.clone().try_into().expect("asset name is too long"),
						symbol: symbol.clone().try_into().expect("asset symbol is too long"),
						decimals: *decimals,
						is_frozen: false,
					},
				);
			}
			for (id, who, amount) in &self.accounts {
				Pallet::<T, I>::increase(id.clone(), who, *amount, true).expect("genesis account");
			}
		}
	}

	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Created { asset_id: T::AssetId, creator: T::AccountId, owner: T::AccountId },
		Issued { asset_id: T::AssetId, owner: T::AccountId, amount: T::Balance },
		Transferred { asset_id: T::AssetId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Burned { asset_id: T::AssetId, owner: T::AccountId, balance: T::Balance },
		ForceCreated { asset_id: T::AssetId, owner: T::AccountId },
		DestructionStarted { asset_id: T::AssetId },
		AccountsDestroyed { asset_id: T::AssetId, accounts_destroyed: u32, accounts_remaining: u32 },
		Destroyed { asset_id: T::AssetId },
		MetadataSet { asset_id: T::AssetId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool },
		Touched { asset_id: T::AssetId, who: T::AccountId, depositor: T::AccountId },
	}

	#[pallet::error]
	pub enum Error<T, I = ()> {
		BalanceLow,
		NoAccount,
		NoPermission,
		Unknown,
		Frozen,
		InUse,
		BadWitness,
		MinBalanceZero,
		UnavailableConsumer,
		BadMetadata,
		Unapproved,
		WouldDie,
		AlreadyExists,
		NoDeposit,
		WouldBurn,
		LiveAsset,
		AssetNotLive,
		IncorrectStatus,
		NotFrozen,
		CallbackFailed,
	}

	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::zero())]
		pub fn force_create(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			owner: T::AccountId,
			is_sufficient: bool,
			#[pallet::compact] min_balance: T::Balance,
		) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?;
			Self::do_force_create(id.into(), owner, is_sufficient, min_balance)
		}

		#[pallet::call_index(8)]
		#[pallet::weight(Weight::zero())]
		pub fn transfer(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			target: T::AccountId,
			#[pallet::compact] amount: T::Balance,
		) -> DispatchResult {
			let from = ensure_signed(origin)?;
			<Self as fungibles::Mutate<_>>::transfer(id.into(), &from, &target, amount, Preservation::Expendable)
				.map(|_| ())
		}

		#[pallet::call_index(9)]
		#[pallet::weight(Weight::zero())]
		pub fn transfer_keep_alive(
			origin: OriginFor<T>,
			id: T::AssetIdParameter,
			target: T::AccountId,
			#[pallet::compact] amount: T::Balance,
		) -> DispatchResult {
			let from = ensure_signed(origin)?;
			<Self as fungibles::Mutate<_>>::transfer(id.into(), &from, &target, amount, Preservation::Protect)
				.map(|_| ())
		}
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn do_force_create(
		id: T::AssetId,
		owner: T::AccountId,
		is_sufficient: bool,
		min_balance: T::Balance,
	) -> DispatchResult {
		ensure!(!Asset::<T, I>::contains_key(&id), Error::<T, I>::InUse);
		ensure!(!min_balance.is_zero(), Error::<T, I>::MinBalanceZero);
		Asset::<T, I>::insert(
			&id,
			AssetDetails {
				owner: owner.clone(),
				issuer: owner.clone(),
				admin: owner.clone(),
				freezer: owner.clone(),
				supply: Zero::zero(),
				deposit: Zero::zero(),
				min_balance,
				is_sufficient,
				accounts: 0,
				sufficients: 0,
				approvals: 0,
				status: AssetStatus::Live,
			},
		);
		ensure!(T::CallbackHandle::created(&id, &owner).is_ok(), Error::<T, I>::CallbackFailed);
		Self::deposit_event(Event::ForceCreated { asset_id: id, owner });
		Ok(())
	}

	fn new_account(
		who: &T::AccountId,
		d: &mut DetailsOf<T, I>,
		maybe_deposit: Option<(&T::AccountId, DepositBalanceOf<T, I>)>,
	) -> Result<ExistenceReason<DepositBalanceOf<T, I>, T::AccountId>, DispatchError> {
		let accounts = d.accounts.checked_add(1).ok_or(ArithmeticError::Overflow)?;
		let reason = if let Some((depositor, deposit)) = maybe_deposit {
			if depositor == who {
				ExistenceReason::DepositHeld(deposit)
			} else {
				ExistenceReason::DepositFrom(depositor.clone(), deposit)
			}
		} else if d.is_sufficient {
			frame_system::Pallet::<T>::inc_sufficients(who);
			d.sufficients.saturating_inc();
			ExistenceReason::Sufficient
		} else {
			ensure!(frame_system::Pallet::<T>::can_accrue_consumers(who, 2), Error::<T, I>::UnavailableConsumer);
			frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T, I>::UnavailableConsumer)?;
			ExistenceReason::Consumer
		};
		d.accounts = accounts;
		Ok(reason)
	}

	/// true if the account is gone
	fn dead_account(
		who: &T::AccountId,
		d: &mut DetailsOf<T, I>,
		reason: &ExistenceReason<DepositBalanceOf<T, I>, T::AccountId>,
		force: bool,
	) -> bool {
		match reason {
			ExistenceReason::Consumer => frame_system::Pallet::<T>::dec_consumers(who),
			ExistenceReason::Sufficient => {
				d.sufficients = d.sufficients.saturating_sub(1);
				frame_system::Pallet::<T>::dec_sufficients(who);
			},
			ExistenceReason::DepositRefunded => {},
			ExistenceReason::DepositHeld(_) | ExistenceReason::DepositFrom(..) if !force => return false,
			ExistenceReason::DepositHeld(_) | ExistenceReason::DepositFrom(..) => {},
		}
		d.accounts = d.accounts.saturating_sub(1);
		true
	}

	fn can_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance, supply: bool) -> DepositConsequence {
		let Some(details) = Asset::<T, I>::get(&id) else { return DepositConsequence::UnknownAsset };
		if supply && details.supply.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		if let Some(a) = Account::<T, I>::get(&id, who) {
			if a.balance.checked_add(&amount).is_none() {
				return DepositConsequence::Overflow;
			}
		} else {
			if amount < details.min_balance {
				return DepositConsequence::BelowMinimum;
			}
			if !details.is_sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
				return DepositConsequence::CannotCreate;
			}
			if details.is_sufficient && details.sufficients.checked_add(1).is_none() {
				return DepositConsequence::Overflow;
			}
		}
		DepositConsequence::Success
	}

	fn can_decrease(
		id: T::AssetId,
		who: &T::AccountId,
		amount: T::Balance,
		keep_alive: bool,
	) -> WithdrawConsequence<T::Balance> {
		use WithdrawConsequence::*;
		let Some(details) = Asset::<T, I>::get(&id) else { return UnknownAsset };
		if details.supply.checked_sub(&amount).is_none() {
			return Underflow;
		}
		if details.status != AssetStatus::Live {
			return Frozen;
		}
		if amount.is_zero() {
			return Success;
		}
		let Some(account) = Account::<T, I>::get(&id, who) else { return BalanceLow };
		let Some(rest) = account.balance.checked_sub(&amount) else { return BalanceLow };
		if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			let required = frozen.saturating_add(details.min_balance);
			if rest < required {
				return Frozen;
			}
		}
		if rest < details.min_balance {
			if keep_alive {
				WouldDie
			} else {
				ReducedToZero(rest)
			}
		} else {
			Success
		}
	}

	fn reducible(id: T::AssetId, who: &T::AccountId, keep_alive: bool) -> Result<T::Balance, DispatchError> {
		let details = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(details.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		let account = Account::<T, I>::get(&id, who).ok_or(Error::<T, I>::NoAccount)?;
		Ok(if let Some(frozen) = T::Freezer::frozen_balance(id, who) {
			account.balance.saturating_sub(frozen.saturating_add(details.min_balance))
		} else if keep_alive {
			account.balance.saturating_sub(details.min_balance)
		} else {
			account.balance
		})
	}

	pub(crate) fn increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance, supply: bool) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		Self::can_increase(id.clone(), who, amount, supply).into_result()?;
		Asset::<T, I>::try_mutate(&id, |maybe| -> DispatchResult {
			let details = maybe.as_mut().ok_or(Error::<T, I>::Unknown)?;
			Account::<T, I>::try_mutate(&id, who, |account| -> DispatchResult {
				match account {
					Some(a) => a.balance.saturating_accrue(amount),
					None => {
						ensure!(amount >= details.min_balance, TokenError::BelowMinimum);
						*account =
							Some(AssetAccount { balance: amount, reason: Self::new_account(who, details, None)? });
					},
				}
				Ok(())
			})?;
			if supply {
				details.supply = details.supply.saturating_add(amount);
			}
			Ok(())
		})
	}

	/// Take `amount`, and what would be left below the minimum balance, away from `who`.
	fn decrease(
		id: T::AssetId,
		who: &T::AccountId,
		amount: T::Balance,
		keep_alive: bool,
		exact: bool,
		supply: bool,
	) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() {
			return Ok(amount);
		}
		let reducible = Self::reducible(id.clone(), who, keep_alive)?;
		let actual = if exact {
			ensure!(reducible >= amount, Error::<T, I>::BalanceLow);
			amount
		} else {
			amount.min(reducible)
		};
		let actual = match Self::can_decrease(id.clone(), who, actual, keep_alive) {
			WithdrawConsequence::ReducedToZero(dust) => actual.saturating_add(dust),
			c => c.into_result(keep_alive).map(|_| actual)?,
		};
		Asset::<T, I>::try_mutate(&id, |maybe| -> DispatchResult {
			let details = maybe.as_mut().ok_or(Error::<T, I>::Unknown)?;
			Account::<T, I>::try_mutate(&id, who, |slot| -> DispatchResult {
				let mut a = slot.take().ok_or(Error::<T, I>::NoAccount)?;
				a.balance = a.balance.checked_sub(&actual).ok_or(Error::<T, I>::BalanceLow)?;
				if a.balance < details.min_balance {
					if Self::dead_account(who, details, &a.reason, false) {
						T::Freezer::died(id.clone(), who);
						return Ok(());
					}
				}
				*slot = Some(a);
				Ok(())
			})?;
			if supply {
				details.supply = details.supply.saturating_sub(actual);
			}
			Ok(())
		})?;
		Ok(actual)
	}

	pub fn do_mint(id: T::AssetId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		Self::increase(id.clone(), who, amount, true)?;
		Self::deposit_event(Event::Issued { asset_id: id, owner: who.clone(), amount });
		Ok(())
	}

	fn do_touch(id: T::AssetId, who: T::AccountId, depositor: T::AccountId) -> DispatchResult {
		ensure!(!Account::<T, I>::contains_key(&id, &who), Error::<T, I>::AlreadyExists);
		let deposit = T::AssetAccountDeposit::get();
		let mut details = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(details.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		let reason = Self::new_account(&who, &mut details, Some((&depositor, deposit)))?;
		T::Currency::reserve(&depositor, deposit)?;
		Asset::<T, I>::insert(&id, details);
		Account::<T, I>::insert(&id, &who, AssetAccount { balance: Zero::zero(), reason });
		Self::deposit_event(Event::Touched { asset_id: id, who, depositor });
		Ok(())
	}
}

// ---------------------------------------------------------------- the traits

impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn total_issuance(asset: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(asset).map(|x| x.supply).unwrap_or_else(Zero::zero)
	}
	fn minimum_balance(asset: T::AssetId) -> T::Balance {
		Asset::<T, I>::get(asset).map(|x| x.min_balance).unwrap_or_else(Zero::zero)
	}
	fn total_balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Self::balance(asset, who)
	}
	fn balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Account::<T, I>::get(asset, who).map(|a| a.balance).unwrap_or_else(Zero::zero)
	}
	fn reducible_balance(asset: T::AssetId, who: &T::AccountId, p: Preservation, _: Fortitude) -> T::Balance {
		Self::reducible(asset, who, !matches!(p, Preservation::Expendable)).unwrap_or(Zero::zero())
	}
	fn can_deposit(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
		Self::can_increase(asset, who, amount, p == Provenance::Minted)
	}
	fn can_withdraw(asset: T::AssetId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		Self::can_decrease(asset, who, amount, false)
	}
	fn asset_exists(asset: T::AssetId) -> bool {
		Asset::<T, I>::contains_key(asset)
	}
}

impl<T: Config<I>, I: 'static> fungibles::Unbalanced<T::AccountId> for Pallet<T, I> {
	fn handle_raw_dust(_: T::AssetId, _: T::Balance) {}
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {}
	fn write_balance(_: T::AssetId, _: &T::AccountId, _: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		unreachable!("not used: the balance operations below are overridden")
	}
	fn set_total_issuance(id: T::AssetId, amount: T::Balance) {
		Asset::<T, I>::mutate_exists(id, |m| {
			if let Some(d) = m.as_mut() {
				d.supply = amount
			}
		});
	}
	fn decrease_balance(
		asset: T::AssetId,
		who: &T::AccountId,
		amount: T::Balance,
		precision: frame_support::traits::tokens::Precision,
		preservation: Preservation,
		_: Fortitude,
	) -> Result<T::Balance, DispatchError> {
		let exact = matches!(precision, frame_support::traits::tokens::Precision::Exact);
		Self::decrease(asset, who, amount, preservation != Preservation::Expendable, exact, false)
	}
	fn increase_balance(
		asset: T::AssetId,
		who: &T::AccountId,
		amount: T::Balance,
		_: frame_support::traits::tokens::Precision,
	) -> Result<T::Balance, DispatchError> {
		Self::increase(asset, who, amount, false)?;
		Ok(amount)
	}
}

impl<T: Config<I>, I: 'static> fungibles::Mutate<T::AccountId> for Pallet<T, I> {
	fn done_mint_into(asset_id: T::AssetId, who: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Issued { asset_id, owner: who.clone(), amount })
	}
	fn done_burn_from(asset_id: T::AssetId, who: &T::AccountId, balance: T::Balance) {
		Self::deposit_event(Event::Burned { asset_id, owner: who.clone(), balance })
	}
	fn done_transfer(asset_id: T::AssetId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance) {
		Self::deposit_event(Event::Transferred { asset_id, from: from.clone(), to: to.clone(), amount })
	}
}

impl<T: Config<I>, I: 'static> fungibles::Balanced<T::AccountId> for Pallet<T, I> {
	type OnDropCredit = fungibles::DecreaseIssuance<T::AccountId, Self>;
	type OnDropDebt = fungibles::IncreaseIssuance<T::AccountId, Self>;
}

impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
	fn create(id: T::AssetId, admin: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
		Self::do_force_create(id, admin, is_sufficient, min_balance)
	}
}

impl<T: Config<I>, I: 'static> fungibles::Destroy<T::AccountId> for Pallet<T, I> {
	fn start_destroy(id: T::AssetId, owner: Option<T::AccountId>) -> DispatchResult {
		Asset::<T, I>::try_mutate_exists(&id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T, I>::Unknown)?;
			if let Some(o) = owner {
				ensure!(d.owner == o, Error::<T, I>::NoPermission);
			}
			d.status = AssetStatus::Destroying;
			Ok(())
		})?;
		Self::deposit_event(Event::DestructionStarted { asset_id: id });
		Ok(())
	}
	fn destroy_accounts(id: T::AssetId, max_items: u32) -> Result<u32, DispatchError> {
		let mut n = 0;
		Asset::<T, I>::try_mutate_exists(&id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T, I>::Unknown)?;
			ensure!(d.status == AssetStatus::Destroying, Error::<T, I>::IncorrectStatus);
			for (who, a) in Account::<T, I>::iter_prefix(&id).take(max_items as usize).collect::<Vec<_>>() {
				match &a.reason {
					ExistenceReason::DepositHeld(v) => {
						T::Currency::unreserve(&who, *v);
					},
					ExistenceReason::DepositFrom(f, v) => {
						T::Currency::unreserve(f, *v);
					},
					_ => {},
				}
				Account::<T, I>::remove(&id, &who);
				Self::dead_account(&who, d, &a.reason, true);
				d.supply = d.supply.saturating_sub(a.balance);
				n += 1;
			}
			Ok(())
		})?;
		Ok(n)
	}
	fn destroy_approvals(_: T::AssetId, _: u32) -> Result<u32, DispatchError> {
		Ok(0)
	}
	fn finish_destroy(id: T::AssetId) -> DispatchResult {
		Asset::<T, I>::try_mutate_exists(&id, |m| -> DispatchResult {
			let d = m.take().ok_or(Error::<T, I>::Unknown)?;
			ensure!(d.status == AssetStatus::Destroying, Error::<T, I>::IncorrectStatus);
			ensure!(d.accounts == 0, Error::<T, I>::InUse);
			ensure!(T::CallbackHandle::destroyed(&id).is_ok(), Error::<T, I>::CallbackFailed);
			T::Currency::unreserve(&d.owner, d.deposit.saturating_add(Metadata::<T, I>::take(&id).deposit));
			Self::deposit_event(Event::Destroyed { asset_id: id.clone() });
			Ok(())
		})
	}
}

impl<T: Config<I>, I: 'static> fungibles::metadata::Inspect<T::AccountId> for Pallet<T, I> {
	fn name(asset: T::AssetId) -> Vec<u8> {
		Metadata::<T, I>::get(asset).name.to_vec()
	}
	fn symbol(asset: T::AssetId) -> Vec<u8> {
		Metadata::<T, I>::get(asset).symbol.to_vec()
	}
	fn decimals(asset: T::AssetId) -> u8 {
		Metadata::<T, I>::get(asset).decimals
	}
}

impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn balance(id: T::AssetId, who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungibles::Inspect<T::AccountId>>::balance(id, who.borrow())
	}
	pub fn calc_metadata_deposit(name: &[u8], symbol: &[u8]) -> DepositBalanceOf<T, I> {
		let bytes = (name.len() + symbol.len()) as u32;
		T::MetadataDepositPerByte::get().saturating_mul(bytes.into()).saturating_add(T::MetadataDepositBase::get())
	}
}

impl<T: Config<I>, I: 'static> fungibles::metadata::Mutate<T::AccountId> for Pallet<T, I> {
	fn set(id: T::AssetId, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		let bname: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T, I>::BadMetadata)?;
		let bsymbol: BoundedVec<u8, T::StringLimit> =
			symbol.clone().try_into().map_err(|_| Error::<T, I>::BadMetadata)?;
		let d = Asset::<T, I>::get(&id).ok_or(Error::<T, I>::Unknown)?;
		ensure!(d.status == AssetStatus::Live, Error::<T, I>::AssetNotLive);
		ensure!(from == &d.owner, Error::<T, I>::NoPermission);
		Metadata::<T, I>::try_mutate_exists(&id, |m| -> DispatchResult {
			ensure!(m.as_ref().map_or(true, |m| !m.is_frozen), Error::<T, I>::NoPermission);
			let old = m.take().map_or(Zero::zero(), |m| m.deposit);
			let new = Self::calc_metadata_deposit(&name, &symbol);
			if new > old {
				T::Currency::reserve(from, new - old)?;
			} else {
				T::Currency::unreserve(from, old - new);
			}
			*m = Some(AssetMetadata { deposit: new, name: bname, symbol: bsymbol, decimals, is_frozen: false });
			Self::deposit_event(Event::MetadataSet { asset_id: id.clone(), name, symbol, decimals, is_frozen: false });
			Ok(())
		})
	}
}

impl<T: Config<I>, I: 'static> fungibles::metadata::MetadataDeposit<DepositBalanceOf<T, I>> for Pallet<T, I> {
	fn calc_metadata_deposit(name: &[u8], symbol: &[u8]) -> DepositBalanceOf<T, I> {
		Self::calc_metadata_deposit(name, symbol)
	}
}

impl<T: Config<I>, I: 'static> fungibles::roles::Inspect<T::AccountId> for Pallet<T, I> {
	fn owner(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|x| x.owner)
	}
	fn issuer(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|x| x.issuer)
	}
	fn admin(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|x| x.admin)
	}
	fn freezer(asset: T::AssetId) -> Option<T::AccountId> {
		Asset::<T, I>::get(asset).map(|x| x.freezer)
	}
}

impl<T: Config<I>, I: 'static> fungibles::InspectEnumerable<T::AccountId> for Pallet<T, I> {
	type AssetsIterator = frame_support::storage::KeyPrefixIterator<T::AssetId>;
	fn asset_ids() -> Self::AssetsIterator {
		Asset::<T, I>::iter_keys()
	}
}

impl<T: Config<I>, I: 'static> AccountTouch<T::AssetId, T::AccountId> for Pallet<T, I> {
	type Balance = DepositBalanceOf<T, I>;
	fn deposit_required(_: T::AssetId) -> Self::Balance {
		T::AssetAccountDeposit::get()
	}
	fn should_touch(asset: T::AssetId, who: &T::AccountId) -> bool {
		match Asset::<T, I>::get(&asset) {
			// not sufficient, does not exist, and a consumer reference cannot be had: touching is needed
			Some(d) if d.is_sufficient => false,
			Some(_) if frame_system::Pallet::<T>::can_accrue_consumers(who, 2) => false,
			Some(_) => !Account::<T, I>::contains_key(asset, who),
			_ => true,
		}
	}
	fn touch(asset: T::AssetId, who: &T::AccountId, depositor: &T::AccountId) -> DispatchResult {
		Self::do_touch(asset, who.clone(), depositor.clone())
	}
}

impl<T: Config<I>, I: 'static> ContainsPair<T::AssetId, T::AccountId> for Pallet<T, I> {
	fn contains(asset: &T::AssetId, who: &T::AccountId) -> bool {
		Account::<T, I>::contains_key(asset, who)
	}
}
