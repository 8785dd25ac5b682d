//! Stand-in for pallet-assets: assets, accounts, metadata and the `fungibles` traits, with the rules of
//! the real pallet for minimum balances, account reasons, dust and deposits. One call, no approvals or
//! freezing.
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use frame_system::pallet_prelude::OriginFor;
	use frame_support::{
		pallet_prelude::*,
		storage::KeyPrefixIterator,
		traits::{
			fungibles,
			tokens::{
				DepositConsequence, Fortitude, Precision,
				Preservation::{self, Expendable},
				Provenance, WithdrawConsequence,
			},
			AccountTouch, ContainsPair, Currency, ReservableCurrency,
		},
	};
	use sp_runtime::traits::{CheckedAdd, CheckedSub, Saturating, Zero};
	use sp_std::vec::Vec;

	pub type DepositOf<T, I> =
		<<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;

	#[derive(Clone, Encode, Decode, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
	pub struct AssetDetails<Balance, AccountId> {
		pub owner: AccountId,
		pub issuer: AccountId,
		pub admin: AccountId,
		pub freezer: AccountId,
		pub supply: Balance,
		pub min_balance: Balance,
		pub is_sufficient: bool,
		pub accounts: u32,
		pub sufficients: u32,
		pub live: bool,
	}
	#[derive(Clone, Encode, Decode, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
	pub enum ExistenceReason<Balance, AccountId> {
		Consumer,
		Sufficient,
		DepositHeld(Balance),
		DepositFrom(AccountId, Balance),
	}
	#[derive(Clone, Encode, Decode, PartialEq, Eq, RuntimeDebug, MaxEncodedLen, TypeInfo)]
	pub struct AssetAccount<Balance, Deposit, AccountId> {
		pub balance: Balance,
		pub reason: ExistenceReason<Deposit, AccountId>,
	}

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type Balance: frame_support::traits::tokens::Balance;
		type AssetId: Member + Parameter + Clone + MaybeSerializeDeserialize + MaxEncodedLen;
		type Currency: ReservableCurrency<Self::AccountId>;
		type AssetAccountDeposit: Get<DepositOf<Self, I>>;
	}

	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T, I = ()>(_);

	#[pallet::storage]
	pub type Asset<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, T::AssetId, AssetDetails<T::Balance, T::AccountId>>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> = StorageDoubleMap<
		_,
		Blake2_128Concat,
		T::AssetId,
		Blake2_128Concat,
		T::AccountId,
		AssetAccount<T::Balance, DepositOf<T, I>, T::AccountId>,
	>;
	#[pallet::storage]
	pub type Metadata<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, T::AssetId, (Vec<u8>, Vec<u8>, u8), ValueQuery>;

	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		/// id, owner, is_sufficient, min_balance
		pub assets: Vec<(T::AssetId, T::AccountId, bool, T::Balance)>,
		pub metadata: Vec<(T::AssetId, Vec<u8>, Vec<u8>, u8)>,
		pub accounts: Vec<(T::AssetId, T::AccountId, T::Balance)>,
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			for (id, owner, sufficient, min) in &self.assets {
				Pallet::<T, I>::do_create(id.clone(), owner.clone(), *sufficient, *min).expect("asset");
			}
			for (id, name, symbol, decimals) in &self.metadata {
				Metadata::<T, I>::insert(id, (name.clone(), symbol.clone(), *decimals));
			}
			for (id, who, amount) in &self.accounts {
				<Pallet<T, I> as fungibles::Mutate<_>>::mint_into(id.clone(), who, *amount).expect("mint");
			}
		}
	}

	#[pallet::error]
	pub enum Error<T, I = ()> {
		BalanceLow,
		NoAccount,
		NoPermission,
		Unknown,
		InUse,
		MinBalanceZero,
		UnavailableConsumer,
		AlreadyExists,
		AssetNotLive,
	}

	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::zero())]
		pub fn transfer(
			origin: OriginFor<T>,
			id: T::AssetId,
			target: T::AccountId,
			amount: T::Balance,
		) -> DispatchResult {
			let who = frame_system::ensure_signed(origin)?;
			<Self as fungibles::Mutate<_>>::transfer(id, &who, &target, amount, Expendable)?;
			Ok(())
		}
	}

	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		fn do_create(id: T::AssetId, owner: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
			ensure!(!Asset::<T, I>::contains_key(&id), Error::<T, I>::InUse);
			ensure!(!min_balance.is_zero(), Error::<T, I>::MinBalanceZero);
			Asset::<T, I>::insert(
				&id,
				AssetDetails {
					owner: owner.clone(),
					issuer: owner.clone(),
					admin: owner.clone(),
					freezer: owner,
					supply: Zero::zero(),
					min_balance,
					is_sufficient,
					accounts: 0,
					sufficients: 0,
					live: true,
				},
			);
			Ok(())
		}

		fn new_account(
			who: &T::AccountId,
			d: &mut AssetDetails<T::Balance, T::AccountId>,
			deposit: Option<(&T::AccountId, DepositOf<T, I>)>,
		) -> Result<ExistenceReason<DepositOf<T, I>, T::AccountId>, DispatchError> {
			let accounts = d.accounts.checked_add(1).ok_or(sp_runtime::ArithmeticError::Overflow)?;
			let reason = if let Some((depositor, deposit)) = deposit {
				if depositor == who {
					ExistenceReason::DepositHeld(deposit)
				} else {
					ExistenceReason::DepositFrom(depositor.clone(), deposit)
				}
			} else if d.is_sufficient {
				frame_system::Pallet::<T>::inc_sufficients(who);
				d.sufficients.saturating_inc();
				ExistenceReason::Sufficient
			} else {
				frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T, I>::UnavailableConsumer)?;
				if !frame_system::Pallet::<T>::can_inc_consumer(who) {
					frame_system::Pallet::<T>::dec_consumers(who);
					return Err(Error::<T, I>::UnavailableConsumer.into());
				}
				ExistenceReason::Consumer
			};
			d.accounts = accounts;
			Ok(reason)
		}

		fn can_increase(id: &T::AssetId, who: &T::AccountId, amount: T::Balance) -> DepositConsequence {
			let Some(details) = Asset::<T, I>::get(id) else { return DepositConsequence::UnknownAsset };
			if details.supply.checked_add(&amount).is_none() {
				return DepositConsequence::Overflow;
			}
			if let Some(account) = Account::<T, I>::get(id, who) {
				if account.balance.checked_add(&amount).is_none() {
					return DepositConsequence::Overflow;
				}
			} else {
				if amount < details.min_balance {
					return DepositConsequence::BelowMinimum;
				}
				if !details.is_sufficient && !frame_system::Pallet::<T>::can_accrue_consumers(who, 2) {
					return DepositConsequence::CannotCreate;
				}
			}
			DepositConsequence::Success
		}

		fn can_decrease(
			id: &T::AssetId,
			who: &T::AccountId,
			amount: T::Balance,
			keep_alive: bool,
		) -> WithdrawConsequence<T::Balance> {
			use WithdrawConsequence::*;
			let Some(details) = Asset::<T, I>::get(id) else { return UnknownAsset };
			if details.supply.checked_sub(&amount).is_none() {
				return Underflow;
			}
			if !details.live {
				return UnknownAsset;
			}
			if amount.is_zero() {
				return Success;
			}
			let Some(account) = Account::<T, I>::get(id, who) else { return BalanceLow };
			match account.balance.checked_sub(&amount) {
				Some(rest) if rest < details.min_balance =>
					if keep_alive {
						WouldDie
					} else {
						ReducedToZero(rest)
					},
				Some(_) => Success,
				None => BalanceLow,
			}
		}

		fn reducible(id: &T::AssetId, who: &T::AccountId, keep_alive: bool) -> Result<T::Balance, DispatchError> {
			let details = Asset::<T, I>::get(id).ok_or(Error::<T, I>::Unknown)?;
			ensure!(details.live, Error::<T, I>::AssetNotLive);
			let account = Account::<T, I>::get(id, who).ok_or(Error::<T, I>::NoAccount)?;
			let amount =
				if keep_alive { account.balance.saturating_sub(details.min_balance) } else { account.balance };
			Ok(amount.min(details.supply))
		}

		fn decrease(
			id: &T::AssetId,
			who: &T::AccountId,
			amount: T::Balance,
			keep_alive: bool,
			best_effort: bool,
		) -> Result<T::Balance, DispatchError> {
			if amount.is_zero() {
				return Ok(amount);
			}
			let actual = Self::reducible(id, who, keep_alive)?.min(amount);
			ensure!(best_effort || actual >= amount, Error::<T, I>::BalanceLow);
			let dust = Self::can_decrease(id, who, actual, keep_alive).into_result(keep_alive)?;
			let actual = actual.saturating_add(dust);
			Asset::<T, I>::try_mutate(id, |maybe| -> DispatchResult {
				let details = maybe.as_mut().ok_or(Error::<T, I>::Unknown)?;
				Account::<T, I>::try_mutate(id, who, |maybe_account| -> DispatchResult {
					let mut account = maybe_account.take().ok_or(Error::<T, I>::NoAccount)?;
					account.balance = account.balance.saturating_sub(actual);
					if account.balance < details.min_balance {
						details.accounts = details.accounts.saturating_sub(1);
						match account.reason {
							ExistenceReason::Consumer => frame_system::Pallet::<T>::dec_consumers(who),
							ExistenceReason::Sufficient => {
								details.sufficients = details.sufficients.saturating_sub(1);
								frame_system::Pallet::<T>::dec_sufficients(who);
							},
							// the account stays for the sake of its deposit
							_ => {
								details.accounts = details.accounts.saturating_add(1);
								*maybe_account = Some(account);
							},
						}
						return Ok(());
					}
					*maybe_account = Some(account);
					Ok(())
				})
			})?;
			Ok(actual)
		}

		fn increase(id: &T::AssetId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
			if amount.is_zero() {
				return Ok(());
			}
			Self::can_increase(id, who, amount).into_result()?;
			Asset::<T, I>::try_mutate(id, |maybe| -> DispatchResult {
				let details = maybe.as_mut().ok_or(Error::<T, I>::Unknown)?;
				Account::<T, I>::try_mutate(id, who, |maybe_account| -> DispatchResult {
					match maybe_account {
						Some(account) => account.balance.saturating_accrue(amount),
						none => {
							ensure!(amount >= details.min_balance, sp_runtime::TokenError::BelowMinimum);
							*none = Some(AssetAccount {
								balance: amount,
								reason: Self::new_account(who, details, None)?,
							});
						},
					}
					Ok(())
				})
			})
		}
	}

	impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
		type AssetId = T::AssetId;
		type Balance = T::Balance;

		fn total_issuance(asset: Self::AssetId) -> Self::Balance {
			Asset::<T, I>::get(asset).map(|x| x.supply).unwrap_or_else(Zero::zero)
		}
		fn minimum_balance(asset: Self::AssetId) -> Self::Balance {
			Asset::<T, I>::get(asset).map(|x| x.min_balance).unwrap_or_else(Zero::zero)
		}
		fn total_balance(asset: Self::AssetId, who: &T::AccountId) -> Self::Balance {
			Self::balance(asset, who)
		}
		fn balance(asset: Self::AssetId, who: &T::AccountId) -> Self::Balance {
			Account::<T, I>::get(asset, who).map(|a| a.balance).unwrap_or_else(Zero::zero)
		}
		fn reducible_balance(
			asset: Self::AssetId,
			who: &T::AccountId,
			preservation: Preservation,
			_: Fortitude,
		) -> Self::Balance {
			Self::reducible(&asset, who, !matches!(preservation, Expendable)).unwrap_or(Zero::zero())
		}
		fn can_deposit(
			asset: Self::AssetId,
			who: &T::AccountId,
			amount: Self::Balance,
			_provenance: Provenance,
		) -> DepositConsequence {
			Self::can_increase(&asset, who, amount)
		}
		fn can_withdraw(asset: Self::AssetId, who: &T::AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance> {
			Self::can_decrease(&asset, who, amount, false)
		}
		fn asset_exists(asset: Self::AssetId) -> bool {
			Asset::<T, I>::contains_key(asset)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Unbalanced<T::AccountId> for Pallet<T, I> {
		fn handle_raw_dust(_: Self::AssetId, _: Self::Balance) {}
		fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {}
		fn write_balance(_: Self::AssetId, _: &T::AccountId, _: Self::Balance) -> Result<Option<Self::Balance>, DispatchError> {
			unreachable!("not used if other functions doing their job")
		}
		fn set_total_issuance(id: T::AssetId, amount: Self::Balance) {
			Asset::<T, I>::mutate_exists(id, |maybe| {
				if let Some(d) = maybe {
					d.supply = amount
				}
			});
		}
		fn decrease_balance(
			asset: T::AssetId,
			who: &T::AccountId,
			amount: Self::Balance,
			precision: Precision,
			preservation: Preservation,
			_: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			Self::decrease(
				&asset,
				who,
				amount,
				preservation != Expendable,
				precision == Precision::BestEffort,
			)
		}
		fn increase_balance(
			asset: T::AssetId,
			who: &T::AccountId,
			amount: Self::Balance,
			_: Precision,
		) -> Result<Self::Balance, DispatchError> {
			Self::increase(&asset, who, amount)?;
			Ok(amount)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Mutate<T::AccountId> for Pallet<T, I> {}
	impl<T: Config<I>, I: 'static> fungibles::Balanced<T::AccountId> for Pallet<T, I> {
		type OnDropDebt = fungibles::IncreaseIssuance<T::AccountId, Self>;
		type OnDropCredit = fungibles::DecreaseIssuance<T::AccountId, Self>;
	}
	impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
		fn create(id: T::AssetId, admin: T::AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult {
			Self::do_create(id, admin, is_sufficient, min_balance)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Destroy<T::AccountId> for Pallet<T, I> {
		fn start_destroy(_: T::AssetId, _: Option<T::AccountId>) -> DispatchResult {
			Err(DispatchError::Other("not in the stand-in"))
		}
		fn destroy_accounts(_: T::AssetId, _: u32) -> Result<u32, DispatchError> {
			Err(DispatchError::Other("not in the stand-in"))
		}
		fn destroy_approvals(_: T::AssetId, _: u32) -> Result<u32, DispatchError> {
			Err(DispatchError::Other("not in the stand-in"))
		}
		fn finish_destroy(_: T::AssetId) -> DispatchResult {
			Err(DispatchError::Other("not in the stand-in"))
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::Inspect<T::AccountId> for Pallet<T, I> {
		fn name(asset: T::AssetId) -> Vec<u8> {
			Metadata::<T, I>::get(asset).0
		}
		fn symbol(asset: T::AssetId) -> Vec<u8> {
			Metadata::<T, I>::get(asset).1
		}
		fn decimals(asset: T::AssetId) -> u8 {
			Metadata::<T, I>::get(asset).2
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::Mutate<T::AccountId> for Pallet<T, I> {
		fn set(asset: T::AssetId, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
			let d = Asset::<T, I>::get(&asset).ok_or(Error::<T, I>::Unknown)?;
			ensure!(from == &d.owner, Error::<T, I>::NoPermission);
			Metadata::<T, I>::insert(asset, (name, symbol, decimals));
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::MetadataDeposit<DepositOf<T, I>> for Pallet<T, I> {
		fn calc_metadata_deposit(_: &[u8], _: &[u8]) -> DepositOf<T, I> {
			Zero::zero()
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::roles::Inspect<T::AccountId> for Pallet<T, I> {
		fn owner(asset: T::AssetId) -> Option<T::AccountId> {
			Asset::<T, I>::get(asset).map(|x| x.owner)
		}
		fn issuer(asset: T::AssetId) -> Option<T::AccountId> {
			Asset::<T, I>::get(asset).map(|x| x.issuer)
		}
		fn admin(asset: T::AssetId) -> Option<T::AccountId> {
			Asset::<T, I>::get(asset).map(|x| x.admin)
		}
		fn freezer(asset: T::AssetId) -> Option<T::AccountId> {
			Asset::<T, I>::get(asset).map(|x| x.freezer)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::InspectEnumerable<T::AccountId> for Pallet<T, I> {
		type AssetsIterator = KeyPrefixIterator<T::AssetId>;

		fn asset_ids() -> Self::AssetsIterator {
			Asset::<T, I>::iter_keys()
		}
	}
	impl<T: Config<I>, I: 'static> AccountTouch<T::AssetId, T::AccountId> for Pallet<T, I> {
		type Balance = DepositOf<T, I>;

		fn deposit_required(_: T::AssetId) -> Self::Balance {
			T::AssetAccountDeposit::get()
		}
		fn should_touch(asset: T::AssetId, who: &T::AccountId) -> bool {
			match Asset::<T, I>::get(&asset) {
				Some(info) if info.is_sufficient => false,
				Some(_) if frame_system::Pallet::<T>::can_accrue_consumers(who, 2) => false,
				Some(_) => !Account::<T, I>::contains_key(asset, who),
				_ => true,
			}
		}
		fn touch(asset: T::AssetId, who: &T::AccountId, depositor: &T::AccountId) -> DispatchResult {
			ensure!(!Account::<T, I>::contains_key(&asset, who), Error::<T, I>::AlreadyExists);
			let deposit = T::AssetAccountDeposit::get();
			let mut details = Asset::<T, I>::get(&asset).ok_or(Error::<T, I>::Unknown)?;
			ensure!(details.live, Error::<T, I>::AssetNotLive);
			let reason = Self::new_account(who, &mut details, Some((depositor, deposit)))?;
			T::Currency::reserve(depositor, deposit)?;
			Asset::<T, I>::insert(&asset, details);
			Account::<T, I>::insert(asset, who, AssetAccount { balance: Zero::zero(), reason });
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> ContainsPair<T::AssetId, T::AccountId> for Pallet<T, I> {
		fn contains(asset: &T::AssetId, who: &T::AccountId) -> bool {
			Account::<T, I>::contains_key(asset, who)
		}
	}
}
