//! Stand-ins for the pallets and crates of the runtime that are not in this sandbox: their calls, origins and the
//! interfaces the runtime names, with the rules of the real ones where a property depends on them.
#![allow(dead_code)]

frame_support::parameter_types! {
	pub Version: sp_version::RuntimeVersion = crate::VERSION;
}

/// A pallet with nothing in it.
macro_rules! empty_pallet {
	($($m:ident),*) => { $(
		pub mod $m {
			pub use pallet::*;
			#[frame_support::pallet]
			pub mod pallet {
				#[pallet::config]
				pub trait Config: frame_system::Config {}
				#[pallet::pallet]
				pub struct Pallet<T>(_);
			}
		}
	)* };
}
empty_pallet!(pallet_aura, cumulus_pallet_aura_ext, pallet_skip_feeless_payment);

/// A pallet with one call that does nothing, for a signed, a root or no origin.
macro_rules! plain_pallet {
	($($m:ident $call:ident $ensure:ident),*) => { $(
		pub mod $m {
			pub use pallet::*;
			#[frame_support::pallet]
			pub mod pallet {
				use frame_support::pallet_prelude::*;
				use frame_system::pallet_prelude::*;
				#[pallet::config]
				pub trait Config: frame_system::Config {}
				#[pallet::pallet]
				pub struct Pallet<T>(_);
				#[pallet::call]
				impl<T: Config> Pallet<T> {
					#[pallet::call_index(0)]
					#[pallet::weight(Weight::zero())]
					pub fn $call(origin: OriginFor<T>) -> DispatchResult {
						let _ = frame_system::$ensure(origin)?;
						Ok(())
					}
				}
			}
		}
	)* };
}
plain_pallet!(
	session set_keys ensure_signed, cumulus_pallet_parachain_system sudo_send_upward_message ensure_root,
	cumulus_pallet_xcmp_queue suspend_xcm_execution ensure_root, pallet_message_queue execute_overweight ensure_signed
);

pub mod parachain_info {
	pub use pallet::*;
	#[frame_support::pallet]
	pub mod pallet {
		#[pallet::config]
		pub trait Config: frame_system::Config {}
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		impl<T: Config> Pallet<T> {
			pub fn parachain_id() -> polkadot_parachain_primitives::primitives::Id {
				2006.into()
			}
		}
	}
}

pub use cumulus_pallet_xcm_shim as cumulus_pallet_xcm;

pub mod cumulus_primitives_core {
	pub use polkadot_parachain_primitives::primitives::Id as ParaId;
}

pub mod polkadot_runtime_common {
	frame_support::parameter_types! {
		pub const BlockHashCount: u32 = 4096;
	}
	/// Votes of at most 64 bits from balances of 128.
	pub struct CurrencyToVote;
	impl CurrencyToVote {
		fn factor(issuance: u128) -> u128 {
			(issuance / u64::MAX as u128).max(1)
		}
	}
	impl sp_staking::currency_to_vote::CurrencyToVote<u128> for CurrencyToVote {
		fn to_vote(value: u128, issuance: u128) -> u64 {
			(value / Self::factor(issuance)).try_into().unwrap_or(u64::MAX)
		}
		fn to_currency(value: u128, issuance: u128) -> u128 {
			value.saturating_mul(Self::factor(issuance))
		}
	}
	pub use sp_staking::currency_to_vote::U128CurrencyToVote;
}

pub mod hex_literal {
	const fn nibble(c: u8) -> u8 {
		match c {
			b'0'..=b'9' => c - b'0',
			b'a'..=b'f' => c - b'a' + 10,
			b'A'..=b'F' => c - b'A' + 10,
			_ => panic!(),
		}
	}
	pub const fn decode<const N: usize>(s: &str) -> [u8; N] {
		let b = s.as_bytes();
		assert!(b.len() == 2 * N);
		let mut out = [0; N];
		let mut i = 0;
		while i < N {
			out[i] = nibble(b[2 * i]) * 16 + nibble(b[2 * i + 1]);
			i += 1;
		}
		out
	}
	#[macro_export]
	macro_rules! hex {
		($s:literal) => {
			$crate::stubs::hex_literal::decode::<{ $s.len() / 2 }>($s)
		};
	}
	pub use crate::hex;
}

pub mod xcm_builder {
	use frame_support::traits::ProcessMessageError;
	use xcm::v4::Instruction;

	pub trait CreateMatcher {
		type Matcher;
		fn matcher(self) -> Self::Matcher;
	}
	pub struct Matcher<'a, Call> {
		xcm: &'a mut [Instruction<Call>],
		current: usize,
	}
	impl<'a, Call> CreateMatcher for &'a mut [Instruction<Call>] {
		type Matcher = Matcher<'a, Call>;
		fn matcher(self) -> Self::Matcher {
			Matcher { xcm: self, current: 0 }
		}
	}
	pub trait MatchXcm: Sized {
		type Inst;
		type Error;
		fn assert_remaining_insts(self, n: usize) -> Result<Self, Self::Error>;
		fn match_next_inst<F>(self, f: F) -> Result<Self, Self::Error>
		where
			F: FnMut(&mut Self::Inst) -> Result<(), Self::Error>;
		fn match_next_inst_while<C, F>(self, cond: C, f: F) -> Result<Self, Self::Error>
		where
			C: Fn(&Self::Inst) -> bool,
			F: FnMut(&mut Self::Inst) -> Result<core::ops::ControlFlow<()>, Self::Error>;
	}
	impl<'a, Call> MatchXcm for Matcher<'a, Call> {
		type Inst = Instruction<Call>;
		type Error = ProcessMessageError;
		fn assert_remaining_insts(self, n: usize) -> Result<Self, Self::Error> {
			if self.xcm.len() - self.current != n {
				return Err(ProcessMessageError::BadFormat);
			}
			Ok(self)
		}
		fn match_next_inst<F>(mut self, mut f: F) -> Result<Self, Self::Error>
		where
			F: FnMut(&mut Self::Inst) -> Result<(), Self::Error>,
		{
			if self.current >= self.xcm.len() {
				return Err(ProcessMessageError::BadFormat);
			}
			f(&mut self.xcm[self.current])?;
			self.current += 1;
			Ok(self)
		}
		fn match_next_inst_while<C, F>(mut self, cond: C, mut f: F) -> Result<Self, Self::Error>
		where
			C: Fn(&Self::Inst) -> bool,
			F: FnMut(&mut Self::Inst) -> Result<core::ops::ControlFlow<()>, Self::Error>,
		{
			while self.current < self.xcm.len() && cond(&self.xcm[self.current]) {
				if f(&mut self.xcm[self.current])?.is_break() {
					break;
				}
				self.current += 1;
			}
			Ok(self)
		}
	}
}

pub mod xcm_executor {
	pub mod traits {
		use frame_support::{traits::ProcessMessageError, weights::Weight};
		use xcm::v4::{Instruction, Location};

		#[derive(Clone, Eq, PartialEq, Debug)]
		pub struct Properties {
			pub weight_credit: Weight,
			pub message_id: Option<[u8; 32]>,
		}
		pub trait ShouldExecute {
			fn should_execute<Call>(
				origin: &Location,
				instructions: &mut [Instruction<Call>],
				max_weight: Weight,
				properties: &mut Properties,
			) -> Result<(), ProcessMessageError>;
		}
		pub use xcm_executor_shim::traits::*;
	}
}

/// What a call that was made on behalf of someone came to: an event of the real pallets.
pub fn inner(r: sp_runtime::DispatchResult) {
	INNER.with(|i| i.borrow_mut().push(r))
}
thread_local! {
	pub static INNER: std::cell::RefCell<Vec<sp_runtime::DispatchResult>> = const { std::cell::RefCell::new(vec![]) };
}

pub mod pallet_collective {
	pub use pallet::*;
	pub use frame_support::instances::{Instance1, Instance2};
	use frame_support::{
		pallet_prelude::*,
		traits::{ChangeMembers, EnsureOrigin, InitializeMembers},
	};
	use std::marker::PhantomData;

	pub struct MoreThanMajorityThenPrimeDefaultVote;

	#[frame_support::pallet]
	pub mod pallet {
		use super::*;
		use frame_support::dispatch::{DispatchResultWithPostInfo, GetDispatchInfo, PostDispatchInfo};
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::Dispatchable;

		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type RuntimeOrigin: From<RawOrigin<Self::AccountId, I>>;
			type Proposal: Parameter
				+ Dispatchable<RuntimeOrigin = <Self as Config<I>>::RuntimeOrigin, PostInfo = PostDispatchInfo>
				+ GetDispatchInfo;
			type MaxMembers: Get<u32>;
			type SetMembersOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		}
		#[pallet::pallet]
		#[pallet::without_storage_info]
		pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);

		#[derive(PartialEq, Eq, Clone, RuntimeDebug, Encode, Decode, TypeInfo, MaxEncodedLen)]
		#[scale_info(skip_type_params(I))]
		#[codec(mel_bound(AccountId: MaxEncodedLen))]
		pub enum RawOrigin<AccountId, I> {
			/// It has been condoned by a given number of members of the collective from a given total.
			Members(u32, u32),
			/// It has been condoned by a single member of the collective.
			Member(AccountId),
			/// Dummy to manage the fact we have instancing.
			_Phantom(PhantomData<I>),
		}
		#[pallet::origin]
		pub type Origin<T, I = ()> = RawOrigin<<T as frame_system::Config>::AccountId, I>;

		#[pallet::storage]
		pub type Members<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
		#[pallet::storage]
		pub type Prime<T: Config<I>, I: 'static = ()> = StorageValue<_, T::AccountId, OptionQuery>;

		#[pallet::error]
		pub enum Error<T, I = ()> {
			NotMember,
		}

		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn set_members(
				origin: OriginFor<T>,
				new_members: Vec<T::AccountId>,
				prime: Option<T::AccountId>,
				_old_count: u32,
			) -> DispatchResult {
				T::SetMembersOrigin::ensure_origin(origin)?;
				Members::<T, I>::put(new_members);
				Prime::<T, I>::set(prime);
				Ok(())
			}
			#[pallet::call_index(1)]
			#[pallet::weight(Weight::zero())]
			pub fn execute(
				origin: OriginFor<T>,
				proposal: Box<<T as Config<I>>::Proposal>,
				_length_bound: u32,
			) -> DispatchResultWithPostInfo {
				let who = frame_system::ensure_signed(origin)?;
				ensure!(Members::<T, I>::get().contains(&who), Error::<T, I>::NotMember);
				// the result is reported in an event only
				let r = proposal.dispatch(RawOrigin::Member(who).into());
				crate::stubs::inner(r.map(|_| ()).map_err(|e| e.error));
				Ok(().into())
			}
		}
	}

	impl<T: Config<I>, I: 'static> ChangeMembers<T::AccountId> for Pallet<T, I> {
		fn change_members_sorted(_incoming: &[T::AccountId], _outgoing: &[T::AccountId], new: &[T::AccountId]) {
			Members::<T, I>::put(new);
			Prime::<T, I>::kill();
		}
		fn set_prime(prime: Option<T::AccountId>) {
			Prime::<T, I>::set(prime);
		}
		fn get_prime() -> Option<T::AccountId> {
			Prime::<T, I>::get()
		}
	}
	impl<T: Config<I>, I: 'static> InitializeMembers<T::AccountId> for Pallet<T, I> {
		fn initialize_members(members: &[T::AccountId]) {
			if !members.is_empty() {
				Members::<T, I>::put(members);
			}
		}
	}

	pub struct EnsureMember<AccountId, I: 'static>(PhantomData<(AccountId, I)>);
	impl<O: Into<Result<RawOrigin<AccountId, I>, O>> + From<RawOrigin<AccountId, I>>, I, AccountId> EnsureOrigin<O>
		for EnsureMember<AccountId, I>
	{
		type Success = AccountId;
		fn try_origin(o: O) -> Result<Self::Success, O> {
			o.into().and_then(|o| match o {
				RawOrigin::Member(id) => Ok(id),
				r => Err(O::from(r)),
			})
		}
	}
	pub struct EnsureMembers<AccountId, I: 'static, const N: u32>(PhantomData<(AccountId, I)>);
	impl<O: Into<Result<RawOrigin<AccountId, I>, O>> + From<RawOrigin<AccountId, I>>, AccountId, I, const N: u32>
		EnsureOrigin<O> for EnsureMembers<AccountId, I, N>
	{
		type Success = (u32, u32);
		fn try_origin(o: O) -> Result<Self::Success, O> {
			o.into().and_then(|o| match o {
				RawOrigin::Members(n, m) if n >= N => Ok((n, m)),
				r => Err(O::from(r)),
			})
		}
	}
	pub struct EnsureProportionMoreThan<AccountId, I: 'static, const N: u32, const D: u32>(PhantomData<(AccountId, I)>);
	impl<O: Into<Result<RawOrigin<AccountId, I>, O>> + From<RawOrigin<AccountId, I>>, AccountId, I, const N: u32, const D: u32>
		EnsureOrigin<O> for EnsureProportionMoreThan<AccountId, I, N, D>
	{
		type Success = ();
		fn try_origin(o: O) -> Result<Self::Success, O> {
			o.into().and_then(|o| match o {
				RawOrigin::Members(n, m) if n * D > N * m => Ok(()),
				r => Err(O::from(r)),
			})
		}
	}
	pub struct EnsureProportionAtLeast<AccountId, I: 'static, const N: u32, const D: u32>(PhantomData<(AccountId, I)>);
	impl<O: Into<Result<RawOrigin<AccountId, I>, O>> + From<RawOrigin<AccountId, I>>, AccountId, I, const N: u32, const D: u32>
		EnsureOrigin<O> for EnsureProportionAtLeast<AccountId, I, N, D>
	{
		type Success = ();
		fn try_origin(o: O) -> Result<Self::Success, O> {
			o.into().and_then(|o| match o {
				RawOrigin::Members(n, m) if n * D >= N * m => Ok(()),
				r => Err(O::from(r)),
			})
		}
	}
}

pub mod pallet_treasury {
	pub use pallet::*;
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::{pallet_prelude::*, PalletId};
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::AccountIdConversion;

		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type PalletId: Get<PalletId>;
			type ApproveOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type RejectOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type SpendOrigin: EnsureOrigin<Self::RuntimeOrigin, Success = u128>;
		}
		#[pallet::pallet]
		pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);

		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(1)]
			#[pallet::weight(Weight::zero())]
			pub fn reject_proposal(origin: OriginFor<T>, #[pallet::compact] _proposal_id: u32) -> DispatchResult {
				T::RejectOrigin::ensure_origin(origin)?;
				Ok(())
			}
			#[pallet::call_index(2)]
			#[pallet::weight(Weight::zero())]
			pub fn approve_proposal(origin: OriginFor<T>, #[pallet::compact] _proposal_id: u32) -> DispatchResult {
				T::ApproveOrigin::ensure_origin(origin)?;
				Ok(())
			}
			#[pallet::call_index(3)]
			#[pallet::weight(Weight::zero())]
			pub fn spend_local(origin: OriginFor<T>, #[pallet::compact] amount: u128) -> DispatchResult {
				let max = T::SpendOrigin::ensure_origin(origin)?;
				ensure!(amount <= max, DispatchError::Other("more than allowed"));
				Ok(())
			}
		}
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			pub fn account_id() -> T::AccountId {
				T::PalletId::get().into_account_truncating()
			}
		}
	}
}

pub mod pallet_utility {
	pub use pallet::*;
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::{
			dispatch::{GetDispatchInfo, PostDispatchInfo},
			pallet_prelude::*,
			traits::{OriginTrait, UnfilteredDispatchable},
		};
		use frame_system::pallet_prelude::*;
		use sp_runtime::traits::Dispatchable;

		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeCall: Parameter
				+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
				+ GetDispatchInfo
				+ From<frame_system::Call<Self>>
				+ UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin>;
			type PalletsOrigin: Parameter
				+ Into<<Self as frame_system::Config>::RuntimeOrigin>
				+ frame_support::traits::IsType<
					<<Self as frame_system::Config>::RuntimeOrigin as OriginTrait>::PalletsOrigin,
				>;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);

		#[pallet::call]
		impl<T: Config> Pallet<T> {
			/// The first failure is reported in an event, and the calls before it stand.
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
				ensure!(frame_system::ensure_none(origin.clone()).is_err(), DispatchError::BadOrigin);
				let is_root = frame_system::ensure_root(origin.clone()).is_ok();
				for call in calls {
					let r = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
					if let Err(e) = r {
						crate::stubs::inner(Err(e.error));
						return Ok(());
					}
				}
				crate::stubs::inner(Ok(()));
				Ok(())
			}
			#[pallet::call_index(3)]
			#[pallet::weight(Weight::zero())]
			pub fn dispatch_as(
				origin: OriginFor<T>,
				as_origin: Box<T::PalletsOrigin>,
				call: Box<<T as Config>::RuntimeCall>,
			) -> DispatchResult {
				frame_system::ensure_root(origin)?;
				let r = call.dispatch_bypass_filter((*as_origin).into());
				crate::stubs::inner(r.map(|_| ()).map_err(|e| e.error));
				Ok(())
			}
		}
	}
}

pub mod pallet_proxy {
	pub use pallet::*;
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::{
			dispatch::{GetDispatchInfo, PostDispatchInfo},
			pallet_prelude::*,
			traits::{InstanceFilter, IsSubType, IsType, OriginTrait},
		};
		use frame_system::{ensure_signed, pallet_prelude::*};
		use sp_runtime::traits::Dispatchable;

		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeCall: Parameter
				+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
				+ GetDispatchInfo
				+ From<frame_system::Call<Self>>
				+ IsSubType<Call<Self>>
				+ IsType<<Self as frame_system::Config>::RuntimeCall>;
			type ProxyType: Parameter + Member + Ord + PartialOrd + InstanceFilter<<Self as Config>::RuntimeCall> + Default + MaxEncodedLen;
			type MaxProxies: Get<u16>;
		}
		#[pallet::pallet]
		#[pallet::without_storage_info]
		pub struct Pallet<T>(_);

		#[pallet::storage]
		pub type Proxies<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, Vec<(T::AccountId, T::ProxyType)>, ValueQuery>;

		#[pallet::error]
		pub enum Error<T> {
			TooMany,
			NotFound,
			NotProxy,
			Duplicate,
			NoSelfProxy,
		}

		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn proxy(
				origin: OriginFor<T>,
				real: T::AccountId,
				force_proxy_type: Option<T::ProxyType>,
				call: Box<<T as Config>::RuntimeCall>,
			) -> DispatchResult {
				let who = ensure_signed(origin)?;
				let def = Proxies::<T>::get(&real)
					.into_iter()
					.find(|x| x.0 == who && force_proxy_type.as_ref().map_or(true, |y| &x.1 == y))
					.ok_or(Error::<T>::NotProxy)?;
				// This is a freshly authenticated new account, the origin restrictions doesn't apply.
				let mut origin: T::RuntimeOrigin = frame_system::RawOrigin::Signed(real).into();
				origin.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
					let c = <T as Config>::RuntimeCall::from_ref(c);
					match c.is_sub_type() {
						// Proxy call cannot add or remove a proxy with more permissions than it already has.
						Some(Call::add_proxy { ref proxy_type, .. }) | Some(Call::remove_proxy { ref proxy_type, .. })
							if !def.1.is_superset(proxy_type) =>
							false,
						// Proxy call cannot remove all proxies or kill pure proxies unless it has full permissions.
						Some(Call::remove_proxies { .. }) | Some(Call::kill_pure { .. })
							if def.1 != T::ProxyType::default() =>
							false,
						_ => def.1.filter(c),
					}
				});
				let e = call.dispatch(origin);
				crate::stubs::inner(e.map(|_| ()).map_err(|e| e.error));
				Ok(())
			}
			#[pallet::call_index(1)]
			#[pallet::weight(Weight::zero())]
			pub fn add_proxy(
				origin: OriginFor<T>,
				delegate: T::AccountId,
				proxy_type: T::ProxyType,
				_delay: BlockNumberFor<T>,
			) -> DispatchResult {
				let who = ensure_signed(origin)?;
				ensure!(delegate != who, Error::<T>::NoSelfProxy);
				Proxies::<T>::try_mutate(&who, |p| -> DispatchResult {
					let def = (delegate, proxy_type);
					let i = p.binary_search(&def).err().ok_or(Error::<T>::Duplicate)?;
					ensure!(p.len() < T::MaxProxies::get() as usize, Error::<T>::TooMany);
					p.insert(i, def);
					Ok(())
				})
			}
			#[pallet::call_index(2)]
			#[pallet::weight(Weight::zero())]
			pub fn remove_proxy(
				origin: OriginFor<T>,
				delegate: T::AccountId,
				proxy_type: T::ProxyType,
				_delay: BlockNumberFor<T>,
			) -> DispatchResult {
				let who = ensure_signed(origin)?;
				Proxies::<T>::try_mutate(&who, |p| -> DispatchResult {
					let i = p.binary_search(&(delegate, proxy_type)).ok().ok_or(Error::<T>::NotFound)?;
					p.remove(i);
					Ok(())
				})
			}
			#[pallet::call_index(3)]
			#[pallet::weight(Weight::zero())]
			pub fn remove_proxies(origin: OriginFor<T>) -> DispatchResult {
				let who = ensure_signed(origin)?;
				Proxies::<T>::remove(&who);
				Ok(())
			}
			#[pallet::call_index(5)]
			#[pallet::weight(Weight::zero())]
			pub fn kill_pure(origin: OriginFor<T>) -> DispatchResult {
				let who = ensure_signed(origin)?;
				Proxies::<T>::remove(&who);
				Ok(())
			}
		}
	}
}

pub mod pallet_multisig {
	pub use pallet::*;
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::{
			dispatch::{GetDispatchInfo, PostDispatchInfo},
			pallet_prelude::*,
		};
		use frame_system::{ensure_signed, pallet_prelude::*};
		use sp_runtime::traits::{Dispatchable, TrailingZeroInput};

		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeCall: Parameter
				+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
				+ GetDispatchInfo
				+ From<frame_system::Call<Self>>;
		}
		#[pallet::pallet]
		pub struct Pallet<T>(_);

		#[pallet::call]
		impl<T: Config> Pallet<T> {
			/// Acts as the account that belongs to any one of a group.
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn as_multi_threshold_1(
				origin: OriginFor<T>,
				other_signatories: Vec<T::AccountId>,
				call: Box<<T as Config>::RuntimeCall>,
			) -> DispatchResult {
				let who = ensure_signed(origin)?;
				let mut group = other_signatories;
				group.push(who);
				group.sort();
				call.dispatch(frame_system::RawOrigin::Signed(Self::multi_account_id(&group, 1)).into())
					.map(|_| ())
					.map_err(|e| e.error)
			}
		}
		impl<T: Config> Pallet<T> {
			pub fn multi_account_id(who: &[T::AccountId], threshold: u16) -> T::AccountId {
				let entropy = (b"modlpy/utilisuba", who, threshold).using_encoded(sp_io::hashing::blake2_256);
				Decode::decode(&mut TrailingZeroInput::new(entropy.as_ref())).expect("infinite length input")
			}
		}
	}
}

pub mod pallet_identity {
	pub use pallet::*;
	pub mod legacy {
		pub struct IdentityInfo<F>(std::marker::PhantomData<F>);
	}
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::pallet_prelude::*;
		use frame_system::{ensure_signed, pallet_prelude::*};

		#[pallet::config]
		pub trait Config: frame_system::Config {}
		#[pallet::pallet]
		#[pallet::without_storage_info]
		pub struct Pallet<T>(_);
		/// judgements given: registrar, judged
		#[pallet::storage]
		pub type Judgements<T: Config> = StorageValue<_, Vec<(T::AccountId, T::AccountId)>, ValueQuery>;
		#[pallet::storage]
		pub type Identities<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, u32, OptionQuery>;

		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(1)]
			#[pallet::weight(Weight::zero())]
			pub fn set_identity(origin: OriginFor<T>, info: u32) -> DispatchResult {
				let who = ensure_signed(origin)?;
				Identities::<T>::insert(who, info);
				Ok(())
			}
			#[pallet::call_index(3)]
			#[pallet::weight(Weight::zero())]
			pub fn clear_identity(origin: OriginFor<T>) -> DispatchResult {
				let who = ensure_signed(origin)?;
				Identities::<T>::remove(who);
				Ok(())
			}
			#[pallet::call_index(9)]
			#[pallet::weight(Weight::zero())]
			pub fn provide_judgement(
				origin: OriginFor<T>,
				#[pallet::compact] _reg_index: u32,
				target: T::AccountId,
				_judgement: u8,
				_identity: T::Hash,
			) -> DispatchResult {
				let who = ensure_signed(origin)?;
				Judgements::<T>::append((who, target));
				Ok(())
			}
		}
	}
}

pub mod pallet_membership {
	pub use pallet::*;
	pub use frame_support::instances::Instance1;
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::{
			pallet_prelude::*,
			traits::{ChangeMembers, Contains, SortedMembers},
		};
		use frame_system::pallet_prelude::*;

		#[pallet::config]
		pub trait Config<I: 'static = ()>: frame_system::Config {
			type AddOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type RemoveOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type SwapOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type ResetOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type PrimeOrigin: EnsureOrigin<Self::RuntimeOrigin>;
			type MaxMembers: Get<u32>;
			type MembershipChanged: ChangeMembers<Self::AccountId>;
		}
		#[pallet::pallet]
		#[pallet::without_storage_info]
		pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
		#[pallet::storage]
		pub type Members<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;

		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			fn change(f: impl FnOnce(&mut Vec<T::AccountId>)) -> DispatchResult {
				let old = Members::<T, I>::get();
				let mut new = old.clone();
				f(&mut new);
				new.sort();
				new.dedup();
				ensure!(new.len() <= T::MaxMembers::get() as usize, DispatchError::Other("TooManyMembers"));
				T::MembershipChanged::set_members_sorted(&new, &old);
				Members::<T, I>::put(new);
				Ok(())
			}
		}
		#[pallet::call]
		impl<T: Config<I>, I: 'static> Pallet<T, I> {
			#[pallet::call_index(0)]
			#[pallet::weight(Weight::zero())]
			pub fn add_member(origin: OriginFor<T>, who: T::AccountId) -> DispatchResult {
				T::AddOrigin::ensure_origin(origin)?;
				Self::change(|m| m.push(who))
			}
			#[pallet::call_index(1)]
			#[pallet::weight(Weight::zero())]
			pub fn remove_member(origin: OriginFor<T>, who: T::AccountId) -> DispatchResult {
				T::RemoveOrigin::ensure_origin(origin)?;
				Self::change(|m| m.retain(|x| x != &who))
			}
			#[pallet::call_index(2)]
			#[pallet::weight(Weight::zero())]
			pub fn swap_member(origin: OriginFor<T>, remove: T::AccountId, add: T::AccountId) -> DispatchResult {
				T::SwapOrigin::ensure_origin(origin)?;
				Self::change(|m| {
					m.retain(|x| x != &remove);
					m.push(add);
				})
			}
			#[pallet::call_index(3)]
			#[pallet::weight(Weight::zero())]
			pub fn reset_members(origin: OriginFor<T>, members: Vec<T::AccountId>) -> DispatchResult {
				T::ResetOrigin::ensure_origin(origin)?;
				Self::change(|m| *m = members)
			}
			#[pallet::call_index(5)]
			#[pallet::weight(Weight::zero())]
			pub fn set_prime(origin: OriginFor<T>, _who: T::AccountId) -> DispatchResult {
				T::PrimeOrigin::ensure_origin(origin)?;
				Ok(())
			}
		}
		impl<T: Config<I>, I: 'static> Contains<T::AccountId> for Pallet<T, I> {
			fn contains(t: &T::AccountId) -> bool {
				Members::<T, I>::get().contains(t)
			}
		}
		impl<T: Config<I>, I: 'static> SortedMembers<T::AccountId> for Pallet<T, I> {
			fn sorted_members() -> Vec<T::AccountId> {
				Members::<T, I>::get()
			}
		}
	}
}

/// Hands the credit to the author of the block.
pub struct AssetsToBlockAuthor<R, I>(std::marker::PhantomData<(R, I)>);
impl<R, I: 'static> pallet_asset_tx_payment::HandleCredit<<R as frame_system::Config>::AccountId, pallet_assets::Pallet<R, I>>
	for AssetsToBlockAuthor<R, I>
where
	R: pallet_authorship::Config + pallet_assets::Config<I>,
{
	fn handle_credit(
		credit: frame_support::traits::fungibles::Credit<<R as frame_system::Config>::AccountId, pallet_assets::Pallet<R, I>>,
	) {
		use frame_support::traits::fungibles::Balanced;
		if let Some(author) = pallet_authorship::Pallet::<R>::author() {
			// In case of error: Will drop the result triggering the `OnDrop` of the imbalance.
			let _ = pallet_assets::Pallet::<R, I>::resolve(&author, credit);
		}
	}
}

/// Takes every message.
pub struct Router;
impl xcm::v4::SendXcm for Router {
	type Ticket = ();
	fn validate(
		_: &mut Option<xcm::v4::Location>,
		_: &mut Option<xcm::v4::Xcm<()>>,
	) -> xcm::v4::SendResult<Self::Ticket> {
		Ok(((), Default::default()))
	}
	fn deliver(_: ()) -> Result<xcm::v4::XcmHash, xcm::v4::SendError> {
		Ok([0; 32])
	}
}
