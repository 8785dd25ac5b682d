//! Stand-in for cumulus-pallet-xcm: the origin of messages from the relay chain and from siblings.
pub use pallet::*;
use polkadot_parachain_primitives::primitives::Id as ParaId;

#[frame_support::pallet]
pub mod pallet {
	use super::ParaId;
	use frame_support::pallet_prelude::*;

	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {}

	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo, RuntimeDebug, MaxEncodedLen)]
	pub enum Origin {
		Relay,
		SiblingParachain(ParaId),
	}
}

/// Ensure that the origin is a sibling parachain, and say which one.
pub fn ensure_sibling_para<OuterOrigin>(o: OuterOrigin) -> Result<ParaId, sp_runtime::DispatchError>
where
	OuterOrigin: Into<Result<Origin, OuterOrigin>>,
{
	match o.into() {
		Ok(Origin::SiblingParachain(id)) => Ok(id),
		_ => Err(sp_runtime::DispatchError::BadOrigin),
	}
}
