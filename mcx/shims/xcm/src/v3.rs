//! The v3 location, which can be copied.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

macro_rules! data {
	($i:item) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
		$i
	};
}

data! {
pub enum Junction {
	Parachain(#[codec(compact)] u32),
	#[codec(index = 4)]
	PalletInstance(u8),
	#[codec(index = 5)]
	GeneralIndex(#[codec(compact)] u128),
	#[codec(index = 7)]
	OnlyChild,
}
}
data! {
pub enum Junctions {
	Here,
	X1(Junction),
	X2(Junction, Junction),
	X3(Junction, Junction, Junction),
	X4(Junction, Junction, Junction, Junction),
}
}
data! {
pub struct MultiLocation {
	pub parents: u8,
	pub interior: Junctions,
}
}
impl MultiLocation {
	pub const fn here() -> Self {
		MultiLocation { parents: 0, interior: Junctions::Here }
	}
	pub const fn parent() -> Self {
		MultiLocation { parents: 1, interior: Junctions::Here }
	}
	pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
		MultiLocation { parents, interior: interior.into() }
	}
}
impl Default for MultiLocation {
	fn default() -> Self {
		Self::here()
	}
}
