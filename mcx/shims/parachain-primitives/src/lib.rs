//! Stand-in for polkadot-parachain-primitives: parachain ids.
pub mod primitives {
	use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	use serde::{Deserialize, Serialize};

	#[derive(
		Clone, CompactAs, Copy, Decode, Default, Encode, Eq, Hash, MaxEncodedLen, Ord, PartialEq, PartialOrd, Debug, Serialize,
		Deserialize, TypeInfo,
	)]
	pub struct Id(u32);
	impl From<Id> for u32 {
		fn from(x: Id) -> Self {
			x.0
		}
	}
	impl From<u32> for Id {
		fn from(x: u32) -> Self {
			Id(x)
		}
	}
	impl Id {
		pub const fn new(id: u32) -> Self {
			Self(id)
		}
	}
	impl sp_runtime::TypeId for Id {
		const TYPE_ID: [u8; 4] = *b"para";
	}
	#[derive(Clone, Copy, Decode, Default, Encode, Eq, Hash, MaxEncodedLen, Ord, PartialEq, PartialOrd, Debug, TypeInfo)]
	pub struct Sibling(pub Id);
	impl sp_runtime::TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
}
