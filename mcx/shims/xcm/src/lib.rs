//! Stand-in for staging-xcm: the part of the v4 message format that the pallets of /repo name, with
//! the same encoding. No executor and no transport.
pub mod v3;
pub mod v4;

pub mod opaque {
	pub mod v4 {
		pub use crate::v4::{opaque::Xcm, *};
	}
}
