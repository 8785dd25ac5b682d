//! Stand-in for serde-json-core over serde_json.
pub mod de {
	pub type Error = serde_json::Error;
	pub fn from_str<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<(T, usize), Error> {
		serde_json::from_str(s).map(|x| (x, s.len()))
	}
	pub fn from_slice<'a, T: serde::Deserialize<'a>>(s: &'a [u8]) -> Result<(T, usize), Error> {
		serde_json::from_slice(s).map(|x| (x, s.len()))
	}
}
pub use de::{from_slice, from_str};
