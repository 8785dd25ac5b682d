//! Stand-in for orml-traits: reading the oracle.
pub trait DataProvider<Key, Value> {
	fn get(key: &Key) -> Option<Value>;
}
