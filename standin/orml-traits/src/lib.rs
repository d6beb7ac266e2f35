//! Stand-in for `orml-traits`: reading a value for a key.
#![no_std]
pub trait DataProvider<Key, Value> {
	fn get(key: &Key) -> Option<Value>;
}
