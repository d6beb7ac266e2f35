//! Stand-in for `heapless`: `Vec` and `LinearMap` that refuse more than `N` entries when deserialized.
#![no_std]
extern crate alloc;
use alloc::vec;
use core::{fmt, marker::PhantomData};
use serde::de::{Deserialize, Deserializer, Error, MapAccess, SeqAccess, Visitor};

#[derive(Debug, Clone, PartialEq)]
pub struct Vec<T, const N: usize>(vec::Vec<T>);
impl<T, const N: usize> Default for Vec<T, N> {
	fn default() -> Self {
		Self(vec::Vec::new())
	}
}
impl<T, const N: usize> core::ops::Deref for Vec<T, N> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		&self.0
	}
}
impl<T, const N: usize> IntoIterator for Vec<T, N> {
	type IntoIter = vec::IntoIter<T>;
	type Item = T;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'de, T: Deserialize<'de>, const N: usize> Deserialize<'de> for Vec<T, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct V<T, const N: usize>(PhantomData<T>);
		impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
			type Value = Vec<T, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a sequence")
			}
			fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
				let mut v = vec::Vec::new();
				while let Some(x) = seq.next_element()? {
					if v.len() == N {
						return Err(A::Error::invalid_length(N + 1, &self));
					}
					v.push(x);
				}
				Ok(Vec(v))
			}
		}
		d.deserialize_seq(V::<T, N>(PhantomData))
	}
}
#[derive(Debug, Clone, PartialEq)]
pub struct LinearMap<K, V, const N: usize>(vec::Vec<(K, V)>);
impl<K: Eq, V, const N: usize> LinearMap<K, V, N> {
	pub fn get(&self, k: &K) -> Option<&V> {
		self.0.iter().find(|x| x.0 == *k).map(|x| &x.1)
	}
	pub fn contains_key(&self, k: &K) -> bool {
		self.get(k).is_some()
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
}
impl<'de, K: Deserialize<'de> + Eq, T: Deserialize<'de>, const N: usize> Deserialize<'de> for LinearMap<K, T, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct V<K, T, const N: usize>(PhantomData<(K, T)>);
		impl<'de, K: Deserialize<'de> + Eq, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<K, T, N> {
			type Value = LinearMap<K, T, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a map")
			}
			fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
				let mut v: vec::Vec<(K, T)> = vec::Vec::new();
				while let Some((k, x)) = map.next_entry()? {
					if let Some(y) = v.iter_mut().find(|y| y.0 == k) {
						y.1 = x;
					} else if v.len() == N {
						return Err(A::Error::invalid_length(N + 1, &self));
					} else {
						v.push((k, x));
					}
				}
				Ok(LinearMap(v))
			}
		}
		d.deserialize_map(V::<K, T, N>(PhantomData))
	}
}
