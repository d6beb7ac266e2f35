//! Stand-in for `serde-json-core`: `from_str`, which also says how much was read.
#![no_std]
pub mod de {
	pub type Error = serde_json::Error;
}
pub fn from_str<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<(T, usize), de::Error> {
	let mut d = serde_json::Deserializer::from_str(s);
	let x = T::deserialize(&mut d)?;
	d.end()?;
	Ok((x, s.len()))
}
