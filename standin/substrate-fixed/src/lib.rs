//! Stand-in for `substrate-fixed`: `types::I64F64` (a signed number with 64 fractional bits), `transcendental::pow` and
//! `types::U100F28`.
//! The power is computed as exp(y * ln(x)) from series taken to the last bit, in 128 fractional bits.
#![cfg_attr(not(any(feature = "std", test)), no_std)]

pub mod types {
	use core::ops::{Add, Div, Mul, Neg, Sub};
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
	pub struct I64F64(i128);
	const FRAC: u32 = 64;

	pub trait Num {
		fn into_i128(self) -> i128;
		fn from_i128(x: i128) -> Self;
	}
	macro_rules! num {
		($($t:ty),*) => { $(impl Num for $t {
			fn into_i128(self) -> i128 { self as i128 }
			fn from_i128(x: i128) -> Self { <$t>::try_from(x).expect("overflow") }
		})* };
	}
	num!(i8, u8, i16, u16, i32, u32, i64, u64);

	impl I64F64 {
		pub fn from_bits(b: i128) -> Self {
			Self(b)
		}
		pub fn to_bits(self) -> i128 {
			self.0
		}
		pub fn from_num<N: Num>(n: N) -> Self {
			let x = n.into_i128();
			assert!(x <= i64::MAX as i128 && x >= i64::MIN as i128, "overflow");
			Self(x << FRAC)
		}
		pub fn to_num<N: Num>(self) -> N {
			N::from_i128(self.0 >> FRAC)
		}
		pub fn floor(self) -> Self {
			Self(self.0 >> FRAC << FRAC)
		}
		pub fn ceil(self) -> Self {
			let f = self.floor();
			if f == self {
				self
			} else {
				Self(f.0.checked_add(1 << FRAC).expect("overflow"))
			}
		}
	}
	impl Add for I64F64 {
		type Output = Self;
		fn add(self, o: Self) -> Self {
			Self(self.0.checked_add(o.0).expect("overflow"))
		}
	}
	impl Sub for I64F64 {
		type Output = Self;
		fn sub(self, o: Self) -> Self {
			Self(self.0.checked_sub(o.0).expect("overflow"))
		}
	}
	impl Neg for I64F64 {
		type Output = Self;
		fn neg(self) -> Self {
			Self(-self.0)
		}
	}
	/// the 256 bits of a product, high and low
	pub(crate) fn wide(a: u128, b: u128) -> (u128, u128) {
		let (ah, al, bh, bl) = (a >> 64, a & u64::MAX as u128, b >> 64, b & u64::MAX as u128);
		let (ll, lh, hl, hh) = (al * bl, al * bh, ah * bl, ah * bh);
		let mid = (ll >> 64) + (lh & u64::MAX as u128) + (hl & u64::MAX as u128);
		(hh + (lh >> 64) + (hl >> 64) + (mid >> 64), (mid << 64) | (ll & u64::MAX as u128))
	}
	impl Mul for I64F64 {
		type Output = Self;
		fn mul(self, o: Self) -> Self {
			let neg = (self.0 < 0) != (o.0 < 0);
			let (h, l) = wide(self.0.unsigned_abs(), o.0.unsigned_abs());
			assert!(h >> 63 == 0, "overflow");
			let m = ((h << 64) | (l >> 64)) as i128;
			Self(if neg { -m } else { m })
		}
	}
	impl Div for I64F64 {
		type Output = Self;
		fn div(self, o: Self) -> Self {
			assert!(o.0 != 0, "division by zero");
			let neg = (self.0 < 0) != (o.0 < 0);
			let (n, d) = (self.0.unsigned_abs(), o.0.unsigned_abs());
			let mut q = n / d;
			let mut r = n % d;
			for _ in 0..FRAC {
				assert!(q >> 126 == 0, "overflow");
				q <<= 1;
				let top = r >> 127;
				r <<= 1;
				if top == 1 || r >= d {
					r = r.wrapping_sub(d);
					q |= 1;
				}
			}
			Self(if neg { -(q as i128) } else { q as i128 })
		}
	}
	/// an unsigned number with 28 fractional bits
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
	pub struct U100F28(u128);
	const F28: u32 = 28;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct ParseFixedError(&'static str);
	impl core::fmt::Display for ParseFixedError {
		fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
			f.write_str(self.0)
		}
	}
	impl U100F28 {
		pub fn from_bits(b: u128) -> Self {
			Self(b)
		}
		pub fn to_bits(self) -> u128 {
			self.0
		}
		pub fn from_num(n: u128) -> Self {
			assert!(n >> 100 == 0, "overflow");
			Self(n << F28)
		}
		pub fn checked_from_num(n: u128) -> Option<Self> {
			(n >> 100 == 0).then(|| Self(n << F28))
		}
		pub fn to_num<N: From<u128>>(self) -> N {
			N::from(self.0 >> F28)
		}
		pub fn checked_mul(self, o: Self) -> Option<Self> {
			let (h, l) = wide(self.0, o.0);
			(h >> F28 == 0).then(|| Self((h << (128 - F28)) | (l >> F28)))
		}
		pub fn saturating_mul(self, o: Self) -> Self {
			self.checked_mul(o).unwrap_or(Self(u128::MAX))
		}
		/// to the nearest, ties to even
		pub(crate) fn from_float(x: f64) -> Option<Self> {
			if !x.is_finite() {
				return None;
			}
			let b = x.to_bits();
			let (neg, e, m) = (b >> 63 == 1, ((b >> 52) & 0x7ff) as i32, b & ((1 << 52) - 1));
			let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
			let sh = e + F28 as i32;
			let v = if m == 0 {
				0
			} else if sh >= 0 {
				if sh > 75 {
					return None;
				}
				(m as u128) << sh
			} else if sh < -60 {
				0
			} else {
				let (q, r, half) = (m >> -sh, m & ((1u64 << -sh) - 1), 1u64 << (-sh - 1));
				(q + (r > half || (r == half && q & 1 == 1)) as u64) as u128
			};
			(v == 0 || !neg).then_some(Self(v))
		}
	}
	impl Mul for U100F28 {
		type Output = Self;
		fn mul(self, o: Self) -> Self {
			self.checked_mul(o).expect("overflow")
		}
	}
	impl core::str::FromStr for U100F28 {
		type Err = ParseFixedError;
		/// digits with at most one point, to the nearest, ties to even
		fn from_str(s: &str) -> Result<Self, ParseFixedError> {
			let err = Err(ParseFixedError("invalid"));
			let (neg, t) = match s.as_bytes().first() {
				Some(b'-') => (true, &s[1..]),
				Some(b'+') => (false, &s[1..]),
				_ => (false, s),
			};
			let (i, f) = t.split_once('.').unwrap_or((t, ""));
			if i.len() + f.len() == 0 || !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
				return err;
			}
			let mut int = 0u128;
			for c in i.bytes() {
				int = int * 10 + (c - b'0') as u128;
				if int >> 100 != 0 {
					return Err(ParseFixedError("overflow"));
				}
			}
			let (mut num, mut den, mut sticky) = (0u128, 1u128, false);
			for (k, c) in f.bytes().enumerate() {
				if k < 27 {
					num = num * 10 + (c - b'0') as u128;
					den *= 10;
				} else {
					sticky |= c != b'0';
				}
			}
			let (q, r) = ((num << F28) / den, (num << F28) % den);
			let up = 2 * r > den || (2 * r == den && (sticky || q & 1 == 1));
			let v = (int << F28).checked_add(q + up as u128).ok_or(ParseFixedError("overflow"))?;
			if neg && v > 0 {
				return Err(ParseFixedError("overflow"));
			}
			Ok(Self(v))
		}
	}
}

pub mod traits {
	use super::types::U100F28;
	pub trait ToFixed {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F>;
	}
	pub trait FromFloat: Sized {
		fn from_float(x: f64) -> Option<Self>;
	}
	impl FromFloat for U100F28 {
		fn from_float(x: f64) -> Option<Self> {
			U100F28::from_float(x)
		}
	}
	impl ToFixed for f64 {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F> {
			F::from_float(self)
		}
	}
}

pub mod transcendental {
	use super::types::{wide, I64F64};
	/// unsigned numbers with 120 fractional bits, below 256
	const F: u32 = 120;
	const ONE: u128 = 1 << F;
	fn mul(a: u128, b: u128) -> u128 {
		let (h, l) = wide(a, b);
		(h << (128 - F)) | (l >> F)
	}
	/// 2 atanh(z) = ln((1+z)/(1-z)), for z < 1/3
	fn ln_ratio(z: u128) -> u128 {
		let z2 = mul(z, z);
		let (mut t, mut s, mut k) = (z, 0u128, 1u128);
		while t > 0 {
			s += t / k;
			t = mul(t, z2);
			k += 2;
		}
		2 * s
	}
	fn div(a: u128, b: u128) -> u128 {
		// a < b here
		let (mut q, mut r) = (0u128, a);
		for _ in 0..F {
			r <<= 1;
			q <<= 1;
			if r >= b {
				r -= b;
				q |= 1;
			}
		}
		q
	}
	/// x^y for 1 <= x <= 2 and 0 <= y <= 1, which is all there is a need for
	pub fn pow<S, D>(x: S, y: S) -> Result<D, &'static str>
	where
		S: Into<I64F64>,
		D: From<I64F64>,
	{
		let (x, y): (I64F64, I64F64) = (x.into(), y.into());
		let one = I64F64::from_num(1);
		if x < one || x > one + one || y < I64F64::from_num(0) || y > one {
			return Err("out of range");
		}
		let xf = (x.to_bits() as u128) << (F - 64);
		let l = ln_ratio(div(xf - ONE, xf + ONE));
		let e = mul(l, (y.to_bits() as u128) << (F - 64));
		let (mut t, mut s, mut k) = (ONE, 0u128, 1u128);
		while t > 0 {
			s += t;
			t = mul(t, e) / k;
			k += 1;
		}
		Ok(I64F64::from_bits((s >> (F - 64)) as i128).into())
	}
}
