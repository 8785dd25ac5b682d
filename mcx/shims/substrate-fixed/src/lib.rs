//! Stand-in for substrate-fixed: the few operations the staking pallet uses, in double precision.
pub mod traits {
	use crate::types::U100F28;
	pub trait Fixed: Sized {
		fn from_double(x: f64) -> Option<Self>;
	}
	impl Fixed for U100F28 {
		/// rounds to nearest
		fn from_double(x: f64) -> Option<Self> {
			let y = (x * U100F28::ONE as f64).round_ties_even();
			(y.is_finite() && y >= 0.0 && y < 340282366920938463463374607431768211456.0).then(|| U100F28(y as u128))
		}
	}
	pub trait ToFixed {
		fn checked_to_fixed<F: Fixed>(self) -> Option<F>;
	}
	impl ToFixed for f64 {
		fn checked_to_fixed<F: Fixed>(self) -> Option<F> {
			F::from_double(self)
		}
	}
}
pub mod types {
	use std::str::FromStr;
	/// 100 bits before and 28 after the binary point, exact
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
	pub struct U100F28(pub u128);
	pub trait Int {
		fn wide(self) -> u128;
		fn narrow(x: u128) -> Self;
	}
	impl Int for u128 {
		fn wide(self) -> u128 {
			self
		}
		fn narrow(x: u128) -> Self {
			x
		}
	}
	impl U100F28 {
		pub const ONE: u128 = 1 << 28;
		pub fn from_num<N: Int>(n: N) -> Self {
			U100F28(n.wide().checked_mul(Self::ONE).expect("overflow"))
		}
		pub fn to_num<N: Int>(self) -> N {
			N::narrow(self.0 >> 28)
		}
	}
	impl std::ops::Mul for U100F28 {
		type Output = Self;
		fn mul(self, o: Self) -> Self {
			// (a 2^64 + b) (c 2^64 + d) / 2^28
			let (a, b, c, d) = (self.0 >> 64, self.0 & u64::MAX as u128, o.0 >> 64, o.0 & u64::MAX as u128);
			let low = b * d;
			let (mid, carry) = (a * d).overflowing_add(b * c);
			let high = a * c + (mid >> 64) + ((carry as u128) << 64);
			let (low, carry) = low.overflowing_add(mid << 64);
			let high = high + carry as u128;
			assert!(high >> 28 == 0, "overflow");
			U100F28(low >> 28 | high << 100)
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct ParseFixedError;
	impl std::fmt::Display for ParseFixedError {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			f.write_str("not a number")
		}
	}
	impl FromStr for U100F28 {
		type Err = ParseFixedError;
		/// decimal digits with at most one point among them; rounds to nearest
		fn from_str(s: &str) -> Result<Self, ParseFixedError> {
			let s = s.strip_prefix('+').unwrap_or(s);
			let (int, frac) = s.split_once('.').unwrap_or((s, ""));
			if int.len() + frac.len() == 0 || !int.bytes().chain(frac.bytes()).all(|b| b.is_ascii_digit()) {
				return Err(ParseFixedError);
			}
			let i: u128 = if int.is_empty() { 0 } else { int.parse().map_err(|_| ParseFixedError)? };
			// of the fraction, nothing beyond 20 digits reaches the 29th bit
			let frac = &frac[..frac.len().min(20)];
			let (mut num, mut den) = (0u128, 1u128);
			for b in frac.bytes() {
				num = num * 10 + (b - b'0') as u128;
				den *= 10;
			}
			let (mut bits, mut rest) = (0u128, num);
			for _ in 0..28 {
				rest *= 2;
				bits = bits * 2 + (rest >= den) as u128;
				rest -= if rest >= den { den } else { 0 };
			}
			let up = rest * 2 > den || rest * 2 == den && bits & 1 == 1;
			i.checked_mul(Self::ONE).and_then(|i| i.checked_add(bits + up as u128)).map(U100F28).ok_or(ParseFixedError)
		}
	}
	use std::ops::{Add, Div, Mul, Sub};
	#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
	pub struct I64F64(pub f64);
	pub trait Num: Copy {
		fn to_f64(self) -> f64;
		fn from_f64(x: f64) -> Self;
	}
	macro_rules! num { ($($t:ty)*) => { $( impl Num for $t {
		fn to_f64(self) -> f64 { self as f64 }
		fn from_f64(x: f64) -> Self { x as $t }
	} )* } }
	num! { i32 u32 i64 u64 u128 f64 }
	impl I64F64 {
		pub fn from_num<N: Num>(n: N) -> Self {
			I64F64(n.to_f64())
		}
		pub fn to_num<N: Num>(self) -> N {
			N::from_f64(self.0)
		}
		pub fn ceil(self) -> Self {
			// what double precision leaves behind an exact integer is no fraction
			I64F64((self.0 - 1e-6).ceil())
		}
	}
	impl Add for I64F64 {
		type Output = Self;
		fn add(self, o: Self) -> Self {
			I64F64(self.0 + o.0)
		}
	}
	impl Sub for I64F64 {
		type Output = Self;
		fn sub(self, o: Self) -> Self {
			I64F64(self.0 - o.0)
		}
	}
	impl Mul for I64F64 {
		type Output = Self;
		fn mul(self, o: Self) -> Self {
			I64F64(self.0 * o.0)
		}
	}
	impl Div for I64F64 {
		type Output = Self;
		fn div(self, o: Self) -> Self {
			I64F64(self.0 / o.0)
		}
	}
}
pub mod transcendental {
	use crate::types::I64F64;
	pub fn pow<D: From<I64F64>>(base: I64F64, exp: I64F64) -> Result<D, ()> {
		Ok(I64F64(base.0.powf(exp.0)).into())
	}
}
