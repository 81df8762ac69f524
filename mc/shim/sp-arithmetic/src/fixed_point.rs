#![allow(unused_comparisons, clippy::all)]
use crate::{
    helpers_128bit::{multiply_by_rational_with_rounding, sqrt},
    per_things::{PerThing, Perbill, Rounding, SignedRounding},
    traits::{
        Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedSub, One, SaturatedConversion, Saturating, UniqueSaturatedInto, Zero,
    },
};
use codec::{CompactAs, Decode, Encode};
use std::fmt::Debug;
use std::ops::{self, Add, Div, Mul, Sub};

pub trait FixedPointOperand:
    Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg
{
}
impl<T> FixedPointOperand for T where
    T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg
{
}

pub trait FixedPointNumber:
    Sized + Copy + Default + Debug + Saturating + Bounded + Eq + PartialEq + Ord + PartialOrd + CheckedSub + CheckedAdd + CheckedMul + CheckedDiv
    + Add + Sub + Div + Mul + Zero + One
{
    type Inner: Debug + One + CheckedMul + CheckedDiv + FixedPointOperand;
    const DIV: Self::Inner;
    const SIGNED: bool;

    fn accuracy() -> Self::Inner { Self::DIV }
    fn from_inner(int: Self::Inner) -> Self;
    fn into_inner(self) -> Self::Inner;

    fn saturating_from_integer<N: FixedPointOperand>(int: N) -> Self {
        let mut n: I129 = int.into();
        n.value = n.value.saturating_mul(Self::DIV.saturated_into());
        Self::from_inner(from_i129(n).unwrap_or_else(|| to_bound(int, 0)))
    }
    fn checked_from_integer<N: Into<Self::Inner>>(int: N) -> Option<Self> {
        let int: Self::Inner = int.into();
        int.checked_mul(&Self::DIV).map(Self::from_inner)
    }
    fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self {
        if d == D::zero() {
            panic!("attempt to divide by zero")
        }
        Self::checked_from_rational(n, d).unwrap_or_else(|| to_bound(n, d))
    }
    fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self> {
        if d == D::zero() {
            return None;
        }
        let n: I129 = n.into();
        let d: I129 = d.into();
        let negative = n.negative != d.negative;
        multiply_by_rational_with_rounding(
            n.value,
            Self::DIV.unique_saturated_into(),
            d.value,
            Rounding::from_signed(SignedRounding::Minor, negative),
        )
        .and_then(|value| from_i129(I129 { value, negative }))
        .map(Self::from_inner)
    }
    fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
        let lhs: I129 = self.into_inner().into();
        let rhs: I129 = n.into();
        let negative = lhs.negative != rhs.negative;
        multiply_by_rational_with_rounding(
            lhs.value,
            rhs.value,
            Self::DIV.unique_saturated_into(),
            Rounding::from_signed(SignedRounding::Minor, negative),
        )
        .and_then(|value| from_i129(I129 { value, negative }))
    }
    fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
        self.checked_mul_int(n).unwrap_or_else(|| to_bound(self.into_inner(), n))
    }
    fn checked_div_int<N: FixedPointOperand>(self, d: N) -> Option<N> {
        let lhs: I129 = self.into_inner().into();
        let rhs: I129 = d.into();
        let negative = lhs.negative != rhs.negative;
        lhs.value
            .checked_div(rhs.value)
            .and_then(|n| n.checked_div(Self::DIV.unique_saturated_into()))
            .and_then(|value| from_i129(I129 { value, negative }))
    }
    fn saturating_div_int<N: FixedPointOperand>(self, d: N) -> N {
        if d == N::zero() {
            panic!("attempt to divide by zero")
        }
        self.checked_div_int(d).unwrap_or_else(|| to_bound(self.into_inner(), d))
    }
    fn saturating_mul_acc_int<N: FixedPointOperand>(self, n: N) -> N {
        if self.is_negative() && n > N::zero() {
            n.saturating_sub(Self::zero().saturating_sub(self).saturating_mul_int(n))
        } else {
            self.saturating_mul_int(n).saturating_add(n)
        }
    }
    fn saturating_abs(self) -> Self {
        let inner = self.into_inner();
        if inner >= Self::Inner::zero() {
            self
        } else {
            Self::from_inner(inner.checked_neg().unwrap_or_else(Self::Inner::max_value))
        }
    }
    fn reciprocal(self) -> Option<Self> { Self::one().checked_div(&self) }
    fn is_one(&self) -> bool { self.into_inner() == Self::Inner::one() }
    fn is_positive(self) -> bool { self.into_inner() > Self::Inner::zero() }
    fn is_negative(self) -> bool { self.into_inner() < Self::Inner::zero() }
    fn trunc(self) -> Self {
        self.into_inner()
            .checked_div(&Self::DIV)
            .expect("panics only if DIV is zero, DIV is not zero; qed")
            .checked_mul(&Self::DIV)
            .map(Self::from_inner)
            .expect("can not overflow since fixed number is >= integer part")
    }
    fn frac(self) -> Self {
        let integer = self.trunc();
        let fractional = self.saturating_sub(integer);
        if integer == Self::zero() { fractional } else { fractional.saturating_abs() }
    }
    fn ceil(self) -> Self {
        if self.is_negative() {
            self.trunc()
        } else if self.frac() == Self::zero() {
            self
        } else {
            self.saturating_add(Self::one()).trunc()
        }
    }
    fn floor(self) -> Self {
        if self.is_negative() { self.saturating_sub(Self::one()).trunc() } else { self.trunc() }
    }
    fn round(self) -> Self {
        let n = self.frac().saturating_mul(Self::saturating_from_integer(10));
        if n < Self::saturating_from_integer(5) {
            self.trunc()
        } else if self.is_negative() {
            self.saturating_sub(Self::one()).trunc()
        } else {
            self.saturating_add(Self::one()).trunc()
        }
    }
}

struct I129 {
    value: u128,
    negative: bool,
}
impl<N: FixedPointOperand> From<N> for I129 {
    fn from(n: N) -> I129 {
        if n < N::zero() {
            let value: u128 = n
                .checked_neg()
                .map(|n| n.unique_saturated_into())
                .unwrap_or_else(|| N::max_value().unique_saturated_into().saturating_add(1));
            I129 { value, negative: true }
        } else {
            I129 { value: n.unique_saturated_into(), negative: false }
        }
    }
}
fn from_i129<N: FixedPointOperand>(n: I129) -> Option<N> {
    let max_plus_one: u128 = N::max_value().unique_saturated_into().saturating_add(1);
    if n.negative && N::min_value() < N::zero() && n.value == max_plus_one {
        Some(N::min_value())
    } else {
        let unsigned_inner: N = n.value.try_into().ok()?;
        let inner = if n.negative { unsigned_inner.checked_neg()? } else { unsigned_inner };
        Some(inner)
    }
}
fn to_bound<N: FixedPointOperand, D: FixedPointOperand, R: Bounded>(n: N, m: D) -> R {
    if (n < N::zero()) != (m < D::zero()) { R::min_value() } else { R::max_value() }
}

macro_rules! implement_fixed {
    ($name:ident, $inner_type:ty, $signed:tt, $div:tt) => {
        #[derive(Encode, Decode, Default, Copy, Clone, codec::MaxEncodedLen, PartialEq, Eq, PartialOrd, Ord, Hash, scale_info::TypeInfo)]
        pub struct $name($inner_type);
        impl CompactAs for $name {
            type As = $inner_type;
            fn encode_as(&self) -> &Self::As { &self.0 }
            fn decode_from(x: Self::As) -> Result<Self, codec::Error> { Ok(Self(x)) }
        }
        impl From<codec::Compact<$name>> for $name {
            fn from(x: codec::Compact<$name>) -> $name { x.0 }
        }
        impl From<$inner_type> for $name {
            fn from(int: $inner_type) -> Self { $name::saturating_from_integer(int) }
        }
        impl<N: FixedPointOperand, D: FixedPointOperand> From<(N, D)> for $name {
            fn from(r: (N, D)) -> Self { $name::saturating_from_rational(r.0, r.1) }
        }
        impl FixedPointNumber for $name {
            type Inner = $inner_type;
            const DIV: Self::Inner = $div;
            const SIGNED: bool = $signed;
            fn from_inner(inner: Self::Inner) -> Self { Self(inner) }
            fn into_inner(self) -> Self::Inner { self.0 }
        }
        impl $name {
            pub const DIV: $inner_type = $div;
            pub const fn from_inner(inner: $inner_type) -> Self { Self(inner) }
            pub const fn into_inner(self) -> $inner_type { self.0 }
            pub const fn from_u32(n: u32) -> Self { Self((n as $inner_type) * $div) }
            pub fn from_float(x: f64) -> Self { Self((x * (<Self as FixedPointNumber>::DIV as f64)) as $inner_type) }
            pub const fn from_perbill(n: Perbill) -> Self { Self::from_rational(n.deconstruct() as u128, 1_000_000_000) }
            pub const fn into_perbill(self) -> Perbill {
                if self.0 <= 0 {
                    Perbill::zero()
                } else if self.0 >= $div {
                    Perbill::one()
                } else {
                    // round nearest, prefer down
                    let n = self.0 as u128;
                    let d = $div as u128;
                    Perbill::from_parts(const_mul_div(n, 1_000_000_000, d, 2) as u32)
                }
            }
            pub fn to_float(self) -> f64 { self.0 as f64 / <Self as FixedPointNumber>::DIV as f64 }
            pub fn try_into_perthing<P: PerThing>(self) -> Result<P, P> {
                if self < Self::zero() {
                    Err(P::zero())
                } else {
                    let n = self.0 as u128;
                    let d = $div as u128;
                    if n > d {
                        Err(P::one())
                    } else {
                        Ok(P::from_parts(
                            multiply_by_rational_with_rounding(n, P::ACCURACY.into(), d, Rounding::NearestPrefDown)
                                .unwrap_or_default()
                                .saturated_into(),
                        ))
                    }
                }
            }
            pub fn into_clamped_perthing<P: PerThing>(self) -> P { self.try_into_perthing().unwrap_or_else(|x| x) }
            pub const fn neg_saturating(self) -> Self { Self((0 as $inner_type).saturating_sub(self.0)) }
            pub const fn sqrt(self) -> Self {
                match self.try_sqrt() {
                    Some(v) => v,
                    None => panic!("sqrt overflow or negative input"),
                }
            }
            #[allow(unused_comparisons)]
            pub const fn try_sqrt(self) -> Option<Self> {
                if self.0 == 0 { return Some(Self(0)); }
                if self.0 < 1 { return None; }
                let v = self.0 as u128;
                // scale so that both factors are exact
                let r = {
                    let div = $div as u128;
                    match v.checked_mul(div) {
                        Some(p) => sqrt(p),
                        None => sqrt(v) * sqrt(div),
                    }
                };
                Some(Self(r as $inner_type))
            }
            pub const fn add(self, rhs: Self) -> Self { Self(self.0 + rhs.0) }
            pub const fn sub(self, rhs: Self) -> Self { Self(self.0 - rhs.0) }
            pub const fn mul(self, rhs: Self) -> Self {
                match self.const_checked_mul(rhs) {
                    Some(v) => v,
                    None => panic!("attempt to multiply with overflow"),
                }
            }
            pub const fn div(self, rhs: Self) -> Self {
                match self.const_checked_div(rhs) {
                    Some(v) => v,
                    None => panic!("attempt to divide with overflow or NaN"),
                }
            }
            pub const fn from_rational(a: u128, b: u128) -> Self { Self::from_rational_with_rounding(a, b, Rounding::NearestPrefDown) }
            pub const fn from_rational_with_rounding(a: u128, b: u128, r: Rounding) -> Self {
                if b == 0 {
                    panic!("attempt to divide by zero in from_rational")
                }
                let rr = match r { Rounding::Up => 1u8, Rounding::Down => 0, Rounding::NearestPrefDown => 2, Rounding::NearestPrefUp => 3 };
                Self(const_mul_div($div as u128, a, b, rr) as $inner_type)
            }
            pub const fn const_checked_mul(self, other: Self) -> Option<Self> {
                self.const_checked_mul_with_rounding(other, SignedRounding::NearestPrefLow)
            }
            #[allow(unused_comparisons, clippy::unnecessary_cast)]
            pub const fn const_checked_mul_with_rounding(self, other: Self, rounding: SignedRounding) -> Option<Self> {
                let (n1, v1) = (self.0 < 0, abs128(self.0 as i128, self.0 < 0, self.0 as u128));
                let (n2, v2) = (other.0 < 0, abs128(other.0 as i128, other.0 < 0, other.0 as u128));
                let negative = n1 != n2;
                let r = rcode(Rounding::from_signed(rounding, negative));
                match const_mul_div_checked(v1, v2, $div as u128, r) {
                    Some(v) => {
                        if v > <$inner_type>::MAX as u128 { return None; }
                        let x = v as $inner_type;
                        Some(Self(if negative { (0 as $inner_type).wrapping_sub(x) } else { x }))
                    }
                    None => None,
                }
            }
            pub const fn const_checked_div(self, other: Self) -> Option<Self> {
                self.checked_rounding_div(other, SignedRounding::NearestPrefLow)
            }
            #[allow(unused_comparisons, clippy::unnecessary_cast)]
            pub const fn checked_rounding_div(self, other: Self, rounding: SignedRounding) -> Option<Self> {
                if other.0 == 0 { return None; }
                let (n1, v1) = (self.0 < 0, abs128(self.0 as i128, self.0 < 0, self.0 as u128));
                let (n2, v2) = (other.0 < 0, abs128(other.0 as i128, other.0 < 0, other.0 as u128));
                let negative = n1 != n2;
                let r = rcode(Rounding::from_signed(rounding, negative));
                match const_mul_div_checked(v1, $div as u128, v2, r) {
                    Some(v) => {
                        if v > <$inner_type>::MAX as u128 { return None; }
                        let x = v as $inner_type;
                        Some(Self(if negative { (0 as $inner_type).wrapping_sub(x) } else { x }))
                    }
                    None => None,
                }
            }
            pub const fn checked_rounding_mul(self, other: Self, rounding: SignedRounding) -> Option<Self> {
                self.const_checked_mul_with_rounding(other, rounding)
            }
        }
        impl Saturating for $name {
            fn saturating_add(self, rhs: Self) -> Self { Self(self.0.saturating_add(rhs.0)) }
            fn saturating_sub(self, rhs: Self) -> Self { Self(self.0.saturating_sub(rhs.0)) }
            fn saturating_mul(self, rhs: Self) -> Self {
                self.checked_mul(&rhs).unwrap_or_else(|| to_bound(self.0, rhs.0))
            }
            fn saturating_pow(self, exp: usize) -> Self {
                if exp == 0 {
                    return Self::saturating_from_integer(1);
                }
                let exp = exp as u32;
                let msb_pos = 32 - exp.leading_zeros();
                let mut result = Self::saturating_from_integer(1);
                let mut pow_val = self;
                for i in 0..msb_pos {
                    if ((1 << i) & exp) > 0 {
                        result = result.saturating_mul(pow_val);
                    }
                    pow_val = pow_val.saturating_mul(pow_val);
                }
                result
            }
        }
        impl ops::Add for $name {
            type Output = Self;
            fn add(self, rhs: Self) -> Self { Self(self.0 + rhs.0) }
        }
        impl ops::Sub for $name {
            type Output = Self;
            fn sub(self, rhs: Self) -> Self { Self(self.0 - rhs.0) }
        }
        impl ops::Mul for $name {
            type Output = Self;
            fn mul(self, rhs: Self) -> Self {
                self.checked_mul(&rhs).unwrap_or_else(|| panic!("attempt to multiply with overflow"))
            }
        }
        impl ops::Div for $name {
            type Output = Self;
            fn div(self, rhs: Self) -> Self {
                if rhs.0 == 0 {
                    panic!("attempt to divide by zero")
                }
                self.checked_div(&rhs).unwrap_or_else(|| panic!("attempt to divide with overflow"))
            }
        }
        impl ops::AddAssign for $name { fn add_assign(&mut self, o: Self) { *self = *self + o } }
        impl ops::SubAssign for $name { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
        impl ops::MulAssign for $name { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
        impl ops::DivAssign for $name { fn div_assign(&mut self, o: Self) { *self = *self / o } }
        impl CheckedSub for $name {
            fn checked_sub(&self, rhs: &Self) -> Option<Self> { self.0.checked_sub(rhs.0).map(Self) }
        }
        impl CheckedAdd for $name {
            fn checked_add(&self, rhs: &Self) -> Option<Self> { self.0.checked_add(rhs.0).map(Self) }
        }
        impl CheckedDiv for $name {
            fn checked_div(&self, other: &Self) -> Option<Self> {
                if other.0 == 0 {
                    return None;
                }
                let lhs: I129 = self.0.into();
                let rhs: I129 = other.0.into();
                let negative = lhs.negative != rhs.negative;
                multiply_by_rational_with_rounding(
                    lhs.value,
                    Self::DIV as u128,
                    rhs.value,
                    Rounding::from_signed(SignedRounding::Minor, negative),
                )
                .and_then(|value| from_i129(I129 { value, negative }))
                .map(Self)
            }
        }
        impl CheckedMul for $name {
            fn checked_mul(&self, other: &Self) -> Option<Self> {
                let lhs: I129 = self.0.into();
                let rhs: I129 = other.0.into();
                let negative = lhs.negative != rhs.negative;
                multiply_by_rational_with_rounding(
                    lhs.value,
                    rhs.value,
                    Self::DIV as u128,
                    Rounding::from_signed(SignedRounding::Minor, negative),
                )
                .and_then(|value| from_i129(I129 { value, negative }))
                .map(Self)
            }
        }
        impl Bounded for $name {
            fn min_value() -> Self { Self(<$inner_type>::MIN) }
            fn max_value() -> Self { Self(<$inner_type>::MAX) }
        }
        impl Zero for $name {
            fn zero() -> Self { Self(0) }
            fn is_zero(&self) -> bool { self.0 == 0 }
        }
        impl One for $name {
            fn one() -> Self { Self($div) }
        }
        impl Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let a = self.0 as i128;
                let _ = a;
                #[allow(unused_comparisons)]
                let neg = self.0 < 0;
                let v: u128 = if neg { (self.0 as i128).unsigned_abs() } else { self.0 as u128 };
                let w = ($div as u128).to_string().len() - 1;
                write!(f, "{}({}{}.{:0>weight$})", stringify!($name), if neg { "-" } else { "" }, v / $div as u128, v % $div as u128, weight = w)
            }
        }
        impl<P: PerThing> From<P> for $name
        where
            P::Inner: FixedPointOperand,
        {
            fn from(p: P) -> Self {
                let accuracy = P::ACCURACY;
                let value = p.deconstruct();
                $name::saturating_from_rational(value, accuracy)
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
        }
        impl std::str::FromStr for $name {
            type Err = &'static str;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                let inner: $inner_type = s.parse().map_err(|_| "invalid string input for fixed point number")?;
                Ok(Self::from_inner(inner))
            }
        }
        impl serde::Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.to_string()) }
        }
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = String::deserialize(d)?;
                s.parse().map_err(serde::de::Error::custom)
            }
        }
    };
}
const fn rcode(r: Rounding) -> u8 {
    match r { Rounding::Up => 1u8, Rounding::Down => 0, Rounding::NearestPrefDown => 2, Rounding::NearestPrefUp => 3 }
}
const fn abs128(s: i128, neg: bool, u: u128) -> u128 { if neg { s.unsigned_abs() } else { u } }

/// a*b/c in const context (schoolbook 256/128 division).
const fn const_mul_div(a: u128, b: u128, c: u128, r: u8) -> u128 {
    match const_mul_div_checked(a, b, c, r) { Some(v) => v, None => panic!("overflow in from_rational") }
}
const fn const_mul_div_checked(a: u128, b: u128, c: u128, r: u8) -> Option<u128> {
    if c == 0 { return None; }
    // 256-bit product
    let (a1, a0) = (a >> 64, a & u64::MAX as u128);
    let (b1, b0) = (b >> 64, b & u64::MAX as u128);
    let lo = a0 * b0;
    let m1 = a1 * b0;
    let m2 = a0 * b1;
    let hi = a1 * b1;
    let mid = (lo >> 64) + (m1 & u64::MAX as u128) + (m2 & u64::MAX as u128);
    let plo = (lo & u64::MAX as u128) | (mid << 64);
    let phi = hi + (m1 >> 64) + (m2 >> 64) + (mid >> 64);
    let (q, rem);
    if phi == 0 {
        q = plo / c;
        rem = plo % c;
    } else {
        if phi >= c { return None; }
        let mut rr = phi;
        let mut qq = 0u128;
        let mut i = 0;
        while i < 128 {
            let carry = rr >> 127;
            rr = (rr << 1) | ((plo >> (127 - i)) & 1);
            qq <<= 1;
            if carry == 1 || rr >= c {
                rr = rr.wrapping_sub(c);
                qq |= 1;
            }
            i += 1;
        }
        q = qq;
        rem = rr;
    }
    let bump = match r { 0 => false, 1 => rem > 0, 2 => rem > c / 2, _ => rem >= c / 2 + c % 2 };
    if bump { q.checked_add(1) } else { Some(q) }
}

implement_fixed!(FixedI64, i64, true, 1_000_000_000);
implement_fixed!(FixedU64, u64, false, 1_000_000_000);
implement_fixed!(FixedI128, i128, true, 1_000_000_000_000_000_000);
implement_fixed!(FixedU128, u128, false, 1_000_000_000_000_000_000);
