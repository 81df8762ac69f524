use crate::traits::{
    Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, SaturatedConversion, Saturating, UniqueSaturatedInto, Unsigned, Zero,
};
use codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use num_traits::Pow;
use scale_info::TypeInfo;
use std::fmt::Debug;
use std::ops::{self, Add, AddAssign, Div, Rem, RemAssign};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Rounding {
    Up,
    Down,
    NearestPrefUp,
    NearestPrefDown,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum SignedRounding {
    High,
    Low,
    NearestPrefHigh,
    NearestPrefLow,
    Major,
    Minor,
    NearestPrefMajor,
    NearestPrefMinor,
}
impl Rounding {
    pub const fn from_signed(rounding: SignedRounding, negative: bool) -> Self {
        use Rounding::*;
        use SignedRounding::*;
        match (rounding, negative) {
            (Low, true) | (Major, _) | (High, false) => Up,
            (High, true) | (Minor, _) | (Low, false) => Down,
            (NearestPrefMajor, _) | (NearestPrefHigh, false) | (NearestPrefLow, true) => NearestPrefUp,
            (NearestPrefMinor, _) | (NearestPrefLow, false) | (NearestPrefHigh, true) => NearestPrefDown,
        }
    }
}

pub type InnerOf<P> = <P as PerThing>::Inner;
pub type UpperOf<P> = <P as PerThing>::Upper;

pub trait RationalArg:
    Clone + Ord + ops::Div<Self, Output = Self> + ops::Rem<Self, Output = Self> + ops::Add<Self, Output = Self> + ops::AddAssign<Self> + Unsigned + Zero + One
{
}
impl<T> RationalArg for T where
    T: Clone + Ord + ops::Div<Self, Output = Self> + ops::Rem<Self, Output = Self> + ops::Add<Self, Output = Self> + ops::AddAssign<Self> + Unsigned + Zero + One
{
}
pub trait MultiplyArg:
    Clone + ops::Rem<Self, Output = Self> + ops::Div<Self, Output = Self> + ops::Mul<Self, Output = Self> + ops::Add<Self, Output = Self>
{
}
impl<T> MultiplyArg for T where
    T: Clone + ops::Rem<Self, Output = Self> + ops::Div<Self, Output = Self> + ops::Mul<Self, Output = Self> + ops::Add<Self, Output = Self>
{
}
pub trait ReciprocalArg: MultiplyArg + Saturating {}
impl<T: MultiplyArg + Saturating> ReciprocalArg for T {}

pub trait PerThing:
    Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + Debug + ops::Div<Output = Self> + ops::Mul<Output = Self>
    + Pow<usize, Output = Self>
{
    type Inner: crate::traits::BaseArithmetic + Unsigned + Copy + Into<u128> + Debug + crate::rational::MultiplyRational;
    type Upper: crate::traits::BaseArithmetic + Copy + From<Self::Inner> + TryInto<Self::Inner> + UniqueSaturatedInto<Self::Inner> + Unsigned + Debug;
    const ACCURACY: Self::Inner;

    fn zero() -> Self { Self::from_parts(Self::Inner::zero()) }
    fn is_zero(&self) -> bool { self.deconstruct() == Self::Inner::zero() }
    fn one() -> Self { Self::from_parts(Self::ACCURACY) }
    fn is_one(&self) -> bool { self.deconstruct() == Self::ACCURACY }
    fn less_epsilon(self) -> Self {
        if self.is_zero() { return self; }
        Self::from_parts(self.deconstruct() - One::one())
    }
    fn plus_epsilon(self) -> Self {
        if self.is_one() { return self; }
        Self::from_parts(self.deconstruct() + One::one())
    }
    fn from_percent(x: Self::Inner) -> Self {
        let a: Self::Inner = x.min(100.into());
        let b: Self::Inner = 100.into();
        Self::from_rational::<Self::Inner>(a, b)
    }
    fn square(self) -> Self {
        let p = Self::Upper::from(self.deconstruct());
        let q = Self::Upper::from(Self::ACCURACY);
        Self::from_rational::<Self::Upper>(p * p, q * q)
    }
    fn left_from_one(self) -> Self { Self::one().saturating_sub(self) }
    fn mul_floor<N>(self, b: N) -> N
    where
        N: MultiplyArg + UniqueSaturatedInto<Self::Inner>,
        Self::Inner: Into<N>,
    {
        overflow_prune_mul::<N, Self>(b, self.deconstruct(), Rounding::Down)
    }
    fn mul_ceil<N>(self, b: N) -> N
    where
        N: MultiplyArg + UniqueSaturatedInto<Self::Inner>,
        Self::Inner: Into<N>,
    {
        overflow_prune_mul::<N, Self>(b, self.deconstruct(), Rounding::Up)
    }
    fn saturating_reciprocal_mul<N>(self, b: N) -> N
    where
        N: ReciprocalArg + UniqueSaturatedInto<Self::Inner>,
        Self::Inner: Into<N>,
    {
        saturating_reciprocal_mul::<N, Self>(b, self.deconstruct(), Rounding::NearestPrefUp)
    }
    fn saturating_reciprocal_mul_floor<N>(self, b: N) -> N
    where
        N: ReciprocalArg + UniqueSaturatedInto<Self::Inner>,
        Self::Inner: Into<N>,
    {
        saturating_reciprocal_mul::<N, Self>(b, self.deconstruct(), Rounding::Down)
    }
    fn saturating_reciprocal_mul_ceil<N>(self, b: N) -> N
    where
        N: ReciprocalArg + UniqueSaturatedInto<Self::Inner>,
        Self::Inner: Into<N>,
    {
        saturating_reciprocal_mul::<N, Self>(b, self.deconstruct(), Rounding::Up)
    }
    fn deconstruct(self) -> Self::Inner;
    fn from_parts(parts: Self::Inner) -> Self;
    fn from_float(x: f64) -> Self;
    fn from_rational<N>(p: N, q: N) -> Self
    where
        N: RationalArg + TryInto<Self::Inner> + TryInto<Self::Upper>,
        Self::Inner: Into<N>,
    {
        Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| Self::one())
    }
    fn from_rational_with_rounding<N>(p: N, q: N, rounding: Rounding) -> Result<Self, ()>
    where
        N: RationalArg + TryInto<Self::Inner> + TryInto<Self::Upper>,
        Self::Inner: Into<N>;
}

fn rational_mul_correction<N, P>(x: N, numerator: P::Inner, denominator: P::Inner, rounding: Rounding) -> N
where
    N: MultiplyArg + UniqueSaturatedInto<P::Inner>,
    P: PerThing,
    P::Inner: Into<N>,
{
    let numer_upper = P::Upper::from(numerator);
    let denom_n: N = denominator.into();
    let denom_upper = P::Upper::from(denominator);
    let rem = x.rem(denom_n);
    let rem_inner = rem.saturated_into::<P::Inner>();
    let rem_mul_upper = P::Upper::from(rem_inner) * numer_upper;
    let mut out = (rem_mul_upper / denom_upper).saturated_into::<P::Inner>();
    match rounding {
        Rounding::Down => {}
        Rounding::Up => {
            if rem_mul_upper % denom_upper > 0u8.into() { out += 1u8.into() }
        }
        Rounding::NearestPrefDown => {
            if rem_mul_upper % denom_upper > denom_upper / 2u8.into() { out += 1u8.into() }
        }
        Rounding::NearestPrefUp => {
            if rem_mul_upper % denom_upper >= denom_upper / 2u8.into() + denom_upper % 2u8.into() { out += 1u8.into() }
        }
    }
    out.into()
}
fn overflow_prune_mul<N, P>(x: N, part: P::Inner, rounding: Rounding) -> N
where
    N: MultiplyArg + UniqueSaturatedInto<P::Inner>,
    P: PerThing,
    P::Inner: Into<N>,
{
    let maximum: N = P::ACCURACY.into();
    let part_n: N = part.into();
    let corr = rational_mul_correction::<N, P>(x.clone(), part, P::ACCURACY, rounding);
    (x / maximum) * part_n + corr
}
fn saturating_reciprocal_mul<N, P>(x: N, part: P::Inner, rounding: Rounding) -> N
where
    N: ReciprocalArg + UniqueSaturatedInto<P::Inner>,
    P: PerThing,
    P::Inner: Into<N>,
{
    let maximum: N = P::ACCURACY.into();
    let c = rational_mul_correction::<N, P>(x.clone(), P::ACCURACY, part, rounding);
    (x / part.into()).saturating_mul(maximum).saturating_add(c)
}
fn div_rounded<N>(n: N, d: N, r: Rounding) -> N
where
    N: Clone + Ord + Zero + One + AddAssign + Add<Output = N> + Rem<Output = N> + Div<Output = N>,
{
    let mut o = n.clone() / d.clone();
    let two = || N::one() + N::one();
    if match r {
        Rounding::Up => !((n % d).is_zero()),
        Rounding::NearestPrefDown => {
            let rem = n % d.clone();
            rem > d / two()
        }
        Rounding::NearestPrefUp => {
            let rem = n % d.clone();
            rem >= d.clone() / two() + d % two()
        }
        Rounding::Down => false,
    } {
        o += N::one()
    }
    o
}

macro_rules! implement_per_thing {
    ($name:ident, $max:expr, $type:ty, $upper:ty) => {
        #[derive(Encode, Decode, Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, MaxEncodedLen, TypeInfo, Hash, serde::Serialize, serde::Deserialize)]
        pub struct $name($type);
        impl CompactAs for $name {
            type As = $type;
            fn encode_as(&self) -> &Self::As { &self.0 }
            fn decode_from(x: Self::As) -> Result<Self, codec::Error> { Ok(Self::from_parts(x)) }
        }
        impl From<codec::Compact<$name>> for $name {
            fn from(x: codec::Compact<$name>) -> $name { x.0 }
        }
        impl PerThing for $name {
            type Inner = $type;
            type Upper = $upper;
            const ACCURACY: $type = $max;
            fn deconstruct(self) -> $type { self.0 }
            fn from_parts(parts: $type) -> Self { Self(if parts > $max { $max } else { parts }) }
            fn from_float(x: f64) -> Self { Self((x.max(0.0).min(1.0) * $max as f64) as $type) }
            fn from_rational_with_rounding<N>(p: N, q: N, r: Rounding) -> Result<Self, ()>
            where
                N: RationalArg + TryInto<$type> + TryInto<$upper>,
                $type: Into<N>,
            {
                if q.is_zero() { return Err(()); }
                if p > q { return Err(()); }
                let max: N = <$type as Into<N>>::into($max);
                let factor = div_rounded::<N>(q.clone(), max, Rounding::Up).max(One::one());
                let q_reduce: $type = div_rounded(q, factor.clone(), r).try_into().map_err(|_| ())?;
                let p_reduce: $type = div_rounded(p, factor, r).try_into().map_err(|_| ())?;
                let n = (p_reduce as $upper) * (<$upper>::from($max));
                let d = q_reduce as $upper;
                let part = div_rounded(n, d, r);
                Ok($name(part as $type))
            }
        }
        impl $name {
            pub const fn from_parts(parts: $type) -> Self { Self(if parts > $max { $max } else { parts }) }
            pub const fn from_percent(x: $type) -> Self { Self(((if x > 100 { 100 } else { x }) as $upper * ($max as $upper) / 100 as $upper) as $type) }
            pub fn from_perthousand(x: $type) -> Self { Self::from_rational(x as $upper, 1000 as $upper) }
            pub const fn one() -> Self { Self($max) }
            pub fn is_one(&self) -> bool { self.0 == $max }
            pub const fn zero() -> Self { Self(0) }
            pub fn is_zero(&self) -> bool { self.0 == 0 }
            pub const fn deconstruct(self) -> $type { self.0 }
            pub fn square(self) -> Self { PerThing::square(self) }
            pub fn from_float(x: f64) -> Self { <Self as PerThing>::from_float(x) }
            pub fn from_rational<N>(p: N, q: N) -> Self
            where
                N: RationalArg + TryInto<$type> + TryInto<$upper>,
                $type: Into<N>,
            {
                <Self as PerThing>::from_rational(p, q)
            }
            pub fn int_mul(self, b: $type) -> Self { PerThing::from_parts(self.0.saturating_mul(b)) }
            pub fn int_div(self, b: Self) -> $type { if b.0 == 0 { 0 } else { self.0 / b.0 } }
            pub fn mul_floor<N>(self, b: N) -> N
            where N: MultiplyArg + UniqueSaturatedInto<$type>, $type: Into<N>,
            { PerThing::mul_floor(self, b) }
            pub fn mul_ceil<N>(self, b: N) -> N
            where N: MultiplyArg + UniqueSaturatedInto<$type>, $type: Into<N>,
            { PerThing::mul_ceil(self, b) }
            pub fn left_from_one(self) -> Self { PerThing::left_from_one(self) }
            pub fn saturating_reciprocal_mul<N>(self, b: N) -> N
            where N: ReciprocalArg + UniqueSaturatedInto<$type>, $type: Into<N>,
            { PerThing::saturating_reciprocal_mul(self, b) }
            pub fn saturating_reciprocal_mul_floor<N>(self, b: N) -> N
            where N: ReciprocalArg + UniqueSaturatedInto<$type>, $type: Into<N>,
            { PerThing::saturating_reciprocal_mul_floor(self, b) }
        }
        impl Saturating for $name {
            fn saturating_add(self, rhs: Self) -> Self { Self::from_parts(self.0.saturating_add(rhs.0)) }
            fn saturating_sub(self, rhs: Self) -> Self { Self::from_parts(self.0.saturating_sub(rhs.0)) }
            fn saturating_mul(self, rhs: Self) -> Self { self * rhs }
            fn saturating_pow(self, exp: usize) -> Self { self.pow(exp) }
        }
        impl Bounded for $name {
            fn min_value() -> Self { Self(0) }
            fn max_value() -> Self { Self($max) }
        }
        impl ops::Div for $name {
            type Output = Self;
            fn div(self, rhs: Self) -> Self { Self::from_rational(self.0, rhs.0) }
        }
        impl ops::Mul for $name {
            type Output = Self;
            fn mul(self, rhs: Self) -> Self {
                let a = self.0 as $upper;
                let b = rhs.0 as $upper;
                let m = <$upper>::from($max);
                Self::from_parts((a * b / m) as $type)
            }
        }
        impl Pow<usize> for $name {
            type Output = Self;
            fn pow(mut self, mut exp: usize) -> Self {
                if exp == 0 || self.is_one() { return Self::one(); }
                let mut result = Self::one();
                while exp > 0 {
                    if exp & 1 != 0 { result = result * self; }
                    exp >>= 1;
                    if exp > 0 { self = self * self; }
                }
                result
            }
        }
        impl ops::Add for $name {
            type Output = Self;
            fn add(self, rhs: Self) -> Self { Self::from_parts(self.0 + rhs.0) }
        }
        impl CheckedAdd for $name {
            fn checked_add(&self, rhs: &Self) -> Option<Self> {
                self.0.checked_add(rhs.0).and_then(|p| if p > $max { None } else { Some(Self(p)) })
            }
        }
        impl ops::Sub for $name {
            type Output = Self;
            fn sub(self, rhs: Self) -> Self { Self::from_parts(self.0.sub(rhs.0)) }
        }
        impl CheckedSub for $name {
            fn checked_sub(&self, v: &Self) -> Option<Self> { self.0.checked_sub(v.0).map(Self::from_parts) }
        }
        impl CheckedMul for $name {
            fn checked_mul(&self, rhs: &Self) -> Option<Self> { Some(*self * *rhs) }
        }
        impl CheckedDiv for $name {
            fn checked_div(&self, rhs: &Self) -> Option<Self> { if rhs.0 == 0 { None } else { Some(*self / *rhs) } }
        }
        impl num_traits::SaturatingAdd for $name {
            fn saturating_add(&self, v: &Self) -> Self { Self::from_parts(self.0.saturating_add(v.0)) }
        }
        impl num_traits::SaturatingSub for $name {
            fn saturating_sub(&self, v: &Self) -> Self { Self::from_parts(self.0.saturating_sub(v.0)) }
        }
        impl Zero for $name {
            fn zero() -> Self { Self(0) }
            fn is_zero(&self) -> bool { self.0 == 0 }
        }
        impl One for $name {
            fn one() -> Self { Self($max) }
        }
        impl<N> ops::Mul<N> for $name
        where
            N: MultiplyArg + UniqueSaturatedInto<$type>,
            $type: Into<N>,
        {
            type Output = N;
            fn mul(self, b: N) -> N { overflow_prune_mul::<N, Self>(b, self.deconstruct(), Rounding::NearestPrefDown) }
        }
        impl<N> ops::Div<N> for $name
        where
            $type: TryFrom<N>,
        {
            type Output = Self;
            fn div(self, b: N) -> Self {
                <$type>::try_from(b).map_or(Self::zero(), |d| Self::from_parts(self.0 / d))
            }
        }
        impl Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}({}/{})", stringify!($name), self.0, $max)
            }
        }
        #[allow(dead_code)]
        const _: fn() = || {
            fn a<T: RemAssign>() {}
            a::<$type>();
        };
    };
}
implement_per_thing!(Percent, 100u8, u8, u16);
implement_per_thing!(PerU16, 65535u16, u16, u32);
implement_per_thing!(Permill, 1_000_000u32, u32, u64);
implement_per_thing!(Perbill, 1_000_000_000u32, u32, u64);
implement_per_thing!(Perquintill, 1_000_000_000_000_000_000u64, u64, u128);
