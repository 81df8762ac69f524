use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::ops::*;
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, Hash, serde::Serialize, serde::Deserialize)]
pub struct Weight {
    #[codec(compact)]
    pub(crate) ref_time: u64,
    #[codec(compact)]
    pub(crate) proof_size: u64,
}
impl Weight {
    pub const MAX: Self = Self { ref_time: u64::MAX, proof_size: u64::MAX };
    pub const fn zero() -> Self { Self { ref_time: 0, proof_size: 0 } }
    pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self { Self { ref_time, proof_size } }
    pub const fn from_ref_time(ref_time: u64) -> Self { Self { ref_time, proof_size: 0 } }
    pub const fn from_all(v: u64) -> Self { Self { ref_time: v, proof_size: v } }
    pub const fn ref_time(&self) -> u64 { self.ref_time }
    pub fn proof_size_mut(&mut self) -> &mut u64 { &mut self.proof_size }
    pub fn ref_time_mut(&mut self) -> &mut u64 { &mut self.ref_time }
    pub const fn proof_size(&self) -> u64 { self.proof_size }
    pub const fn set_ref_time(mut self, c: u64) -> Self { self.ref_time = c; self }
    pub const fn set_proof_size(mut self, c: u64) -> Self { self.proof_size = c; self }
    pub const fn saturating_add(self, r: Self) -> Self { Self { ref_time: self.ref_time.saturating_add(r.ref_time), proof_size: self.proof_size.saturating_add(r.proof_size) } }
    pub const fn saturating_sub(self, r: Self) -> Self { Self { ref_time: self.ref_time.saturating_sub(r.ref_time), proof_size: self.proof_size.saturating_sub(r.proof_size) } }
    pub const fn saturating_mul(self, s: u64) -> Self { Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) } }
    pub const fn saturating_div(self, s: u64) -> Self { Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s } }
    pub fn saturating_accrue(&mut self, a: Self) { *self = self.saturating_add(a) }
    pub fn saturating_reduce(&mut self, a: Self) { *self = self.saturating_sub(a) }
    pub fn min(self, o: Self) -> Self { Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) } }
    pub fn max(self, o: Self) -> Self { Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) } }
    pub fn checked_add(&self, r: &Self) -> Option<Self> { Some(Self { ref_time: self.ref_time.checked_add(r.ref_time)?, proof_size: self.proof_size.checked_add(r.proof_size)? }) }
    pub fn checked_sub(&self, r: &Self) -> Option<Self> { Some(Self { ref_time: self.ref_time.checked_sub(r.ref_time)?, proof_size: self.proof_size.checked_sub(r.proof_size)? }) }
    pub fn checked_div_per_component(self, o: &Self) -> Option<u64> { Some((self.ref_time.checked_div(o.ref_time)?).min(self.proof_size.checked_div(o.proof_size)?)) }
    pub const fn all_gt(self, o: Self) -> bool { self.ref_time > o.ref_time && self.proof_size > o.proof_size }
    pub const fn any_gt(self, o: Self) -> bool { self.ref_time > o.ref_time || self.proof_size > o.proof_size }
    pub const fn all_lt(self, o: Self) -> bool { self.ref_time < o.ref_time && self.proof_size < o.proof_size }
    pub const fn any_lt(self, o: Self) -> bool { self.ref_time < o.ref_time || self.proof_size < o.proof_size }
    pub const fn all_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time && self.proof_size >= o.proof_size }
    pub const fn all_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time && self.proof_size <= o.proof_size }
    pub fn is_zero(&self) -> bool { self.ref_time == 0 && self.proof_size == 0 }
}
impl From<u64> for Weight { fn from(r: u64) -> Self { Self { ref_time: r, proof_size: 0 } } }
impl sp_arithmetic::traits::Zero for Weight { fn zero() -> Self { Self::zero() } fn is_zero(&self) -> bool { Weight::is_zero(self) } }
impl Add for Weight { type Output = Self; fn add(self, r: Self) -> Self { Self { ref_time: self.ref_time + r.ref_time, proof_size: self.proof_size + r.proof_size } } }
impl Sub for Weight { type Output = Self; fn sub(self, r: Self) -> Self { Self { ref_time: self.ref_time - r.ref_time, proof_size: self.proof_size - r.proof_size } } }
impl<T: Copy> Mul<T> for Weight where u64: Mul<T, Output = u64> { type Output = Self; fn mul(self, b: T) -> Self { Self { ref_time: self.ref_time * b, proof_size: self.proof_size * b } } }
impl<T: Copy> Div<T> for Weight where u64: Div<T, Output = u64> { type Output = Self; fn div(self, b: T) -> Self { Self { ref_time: self.ref_time / b, proof_size: self.proof_size / b } } }
impl AddAssign for Weight { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl SubAssign for Weight { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
macro_rules! mulw { ($($t:ty),*) => { $(impl Mul<Weight> for $t { type Output = Weight; fn mul(self, w: Weight) -> Weight { w * (self as u64) } })* }; }
mulw!(u64);
impl Mul<Weight> for sp_arithmetic::Perbill { type Output = Weight; fn mul(self, w: Weight) -> Weight { Weight { ref_time: self * w.ref_time, proof_size: self * w.proof_size } } }
impl std::fmt::Display for Weight { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size) } }

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight { pub read: u64, pub write: u64 }
impl RuntimeDbWeight {
    pub fn reads(self, r: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r), 0) }
    pub fn writes(self, w: u64) -> Weight { Weight::from_parts(self.write.saturating_mul(w), 0) }
    pub fn reads_writes(self, r: u64, w: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0) }
}
pub mod constants {
    use super::*;
    pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
    pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
    pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
    pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
    pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
    pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
    pub struct RocksDbWeight;
    impl RocksDbWeight { pub fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 25_000 * 1_000, write: 100_000 * 1_000 } } }
    impl<I: From<RuntimeDbWeight>> crate::traits::Get<I> for RocksDbWeight { fn get() -> I { I::from(Self::get()) } }
    pub struct ParityDbWeight;
    impl ParityDbWeight { pub fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 8_000 * 1_000, write: 50_000 * 1_000 } } }
    impl<I: From<RuntimeDbWeight>> crate::traits::Get<I> for ParityDbWeight { fn get() -> I { I::from(Self::get()) } }
    pub struct ExtrinsicBaseWeight;
    impl ExtrinsicBaseWeight { pub fn get() -> Weight { Weight::from_parts(113_638 * 1_000, 0) } }
    impl<I: From<Weight>> crate::traits::Get<I> for ExtrinsicBaseWeight { fn get() -> I { I::from(Self::get()) } }
    pub struct BlockExecutionWeight;
    impl BlockExecutionWeight { pub fn get() -> Weight { Weight::from_parts(453_383 * 1_000, 0) } }
}
use sp_arithmetic::traits::{BaseArithmetic, SaturatedConversion, Saturating, Unsigned};
use sp_arithmetic::Perbill;
pub trait WeightToFee {
    type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
    fn weight_to_fee(w: &Weight) -> Self::Balance;
}
#[derive(Debug, Clone)]
pub struct WeightToFeeCoefficient<Balance> { pub coeff_integer: Balance, pub coeff_frac: Perbill, pub negative: bool, pub degree: u8 }
pub type WeightToFeeCoefficients<T> = Vec<WeightToFeeCoefficient<T>>;
pub trait WeightToFeePolynomial {
    type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
    fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
    type Balance = T::Balance;
    fn weight_to_fee(weight: &Weight) -> Self::Balance {
        Self::polynomial().iter().fold(Self::Balance::saturated_from(0u32), |mut acc, a| {
            let w = Self::Balance::saturated_from(weight.ref_time()).saturating_pow(a.degree.into());
            let frac = a.coeff_frac.deconstruct();
            let wf = (w / 1_000_000_000u32.into()).saturating_mul(frac.into()).saturating_add((w % 1_000_000_000u32.into()).saturating_mul(frac.into()) / 1_000_000_000u32.into());
            let integer = a.coeff_integer.saturating_mul(w);
            if a.negative { acc = acc.saturating_sub(wf); acc = acc.saturating_sub(integer); } else { acc = acc.saturating_add(wf); acc = acc.saturating_add(integer); }
            acc
        })
    }
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: crate::traits::Get<T>> WeightToFee for ConstantMultiplier<T, M> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()).saturating_mul(M::get()) } }
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for IdentityFee<T> {
    type Balance = T;
    fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()) }
}
pub struct FixedFee<const F: u32, T>(std::marker::PhantomData<T>);
pub type NoFee<T> = FixedFee<0, T>;
impl<const F: u32, T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for FixedFee<F, T> { type Balance = T; fn weight_to_fee(_: &Weight) -> T { F.into() } }
pub use crate::dispatch::{DispatchClass, Pays, DispatchInfo, PostDispatchInfo, GetDispatchInfo};
#[derive(Clone, Copy, Eq, PartialEq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct WeightMeter { consumed: Weight, limit: Weight }
impl WeightMeter {
    pub fn with_limit(limit: Weight) -> Self { Self { consumed: Weight::zero(), limit } }
    pub fn new() -> Self { Self::with_limit(Weight::MAX) }
    pub fn consumed(&self) -> Weight { self.consumed }
    pub fn remaining(&self) -> Weight { self.limit.saturating_sub(self.consumed) }
    pub fn can_consume(&self, w: Weight) -> bool { self.consumed.checked_add(&w).map_or(false, |t| t.all_lte(self.limit)) }
    pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> { if self.can_consume(w) { self.consumed += w; Ok(()) } else { Err(()) } }
    pub fn consume(&mut self, w: Weight) { self.consumed.saturating_accrue(w) }
}
