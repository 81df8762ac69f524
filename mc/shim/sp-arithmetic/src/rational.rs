use crate::{helpers_128bit, per_things::Rounding};
use primitive_types::U256;
use std::cmp::Ordering;

pub trait MultiplyRational: Sized {
    fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self>;
}
macro_rules! imr { ($($t:ty),*) => {$(impl MultiplyRational for $t {
    fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self> {
        helpers_128bit::multiply_by_rational_with_rounding(self as u128, n as u128, d as u128, r).and_then(|x| <$t>::try_from(x).ok())
    }
})*} }
imr!(u8, u16, u32, u64, u128);

#[derive(Clone, Copy, Default, Eq, Debug)]
pub struct Rational128(u128, u128);
impl Rational128 {
    pub fn zero() -> Self { Self(0, 1) }
    pub fn one() -> Self { Self(1, 1) }
    pub fn is_zero(&self) -> bool { self.0 == 0 }
    pub fn from(n: u128, d: u128) -> Self { Self(n, d.max(1)) }
    pub const fn from_unchecked(n: u128, d: u128) -> Self { Self(n, d) }
    pub fn n(&self) -> u128 { self.0 }
    pub fn d(&self) -> u128 { self.1 }
    fn key(&self, o: &Self) -> (U256, U256) {
        (U256::from(self.0) * U256::from(o.1), U256::from(o.0) * U256::from(self.1))
    }
}
impl PartialEq for Rational128 {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = self.key(o);
        a == b
    }
}
impl PartialOrd for Rational128 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Rational128 {
    fn cmp(&self, o: &Self) -> Ordering {
        let (a, b) = self.key(o);
        a.cmp(&b)
    }
}
#[derive(Clone, Default, Eq, PartialEq, Debug)]
pub struct RationalInfinite(());
