use crate::ArithmeticError;
pub use num_traits::{
    checked_pow, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub, One, Signed,
    Unsigned, Zero,
};
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Rem, RemAssign, Shl, Shr, Sub, SubAssign};

pub trait IntegerSquareRoot: Sized {
    fn integer_sqrt(&self) -> Self
    where
        Self: Sized,
    {
        self.integer_sqrt_checked().expect("cannot calculate square root of negative number")
    }
    fn integer_sqrt_checked(&self) -> Option<Self>;
}
macro_rules! isqrt { ($($t:ty),*) => {$(impl IntegerSquareRoot for $t {
    #[allow(unused_comparisons)]
    fn integer_sqrt_checked(&self) -> Option<Self> {
        if *self < 0 { return None; }
        Some(crate::helpers_128bit::sqrt(*self as u128) as $t)
    }
})*} }
isqrt!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

pub trait BaseArithmetic:
    From<u8> + Zero + One + IntegerSquareRoot + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
    + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self>
    + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv
    + CheckedRem + CheckedNeg + Ensure + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone
    + TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64>
    + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
    + UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
    + UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
    + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
impl<T> BaseArithmetic for T where
    T: From<u8> + Zero + One + IntegerSquareRoot + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
        + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self>
        + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv
        + CheckedRem + CheckedNeg + Ensure + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone
        + TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64>
        + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
        + UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
        + UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
        + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
pub use codec::HasCompact;

pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

pub trait UniqueSaturatedFrom<T: Sized>: Sized {
    fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
    fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
    fn unique_saturated_from(t: T) -> Self {
        S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
    }
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
    fn unique_saturated_into(self) -> T {
        self.try_into().unwrap_or_else(|_| Bounded::max_value())
    }
}

pub trait SaturatedConversion {
    fn saturated_from<T>(t: T) -> Self
    where
        Self: UniqueSaturatedFrom<T>,
    {
        <Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
    }
    fn saturated_into<T>(self) -> T
    where
        Self: UniqueSaturatedInto<T>,
    {
        <Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
    }
}
impl<T: Sized> SaturatedConversion for T {}

pub trait Saturating {
    fn saturating_add(self, rhs: Self) -> Self;
    fn saturating_sub(self, rhs: Self) -> Self;
    fn saturating_mul(self, rhs: Self) -> Self;
    fn saturating_pow(self, exp: usize) -> Self;
    fn saturating_less_one(self) -> Self
    where
        Self: One,
    {
        self.saturating_sub(One::one())
    }
    fn saturating_plus_one(self) -> Self
    where
        Self: One,
    {
        self.saturating_add(One::one())
    }
    fn saturating_inc(&mut self)
    where
        Self: One,
    {
        let mut o = Self::one();
        std::mem::swap(&mut o, self);
        *self = o.saturating_add(One::one());
    }
    fn saturating_dec(&mut self)
    where
        Self: One,
    {
        let mut o = Self::one();
        std::mem::swap(&mut o, self);
        *self = o.saturating_sub(One::one());
    }
    fn saturating_accrue(&mut self, amount: Self)
    where
        Self: One,
    {
        let mut o = Self::one();
        std::mem::swap(&mut o, self);
        *self = o.saturating_add(amount);
    }
    fn saturating_reduce(&mut self, amount: Self)
    where
        Self: One,
    {
        let mut o = Self::one();
        std::mem::swap(&mut o, self);
        *self = o.saturating_sub(amount);
    }
}
impl<T: Clone + Zero + One + PartialOrd + CheckedMul + Bounded + num_traits::Saturating> Saturating for T {
    fn saturating_add(self, o: Self) -> Self {
        <Self as num_traits::Saturating>::saturating_add(self, o)
    }
    fn saturating_sub(self, o: Self) -> Self {
        <Self as num_traits::Saturating>::saturating_sub(self, o)
    }
    fn saturating_mul(self, o: Self) -> Self {
        self.checked_mul(&o).unwrap_or_else(|| {
            if (self < T::zero()) != (o < T::zero()) { Bounded::min_value() } else { Bounded::max_value() }
        })
    }
    fn saturating_pow(self, exp: usize) -> Self {
        let neg = self < T::zero() && exp % 2 != 0;
        checked_pow(self, exp).unwrap_or_else(|| if neg { Bounded::min_value() } else { Bounded::max_value() })
    }
}

pub trait CheckedSubEx {}

fn err<N: PartialOrd + Zero>(lhs_neg: bool, rhs_neg: bool) -> ArithmeticError {
    if lhs_neg != rhs_neg { ArithmeticError::Underflow } else { ArithmeticError::Overflow }
}
fn neg<N: PartialOrd + Zero>(n: &N) -> bool {
    *n < N::zero()
}

pub trait EnsureAdd: CheckedAdd + PartialOrd + Zero + Copy {
    fn ensure_add(self, v: Self) -> Result<Self, ArithmeticError> {
        self.checked_add(&v).ok_or_else(|| if neg(&v) { ArithmeticError::Underflow } else { ArithmeticError::Overflow })
    }
}
pub trait EnsureSub: CheckedSub + PartialOrd + Zero + Copy {
    fn ensure_sub(self, v: Self) -> Result<Self, ArithmeticError> {
        self.checked_sub(&v).ok_or_else(|| if neg(&v) { ArithmeticError::Overflow } else { ArithmeticError::Underflow })
    }
}
pub trait EnsureMul: CheckedMul + PartialOrd + Zero + Copy {
    fn ensure_mul(self, v: Self) -> Result<Self, ArithmeticError> {
        self.checked_mul(&v).ok_or_else(|| err::<Self>(neg(&self), neg(&v)))
    }
}
pub trait EnsureDiv: CheckedDiv + PartialOrd + Zero + Copy {
    fn ensure_div(self, v: Self) -> Result<Self, ArithmeticError> {
        self.checked_div(&v)
            .ok_or_else(|| if v.is_zero() { ArithmeticError::DivisionByZero } else { err::<Self>(neg(&self), neg(&v)) })
    }
}
impl<T: CheckedAdd + PartialOrd + Zero + Copy> EnsureAdd for T {}
impl<T: CheckedSub + PartialOrd + Zero + Copy> EnsureSub for T {}
impl<T: CheckedMul + PartialOrd + Zero + Copy> EnsureMul for T {}
impl<T: CheckedDiv + PartialOrd + Zero + Copy> EnsureDiv for T {}
pub trait EnsureAddAssign: EnsureAdd {
    fn ensure_add_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
        *self = self.ensure_add(v)?;
        Ok(())
    }
}
impl<T: EnsureAdd> EnsureAddAssign for T {}
pub trait EnsureSubAssign: EnsureSub {
    fn ensure_sub_assign(&mut self, v: Self) -> Result<(), ArithmeticError> {
        *self = self.ensure_sub(v)?;
        Ok(())
    }
}
impl<T: EnsureSub> EnsureSubAssign for T {}
pub trait Ensure {}
impl<T> Ensure for T {}
pub trait EnsureFrom<T: PartialOrd + Zero>: TryFrom<T> + PartialOrd + Zero {
    fn ensure_from(other: T) -> Result<Self, ArithmeticError> {
        let n = other < T::zero();
        Self::try_from(other).map_err(|_| if n { ArithmeticError::Underflow } else { ArithmeticError::Overflow })
    }
}
pub trait EnsureInto<T: PartialOrd + Zero>: TryInto<T> + PartialOrd + Zero {
    fn ensure_into(self) -> Result<T, ArithmeticError> {
        let n = self < Self::zero();
        self.try_into().map_err(|_| if n { ArithmeticError::Underflow } else { ArithmeticError::Overflow })
    }
}
impl<T: TryFrom<S> + PartialOrd + Zero, S: PartialOrd + Zero> EnsureFrom<S> for T {}
impl<T: TryInto<S> + PartialOrd + Zero, S: PartialOrd + Zero> EnsureInto<S> for T {}

#[allow(dead_code)]
fn _dbg<T: Debug>() {}
