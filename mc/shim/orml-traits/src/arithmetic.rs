pub use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedShl, CheckedShr, CheckedSub, One, Signed, Zero};
use std::ops::*;
pub trait SimpleArithmetic: Zero + One + From<u8> + TryInto<u8> + From<u16> + TryInto<u16> + From<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128>
    + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self>
    + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + PartialOrd<Self> + Bounded + Sized {}
impl<T> SimpleArithmetic for T where T: Zero + One + From<u8> + TryInto<u8> + From<u16> + TryInto<u16> + From<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128>
    + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self>
    + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + PartialOrd<Self> + Bounded + Sized {}
