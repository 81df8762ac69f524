//! Stand-in for `sp-arithmetic` (polkadot-sdk 1.7 semantics), written for this harness.
//! Its faithfulness is checked by running the repository's own unit tests against it
//! (see /verif/DESIGN.md, "Binding the substrate to the code").
pub mod fixed_point;
pub mod helpers_128bit;
pub mod per_things;
pub mod rational;
pub mod traits;

pub use fixed_point::{FixedI128, FixedI64, FixedPointNumber, FixedPointOperand, FixedU128, FixedU64};
pub use per_things::{
    InnerOf, MultiplyArg, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, RationalArg, ReciprocalArg,
    Rounding, SignedRounding, UpperOf,
};
pub use rational::{MultiplyRational, Rational128, RationalInfinite};

use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
    Underflow,
    Overflow,
    DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
    fn from(e: ArithmeticError) -> &'static str {
        match e {
            ArithmeticError::Underflow => "An underflow would occur",
            ArithmeticError::Overflow => "An overflow would occur",
            ArithmeticError::DivisionByZero => "Division by zero",
        }
    }
}

#[macro_export]
macro_rules! assert_eq_error_rate {
    ($x:expr, $y:expr, $error:expr $(,)?) => {
        assert!(
            ($x >= $crate::traits::Saturating::saturating_sub($y, $error))
                && ($x <= $crate::traits::Saturating::saturating_add($y, $error)),
            "{:?} != {:?} (with error rate {:?})",
            $x,
            $y,
            $error,
        );
    };
}
pub mod biguint {
    pub type BigUint = primitive_types::U256;
}
