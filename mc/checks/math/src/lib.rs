//! Exhaustive enumeration of the numeric kernel (`hydra-dx-math`) over bounded domains against exact
//! big-integer references.
#![allow(clippy::all)]
pub mod util;
pub mod xyk;
pub mod stableswap;
pub mod omnipool;
pub mod lbp;
pub mod spot;
pub mod num;
pub mod misc;
