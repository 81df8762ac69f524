//! `SmallVec` as a plain vector.
pub extern crate alloc;
pub type SmallVec<A> = Vec<<A as Array>::Item>;
pub trait Array { type Item; }
impl<T, const N: usize> Array for [T; N] { type Item = T; }
#[macro_export]
macro_rules! smallvec { ($($t:tt)*) => { vec![$($t)*] } }
