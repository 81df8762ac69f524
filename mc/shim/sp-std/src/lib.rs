//! Stand-in for `sp-std` (std flavour): re-exports only.
#[macro_export]
macro_rules! if_std { ( $( $code:tt )* ) => { $( $code )* } }
#[macro_export]
macro_rules! map {
    ($( $name:expr => $value:expr ),* $(,)? ) => ( vec![ $( ( $name, $value ) ),* ].into_iter().collect() );
}
pub use std::{alloc, any, ascii, borrow, boxed, cell, clone, cmp, convert, default, error, fmt, future, hash, hint, iter, marker, mem, num, ops, option, pin, ptr, rc, result, slice, str, string, sync, task, time, vec, format};
pub mod collections {
    pub use std::collections::{btree_map, btree_set, vec_deque, BTreeMap, BTreeSet, VecDeque};
}
pub use std::any::TypeId;
pub mod prelude {
    pub use std::{borrow::ToOwned, boxed::Box, clone::Clone, cmp::{Eq, PartialEq, Reverse}, iter::IntoIterator, vec, vec::Vec};
}
pub trait Writer {}
