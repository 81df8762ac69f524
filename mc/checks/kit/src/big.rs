//! Exact arithmetic for the reference computations.
#![allow(clippy::all)]
uint::construct_uint! { pub struct U2048(32); }
pub type B = U2048;
pub fn b(x: u128) -> B { B::from(x) }
pub fn to_u128(x: B) -> Option<u128> { if x > b(u128::MAX) { None } else { Some(x.as_u128()) } }
pub fn div_ceil(n: B, d: B) -> B { let (q, r) = n.div_mod(d); if r.is_zero() { q } else { q + B::one() } }
/// floor(n-th root): exact integer square root
pub fn isqrt(n: B) -> B {
    if n.is_zero() { return n }
    let mut x = B::one() << ((n.bits() + 1) / 2);
    loop { let y = (x + n / x) >> 1; if y >= x { return x } x = y; }
}
pub fn from256(x: primitive_types::U256) -> B { let mut v=[0u8;32]; x.to_little_endian(&mut v); B::from_little_endian(&v) }
