use crate::per_things::Rounding;
use primitive_types::U256;

pub fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// `(a * b) / c` with the given rounding; `None` if `c` is zero or the result does not fit.
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
    if c == 0 {
        return None;
    }
    let (q, rem): (u128, u128) = match a.checked_mul(b) {
        Some(p) => (p / c, p % c),
        None => {
            let p = U256::from(a) * U256::from(b);
            let (q, rem) = p.div_mod(U256::from(c));
            if q > U256::from(u128::MAX) {
                return None;
            }
            (q.as_u128(), rem.as_u128())
        }
    };
    let bump = match r {
        Rounding::Up => rem > 0,
        Rounding::NearestPrefUp => rem >= c / 2 + c % 2,
        Rounding::NearestPrefDown => rem > c / 2,
        Rounding::Down => false,
    };
    if bump { q.checked_add(1) } else { Some(q) }
}

pub const fn sqrt(mut n: u128) -> u128 {
    if n == 0 {
        return 0;
    }
    let max_zeros = if n.leading_zeros() % 2 == 0 { n.leading_zeros() } else { n.leading_zeros() - 1 };
    let mut bit = 1u128 << (126 - max_zeros);
    let mut result = 0u128;
    while bit != 0 {
        if n >= result + bit {
            n -= result + bit;
            result = (result >> 1) + bit;
        } else {
            result >>= 1;
        }
        bit >>= 2;
    }
    result
}

/// Stand-in for `biguint::BigUint` as far as products of two `u128` are compared.
pub fn to_big_uint(x: u128) -> U256 {
    U256::from(x)
}
