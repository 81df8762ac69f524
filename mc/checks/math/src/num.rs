use crate::util::*;
use fixed::types::{U1F127, U32F96, U64F64};
use hydra_dx_math::fraction;
use hydra_dx_math::ratio::Ratio;
use hydra_dx_math::support::rational::{round_to_rational, round_u512_to_rational, Rounding};
use hydra_dx_math::support::traits::*;
use hydra_dx_math::transcendental as t;
use hydra_dx_math::types::Fraction;
use primitive_types::{U256, U512};
use sp_arithmetic::FixedU128;
use std::cmp::Ordering;

// ---- exact-enough transcendental reference: fixed point with FB fractional bits ----
pub const FB: usize = 320;
fn one() -> B { B::one() << FB }
/// e^x for x >= 0 with FB fractional bits (error below 2^-250 relative for x < 100)
pub fn rexp(x: B) -> B {
    let k = 16;
    let y = x >> k;
    let (mut s, mut term) = (one(), one());
    for i in 1u128..400 { term = ((term * y) >> FB) / b(i); if term.is_zero() { break } s = s + term }
    for _ in 0..k { s = (s * s) >> FB }
    s
}
/// ln(n/d) for n >= d, FB fractional bits
pub fn rln(n: B, d: B) -> B {
    // ln z = 2 atanh((z-1)/(z+1)) after dividing by powers of two
    let (mut nn, mut k) = (n, 0u128);
    let mut dd = d;
    while nn >= dd << 1 { dd = dd << 1; k += 1 }
    let at = |n: B, d: B| -> B {
        let u = ((n - d) << FB) / (n + d);
        let u2 = (u * u) >> FB;
        let (mut s, mut p) = (B::zero(), u);
        for i in 0u128..600 { let a = p / b(2 * i + 1); if a.is_zero() { break } s = s + a; p = (p * u2) >> FB }
        s << 1
    };
    let ln2 = at(b(2), b(1));
    let _ = &mut nn;
    b(k) * ln2 + at(nn, dd)
}
fn absd(a: B, c: B) -> B { if a > c { a - c } else { c - a } }

macro_rules! operands { ($t:ty, $c:expr) => {{
    let one = <$t>::from_num(1).to_bits();
    let mut v: Vec<u128> = vec![1, 2, 3, 1 << 20, u64::MAX as u128, one - 1, one, one + 1, one * 2 - 1, one * 2, one * 2 + 1];
    for k in 1..$c.pick(200u128, 1200) { v.push(one / 64 * k) }
    for k in 1..60u128 { v.push(one / (k + 1)); v.push(one / 1000 * (1000 - k)); v.push(one + one / 1_000_000 * k) }
    for k in [5u128, 10, 16, 17, 100, 256, 1000, 12345, 1 << 20, 1 << 31] { if let Some(x) = one.checked_mul(k) { v.push(x); v.push(x - 1); v.push(x + one / 3) } }
    norm(v)
}}}

fn trans_for<S: fixed::traits::FixedUnsigned, D: Copy>(c: &Check, name: &str, ops: &[u128], exps: &[u128], frac_bits: usize, from: impl Fn(u128) -> S + Sync, out: impl Fn(D) -> B + Sync, log2: impl Fn(S) -> Result<(D, bool), ()> + Sync, ln: impl Fn(S) -> Result<(D, bool), ()> + Sync, exp: impl Fn(S, bool) -> Result<D, ()> + Sync, pow: impl Fn(S, S) -> Result<D, ()> + Sync, powi: impl Fn(S, u32) -> Result<D, ()> + Sync) {
    let onef = B::one() << frac_bits;
    let up = FB - frac_bits;
    let (w_log, w_ln, w_exp, w_expn, w_pow) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let m = |w: &AtomicU64, x: B| { w.fetch_max(x.min(b(u64::MAX as u128)).as_u64(), Relaxed); };
    let ln2 = rln(b(2), b(1));
    let nm = |s: &str| format!("{name}_{s}");
    let fits_inv = |x: B| (onef << frac_bits) / x < B::one() << 128;
    product(c, &nm("log"), &[ops], |p| {
        let x = p[0];
        let neg = b(x) < onef;
        let r = if neg { rln(onef, b(x)) } else { rln(b(x), onef) };
        for (which, got, want, w) in [("log2", log2(from(x)), (r << FB) / ln2, &w_log), ("ln", ln(from(x)), r, &w_ln)] {
            let n = nm(which);
            match got {
                Ok((g, sg)) => {
                    if sg != neg { bad(c, &n, "wrong sign", p, sg, neg) }
                    // the inverse of a small operand is itself rounded
                    let e = absd(out(g) << up, want) >> up;
                    let inv = if neg { (onef / b(x)).max(B::one()) } else { B::one() };
                    let _ = inv;
                    let tol = b(32) + if neg { b(4) * (onef / b(x) >> 2) / b(1).max(onef >> (frac_bits / 2)) } else { B::zero() } + if neg { (b(x).max(b(1)) / b(1)) >> frac_bits } else { B::zero() };
                    m(w, e);
                    if e > tol { bad(c, &n, "logarithm inaccurate", p, (out(g), e), want >> up) }
                }
                // an operand whose inverse does not fit may be refused
                Err(_) => if !neg || fits_inv(b(x)) { bad(c, &n, "refuses a positive operand", p, "", want >> up) },
            }
        }
        true
    });
    if log2(from(0)).is_ok() || ln(from(0)).is_ok() { bad(c, name, "logarithm of zero", &[], "", "") }
    product(c, &nm("exp"), &[exps, &[0, 1]], |p| {
        let neg = p[1] == 1;
        let n = nm("exp");
        let want = rexp(b(p[0]) << up);
        let fitbits = 128 - frac_bits;
        match exp(from(p[0]), neg) {
            Ok(g) => {
                let (g, want, w) = if neg { (out(g), (one() << FB) / want, &w_expn) } else { (out(g), want, &w_exp) };
                let e = absd(g << up, want) >> up;
                // relative error in units in the last place of the value
                let tol = b(16) + if neg { b(1) } else { (want >> FB) * b(16) };
                m(w, if neg { e } else { e / ((want >> FB) + b(1)) });
                if e > tol { bad(c, &n, "exponential inaccurate", p, (g, e), want >> up) }
                true
            }
            Err(_) => { if want >> FB < B::one() << (fitbits - 1) { let x = b(p[0]); let mx = x * x / onef; if mx < B::one() << 100 && want >> FB < B::one() << (fitbits - 2) && (p[0] >> frac_bits) < 6 { bad(c, &n, "refuses an exponential that fits", p, "", want >> up) } } false }
        }
    });
    product(c, &nm("pow"), &[ops, exps], |p| {
        let n = nm("pow");
        let (x, y) = (b(p[0]), b(p[1]));
        let neg = x < onef;
        let l = if neg { rln(onef, x) } else { rln(x, onef) };
        let e = (l * y) >> frac_bits;
        match pow(from(p[0]), from(p[1])) {
            Ok(g) => {
                if e >> FB > b(60) { if neg && out(g) > b(4000) { bad(c, &n, "power inaccurate", p, out(g), 0) } return true }
                let want = if neg { (one() << FB) / rexp(e) } else { rexp(e) };
                let err = absd(out(g) << up, want) >> up;
                // error of the logarithm scales with the exponent and the value
                let tol = b(100) + (((want >> up) * ((y >> (frac_bits - 4)) + b(20)) * b(30)) >> frac_bits) + if neg { (onef / x.max(b(1)) * b(40)) >> (frac_bits / 2) } else { B::zero() };
                m(&w_pow, err / ((want >> FB) + b(1)));
                if err > tol { bad(c, &n, "power inaccurate", p, (out(g), err), (want >> up, tol)) }
                true
            }
            Err(_) => { if e >> FB < b(4) && (!neg || fits_inv(x)) { bad(c, &n, "refuses a power that fits", p, "", e >> up) } false }
        }
    });
    let ns: Vec<u128> = c.pick(vec![0, 1, 2, 3, 4, 5, 7, 10, 31, 64], (0..130).collect());
    product(c, &nm("powi"), &[ops, &ns], |p| {
        let n = nm("powi");
        let got = powi(from(p[0]), p[1] as u32);
        // exact product, truncated at every step
        let mut want = if p[0] == 0 { B::zero() } else if p[1] == 0 { onef } else { b(p[0]) };
        let mut fits = true;
        if p[0] != 0 { for _ in 1..p[1].max(1) { want = (want * b(p[0])) >> frac_bits; if want >> 128 > B::zero() { fits = false; break } } }
        match got {
            Ok(g) => { if !fits || absd(out(g), want) > b(p[1]) { bad(c, &n, "integer power inaccurate", p, out(g), want) } true }
            Err(_) => { if fits { bad(c, &n, "refuses an integer power that fits", p, "", want) } false }
        }
    });
    for k in [0u128, 1, 7] { if pow(from(0), from(k)).map(|g| out(g)) != Ok(B::zero()) { bad(c, name, "power of zero", &[k], "", 0) } }
    c.section(&format!("{name}_worst_error_ulp"), json!({"log2": w_log.load(Relaxed), "ln": w_ln.load(Relaxed), "exp": w_exp.load(Relaxed), "exp_neg": w_expn.load(Relaxed), "pow": w_pow.load(Relaxed)}));
}

/// N12
pub fn transcendental(c: &Check) {
    let o64 = operands!(U64F64, c);
    let o32 = operands!(U32F96, c);
    let e64: Vec<u128> = { let one = 1u128 << 64; let mut v = vec![0, 1, one / 3, one - 1, one, one + 1]; for k in 1..c.pick(40, 200) { v.push(one / 8 * k) } v.push(one * 30); v.push(one * 43); norm(v) };
    let e32: Vec<u128> = { let one = 1u128 << 96; let mut v = vec![0, 1, one / 3, one - 1, one, one + 1]; for k in 1..c.pick(40, 160) { v.push(one / 8 * k) } v.push(one * 21); norm(v) };
    trans_for(c, "u64f64", &o64, &e64, 64, U64F64::from_bits, |d: U64F64| b(d.to_bits()), |s| t::log2::<U64F64, U64F64>(s), |s| t::ln::<U64F64, U64F64>(s), |s, n| t::exp::<U64F64, U64F64>(s, n), |s, e| t::pow::<U64F64, U64F64>(s, e), |s, e| t::powi::<U64F64, U64F64>(s, e));
    trans_for(c, "u32f96", &o32, &e32, 96, U32F96::from_bits, |d: U32F96| b(d.to_bits()), |s| t::log2::<U32F96, U32F96>(s), |s| t::ln::<U32F96, U32F96>(s), |s, n| t::exp::<U32F96, U32F96>(s, n), |s, e| t::pow::<U32F96, U32F96>(s, e), |s, e| t::powi::<U32F96, U32F96>(s, e));
    high_precision(c, "powi_high_precision");
}
/// (1 - k/2^127-ish)^n by squaring in exact fixed point
fn pow_exact(x: u128, n: u128) -> B {
    let mut r = one();
    let mut base = b(x) << (FB - 127);
    let mut e = n;
    while e > 0 { if e & 1 == 1 { r = (r * base) >> FB } base = (base * base) >> FB; e >>= 1 }
    r
}
fn high_precision(c: &Check, name: &str) {
    let div = 1u128 << 127;
    let mut xs = vec![0, 1, 2, div / 2, div / 3, div / 10 * 9, div - 1, div - 2, div];
    for k in 0..127 { xs.push(div - (1u128 << k)); xs.push(1u128 << k) }
    for k in 1..c.pick(60u128, 400) { xs.push(div - div / (k * k + 1)); xs.push(div / 400 * k) }
    let xs = norm(xs);
    let ns: Vec<u128> = join(&[&upto(c.pick(40, 300)), &powers(2, 2, u32::MAX as u128), &[1000, 7200, 14_400, 100_800, 1_000_000, u32::MAX as u128]]);
    let worst = AtomicU64::new(0);
    product(c, name, &[&xs, &ns], |p| {
        if p[1] > u32::MAX as u128 { return false }
        let got = t::saturating_powi_high_precision::<U1F127, U1F127>(U1F127::from_bits(p[0]), p[1] as u32).to_bits();
        // zero to the zero is zero here; the caller never asks
        let want = if p[0] == 0 { B::zero() } else { pow_exact(p[0], p[1]) };
        let e = absd(b(got) << (FB - 127), want) >> (FB - 127);
        worst.fetch_max(e.min(b(u64::MAX as u128)).as_u64(), Relaxed);
        // one truncation per multiplication, doubled at every squaring
        if e > b(4 * p[1] + 8) { bad(c, name, "power of a fraction inaccurate", p, (got, e), want >> (FB - 127)) }
        if got > div { bad(c, name, "power of a fraction above one", p, got, div) }
        true
    });
    c.section(&format!("{name}_worst_error_ulp"), json!(worst.load(Relaxed)));
}

fn b256(x: U256) -> B { kit::big::from256(x) }
fn b512(x: U512) -> B { let mut v = [0u8; 64]; x.to_little_endian(&mut v); B::from_little_endian(&v) }
fn check_round(c: &Check, name: &str, p: &[u128], (n, d): (B, B), r: Rounding, got: (u128, u128)) {
    let bits = n.bits().max(d.bits());
    let (gn, gd) = (b(got.0), b(got.1));
    if bits <= 128 { if (gn, gd) != (n, d) { bad(c, name, "changes a rational that fits", p, got, (n, d)) } return }
    if got.1 == 0 { bad(c, name, "zero denominator", p, got, (n, d)); return }
    if (got.0 == 0) != n.is_zero() && r != Rounding::Up { bad(c, name, "zero appears or vanishes", p, got, (n, d)); return }
    let sh = bits - 128;
    // both parts keep their leading 128 bits of the larger: within one unit
    let unit = B::one() << sh;
    let near = |g: B, x: B| (if (g << sh) > x { (g << sh) - x } else { x - (g << sh) }) <= unit;
    if !near(gn, n) || !near(gd, d) { bad(c, name, "loses more than the low bits", p, got, (n, d)) }
    if d.is_zero() { return }
    let tiny = (n >> sh).is_zero() || (d >> sh).is_zero();
    let edge = (n >> sh) == b(u128::MAX) || (d >> sh) == b(u128::MAX);
    match r {
        Rounding::Down => if !tiny && !edge && gn * d > n * gd { bad(c, name, "rounds up when asked to round down", p, got, (n, d)) },
        Rounding::Up => if !tiny && !edge && gn * d < n * gd { bad(c, name, "rounds down when asked to round up", p, got, (n, d)) },
        Rounding::Nearest => if !tiny && (gn != n >> sh || gd != d >> sh) { bad(c, name, "biased when asked for none", p, got, (n, d)) },
    }
}
/// N13
pub fn rational(c: &Check) {
    let rs = [Rounding::Nearest, Rounding::Down, Rounding::Up];
    let mant = |k: usize, j: u128, bits: usize| -> B { let k = k.min(bits - 1); let x = B::one() << k; let v = match j { 0 => x, 1 => x - B::one(), 2 => x + (x >> 1) + b(k as u128), _ => (x << 1) - B::one() }; v };
    let step = c.pick(3, 1);
    let k256: Vec<u128> = (0..256u128).filter(|k| *k % step == 0 || (118..140).contains(k) || *k > 250 || *k < 4).collect();
    let j4 = [0u128, 1, 2, 3];
    product(c, "round_to_rational", &[&k256, &k256, &j4, &j4, &[0, 1, 2]], |p| {
        let (n, d) = (mant(p[0] as usize, p[2], 256), mant(p[1] as usize, p[3], 256));
        let u = |x: B| { let mut v = [0u8; 256]; x.to_little_endian(&mut v); U256::from_little_endian(&v[..32]) };
        check_round(c, "round_to_rational", p, (n, d), rs[p[4] as usize], round_to_rational((u(n), u(d)), rs[p[4] as usize]));
        true
    });
    let k512: Vec<u128> = (0..512u128).filter(|k| *k % (step * 4) == 0 || (122..134).contains(k) || *k > 508 || *k < 3).collect();
    product(c, "round_u512_to_rational", &[&k512, &k512, &j4, &j4, &[0, 1, 2]], |p| {
        let (n, d) = (mant(p[0] as usize, p[2], 512), mant(p[1] as usize, p[3], 512));
        let u = |x: B| { let mut v = [0u8; 256]; x.to_little_endian(&mut v); U512::from_little_endian(&v[..64]) };
        check_round(c, "round_u512_to_rational", p, (n, d), rs[p[4] as usize], round_u512_to_rational((u(n), u(d)), rs[p[4] as usize]));
        let _ = b512;
        true
    });
    product(c, "rounding_bias", &[&[0, 1, 2, 77, u128::MAX], &[0, 1, 2]], |p| {
        let want = match p[1] { 0 => (0, 0), 1 => (0, p[0]), _ => (p[0], 0) };
        let got = rs[p[1] as usize].to_bias(p[0]);
        if got != want { bad(c, "rounding_bias", "bias on the wrong side", p, got, want) }
        true
    });
    let v = join(&[&upto(c.pick(20, 60)), &powers(2, 1, u128::MAX)[..], &powers(10, 1, u128::MAX), &TOP]);
    product(c, "checked_into", &[&v, &v], |p| {
        let (x, y) = (p[0], p[1]);
        if x.checked_add_into(&y).map(b256) != Some(b(x) + b(y)) { bad(c, "checked_add_into", "not the sum", p, x.checked_add_into(&y), b(x) + b(y)) }
        if x.checked_mul_into(&y).map(b256) != Some(b(x) * b(y)) { bad(c, "checked_mul_into", "not the product", p, x.checked_mul_into(&y), b(x) * b(y)) }
        true
    });
    let big: Vec<B> = { let mut o = vec![B::zero()]; for k in 0..256usize { for j in 0..4 { o.push(mant(k, j, 256)) } } o.push(B::one() << 255); o };
    let bi: Vec<u128> = (0..big.len() as u128).collect();
    product(c, "checked_inner", &[&bi, &v], |p| {
        let n = big[p[0] as usize];
        let mut w = [0u8; 256];
        n.to_little_endian(&mut w);
        let u = U256::from_little_endian(&w[..32]);
        let want = n * b(p[1]);
        let want = (want.bits() <= 256).then_some(want);
        if u.checked_mul_inner(&p[1]).map(b256) != want { bad(c, "checked_mul_inner", "not the product", p, u.checked_mul_inner(&p[1]), want) }
        let want = (p[1] != 0).then(|| n / b(p[1]));
        if u.checked_div_inner(&p[1]).map(b256) != want { bad(c, "checked_div_inner", "not the quotient", p, u.checked_div_inner(&p[1]), want) }
        true
    });
    // ordering of ratios is the ordering of their values
    let q = join(&[&upto(c.pick(9, 20)), &[1 << 63, (1 << 64) - 1, 1 << 64, 10u128.pow(18), 10u128.pow(30) + 1, u128::MAX / 2, u128::MAX - 1, u128::MAX]]);
    product(c, "ratio", &[&q, &q, &q, &q], |p| {
        let (x, y) = (Ratio::new_unchecked(p[0], p[1]), Ratio::new_unchecked(p[2], p[3]));
        let n = "ratio";
        let got = x.cmp(&y);
        let want = if p[1] == p[3] { p[0].cmp(&p[2]) } else if p[1] == 0 { Ordering::Greater } else if p[3] == 0 { Ordering::Less } else { (b(p[0]) * b(p[3])).cmp(&(b(p[2]) * b(p[1]))) };
        if got != want || x.partial_cmp(&y) != Some(want) { bad(c, n, "order is not the order of the values", p, got, want) }
        if y.cmp(&x) != want.reverse() { bad(c, n, "order is not antisymmetric", p, got, want) }
        if (x == y) != (p[0] == p[2] && p[1] == p[3]) { bad(c, n, "equality is not by parts", p, x == y, "") }
        let z = Ratio::new(p[0], p[1]);
        if z.d == 0 || z.n != p[0] || (p[1] > 0 && z.d != p[1]) { bad(c, n, "a built ratio differs from its parts", p, (z.n, z.d), "") }
        let t: (u128, u128) = x.into();
        if t != (p[0], p[1]) { bad(c, n, "conversion swaps the parts", p, t, "") }
        let f: Ratio = (p[0], p[1]).into();
        if f != z || Ratio::from(p[0]) != Ratio::new(p[0], 1) { bad(c, n, "conversion differs from building", p, (f.n, f.d), "") }
        let i = x.inverted();
        if if p[0] == 0 { i != x } else { (i.n, i.d) != (p[1], p[0]) } { bad(c, n, "inversion does not swap the parts", p, (i.n, i.d), "") }
        if x.is_one() != (p[1] > 0 && p[0] == p[1]) || x.is_zero() != (p[0] == 0) { bad(c, n, "one or zero is not recognised", p, (x.is_one(), x.is_zero()), "") }
        true
    });
    let u = hydra_dx_math::ratio::Ratio::one();
    if !u.is_one() || !Ratio::zero().is_zero() || Ratio::zero().d == 0 { bad(c, "ratio", "constants", &[], "", "") }
}

/// |got - n/d| <= 1/2, ties downwards
fn nearest_down(n: B, d: B) -> B { let (q, r) = n.div_mod(d); if r << 1 > d { q + B::one() } else { q } }
/// N19
pub fn fractions(c: &Check) {
    let div = fraction::DIV;
    let v = join(&[&upto(c.pick(30, 100)), &powers(2, 1, u128::MAX)[..], &powers(10, 1, u128::MAX), &TOP]);
    if div != 1u128 << 127 || fraction::SMALLEST_NON_ZERO.to_bits() != 1 { bad(c, "fraction", "constants", &[], div, 1u128 << 127) }
    product(c, "frac", &[&v, &v], |p| {
        let (n, d) = (p[0], p[1]);
        if d == 0 || n > d { return false }
        let got = fraction::frac(n, d).to_bits();
        let want = nearest_down(b(n) * b(div), b(d));
        if b(got) != want { bad(c, "frac", "not the nearest fraction", p, got, want) }
        true
    });
    let fr = norm(v.iter().copied().filter(|x| *x <= div).chain((0..=c.pick(64u128, 512)).map(|k| div / c.pick(64, 512) * k)).collect());
    let e18 = 10u128.pow(18);
    product(c, "fraction_ops", &[&fr, &v], |p| {
        let f = Fraction::from_bits(p[0]);
        let x = p[1];
        let got = fraction::multiply_by_balance(f, x);
        let want = nearest_down(b(x) * b(p[0]), b(div));
        if b(got) != want { bad(c, "multiply_by_balance", "not the nearest product", p, got, want) }
        if got > x { bad(c, "multiply_by_balance", "more than the whole", p, got, x) }
        let got = fraction::multiply_by_fixed(f, FixedU128::from_inner(x)).into_inner();
        if b(got) != want { bad(c, "multiply_by_fixed", "not the nearest product", p, got, want) }
        let got = fraction::to_fixed(f).into_inner();
        let want = nearest_down(b(e18) * b(p[0]), b(div));
        if b(got) != want { bad(c, "to_fixed", "not the nearest fixed point number", p, got, want) }
        if x <= e18 {
            let g = fraction::from_fixed(FixedU128::from_inner(x));
            let want = nearest_down(b(x) * b(div), b(e18));
            if b(g.to_bits()) != want { bad(c, "from_fixed", "not the nearest fraction", p, g.to_bits(), want) }
            if fraction::to_fixed(g).into_inner() != x { bad(c, "from_fixed", "does not survive the way there and back", p, g.to_bits(), x) }
        }
        let r = fraction::to_rational(f);
        let w = sp_arithmetic::Rational128::from(p[0], div);
        if r.n() != w.n() || r.d() != w.d() { bad(c, "to_rational", "not the same rational", p, (r.n(), r.d()), (w.n(), w.d())) }
        true
    });
    let am = join(&[&upto(c.pick(1100, 3100)), &decades(4, 37)[..], &TOP]);
    let fe = [0u128, 1, 2, 3, 4, 7, 10, 30, 100, 300, 997, 1000, 10_000, u32::MAX as u128];
    product(c, "pool_trade_fee", &[&am, &fe, &fe], |p| {
        let (a, n, d) = (p[0], p[1], p[2]);
        let got = hydra_dx_math::fee::calculate_pool_trade_fee(a, (n as u32, d as u32));
        if n == 0 || d == 0 { if got != Some(0) { bad(c, "pool_trade_fee", "a fee where there is none", p, got, 0) } return true }
        match got {
            Some(g) => {
                // amount * n / d, short by less than n
                let e = b(a) * b(n) / b(d);
                if b(g) > e { bad(c, "pool_trade_fee", "above the exact fee", p, g, e) }
                if b(g) + b(n) <= e { bad(c, "pool_trade_fee", "well below the exact fee", p, g, e) }
                if n <= d && g > a { bad(c, "pool_trade_fee", "more than the amount", p, g, a) }
                if n == d && g != a { bad(c, "pool_trade_fee", "the whole is not the whole", p, g, a) }
                if a % d == 0 && b(g) != e { bad(c, "pool_trade_fee", "inexact where exactness is possible", p, g, e) }
                true
            }
            None => { if b(a) / b(d) * b(n) <= b(u128::MAX) { bad(c, "pool_trade_fee", "refuses a fee that fits", p, "", "") } false }
        }
    });
}

use hydra_dx_math::ema;
/// N14
pub fn ema_numerics(c: &Check) {
    let div = fraction::DIV;
    let w: Vec<u128> = norm(vec![0, 1, 2, 3, div / 1000, div / 100, div / 10, div / 5, div / 3, div / 2, div / 2 + 1, div / 10 * 9, div - 2, div - 1, div]);
    let v = join(&[&upto(c.pick(40, 120)), &powers(2, 1, u128::MAX)[..], &powers(10, 1, u128::MAX), &TOP]);
    product(c, "balance_average", &[&v, &v, &w], |p| {
        let n = "balance_average";
        let (a, z, f) = (p[0], p[1], p[2]);
        let got = ema::balance_weighted_average(a, z, Fraction::from_bits(f));
        let step = nearest_down(b(a.abs_diff(z)) * b(f), b(div));
        let want = if z >= a { b(a) + step } else { b(a) - step };
        if b(got) != want { bad(c, n, "not the weighted average rounded towards the old value", p, got, want) }
        if got < a.min(z) || got > a.max(z) { bad(c, n, "outside the averaged values", p, got, (a, z)) }
        true
    });
    // composite values: every component by itself, in its own place
    let s = [0u128, 5, 1000, 77_777, u128::MAX];
    product(c, "ema_components", &[&s, &s, &s, &s, &w], |p| {
        let n = "ema_components";
        let f = Fraction::from_bits(p[4]);
        let pv = (p[0], p[1], p[2], p[3]);
        let iv = (p[3], p[0], p[1], p[2]);
        let av = |x, y| ema::balance_weighted_average(x, y, f);
        let want = (av(pv.0, iv.0), av(pv.1, iv.1), av(pv.2, iv.2), av(pv.3, iv.3));
        if ema::volume_weighted_average(pv, iv, f) != want { bad(c, n, "volume parts mixed", p, ema::volume_weighted_average(pv, iv, f), want) }
        let (pl, il) = ((p[0], p[1]), (p[2], p[3]));
        let wl = (av(pl.0, il.0), av(pl.1, il.1));
        if ema::liquidity_weighted_average(pl, il, f) != wl { bad(c, n, "liquidity parts mixed", p, ema::liquidity_weighted_average(pl, il, f), wl) }
        let (pp, ip) = (Ratio::new(p[0], p[1].max(1)), Ratio::new(p[2], p[3].max(1)));
        let wp = ema::price_weighted_average(pp, ip, f);
        let got = ema::calculate_new_by_integrating_incoming((pp, pv, pl), (ip, iv, il), f);
        if got != (wp, want, wl) { bad(c, n, "integration differs from its parts", p, got, (wp, want, wl)) }
        for it in [0u32, 1, 2, 9] {
            let g = ema::exp_smoothing(f, it);
            let z = (0, 0, 0, 0);
            let got = ema::update_outdated_to_current(it, (pp, pv, pl), (ip, il), f);
            let wv = ema::volume_weighted_average(pv, z, g);
            let want = (ema::price_weighted_average(pp, ip, g), wv, ema::liquidity_weighted_average(pl, il, g));
            if got != want { bad(c, n, "update differs from its parts", p, got, want) }
            if ema::iterated_price_ema(it, pp, ip, f) != want.0 || ema::iterated_volume_ema(it, pv, f) != want.1 || ema::iterated_liquidity_ema(it, pl, il, f) != want.2 || ema::iterated_balance_ema(it, p[0], p[2], f) != ema::balance_weighted_average(p[0], p[2], g) { bad(c, n, "iterated values differ from the update", p, it, "") }
        }
        true
    });
    // prices
    let q = join(&[&[0, 1, 2, 3, 7, 10, 1000, 999_999_999_989], &powers(10, 10u128.pow(15), u128::MAX).into_iter().step_by(c.pick(7, 3)).collect::<Vec<_>>(), &[u64::MAX as u128, u128::MAX / 3, u128::MAX - 1, u128::MAX]]);
    product(c, "price_average", &[&q, &q[1..], &q, &q[1..], &w], |p| {
        let n = "price_average";
        let (a, z, f) = (Ratio::new(p[0], p[1]), Ratio::new(p[2], p[3]), p[4]);
        let g = ema::price_weighted_average(a, z, Fraction::from_bits(f));
        if g.d == 0 { bad(c, n, "zero denominator", p, (g.n, g.d), ""); return true }
        // exact average: (a.n z.d (DIV-f) + z.n a.d f) / (a.d z.d DIV)
        let num = b(a.n) * b(z.d) * b(div - f) + b(z.n) * b(a.d) * b(f);
        let den = b(a.d) * b(z.d) * b(div);
        let (l, r) = (b(g.n) * den, num * b(g.d));
        // relative error: 128 bits of mantissa shared by numerator and denominator
        let small = g.n.min(g.d).max(1);
        let e = if l > r { l - r } else { r - l };
        let exact_small = b(4) * (r / b(small) + b(g.d) * den / b(small) * b(0)) + l.max(r) >> 120;
        let tol = b(4) * l.max(r) / b(small) + exact_small;
        if e > tol { bad(c, n, "far from the weighted average", p, (g.n, g.d), (num, den)) }
        // between the old and the new, and no further than the exact value
        if f > 0 && f < div && !a.is_zero() && !z.is_zero() {
            let up = z > a;
            if up && l > r && !edge(g) { bad(c, n, "overshoots the exact average", p, (g.n, g.d), "") }
            if z < a && l < r && !edge(g) { bad(c, n, "undershoots the exact average", p, (g.n, g.d), "") }
        }
        if f == 0 && !a.is_zero() && a != g { bad(c, n, "moves without weight", p, (g.n, g.d), "") }
        true
    });
    // smoothing over several blocks
    let its: Vec<u128> = join(&[&upto(c.pick(40, 400)), &[100, 1000, 7200, 14_400, 100_800, 10_000_000, u32::MAX as u128]]);
    let mut sm = w.clone();
    for per in [1u64, 2, 9, 10, 20, 50, 600, 1800, 3600, 14_400, 100_800] { sm.push(ema::smoothing_from_period(per).to_bits()) }
    let sm = norm(sm);
    product(c, "exp_smoothing", &[&sm, &its], |p| {
        let n = "exp_smoothing";
        let got = ema::exp_smoothing(Fraction::from_bits(p[0]), p[1] as u32).to_bits();
        let want = if p[0] == div { b(div) << (FB - 127) } else { one() - pow_exact(div - p[0], p[1]) };
        let e = absd(b(got) << (FB - 127), want) >> (FB - 127);
        if e > b(4 * p[1] + 8) { bad(c, n, "not one less the complement's power", p, (got, e), want >> (FB - 127)) }
        if got > div { bad(c, n, "weight above one", p, got, div) }
        if p[1] == 1 && got != p[0] { bad(c, n, "one block is not the factor itself", p, got, p[0]) }
        if p[1] == 0 && got != 0 && p[0] != div { bad(c, n, "no block has a weight", p, got, 0) }
        let next = ema::exp_smoothing(Fraction::from_bits(p[0]), (p[1] as u32).saturating_add(1)).to_bits();
        if b(next) + b(4 * p[1] + 16) < b(got) { bad(c, n, "weight falls with time", p, (got, next), "") }
        true
    });
    let per: Vec<u128> = join(&[&upto(c.pick(2000, 20_000)), &[100_800, u32::MAX as u128, u64::MAX as u128 - 1, u64::MAX as u128]]);
    product(c, "smoothing_from_period", &[&per], |p| {
        let got = ema::smoothing_from_period(p[0] as u64).to_bits();
        let want = nearest_down(b(2) * b(div), b(p[0].max(1)) + b(1));
        if b(got) != want { bad(c, "smoothing_from_period", "not two over period plus one", p, got, want) }
        true
    });
    // histories: repeated single updates against one iterated update; bounded by the values fed in
    let vals = [0u128, 1, 1000, 123_456_789, 10u128.pow(24)];
    let depth = c.pick(5, 7);
    product(c, "ema_histories", &[&vals, &w], |p| {
        let f = Fraction::from_bits(p[1]);
        let mut states: Vec<(u128, u128, u128)> = vec![(p[0], p[0], p[0])];
        for _ in 0..depth {
            let mut next = vec![];
            for (x, lo, hi) in &states {
                for z in vals {
                    let y = ema::balance_weighted_average(*x, z, f);
                    let (lo, hi) = ((*lo).min(z), (*hi).max(z));
                    if y < lo || y > hi { bad(c, "ema_histories", "average leaves the range of its inputs", p, (x, z, y), (lo, hi)) }
                    next.push((y, lo, hi));
                    c.add_transitions(1);
                }
            }
            next.sort(); next.dedup();
            c.add_states(next.len() as u64);
            states = next;
        }
        for z in vals {
            let mut x = p[0];
            for k in 1..=20u32 {
                x = ema::balance_weighted_average(x, z, f);
                let y = ema::iterated_balance_ema(k, p[0], z, f);
                // each step of the loop rounds once
                if x.abs_diff(y) > k as u128 + 1 { bad(c, "ema_histories", "iterated update differs from repeated updates", p, (k, z, x), y); break }
            }
        }
        true
    });
}
fn edge(g: Ratio) -> bool { g.n == u128::MAX || g.d == u128::MAX || g.n <= 1 || g.d <= 1 }
