use crate::util::*;
use hydra_dx_math::lbp as m;
use sp_arithmetic::{FixedPointNumber, FixedU128};

/// N03: linear interpolation of the pool weight
pub fn weights(c: &Check) {
    let xs = upto(c.pick(9, 14));
    let ys: Vec<u128> = vec![0, 1, 2, 5, 1_000_000, 20_000_000, 99_999_999, 100_000_000, u32::MAX as u128];
    let mut at: Vec<u128> = upto(c.pick(11, 16));
    at.push(u32::MAX as u128);
    let check = |c: &Check, p: &[u128]| -> bool {
        let (sx, ex, sy, ey, at) = (p[0], p[1], p[2], p[3], p[4]);
        let got = m::calculate_linear_weights(sx as u32, ex as u32, sy as u32, ey as u32, at as u32);
        let ok = sx < ex && at >= sx && at <= ex;
        match got {
            Ok(w) => {
                if !ok { bad(c, "lbp_linear_weights", "gives a weight outside the sale", p, w, "error"); return true }
                let n = b(sy) * b(ex - at) + b(ey) * b(at - sx);
                let d = b(ex - sx);
                // within one unit of the line, between the end points, and exact at the ends
                if b(w as u128) * d > n || (b(w as u128) + B::one()) * d <= n { bad(c, "lbp_linear_weights", "off the line between the two weights", p, w, n / d) }
                let (lo, hi) = (sy.min(ey), sy.max(ey));
                if (w as u128) < lo || (w as u128) > hi { bad(c, "lbp_linear_weights", "outside the configured weights", p, w, (lo, hi)) }
                if at == sx && w as u128 != sy || at == ex && w as u128 != ey { bad(c, "lbp_linear_weights", "end point not met", p, w, (sy, ey)) }
                true
            }
            Err(e) => { if ok { bad(c, "lbp_linear_weights", "refuses inside the sale", p, e, "value") } false }
        }
    };
    product(c, "lbp_linear_weights", &[&xs, &xs, &ys, &ys, &at], |p| check(c, p));
    let big: Vec<u128> = vec![0, 1, 7, 1000, 1_209_600, 100_000_000, u32::MAX as u128 - 1, u32::MAX as u128];
    let w2 = join(&[&powers(10, 1, 100_000_000), &[33_333_333, u32::MAX as u128]]);
    product(c, "lbp_linear_weights_wide", &[&big, &big, &w2, &w2, &big], |p| check(c, p));
    // every block of a sale: monotone, never leaves the line
    for (sx, ex, sy, ey) in [(0u32, 600u32, 10_000_000u32, 90_000_000u32), (100, 1100, 90_000_000, 10_000_000), (5, 305, 1, 2), (7, 400, 50, 50), (0, c.pick(20_000, 200_000), 80_000_000, 20_000_001)] {
        let mut last = None;
        for at in sx..=ex {
            let w = m::calculate_linear_weights(sx, ex, sy, ey, at).unwrap_or(0);
            check(c, &[sx as u128, ex as u128, sy as u128, ey as u128, at as u128]);
            if let Some(l) = last { if (ey >= sy && w < l) || (ey <= sy && w > l) { bad(c, "lbp_linear_weights", "not monotone along the sale", &[sx as u128, ex as u128, sy as u128, ey as u128, at as u128], w, l) } }
            last = Some(w);
        }
        c.add_states((ex - sx + 1) as u64);
        c.add_transitions((ex - sx) as u64);
        c.add_traces((ex - sx) as u64);
    }
    sample(c, "lbp_linear_weights", &[0, 10, 20, 80, 5], m::calculate_linear_weights(0u32, 10, 20, 80, 5));
}

fn ipow(x: B, n: u128) -> B { let mut r = B::one(); for _ in 0..n { r = r * x } r }
/// smallest y with y^wo * ni^wi >= o^wo * i^wi
fn min_new_out(i: u128, ni: u128, o: u128, wi: u128, wo: u128) -> B {
    let k = ipow(b(o), wo) * ipow(b(i), wi);
    let q = div_ceil(k, ipow(b(ni), wi));
    root_ceil(q, wo)
}
fn root_ceil(q: B, n: u128) -> B {
    let (mut lo, mut hi) = (B::zero(), B::one() << (q.bits() / n as usize + 1));
    while lo < hi { let mid = (lo + hi) >> 1; if ipow(mid, n) >= q { hi = mid } else { lo = mid + B::one() } }
    lo
}
const W: [(u128, u128, u128); 15] = [
    (1, 1, 1), (1, 1, 50_000_000), (1, 2, 1), (2, 1, 1), (1, 3, 25_000_000), (3, 1, 25_000_000), (2, 3, 20_000_000), (3, 2, 7), (1, 4, 20_000_000),
    (4, 1, 20_000_000), (9, 1, 10_000_000), (1, 9, 10_000_000), (3, 7, 10_000_000), (7, 3, 10_000_000), (4, 5, 11_111_111),
];

/// N04: quotes of the weighted pool against the exact weighted-product invariant
pub fn trade(c: &Check) {
    let r = join(&[&upto(c.pick(12, 20))[1..], &[100, 1_003, 10u128.pow(6), 10u128.pow(9) + 7, 10u128.pow(12), 33 * 10u128.pow(14), 10u128.pow(18), 10u128.pow(21) + 1, 10u128.pow(24)]]);
    let a = join(&[&upto(c.pick(12, 16)), &[99, 1000, 10u128.pow(6), 333_333_333, 10u128.pow(10) + 3, 10u128.pow(12), 10u128.pow(15), 10u128.pow(17), 10u128.pow(20), 10u128.pow(23)]]);
    let wi: Vec<u128> = (0..W.len() as u128).collect();
    let worst = AtomicU64::new(0);
    let worst2 = AtomicU64::new(0);
    // the fixed-point power is good to about 2^-84 of the reserve (96 fractional bits, series error)
    let tol = |r: u128, amplify: u128| b(r) * b(amplify) / (B::one() << 80) + b(2);
    product(c, "lbp_out_given_in", &[&wi, &r, &r, &a], |p| {
        let (k, i, o, amt) = (W[p[0] as usize], p[1], p[2], p[3]);
        if amt > i.saturating_mul(3) { return false }
        let (wa, wb) = ((k.0 * k.2) as u32, (k.1 * k.2) as u32);
        match m::calculate_out_given_in(i, o, wa, wb, amt) {
            Ok(x) => {
                let y = min_new_out(i, i + amt, o, k.0, k.1);
                let exact = b(o) - y.min(b(o));
                let dev = if b(x) > exact { b(x) - exact } else { exact - b(x) };
                let d2 = if b(x) > exact { (b(x) - exact).as_u64() } else { 0 };
                worst2.fetch_max(d2, Relaxed);
                worst.fetch_max(dev.min(b(u64::MAX as u128)).as_u64(), Relaxed);
                if amt == 0 && x != 0 { bad(c, "lbp_out_given_in", "pays for nothing", p, x, 0) }
                if x > o { bad(c, "lbp_out_given_in", "pays more than the reserve", p, x, o) }
                if dev > tol(o, 4) { bad(c, "lbp_out_given_in", "off the weighted-product curve", p, x, exact) }
                true
            }
            Err(e) => { bad(c, "lbp_out_given_in", "refuses a quote that exists", p, e, "value"); false }
        }
    });
    c.section("lbp_out_given_in_worst", json!({"dev": worst.load(Relaxed), "over": worst2.load(Relaxed)}));
    worst.store(0, Relaxed); worst2.store(0, Relaxed);
    product(c, "lbp_in_given_out", &[&wi, &r, &r, &a], |p| {
        let (k, i, o, amt) = (W[p[0] as usize], p[1], p[2], p[3]);
        let (wa, wb) = ((k.0 * k.2) as u32, (k.1 * k.2) as u32);
        let got = m::calculate_in_given_out(i, o, wa, wb, amt);
        if amt >= o { if amt > o && got.is_ok() { bad(c, "lbp_in_given_out", "sells more than the reserve", p, got, "error") } return false }
        // the pallet never buys more than a third of the reserve
        if amt > o / 3 && amt > 1 { return false }
        match got {
            Ok(x) => {
                // smallest ni with ni^wi * (o-amt)^wo >= i^wi * o^wo
                let ni = min_new_out(o, o - amt, i, k.1, k.0);
                let exact = ni - b(i);
                let dev = if b(x) > exact { b(x) - exact } else { exact - b(x) };
                worst2.fetch_max(if b(x) < exact { (exact - b(x)).min(b(u64::MAX as u128)).as_u64() } else { 0 }, Relaxed);
                worst.fetch_max(dev.min(b(u64::MAX as u128)).as_u64(), Relaxed);
                if dev > tol(i, 64) { bad(c, "lbp_in_given_out", "off the weighted-product curve", p, x, exact) }
                if x == 0 { bad(c, "lbp_in_given_out", "gives away for free", p, x, exact) }
                true
            }
            Err(e) => { bad(c, "lbp_in_given_out", "refuses a quote that exists", p, e, "value"); false }
        }
    });
    c.section("lbp_in_given_out_worst", json!({"dev": worst.load(Relaxed), "under": worst2.load(Relaxed)}));
}
