use crate::util::*;
use hydra_dx_math::stableswap::types::AssetReserve;
use hydra_dx_math::stableswap::MAX_D_ITERATIONS as DI;
use hydra_dx_math::{lbp, omnipool, stableswap as ss, xyk, MathError};
use omnipool::types::AssetReserveState;
use sp_arithmetic::{FixedPointNumber, FixedU128, Permill};

const E18: u128 = 1_000_000_000_000_000_000;

/// N10
pub fn ramp(c: &Check) {
    let amps = join(&[&upto(c.pick(8, 16)), &[100, 767, 2000, 10_000, 65_535]]);
    let blk = join(&[&upto(c.pick(9, 16)), &[99, 100, 101, 1_000_000, u32::MAX as u128]]);
    product(c, "stableswap_ramp", &[&amps, &amps, &blk, &blk, &blk], |p| {
        let (ia, fa, ib, fb, cur) = (p[0], p[1], p[2], p[3], p[4]);
        let n = "stableswap_ramp";
        let r = ss::calculate_amplification(ia, fa, ib, fb, cur);
        let want = if fb <= ib || cur < ib { ia } else if cur >= fb { fa } else {
            let step = ia.abs_diff(fa) * (cur - ib) / (fb - ib);
            if fa > ia { ia + step } else { ia - step }
        };
        if r != want { bad(c, n, "not the interpolated amplification", p, r, want) }
        if r < ia.min(fa) || r > ia.max(fa) { bad(c, n, "outside the range of the ramp", p, r, (ia, fa)) }
        if fb > ib && cur >= ib && cur < u128::MAX {
            let r2 = ss::calculate_amplification(ia, fa, ib, fb, cur + 1);
            if (fa >= ia && r2 < r) || (fa <= ia && r2 > r) { bad(c, n, "ramp reverses", p, (r, r2), "") }
        }
        true
    });
    // every block of whole ramps: starts at the initial value, ends at the final one, never jumps
    let len = upto(c.pick(120, 400));
    product(c, "stableswap_ramp_whole", &[&amps, &amps, &len[1..]], |p| {
        let (ia, fa, l) = (p[0], p[1], p[2]);
        let mut prev = ss::calculate_amplification(ia, fa, 1000, 1000 + l, 1000);
        if prev != ia { bad(c, "stableswap_ramp_whole", "does not start at the initial value", p, prev, ia) }
        let jump = ia.abs_diff(fa) / l + 1;
        for t in 1..=l + 2 {
            let r = ss::calculate_amplification(ia, fa, 1000, 1000 + l, 1000 + t);
            if r.abs_diff(prev) > jump { bad(c, "stableswap_ramp_whole", "jumps", p, (t, prev, r), jump) }
            prev = r;
        }
        c.add_transitions(l as u64);
        if prev != fa { bad(c, "stableswap_ramp_whole", "does not end at the final value", p, prev, fa) }
        true
    });
    let wide = join(&[&[0, 1, 5], &TOP]);
    product(c, "stableswap_ramp_wide", &[&wide, &wide, &wide, &wide, &wide], |p| {
        let r = ss::calculate_amplification(p[0], p[1], p[2], p[3], p[4]);
        if r < p[0].min(p[1]) || r > p[0].max(p[1]) { bad(c, "stableswap_ramp_wide", "outside the range of the ramp", p, r, (p[0], p[1])) }
        true
    });
}

/// |got - num/den * 1e18| <= tol (in units of 1e-18)
fn near(got: FixedU128, num: B, den: B, tol: B) -> bool {
    let g = b(got.into_inner()) * den;
    let w = num * b(E18);
    (if g > w { g - w } else { w - g }) <= tol * den
}
fn fits(num: B, den: B) -> bool { num * b(E18) / den <= b(u128::MAX) }

/// N11
pub fn spot(c: &Check) {
    let r = join(&[&upto(c.pick(12, 30)), &decades(3, 24)[..], &TOP]);
    let amt = join(&[&[0, 1, 2, 3, 7], &decades(3, 18)[..], &[u128::MAX]]);
    product(c, "xyk_spot", &[&r, &r, &amt], |p| {
        let got = xyk::calculate_spot_price(p[0], p[1], p[2]);
        let want = if p[0] == 0 { Err(MathError::ZeroReserve) } else { to_u128(b(p[1]) * b(p[2]) / b(p[0])).ok_or(MathError::Overflow) };
        if got != want { bad(c, "xyk_spot", "not the floor of out*amount/in", p, &got, &want) }
        got.is_ok()
    });
    let w = [0u128, 1, 2, 3, 7, 50_000_000, 99_999_999, 100_000_000, u32::MAX as u128];
    let r2 = join(&[&[0, 1, 2, 3, 11], &decades(6, 24)[..], &TOP]);
    product(c, "lbp_spot", &[&r2, &r2, &w, &w, &[0, 1, 3, 1000, E18, u128::MAX]], |p| {
        let (i, o, wi, wo, a) = (p[0], p[1], p[2], p[3], p[4]);
        let got = lbp::calculate_spot_price(i, o, wi as u32, wo as u32, a);
        let n = "lbp_spot";
        if i == 0 { if got != Err(MathError::ZeroReserve) { bad(c, n, "prices against an empty reserve", p, &got, "ZeroReserve") } return false }
        if a == 0 || o == 0 { if got != Ok(0) { bad(c, n, "nothing has a price", p, &got, 0) } return true }
        if wo == 0 { if got.is_ok() { bad(c, n, "prices with a zero weight", p, &got, "") } return false }
        let num = b(a) * b(o) * b(wi);
        let want = to_u128(num / (b(i) * b(wo)));
        match got {
            Ok(x) => { if Some(x) != want { bad(c, n, "not the floor of the weighted price", p, x, want) } true }
            Err(_) => { if want.is_some() && num < B::one() << 256 { bad(c, n, "refuses a price that fits", p, "", want) } false }
        }
    });
    let fees: Vec<(u32, u32)> = vec![(0, 1), (3, 1000), (2, 1000), (1, 3), (1, 2), (999, 1000), (1, 1), (5, 4), (1, 0), (0, 0), (1, u32::MAX)];
    let fi: Vec<u128> = (0..=fees.len() as u128).collect();
    let r3 = join(&[&upto(6), &decades(3, 27)[..], &TOP]);
    product(c, "xyk_spot_with_fee", &[&r3, &r3, &fi], |p| {
        let (i, o) = (p[0], p[1]);
        let fee = fees.get(p[2] as usize).copied();
        let n = "xyk_spot_with_fee";
        let got = xyk::calculate_spot_price_with_fee(i, o, fee);
        if i == 0 { if got != Err(MathError::ZeroReserve) { bad(c, n, "prices against an empty reserve", p, &got, "") } return false }
        let (fn_, fd) = fee.unwrap_or((0, 1));
        if fd == 0 || fn_ > fd { if got.is_ok() { bad(c, n, "accepts an impossible fee", p, &got, "") } return false }
        let (num, den) = (b(o) * b((fd - fn_) as u128), b(i) * b(fd as u128));
        match got {
            // the price is rounded once, the fee once: each costs at most a unit
            Ok(x) => { if !near(x, num, den, b(2) + b(o) / b(i)) { bad(c, n, "not reserve ratio less fee", p, x, num * b(E18) / den) } true }
            Err(_) => { if fits(b(o), b(i)) { bad(c, n, "refuses a price that fits", p, fee, "") } false }
        }
    });
    product(c, "lbp_spot_with_fee", &[&r2, &r2, &w, &w, &fi, &[0, 1]], |p| {
        let (i, o, wi, wo) = (p[0], p[1], p[2], p[3]);
        let fee = fees.get(p[4] as usize).copied();
        let n = "lbp_spot_with_fee";
        let got = lbp::calculate_spot_price_with_fee(i, o, wi as u32, wo as u32, 5, 5 + p[5] as u32, fee);
        if i == 0 || wo == 0 { if got.is_ok() { bad(c, n, "prices against an empty reserve", p, &got, "") } return false }
        let (fn_, fd) = if p[5] == 0 { fee.unwrap_or((0, 1)) } else { (0, 1) };
        if fd == 0 || fn_ > fd { if got.is_ok() { bad(c, n, "accepts an impossible fee", p, &got, "") } return false }
        let (num0, den0) = (b(o) * b(wi), b(i) * b(wo));
        let (num, den) = (num0 * b((fd - fn_) as u128), den0 * b(fd as u128));
        match got {
            Ok(x) => { if !near(x, num, den, b(2) + num0 / den0) { bad(c, n, "not the weighted ratio less fee", p, x, num * b(E18) / den) } true }
            Err(_) => { if fits(num0, den0) && num0 <= b(u128::MAX) && den0 <= b(u128::MAX) { bad(c, n, "refuses a price that fits", p, fee, "") } false }
        }
    });
    let st = |r: u128, h: u128| AssetReserveState { reserve: r, hub_reserve: h, shares: r, protocol_shares: 0 };
    let fe = [0u128, 1, 500, 2500, 333_333, 999_999, 1_000_000];
    let q = join(&[&[0, 1, 3, 10], &decades(6, 24)[..].iter().copied().step_by(c.pick(4, 2)).collect::<Vec<_>>(), &[u128::MAX]]);
    product(c, "omnipool_spot", &[&q, &q, &q, &q, &fe, &fe[..c.pick(3, 7)]], |p| {
        let n = "omnipool_spot";
        let (ra, ha, rb, hb, pf, af) = (p[0], p[1], p[2], p[3], p[4], p[5]);
        let fee = if pf == 1_000_000 { None } else { Some((Permill::from_parts(pf as u32), Permill::from_parts(af as u32))) };
        let (kp, ka) = if fee.is_none() { (1_000_000, 1_000_000) } else { (1_000_000 - pf, 1_000_000 - af) };
        let got = omnipool::calculate_spot_price(&st(ra, ha), &st(rb, hb), fee);
        if ra == 0 || hb == 0 { if got.is_some() { bad(c, n, "prices against an empty reserve", p, got, "") } return false }
        let (num, den) = (b(ha) * b(rb) * b(kp) * b(ka), b(ra) * b(hb) * b(1_000_000) * b(1_000_000));
        let tol = b(4) + b(ha) / b(ra) + b(rb) / b(hb);
        match got {
            Some(x) => { if !near(x, num, den, tol) { bad(c, n, "not the ratio of hub prices less fees", p, x, num * b(E18) / den) } true }
            None => { if fits(b(ha), b(ra)) && fits(b(rb), b(hb)) && fits(b(ha) * b(rb), b(ra) * b(hb)) { bad(c, n, "refuses a price that fits", p, "", "") } false }
        }
    });
    product(c, "omnipool_lrna_spot", &[&r, &r, &fe], |p| {
        let n = "omnipool_lrna_spot";
        let fee = if p[2] == 1_000_000 { None } else { Some(Permill::from_parts(p[2] as u32)) };
        let k = if fee.is_none() { 1_000_000 } else { 1_000_000 - p[2] };
        let got = omnipool::calculate_lrna_spot_price(&st(p[0], p[1]), fee);
        if p[1] == 0 { if got.is_some() { bad(c, n, "prices against an empty reserve", p, got, "") } return false }
        let (num, den) = (b(p[0]) * b(k), b(p[1]) * b(1_000_000));
        match got {
            Some(x) => { if !near(x, num, den, b(2)) { bad(c, n, "not the reserve ratio less fee", p, x, num * b(E18) / den) } true }
            None => { if fits(b(p[0]), b(p[1])) { bad(c, n, "refuses a price that fits", p, "", "") } false }
        }
    });
    stable(c);
}
fn norm18(v: u128, dec: u8) -> B { b(v) * b(10u128.pow(18 - dec as u32)) }
/// exact marginal quantities of a pool: (D, c) scaled by 2^40, where c = D^(n+1)/(n^n prod x)
fn marginal(x: &[B], amp: u128) -> (B, B) {
    let xs: Vec<B> = x.iter().map(|v| *v << 40).collect();
    let d = crate::stableswap::true_d(&xs, amp);
    let n = b(x.len() as u128);
    let cc = xs.iter().fold(d, |a, v| a * d / (*v * n));
    (d, cc)
}
fn stable(c: &Check) {
    let pools: Vec<Vec<(u128, u8)>> = crate::stableswap::pools(c).into_iter().filter(|p| p.iter().all(|(a, d)| norm18(*a, *d) >= b(1_000_000_000_000) && *a >= 1_000_000)).collect();
    let pi: Vec<u128> = (0..pools.len() as u128).collect();
    let amps = [1u128, 10, 100, 2000, 10_000];
    let worst = AtomicU64::new(0);
    product(c, "stableswap_spot", &[&pi, &amps, &[0, 1, 2], &[0, 1, 400, 30_000, 500_000, 2_000_000]], |p| {
        let n = "stableswap_spot";
        let (pool, amp) = (&pools[p[0] as usize], p[1]);
        let len = pool.len();
        let (i, o) = match p[2] { 0 => (0, 1), 1 => (len - 1, 0), _ => (1, len - 1) };
        if i == o { return false }
        let x: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
        let (_, cc) = marginal(&x, amp);
        let ann = b(amp) * b(len as u128);
        let (xi, xo) = (x[i] << 40, x[o] << 40);
        // -dx_in/dx_out along the invariant, over one less the fee
        let (num, den) = (xi * (ann * xo + cc), xo * (ann * xi + cc));
        let fee = if p[3] == 2_000_000 { 0 } else { p[3] };
        // in whole amounts of both assets
        let (ui, uo) = (b(10u128.pow(pool[i].1 as u32)), b(10u128.pow(pool[o].1 as u32)));
        let (num, den) = (num * b(1_000_000) * ui, den * b(1_000_000 - fee) * uo);
        let rs: Vec<(u32, AssetReserve)> = pool.iter().enumerate().map(|(k, (a, d))| (k as u32 + 10, AssetReserve::new(*a, *d))).collect();
        let f = if p[3] == 2_000_000 { None } else { Some(Permill::from_parts(fee as u32)) };
        let got = ss::calculate_spot_price(99, rs.clone(), amp, 10 + i as u32, 10 + o as u32, E18, 1000, f);
        let d = ss::calculate_d::<DI>(&rs.iter().map(|r| r.1).collect::<Vec<_>>(), amp).unwrap();
        let direct = ss::calculate_spot_price_between_two_stable_assets(&rs.iter().map(|r| r.1).collect::<Vec<_>>(), amp, d, i, o, f);
        let apart = |g: FixedU128, d: FixedU128| { let (l, r) = (b(g.into_inner()) * uo, b(d.into_inner()) * ui); (if l > r { l - r } else { r - l }) > uo };
        if got.is_some() && direct.map_or(true, |d| apart(got.unwrap(), d)) { bad(c, n, "not the price of normalized amounts, adjusted for decimals", p, got, direct) }
        match got {
            Some(g) => {
                let want = num * b(E18) / den;
                let tol = b(3) * (b(1) + ui / uo) + want / b(100_000_000_000_000);
                let e = if b(g.into_inner()) > want { b(g.into_inner()) - want } else { want - b(g.into_inner()) };
                worst.fetch_max((e * b(E18) / want).min(b(u64::MAX as u128)).as_u64(), Relaxed);
                if e > tol { bad(c, n, "not the marginal price of the invariant", p, (g, pool), want) }
                true
            }
            None => { bad(c, n, "no price", p, pool, ""); false }
        }
    });
    c.section("stableswap_spot_worst_relative_1e-18", json!(worst.load(Relaxed)));
    let worst = AtomicU64::new(0);
    product(c, "stableswap_share_price", &[&pi, &amps, &[0, 1, 2, 3, 4], &[0, 1, 2]], |p| {
        let n = "stableswap_share_price";
        let (pool, amp, k) = (&pools[p[0] as usize], p[1], p[2] as usize);
        if k >= pool.len() { return false }
        let x: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
        let (d, cc) = marginal(&x, amp);
        let dd = d >> 40;
        let Some(iss) = to_u128(match p[3] { 0 => dd, 1 => dd / b(3) + b(1), _ => dd * b(2) + b(5) }) else { return false };
        let len = b(pool.len() as u128);
        let ann = b(amp) * len;
        let xk = x[k] << 40;
        // asset k per share: (D/iss) / (dD/dx_k), in native units per share unit
        let num = xk * ((len + B::one()) * cc + (ann - B::one()) * d);
        let den = (b(iss) << 40) * (cc + ann * xk) * b(10u128.pow(18 - pool[k].1 as u32));
        let rs: Vec<AssetReserve> = pool.iter().map(|(a, d)| AssetReserve::new(*a, *d)).collect();
        let got = ss::calculate_share_price::<DI>(&rs, amp, iss, k, None);
        let all = ss::calculate_share_prices::<DI>(&rs, amp, iss);
        if got.is_some() && all.as_ref().map(|v| v.len()) == Some(pool.len()) { if all.unwrap()[k] != got.unwrap() { bad(c, n, "list of prices differs from the single price", p, got, "") } } else { bad(c, n, "no price", p, (got, pool), "") }
        let Some((gn, gd)) = got else { return false };
        if gd == 0 { bad(c, n, "zero denominator", p, got, ""); return true }
        // relative distance
        let (l, r) = (b(gn) * den, num * b(gd));
        let e = (if l > r { l - r } else { r - l }) * b(E18) / r;
        worst.fetch_max(e.min(b(u64::MAX as u128)).as_u64(), Relaxed);
        if e > b(10_000) { bad(c, n, "not the marginal price of a share", p, (gn, gd, pool), (num / den, e)) }
        // price for trading a little against shares agrees
        let small = (pool[k].0 / 100_000).max(1000);
        let rid: Vec<(u32, AssetReserve)> = pool.iter().enumerate().map(|(k, (a, d))| (k as u32 + 10, AssetReserve::new(*a, *d))).collect();
        for (share_in, f) in [(true, None), (false, None), (true, Some(Permill::from_parts(3000))), (false, Some(Permill::from_parts(3000)))] {
            let s = if share_in { ss::calculate_spot_price(99, rid.clone(), amp, 99, 10 + k as u32, iss, small, f) } else { ss::calculate_spot_price(99, rid.clone(), amp, 10 + k as u32, 99, iss, small, f) };
            let Some(s) = s else { bad(c, n, "no trade price", p, (share_in, pool), ""); continue };
            // in per out: shares per asset or asset per share
            let (wn, wd) = if share_in { (den, num) } else { (num, den) };
            let want = wn * b(E18) / wd;
            let g = b(s.into_inner());
            // rounding of the traded amounts, curvature of a 1e-5 trade, and up to n/(4(n-1)) of the fee twice over
            let tol = want / b(1000) + if f.is_some() { want / b(100) } else { B::zero() } + b(2);
            let okd = if b(small) * want / b(E18) < b(1_000_000) && share_in { true } else { g + tol >= want && g <= want + tol };
            if !okd && want > b(1_000_000) { bad(c, n, "trade price far from the share price", p, (share_in, s, pool, small), want) }
            if f.is_some() {
                let z = if share_in { ss::calculate_spot_price(99, rid.clone(), amp, 99, 10 + k as u32, iss, small, None) } else { ss::calculate_spot_price(99, rid.clone(), amp, 10 + k as u32, 99, iss, small, None) };
                if z.map_or(true, |z| z > s) { bad(c, n, "fee makes the trade cheaper", p, (share_in, s, z), "") }
            }
        }
        true
    });
    c.section("stableswap_share_price_worst_relative_1e-18", json!(worst.load(Relaxed)));
    product(c, "stableswap_spot_unknown", &[&pi, &[0, 1, 2, 3]], |p| {
        let rid: Vec<(u32, AssetReserve)> = pools[p[0] as usize].iter().enumerate().map(|(k, (a, d))| (k as u32 + 10, AssetReserve::new(*a, *d))).collect();
        let (i, o) = match p[1] { 0 => (99, 99), 1 => (5, 10), 2 => (10, 5), _ => (5, 99) };
        let s = ss::calculate_spot_price(99, rid, 100, i, o, E18, 1000, None);
        if p[1] != 3 && s.is_some() { bad(c, "stableswap_spot_unknown", "prices an asset the pool does not have", p, s, "") }
        true
    });
}
