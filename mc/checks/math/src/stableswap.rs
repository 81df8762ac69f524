use crate::util::*;
/// `calculate_d` may exceed the exact invariant by this much (rounding up by two per step, floor of a fraction)
const DABOVE: u128 = 3;
use hydra_dx_math::stableswap as m;
use hydra_dx_math::stableswap::types::AssetReserve;
use hydra_dx_math::stableswap::{MAX_D_ITERATIONS as DI, MAX_Y_ITERATIONS as YI};
use sp_arithmetic::{FixedPointNumber, Permill};

const E18: u128 = 1_000_000_000_000_000_000;
fn pw(x: B, n: usize) -> B { let mut r = B::one(); for _ in 0..n { r = r * x } r }
/// largest v with `ok(v)` (`ok` holds up to it and not above); `hint` only speeds the search up
fn last(hint: B, ok: impl Fn(B) -> bool) -> B {
    let (mut lo, mut hi);
    let mut step = b(8);
    if ok(hint) {
        lo = hint;
        loop { hi = lo + step; if ok(hi) { lo = hi; step = step << 3 } else { break } }
    } else {
        hi = hint;
        loop { if hi <= step { lo = B::zero(); break } lo = hi - step; if ok(lo) { break } hi = lo; step = step << 3 }
    }
    while lo + B::one() < hi { let mid = (lo + hi) >> 1; if ok(mid) { lo = mid } else { hi = mid } }
    lo
}
/// floor of the exact invariant D of normalised reserves `x` (already as big integers)
pub fn true_d(x: &[B], amp: u128) -> B {
    let n = x.len();
    let p = x.iter().fold(pw(b(n as u128), n), |a, v| a * *v);
    let s = x.iter().fold(B::zero(), |a, v| a + *v);
    let ann = b(amp) * b(n as u128);
    // D^(n+1) + (ann-1) D nnP <= ann S nnP
    let rhs = ann * s * p;
    let lin = (ann - B::one()) * p;
    // search hint from the code under test, scaled down into its range
    let mut sh = 0;
    while (s >> sh) > b(1 << 110) { sh += 1 }
    let small: Vec<(u128, u8)> = x.iter().map(|v| (to_u128(*v >> sh).unwrap(), 18)).collect();
    let hint = match guarded(|| m::calculate_d::<DI>(&ar(&small), amp)) { Ok(Some(d)) => b(d) << sh, _ => s };
    last(hint, |d| pw(d, n + 1) + lin * d <= rhs)
}
/// is the exact invariant of `x` at least `d`? (one evaluation instead of a search)
fn d_at_least(x: &[B], d: B, amp: u128) -> bool {
    let n = x.len();
    let p = x.iter().fold(pw(b(n as u128), n), |a, v| a * *v);
    let s = x.iter().fold(B::zero(), |a, v| a + *v);
    let ann = b(amp) * b(n as u128);
    pw(d, n + 1) + (ann - B::one()) * d * p <= ann * s * p
}
/// does a reserve of `y` complete `x` to at least invariant `d`?
fn y_enough(x: &[B], d: B, amp: u128, y: B) -> bool {
    let n = x.len() + 1;
    let p = x.iter().fold(pw(b(n as u128), n), |a, v| a * *v);
    let s = x.iter().fold(B::zero(), |a, v| a + *v);
    let ann = b(amp) * b(n as u128);
    ann * (s + y) * p * y + d * p * y >= ann * d * p * y + pw(d, n + 1)
}
/// ceil of the exact reserve y completing `x` to invariant `d`
pub fn true_y(x: &[B], d: B, amp: u128) -> B {
    let n = x.len() + 1;
    let nn = pw(b(n as u128), n);
    let p = x.iter().fold(nn, |a, v| a * *v);
    let s = x.iter().fold(B::zero(), |a, v| a + *v);
    let ann = b(amp) * b(n as u128);
    // smallest y: ann (s+y) p y + d p y >= ann d p y + d^(n+1)
    let dn = pw(d, n + 1);
    let f = |y: B| ann * (s + y) * p * y + d * p * y >= ann * d * p * y + dn;
    // Newton from above in integers gives the hint
    let mut y = d;
    let c = dn / (ann * p);
    for _ in 0..255 {
        let den = (y << 1) + s + d / ann;
        if den <= d { break }
        let z = (y * y + c) / (den - d);
        if z >= y { break }
        y = z
    }
    if f(B::zero()) { return B::zero() }
    last(y, |v| !f(v)) + B::one()
}
fn norm18(v: u128, dec: u8) -> B { b(v) * pw(b(10), 18 - dec as usize) }
fn scale_d(x: &[B], amp: u128) -> B { true_d(&x.iter().map(|v| *v << 24).collect::<Vec<_>>(), amp) }
fn ar(v: &[(u128, u8)]) -> Vec<AssetReserve> { v.iter().map(|(a, d)| AssetReserve::new(*a, *d)).collect() }

const AMPS: [u128; 7] = [1, 2, 10, 100, 767, 2000, 10_000];
/// pools by shape: relative balance and decimals
pub fn pools(c: &Check) -> Vec<Vec<(u128, u8)>> {
    let mut v: Vec<Vec<(u128, u8)>> = vec![];
    let base: Vec<(u128, u8)> = vec![(10u128.pow(6), 6), (10u128.pow(12), 12), (E18, 18), (1000, 0), (123_456_789, 6), (10u128.pow(10) + 7, 10)];
    let mult: Vec<Vec<u128>> = vec![vec![1, 1], vec![1, 10], vec![7, 1000], vec![100_000, 100_001], vec![1, 1, 1], vec![3, 50, 700], vec![1_000_000, 1_000_001, 999_999], vec![1, 1, 1, 1], vec![5, 60, 7, 80], vec![1, 2, 3, 4, 5], vec![1_000_000, 900_000, 1_100_000, 950_000, 1_050_000]];
    for (k, ms) in mult.iter().enumerate() {
        for (j, b0) in base.iter().enumerate() {
            if !c.thorough && (k + j) % 2 == 1 { continue }
            // same decimals, then mixed
            v.push(ms.iter().map(|m| (m * b0.0, b0.1)).collect());
            v.push(ms.iter().enumerate().map(|(i, m)| { let q = base[(i + j) % 3]; (m * q.0, q.1) }).collect());
        }
    }
    // small 18-decimal reserves, exhaustively
    for x in 2..c.pick(9u128, 14) { for y in 2..c.pick(9u128, 14) { v.push(vec![(x, 18), (y, 18)]) } }
    for x in 2..5u128 { for y in [2u128, 9, 1000] { for z in [3u128, 500] { v.push(vec![(x, 18), (y, 18), (z, 18)]) } } }
    v.push(vec![(10u128.pow(26), 18), (2 * 10u128.pow(26), 18)]);
    v.push(vec![(10u128.pow(27), 18), (10u128.pow(27), 18), (3 * 10u128.pow(26), 18)]);
    v
}

fn bmax(c: &AtomicU64, x: B) { c.fetch_max(if x > b(u64::MAX as u128) { u64::MAX } else { x.as_u64() }, Relaxed); }
const UP: usize = 24;
fn up(x: &[B]) -> Vec<B> { x.iter().map(|v| *v << UP).collect() }
/// exact invariants of every pool at every amplification: (floor, floor of the value times 2^UP)
pub struct Table { pub pools: Vec<Vec<(u128, u8)>>, pub d: Vec<Vec<(B, B)>> }
pub fn table(pools: Vec<Vec<(u128, u8)>>) -> Table {
    let d = pools.par_iter().map(|p| { let x: Vec<B> = p.iter().map(|(a, d)| norm18(*a, *d)).collect(); AMPS.iter().map(|a| { let s = scale_d(&x, *a); (s >> UP, s) }).collect() }).collect();
    Table { pools, d }
}
const AI: [u128; 7] = [0, 1, 2, 3, 4, 5, 6];
fn unit(d: u8) -> B { pw(b(10), 18 - d as usize) }

/// N08
pub fn trade(c: &Check) {
    let t = table(pools(c));
    let pi: Vec<u128> = (0..t.pools.len() as u128).collect();
    let worst: Vec<AtomicU64> = (0..6).map(|_| AtomicU64::new(0)).collect();
    product(c, "stableswap_d", &[&pi, &AI], |p| {
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        match m::calculate_d::<DI>(&ar(pool), amp) {
            Some(d) => {
                let e = t.d[p[0] as usize][p[1] as usize].0;
                if b(d) < e { bmax(&worst[0], e - b(d)); bad(c, "stableswap_d", "below the exact invariant", p, (d, pool, amp), e) }
                bmax(&worst[1], b(d) - e.min(b(d)));
                if b(d) > e + b(DABOVE) { bad(c, "stableswap_d", "more than three above the exact invariant", p, (d, pool, amp), e) }
                // the order in which the reserves are listed does not matter
                for r in 1..pool.len() { let mut q = pool.clone(); q.rotate_left(r); if m::calculate_d::<DI>(&ar(&q), amp) != Some(d) { bad(c, "stableswap_d", "depends on the order of the assets", p, (&q, amp), d) } }
                true
            }
            None => { bad(c, "stableswap_d", "no invariant for a valid pool", p, (pool, amp), ""); false }
        }
    });
    // zero reserves: nothing, or refused
    product(c, "stableswap_d_zero", &[&pi, &AI], |p| {
        let (mut pool, amp) = (t.pools[p[0] as usize].clone(), AMPS[p[1] as usize]);
        for k in 0..pool.len() {
            let keep = pool[k].0;
            pool[k].0 = 0;
            if let Some(d) = m::calculate_d::<DI>(&ar(&pool), amp) { bad(c, "stableswap_d", "an invariant for a pool with an empty reserve", p, (d, &pool), "none") }
            pool[k].0 = keep;
        }
        for k in pool.iter_mut() { k.0 = 0 }
        if m::calculate_d::<DI>(&ar(&pool), amp) != Some(0) { bad(c, "stableswap_d", "an empty pool has no zero invariant", p, &pool, 0) }
        true
    });
    let am: Vec<u128> = c.pick(vec![0, 1, 2, 3, 7, 10, 49, 1000, 30_000, 99_999, 500_000, 1_000_000], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 30, 49, 100, 500, 1000, 4999, 30_000, 99_999, 200_000, 333_333, 500_000, 777_777, 1_000_000, 3_000_000, 9_999_999]);
    let fees: Vec<u128> = c.pick(vec![0, 400, 333_333], vec![0, 1, 400, 10_000, 333_333, 500_000, 999_999]);
    let pair: Vec<u128> = vec![0, 1, 2, 3];
    let pick_pair = |n: usize, k: u128| match k { 0 => Some((0, 1)), 1 => Some((n - 1, 0)), 2 if n > 2 => Some((0, n - 1)), 3 if n > 2 => Some((n - 2, 1 % n)).filter(|(a, b)| a != b), _ => None };
    // amounts: absolute small, or parts-per-million of the reserve
    let amount = |r: u128, a: u128| if a < 50 { a } else if r < 1 << 100 { r * a / 1_000_000 } else { r / 1_000_000 * a };
    product(c, "stableswap_sell", &[&pi, &AI, &am, &pair, &fees], |p| {
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let (d0, sd0) = t.d[p[0] as usize][p[1] as usize];
        let Some((i, o)) = pick_pair(pool.len(), p[3]) else { return false };
        let amt = amount(pool[i].0, p[2]);
        let n = "stableswap_sell";
        let rs = ar(pool);
        match m::calculate_out_given_in_with_fee::<DI, YI>(&rs, i, o, amt, amp, Permill::from_parts(p[4] as u32)) {
            Some((out, fee)) => {
                let gross = out + fee;
                let what = (amt, pool, i, o, gross);
                if m::calculate_out_given_in::<DI, YI>(&rs, i, o, amt, amp) != Some(gross) { bad(c, n, "payout plus fee is not the quote without fee", p, what, "") }
                if gross >= pool[o].0 { bad(c, n, "pays out the whole reserve", p, what, ""); return true }
                if b(fee) * b(1_000_000) > b(gross) * b(p[4]) || (b(fee) + B::one()) * b(1_000_000) <= b(gross) * b(p[4]) { bad(c, n, "fee is not its part of the payout", p, fee, gross) }
                let old: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
                let mut new = old.clone();
                new[i] = new[i] + norm18(amt, pool[i].1);
                let mut others = new.clone();
                others.remove(o);
                new[o] = new[o] - norm18(gross, pool[o].1);
                if !d_at_least(&up(&new), sd0, amp) { bad(c, n, "invariant of the pool falls", p, what, sd0) }
                // tightness: no worse than the exact quote for an invariant DABOVE higher, up to rounding
                let give = (b(gross) + b(2)) * unit(pool[o].1) + b(4);
                if give <= old[o] && y_enough(&others, d0 + b(DABOVE), amp, old[o] - give) { bad(c, n, "pays well below the exact quote", p, what, "") }
                true
            }
            None => { let old: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect(); let mut others = old.clone(); others[i] = others[i] + norm18(amt, pool[i].1); others.remove(o); if old[o] > b(1000) && y_enough(&others, d0 + b(DABOVE), amp, old[o] - b(100)) { bad(c, n, "refuses a quote that exists", p, ("none", pool, amt), "") } false }
        }
    });
    product(c, "stableswap_buy", &[&pi, &AI, &am, &pair, &fees], |p| {
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let (d0, sd0) = t.d[p[0] as usize][p[1] as usize];
        let Some((i, o)) = pick_pair(pool.len(), p[3]) else { return false };
        let amt = amount(pool[o].0, p[2]);
        let n = "stableswap_buy";
        let rs = ar(pool);
        let r = m::calculate_in_given_out_with_fee::<DI, YI>(&rs, i, o, amt, amp, Permill::from_parts(p[4] as u32));
        if amt >= pool[o].0 { if r.is_some() { bad(c, n, "sells the whole reserve or more", p, (r, pool, amt), "none") } return false }
        match r {
            Some((charged, fee)) => {
                let net = charged - fee;
                let what = (amt, pool, i, o, net);
                if m::calculate_in_given_out::<DI, YI>(&rs, i, o, amt, amp) != Some(net) { bad(c, n, "charge less fee is not the quote without fee", p, what, "") }
                if b(fee) * b(1_000_000) < b(net) * b(p[4]) || b(fee) > div_ceil(b(net) * b(p[4]), b(1_000_000)) { bad(c, n, "fee is not its part of the charge", p, fee, net) }
                let old: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
                let mut new = old.clone();
                new[o] = new[o] - norm18(amt, pool[o].1);
                let mut others = new.clone();
                others.remove(i);
                new[i] = new[i] + norm18(net, pool[i].1);
                if !d_at_least(&up(&new), sd0, amp) { bad(c, n, "invariant of the pool falls", p, what, sd0) }
                if net > 2 {
                    let lim = old[i] + (b(net) - b(2)) * unit(pool[i].1);
                    if lim > b(5) && y_enough(&others, d0 + b(DABOVE), amp, lim - b(5)) { bad(c, n, "charges well above the exact quote", p, what, "") }
                }
                true
            }
            None => { let old: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect(); if p[2] >= 50 && p[2] < 800_000 && old[o] > b(1000) && old[i] > b(1000) { bad(c, n, "refuses a quote that exists", p, ("none", pool, amt), "") } false }
        }
    });
    // indices that name no trade
    let ix: Vec<u128> = (0..8).collect();
    product(c, "stableswap_indices", &[&pi, &ix, &ix], |p| {
        let pool = &t.pools[p[0] as usize];
        let (i, o) = (p[1] as usize, p[2] as usize);
        let ok = i != o && i < pool.len() && o < pool.len();
        let rs = ar(pool);
        let (s, y) = (m::calculate_out_given_in::<DI, YI>(&rs, i, o, 1, 100), m::calculate_in_given_out::<DI, YI>(&rs, i, o, 1, 100));
        if !ok && (s.is_some() || y.is_some()) { bad(c, "stableswap_indices", "quotes a pair the pool does not have", p, (s, y), "none") }
        ok
    });
    // every history of sells and buys: value never leaves the pool (invariant never falls), fees off
    let hist: Vec<usize> = (0..t.pools.len()).filter(|k| t.pools[*k].iter().all(|(a, d)| norm18(*a, *d) > b(1_000_000_000))).collect();
    let hi: Vec<u128> = hist.iter().step_by(c.pick(6, 2)).map(|x| *x as u128).collect();
    let depth = c.pick(3, 4);
    product(c, "stableswap_histories", &[&hi, &[1, 3, 5]], |p| {
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let n = pool.len();
        let mut frontier: std::collections::HashSet<Vec<u128>> = [pool.iter().map(|x| x.0).collect()].into();
        for _ in 0..depth {
            let mut next = std::collections::HashSet::new();
            for st in &frontier {
                let cur: Vec<(u128, u8)> = st.iter().zip(pool).map(|(a, q)| (*a, q.1)).collect();
                let x: Vec<B> = cur.iter().map(|(a, d)| norm18(*a, *d)).collect();
                let d0 = scale_d(&x, amp);
                for (i, o) in [(0, 1), (1, 0), (n - 1, 0)] {
                    for f in [1u128, 70_000, 900_000] {
                        for buy in [false, true] {
                            let mut s2 = st.clone();
                            if buy {
                                let a = (st[o] / 1_000_000).saturating_mul(f).max(1);
                                let Some(inp) = m::calculate_in_given_out::<DI, YI>(&ar(&cur), i, o, a, amp) else { continue };
                                if a > st[o] { continue }
                                s2[o] -= a; s2[i] += inp;
                            } else {
                                let a = (st[i] / 1_000_000).saturating_mul(f).max(1);
                                let Some(out) = m::calculate_out_given_in::<DI, YI>(&ar(&cur), i, o, a, amp) else { continue };
                                if out > st[o] { bad(c, "stableswap_histories", "pays more than there is", p, (st, a, out), ""); return true }
                                s2[i] += a; s2[o] -= out;
                            }
                            c.add_transitions(1);
                            let y: Vec<B> = s2.iter().zip(pool).map(|(a, q)| norm18(*a, q.1)).collect();
                            if !d_at_least(&up(&y), d0, amp) { bad(c, "stableswap_histories", "invariant falls along a history", p, (st, &s2, amp), ""); return true }
                            next.insert(s2);
                        }
                    }
                }
            }
            c.add_states(next.len() as u64);
            frontier = next;
        }
        true
    });
    c.section("worst", json!({"d_below": worst[0].load(Relaxed), "d_above": worst[1].load(Relaxed)}));
}

/// Exact reference of the fee-adjusted reserves: `x` the reserves after the change, `x0` before, both
/// normalised, `d0`/`d1` the invariants; what is taken is fee*n/(4(n-1)) of the distance of each
/// reserve from its proportional one.
fn adjusted(x0: &[B], x: &[B], d0: B, d1: B, fee: u128) -> Vec<B> {
    let n = x.len() as u128;
    x.iter().zip(x0).map(|(v, v0)| {
        let ideal = d1 * *v0 / d0;
        let diff = if *v > ideal { *v - ideal } else { ideal - *v };
        *v - (diff * b(fee) * b(n) / b(1_000_000) / b(4 * (n - 1))).min(*v)
    }).collect()
}
/// pools whose reserves are large enough for the tolerance of a few units to be meaningful
fn big_pools(c: &Check) -> Vec<Vec<(u128, u8)>> {
    pools(c).into_iter().filter(|p| p.iter().all(|(a, d)| norm18(*a, *d) >= b(1_000_000_000) && *a >= 1000)).collect()
}

/// N09
pub fn shares(c: &Check) {
    let t = table(big_pools(c));
    let pi: Vec<u128> = (0..t.pools.len() as u128).collect();
    let fees: Vec<u128> = c.pick(vec![0, 400, 300_000], vec![0, 1, 30, 400, 3000, 10_000, 100_000, 300_000, 1_000_000]);
    // issuance relative to the invariant: equal, half, triple plus odd, tiny
    let iss_of = |d: B, k: u128| to_u128(match k { 0 => d, 1 => d / b(2) + b(1), 2 => d * b(3) + b(7), 3 => d / b(1_000_003) + b(1000), _ => b(1009) });
    let parts: Vec<u128> = c.pick(vec![1, 100, 10_000, 250_000, 1_000_000], vec![1, 10, 100, 5000, 10_000, 100_000, 250_000, 600_000, 1_000_000, 5_000_000]);
    let isss: Vec<u128> = c.pick(vec![1, 3, 4], vec![0, 1, 2, 3, 4]);
    let ai: Vec<u128> = c.pick(vec![0, 2, 3, 5], AI.to_vec());
    let shapes: Vec<u128> = vec![0, 1, 2, 3, 4];
    // added amounts by shape: proportional, single (first), single (last), skewed, rising
    let added = |pool: &[(u128, u8)], sh: u128, ppm: u128| -> Vec<u128> {
        let n = pool.len();
        let f = |a: u128, k: u128| to_u128(b(a) * b(ppm) * b(k) / b(1_000_000)).unwrap();
        pool.iter().enumerate().map(|(i, (a, _))| match sh { 0 => f(*a, 1), 1 => if i == 0 { f(*a, 1) } else { 0 }, 2 => if i + 1 == n { f(*a, 1) } else { 0 }, 3 => if i == 0 { f(*a, 2) } else { f(*a, 1) }, _ => f(*a, i as u128 + 1) }).collect()
    };
    product(c, "stableswap_add_shares", &[&pi, &ai, &parts, &shapes, &fees, &isss], |p| {
        let n = "stableswap_add_shares";
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let (d0, sd0) = t.d[p[0] as usize][p[1] as usize];
        let Some(iss) = iss_of(d0, p[5]) else { return false };
        let add = added(pool, p[3], p[2]);
        if add.iter().all(|a| *a == 0) { return false }
        let new: Vec<(u128, u8)> = pool.iter().zip(&add).map(|((a, d), x)| (a + x, *d)).collect();
        let r = m::calculate_shares::<DI>(&ar(pool), &ar(&new), amp, iss, Permill::from_parts(p[4] as u32));
        let x0: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
        let x1: Vec<B> = new.iter().map(|(a, d)| norm18(*a, *d)).collect();
        let sd1 = scale_d(&x1, amp);
        let d1 = sd1 >> UP;
        // rounding happens in native units of each asset and in single units of the invariant
        let ad = adjusted(&x0, &x1, d0, d1, p[4]);
        if ad.iter().any(|v| *v < b(1000)) { return false }
        let off: Vec<B> = pool.iter().zip(&x1).map(|((_, d), x)| if p[4] == 0 { B::zero() } else { b(2) * unit(*d) + b(16) + *x / b(E18 / 10) }).collect();
        let da_hi = true_d(&ad.iter().zip(&off).map(|(x, o)| *x + *o).collect::<Vec<_>>(), amp) + b(DABOVE + 1);
        let da_lo = true_d(&ad.iter().zip(&off).map(|(x, o)| *x - (*o).min(*x - b(2))).collect::<Vec<_>>(), amp);
        let da_lo = da_lo - b(DABOVE + 1).min(da_lo);
        match r {
            Some(s) => {
                // never more than the share of the invariant's growth
                let lim = b(iss) * (d1 + b(1 + DABOVE) - d0.min(d1)) / d0;
                if b(s) > lim { bad(c, n, "mints more shares than the invariant grew", p, (s, &add, pool), lim) }
                let grow = |d: B| if d > d0 { d - d0 } else { B::zero() };
                let hi = b(iss) * grow(da_hi) / d0 + b(1);
                let dh = d0 + b(DABOVE + 1);
                let lo = b(iss) * (da_lo - dh.min(da_lo)) / dh;
                let lo = lo - b(1).min(lo);
                if b(s) > hi { bad(c, n, "mints more shares than the fee leaves", p, (s, &add, pool), hi) }
                if b(s) < lo { bad(c, n, "mints fewer shares than due", p, (s, &add, pool), lo) }
                let _ = sd0;
                true
            }
            None => { if da_lo > d0 + b(8) && b(iss) * (da_hi - d0) / d0 < b(u128::MAX) { bad(c, n, "refuses a deposit", p, (&add, pool), "") } false }
        }
    });
    // first liquidity: shares are the invariant, rounded down
    product(c, "stableswap_first_shares", &[&pi, &AI, &fees], |p| {
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let d = t.d[p[0] as usize][p[1] as usize].0;
        let zero: Vec<(u128, u8)> = pool.iter().map(|x| (0, x.1)).collect();
        match m::calculate_shares::<DI>(&ar(&zero), &ar(pool), amp, 0, Permill::from_parts(p[2] as u32)) {
            Some(s) => { if b(s) > d + b(1) || b(s) + b(2) < d { bad(c, "stableswap_first_shares", "first shares are not the invariant", p, s, d) } true }
            None => { bad(c, "stableswap_first_shares", "refused", p, pool, d); false }
        }
    });
    let which: Vec<u128> = vec![0, 1, 4];
    let ix = |n: usize, k: u128| match k { 0 => Some(0), 1 => Some(n - 1), _ => (n > 2).then_some(1) };
    let parts_out: Vec<u128> = c.pick(vec![1, 100, 10_000, 250_000, 700_000], vec![1, 10, 100, 5000, 10_000, 100_000, 250_000, 600_000, 900_000]);
    product(c, "stableswap_shares_for_amount", &[&pi, &ai, &parts_out, &which, &fees, &isss], |p| {
        let n = "stableswap_shares_for_amount";
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let (d0, _) = t.d[p[0] as usize][p[1] as usize];
        let (Some(iss), Some(k)) = (iss_of(d0, p[5]), ix(pool.len(), p[3])) else { return false };
        let a = to_u128(b(pool[k].0) * b(p[2]) / b(1_000_000)).unwrap();
        let mut new = pool.clone();
        new[k].0 -= a;
        let x0: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
        let x1: Vec<B> = new.iter().map(|(a, d)| norm18(*a, *d)).collect();
        let d1 = true_d(&x1, amp);
        // rounding happens in native units of each asset and in single units of the invariant
        let ad = adjusted(&x0, &x1, d0, d1, p[4]);
        if ad.iter().any(|v| *v < b(1000)) { return false }
        let off: Vec<B> = pool.iter().zip(&x1).map(|((_, d), x)| if p[4] == 0 { B::zero() } else { b(2) * unit(*d) + b(16) + *x / b(E18 / 10) }).collect();
        let da_hi = true_d(&ad.iter().zip(&off).map(|(x, o)| *x + *o).collect::<Vec<_>>(), amp) + b(DABOVE + 1);
        let da_lo = true_d(&ad.iter().zip(&off).map(|(x, o)| *x - (*o).min(*x - b(2))).collect::<Vec<_>>(), amp);
        let da_lo = da_lo - b(DABOVE + 1).min(da_lo);
        match m::calculate_shares_for_amount::<DI>(&ar(pool), k, a, amp, iss, Permill::from_parts(p[4] as u32)) {
            Some(s) => {
                let lim = b(iss) * (d0 - (d1 + b(1 + DABOVE)).min(d0)) / d0;
                if b(s) < lim { bad(c, n, "burns fewer shares than the invariant fell", p, (s, a, pool), lim) }
                let fall = |d: B| if d < d0 { d0 - d } else { B::zero() };
                let hi = b(iss) * fall(da_lo) / d0 + b(2);
                if b(s) > hi { bad(c, n, "burns more shares than due", p, (s, a, pool), hi) }
                // rounded up: strictly more than the part of the supply the invariant falls by
                let d0k = d0 - b(DABOVE);
                if d0k > da_hi && b(s) * d0k <= b(iss) * (d0k - da_hi) { bad(c, n, "burns fewer shares than due", p, (s, a, pool), b(iss) * (d0k - da_hi) / d0k) }
                true
            }
            None => { if a >= 1000 && new[k].0 > 1000 && d0 > da_hi { bad(c, n, "refuses a withdrawal", p, (a, pool), "") } false }
        }
    });
    product(c, "stableswap_withdraw_one", &[&pi, &ai, &parts_out, &which, &fees, &isss], |p| {
        let n = "stableswap_withdraw_one";
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let (d0, sd0) = t.d[p[0] as usize][p[1] as usize];
        let (Some(iss), Some(k)) = (iss_of(d0, p[5]), ix(pool.len(), p[3])) else { return false };
        let s = to_u128(b(iss) * b(p[2]) / b(1_000_000)).unwrap();
        if s == 0 { return false }
        let call = |f: u128| m::calculate_withdraw_one_asset::<DI, YI>(&ar(pool), s, k, iss, amp, Permill::from_parts(f as u32));
        match call(p[4]) {
            Some((out, fee)) => {
                let what = (s, iss, out, fee, pool, k);
                if out >= pool[k].0 { bad(c, n, "pays out the whole reserve", p, what, ""); return true }
                let mut x: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
                let x0 = x.clone();
                x[k] = x[k] - norm18(out, pool[k].1);
                // (iss - s) shares must still be backed by their part of the invariant
                let need = div_ceil(sd0 * b(iss - s), b(iss));
                if !d_at_least(&up(&x), need, amp) { bad(c, n, "remaining shares lose value", p, what, "") }
                let Some((o0, f0)) = call(0) else { bad(c, n, "refused without fee only", p, what, ""); return true };
                if f0 > 1 { bad(c, n, "a fee without a fee", p, (o0, f0), 0) }
                if out > o0 { bad(c, n, "pays more with a fee than without", p, what, o0) }
                let tot = out + fee;
                if tot > o0 + 1 || tot + 2 < o0 + 0 { bad(c, n, "payout and fee do not add up to the payout without fee", p, what, o0) }
                // exact two-sided reference
                let (lo, hi) = one_asset(&x0, amp, d0, s, iss, k, p[4], false);
                let u = unit(pool[k].1);
                let (lo, hi) = (lo / u, hi / u + b(1));
                let lo = lo - b(1).min(lo);
                if b(out) > hi { bad(c, n, "pays more than due", p, what, hi) }
                if b(out) < lo { bad(c, n, "pays less than due", p, what, lo) }
                true
            }
            None => { if p[2] >= 100 && p[2] <= 900_000 && p[4] < 1_000_000 { bad(c, n, "refuses a withdrawal", p, (s, iss, pool), "") } false }
        }
    });
    product(c, "stableswap_add_one", &[&pi, &ai, &parts_out, &which, &fees, &isss], |p| {
        let n = "stableswap_add_one";
        let (pool, amp) = (&t.pools[p[0] as usize], AMPS[p[1] as usize]);
        let (d0, sd0) = t.d[p[0] as usize][p[1] as usize];
        let (Some(iss), Some(k)) = (iss_of(d0, p[5]), ix(pool.len(), p[3])) else { return false };
        let s = to_u128(b(iss) * b(p[2]) / b(1_000_000)).unwrap();
        if s == 0 { return false }
        let call = |f: u128| m::calculate_add_one_asset::<DI, YI>(&ar(pool), s, k, iss, amp, Permill::from_parts(f as u32));
        match call(p[4]) {
            Some((inp, fee)) => {
                let what = (s, iss, inp, fee, pool, k);
                let mut x: Vec<B> = pool.iter().map(|(a, d)| norm18(*a, *d)).collect();
                let x0 = x.clone();
                x[k] = x[k] + norm18(inp, pool[k].1);
                let need = sd0 * b(iss + s) / b(iss);
                if !d_at_least(&up(&x), need, amp) { bad(c, n, "existing shares lose value", p, what, "") }
                let Some((i0, _)) = call(0) else { bad(c, n, "refused without fee only", p, what, ""); return true };
                if inp < i0 { bad(c, n, "charges less with a fee than without", p, what, i0) }
                let (lo, hi) = one_asset(&x0, amp, d0, s, iss, k, p[4], true);
                let u = unit(pool[k].1);
                let (lo, hi) = (lo / u, hi / u + b(2));
                if b(inp) > hi { bad(c, n, "charges more than due", p, what, hi) }
                if b(inp) < lo { bad(c, n, "charges less than due", p, what, lo) }
                true
            }
            None => { if p[2] >= 100 && p[4] <= 10_000 { bad(c, n, "refuses a deposit", p, (s, iss, pool), "") } false }
        }
    });
}
/// Bounds (lower, upper), normalised, of the amount of asset `k` exchanged for `s` of `iss` shares.
fn one_asset(x0: &[B], amp: u128, d0: B, s: u128, iss: u128, k: usize, fee: u128, add: bool) -> (B, B) {
    let n = x0.len() as u128;
    let at = |de: u128, less: u128, more: u128| -> B {
        let d = d0 + b(de);
        let d1 = if add { d + d * b(s) / b(iss) } else { d - d * b(s) / b(iss) };
        let others: Vec<B> = x0.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, v)| *v).collect();
        let y = true_y(&others, d1, amp);
        let cut = |v: B| v * b(fee) * b(n) / b(1_000_000) / b(4 * (n - 1));
        let red: Vec<B> = others.iter().map(|v| { let i = *v * d1 / d; let red = *v - cut(if add { i - (*v).min(i) } else { *v - i }); let e = if fee == 0 { B::zero() } else { i / b(E18 / 10) }; red_shift(red, b(more), b(less), e) }).collect();
        let ideal = x0[k] * d1 / d;
        let dx = if add { y - ideal.min(y) } else { ideal - y.min(ideal) };
        let own = x0[k] - cut(dx);
        let y1 = true_y(&red, d1, amp);
        if add { y1 - own.min(y1) } else { own - y1.min(own) }
    };
    // the exact amount for the exact invariant and for the one the search may return, with the other
    // reserves rounded either way
    let v = [at(0, 0, 2), at(0, 2, 0), at(DABOVE + 1, 0, 2), at(DABOVE + 1, 2, 0)];
    let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
    let tol = b(16) + b(6) * (hi - lo);
    (lo - tol.min(lo), hi + tol)
}
fn red_shift(v: B, more: B, less: B, e: B) -> B { if less > more { v - less - e } else { v + more + e } }
