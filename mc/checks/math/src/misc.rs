use crate::util::*;
use hydra_dx_math::{dynamic_fees, liquidity_mining as lm, omnipool_subpools as sub, rate_limiter as rl, staking};
use sp_arithmetic::{traits::Zero, FixedPointNumber, FixedU128, PerThing, Perbill, Permill};

const E18: u128 = 1_000_000_000_000_000_000;
fn fx(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
fn fits(x: B) -> Option<u128> { to_u128(x) }
fn eq(c: &Check, n: &str, p: &[u128], got: Option<u128>, want: Option<B>) -> bool {
    let w = want.and_then(fits);
    if got != w {
        let what = match (got, w) { (Some(_), None) => "gives a value that does not exist", (None, Some(_)) => "refuses a value that fits", _ => "is not the exact value" };
        bad(c, n, what, p, got, w)
    }
    got.is_some()
}

// ------------------------------------------------------------------ N15 dynamic fees
type Params = (u128, u128, u128, u128); // min, max in parts; decay, amplification inner
fn fee_ref(acc: u128, (min, max, decay, amp): Params, prev: u128, diff: u128, out: u128, inn: u128, liq: u128, sign: bool) -> (B, bool) {
    // everything scaled by 1e18 * 1e18 (amplification times x); value returned is that of the unclamped fee, floored at zero
    let s = b(E18);
    let part = s * s / b(acc);
    let (min_s, max_s) = (b(min) * part, b(max) * part);
    let mut f = b(prev) * part;
    if diff > 1 {
        let d = b(decay) * s * b(diff - 1);
        f = if f > d { f - d } else { B::zero() };
        f = f.max(min_s);
    }
    let (x, neg) = if liq == 0 { (B::zero(), false) } else { (b(out.abs_diff(inn)) * s / b(liq), if sign { inn > out } else { out > inn }) };
    let x = x.min(b(u128::MAX));
    let ax = (b(amp) * x).min(b(u128::MAX) * s);
    let d = b(decay) * s;
    let r = if neg || liq != 0 && false { let t = ax + d; if f > t { f - t } else { B::zero() } } else { let up = f + ax; if up > d { up - d } else { B::zero() } };
    let _ = max_s;
    (r.max(min_s).min(max_s), min <= max)
}
fn asset<F: PerThing>(parts: (F, F), d: u128, a: u128, prev: F, diff: u128, o: u128, i: u128, l: u128, protocol: bool) -> F where F::Inner: sp_arithmetic::FixedPointOperand {
    let v = dynamic_fees::types::OracleEntry { amount_in: i, amount_out: o, liquidity: l };
    let p = dynamic_fees::types::FeeParams { min_fee: parts.0, max_fee: parts.1, decay: fx(d), amplification: fx(a) };
    if protocol { dynamic_fees::recalculate_protocol_fee(v, prev, diff, p) } else { dynamic_fees::recalculate_asset_fee(v, prev, diff, p) }
}
/// N15
pub fn dynamic(c: &Check) {
    let params: Vec<Params> = vec![
        (2_500, 10_000, E18 / 100_000, 2 * E18), (500, 1_000, 5 * E18 / 1_000_000, E18), (0, 1_000_000, 0, E18), (0, 1_000_000, E18 / 1000, 0),
        (1_000, 400_000, 5 * E18 / 10_000, 10 * E18), (3_000, 3_000, E18 / 10_000, E18), (0, 400_000, u128::MAX, u128::MAX), (10_000, 1_000_000, 1, u128::MAX), (100, 990_000, E18 / 7, E18 / 3), (0, 50_000, E18 / 1_000_000 + 1, 1),
    ];
    let pi: Vec<u128> = (0..params.len() as u128).collect();
    let prev: Vec<u128> = vec![0, 1, 100, 500, 2_499, 2_500, 2_501, 3_000, 7_777, 10_000, 399_999, 500_000, 1_000_000];
    let diffs: Vec<u128> = c.pick(vec![0, 1, 2, 3, 10, 1000, u32::MAX as u128], vec![0, 1, 2, 3, 4, 5, 10, 99, 100, 1000, 7200, 100_000, u32::MAX as u128, u128::MAX]);
    let vol: Vec<u128> = c.pick(vec![0, 1, 10_000, 123_456_789, 10u128.pow(15), 10u128.pow(24), u128::MAX], vec![0, 1, 2, 999, 10_000, 123_456_789, 10u128.pow(12), 10u128.pow(15), 10u128.pow(18) + 1, 10u128.pow(24), u128::MAX / 2, u128::MAX]);
    let liq: Vec<u128> = vec![0, 1, 7, 10_000, 10u128.pow(9), 10u128.pow(15), 10u128.pow(18) + 3, 10u128.pow(25), u128::MAX];
    for protocol in [false, true] {
        let n = if protocol { "recalculate_protocol_fee" } else { "recalculate_asset_fee" };
        product(c, n, &[&pi, &prev, &diffs, &vol, &vol, &liq], |p| {
            let ps = params[p[0] as usize];
            let (want, _) = fee_ref(1_000_000, ps, p[1], p[2], p[3], p[4], p[5], !protocol);
            let got = asset((Permill::from_parts(ps.0 as u32), Permill::from_parts(ps.1 as u32)), ps.2, ps.3, Permill::from_parts(p[1] as u32), p[2], p[3], p[4], p[5], protocol).deconstruct() as u128;
            let unit = b(E18) * b(E18) / b(1_000_000);
            let g = b(got) * unit;
            let e = if g > want { g - want } else { want - g };
            // half a part for the final rounding plus the truncation of the fixed point steps
            if e > (unit >> 1) + b(4 * E18) { bad(c, n, "is not previous fee - decay + amplified net volume", p, got, want / unit) }
            if got < ps.0 || got > ps.1 { bad(c, n, "leaves the configured range", p, got, (ps.0, ps.1)) }
            let big = asset((Perbill::from_parts(ps.0 as u32 * 1000), Perbill::from_parts(ps.1 as u32 * 1000)), ps.2, ps.3, Perbill::from_parts(p[1] as u32 * 1000), p[2], p[3], p[4], p[5], protocol).deconstruct() as u128;
            if big.abs_diff(got * 1000) > 501 { bad(c, n, "depends on the representation of the fee", p, got, big) }
            true
        });
    }
    // histories: blocks of trades with gaps
    let depth = c.pick(5, 7);
    let evs: Vec<(u128, u128, u128, u128)> = { let mut v = vec![]; for gap in [1u128, 2, 50] { for (o, i) in [(0u128, 0u128), (1_000_000, 0), (0, 1_000_000), (70_000_000, 30_000_000)] { v.push((gap, o, i, 10_000_000_000)) } } v };
    product(c, "fee_histories", &[&pi[..6], &[0, 1]], |p| {
        let ps = params[p[0] as usize];
        let rng = (Permill::from_parts(ps.0 as u32), Permill::from_parts(ps.1 as u32));
        let mut front: std::collections::BTreeSet<u128> = [ps.0, ps.1, (ps.0 + ps.1) / 2].into_iter().collect();
        for _ in 0..depth {
            let mut next = std::collections::BTreeSet::new();
            for f in &front {
                for (gap, o, i, l) in &evs {
                    let g = asset(rng, ps.2, ps.3, Permill::from_parts(*f as u32), *gap, *o, *i, *l, p[1] == 1).deconstruct() as u128;
                    c.add_transitions(1);
                    if g < ps.0 || g > ps.1 { bad(c, "fee_histories", "leaves the configured range", p, (f, gap, o, i, g), (ps.0, ps.1)) }
                    // skipping blocks is the same as idle blocks in between
                    let mut s = *f;
                    for _ in 1..*gap { s = asset(rng, ps.2, ps.3, Permill::from_parts(s as u32), 1, 0, 0, *l, p[1] == 1).deconstruct() as u128; }
                    let s = asset(rng, ps.2, ps.3, Permill::from_parts(s as u32), 1, *o, *i, *l, p[1] == 1).deconstruct() as u128;
                    if s.abs_diff(g) > *gap { bad(c, "fee_histories", "idle blocks are not decayed one by one", p, (f, gap, o, i, g), s) }
                    let idle = asset(rng, ps.2, ps.3, Permill::from_parts(*f as u32), *gap, 0, 0, *l, p[1] == 1).deconstruct() as u128;
                    if idle > *f && *f >= ps.0 { bad(c, "fee_histories", "fee rises without trades", p, (f, gap), idle) }
                    let favours = if p[1] == 1 { i >= o } else { o >= i };
                    if favours && g < idle || !favours && g > idle { bad(c, "fee_histories", "net volume moves the fee the wrong way", p, (f, gap, o, i, g), idle) }
                    next.insert(g);
                }
            }
            c.add_states(next.len() as u64);
            front = next.into_iter().take(c.pick(400, 4000)).collect();
        }
        true
    });
}

// ------------------------------------------------------------------ N16 staking
fn bal(c: &Check) -> Vec<u128> { join(&[&upto(c.pick(12, 40)), &decades(2, 30).into_iter().step_by(c.pick(3, 1)).collect::<Vec<_>>(), &TOP]) }
fn fixeds(c: &Check) -> Vec<u128> { let mut v = vec![0, 1, 2, 7, E18 / 1_000_000, E18 / 10_000, E18 / 100, E18 / 10, E18 / 3, E18 / 2, E18 - 1, E18, E18 + 1, 2 * E18, 3 * E18 + 7, 1000 * E18, E18 * 1_000_000 + 3, u128::MAX / 7, u128::MAX - 1, u128::MAX]; if c.thorough { for k in 1..40 { v.push(E18 / 40 * k + k); v.push(10u128.pow(18 + k as u32 / 2)) } } norm(v) }
fn rps(c: &Check, n: &str, p: &[u128], got: Option<u128>) -> bool {
    let (cur, pend, stake) = (p[0], p[1], p[2]);
    let q = if stake == 0 { None } else { fits(b(pend) * b(E18) / b(stake)) };
    eq(c, n, p, got, q.map(|x| b(x) + b(cur)))
}
/// N16
pub fn stake(c: &Check) {
    let (v, f) = (bal(c), fixeds(c));
    product(c, "staking_accumulated_rps", &[&f, &v, &v], |p| rps(c, "staking_accumulated_rps", p, staking::calculate_accumulated_rps(fx(p[0]), p[1], p[2]).map(|x| x.into_inner())));
    let w = [0u128, 1, 2, 7, 100, 255];
    product(c, "staking_slashed_points", &[&v, &v, &v, &w, &[0, 1, 5, 100, 10_000, u128::MAX]], |p| {
        let n = "staking_slashed_points";
        let (points, stake, inc, wt, min) = (p[0], p[1], p[2], p[3], p[4]);
        let got = staking::calculate_slashed_points(points, stake, inc, wt as u8, min);
        // refuses when a product does not fit or there is nothing staked
        let want = match (fits(b(stake) * b(wt)), fits(b(inc) * b(points))) { (Some(d), Some(_)) if d > 0 => Some((b(inc) * b(points) / b(d)).min(b(points)).max(b(min)).min(b(points))), _ => None };
        if let Some(g) = got { if g > points { bad(c, n, "slashes more points than there are", p, g, points) } if g < min.min(points) { bad(c, n, "slashes less than the minimum", p, g, min) } }
        eq(c, n, p, got, want)
    });
    product(c, "staking_period", &[&v, &v], |p| {
        let Some(l) = std::num::NonZeroU128::new(p[0]) else { return false };
        eq(c, "staking_period", p, Some(staking::calculate_period_number(l, p[1])), Some(b(p[1]) / b(p[0])))
    });
    let per = [0u128, 1, 2, 5, 100, 1_000_000, u64::MAX as u128, u128::MAX];
    let pw = [0u128, 1, 200_000, 333_333, 500_000, 1_000_000];
    product(c, "staking_points", &[&per, &per, &[0, 1, 2, 255], &pw, &per, &[0, 1, 333_333_333, 800_000_000, 1_000_000_000], &[0, 1, 7, 1000, u128::MAX]], |p| {
        let n = "staking_points";
        let got = staking::calculate_points(p[0], p[1], p[2] as u8, Permill::from_parts(p[3] as u32), p[4], Perbill::from_parts(p[5] as u32), p[6]);
        let want = (|| {
            let t = fits(b(p[1].checked_sub(p[0])?) * b(p[2]))?;
            let t = fits(b(t) * b(p[3]) / b(1_000_000))?;
            let a = fits(b(p[4]) * b(p[5]) / b(1_000_000_000))?;
            let s = fits(b(a) + b(t))?;
            s.checked_sub(p[6]).map(b)
        })();
        eq(c, n, p, got, want)
    });
    // sigmoid
    let xs: Vec<u128> = join(&[&upto(c.pick(300, 3000)), &decades(3, 19)[..]]); // points as a fixed point integer: below 3.4e20
    let aa: Vec<u128> = vec![0, 1, E18 / 1_000_000, 8 * E18 / 1000, E18 / 100, E18 / 10, E18, 2 * E18, 15 * E18 + 1, 1000 * E18];
    let bb: Vec<u128> = vec![0, 1, 2, 10, 1000, 40_000, 1_000_000, u32::MAX as u128];
    product(c, "staking_sigmoid", &[&aa, &bb, &xs], |p| {
        let n = "staking_sigmoid";
        let got = staking::sigmoid(p[2], fx(p[0]), p[1] as u32).map(|x| x.into_inner());
        let s = b(E18);
        let ax = b(p[0]) * b(p[2]); // scaled 1e18
        let (num, den) = (ax * ax * ax * ax, b(p[1]) * s * s * s * s);
        match got {
            Some(g) => {
                if g > E18 || (g == E18 && p[1] > 0 && num / (s * s * s) < b(E18 / 4) * b(E18) * b(p[1])) { bad(c, n, "reaches one or more", p, g, E18) }
                // |g/1e18 - num/(num+den)| small: steps truncated to 1e-18
                let want = num * s / (num + den);
                let e = if b(g) > want { b(g) - want } else { want - b(g) };
                if e > b(E18 / 100_000_000_000) && (p[1] > 0 || num > s * s * s * b(1_000_000_000_000)) { bad(c, n, "is not (ax)^4/(b+(ax)^4)", p, g, want) }
                if let Some(h) = staking::sigmoid(p[2] + 1, fx(p[0]), p[1] as u32) { if h.into_inner() < g { bad(c, n, "falls with more points", p, g, h) } }
                true
            }
            None => { if (num / (s * s * s) + den / (s * s * s)) < b(u128::MAX) && num + den > B::zero() && (p[1] > 0 || num / (s * s * s) > B::zero()) { bad(c, n, "refuses a value that exists", p, "", num * s / (num + den)) } false }
        }
    });
    product(c, "staking_rewards", &[&f, &f, &v], |p| {
        let got = staking::calculate_rewards(fx(p[0]), fx(p[1]), p[2]);
        eq(c, "staking_rewards", p, got, p[0].checked_sub(p[1]).map(|d| b(d) * b(p[2]) / b(E18)))
    });
    product(c, "staking_percentage", &[&f, &v], |p| {
        let got = staking::calculate_percentage_amount(p[1], fx(p[0]));
        eq(c, "staking_percentage", p, Some(got), Some((b(p[1]) * b(p[0]) / b(E18)).min(b(u128::MAX))))
    });
    product(c, "staking_total", &[&v, &v, &v], |p| eq(c, "staking_total", p, Some(staking::calculate_total_rewards(p[0], p[1], p[2])), Some((b(p[0]) + b(p[1]) + b(p[2])).min(b(u128::MAX)))));
    stake_histories(c);
}
/// every history of distributing and (un)staking pays out no more than was put in
fn stake_histories(c: &Check) {
    #[derive(Clone, PartialEq, Eq, Hash)]
    struct S { rps: u128, users: [(u128, u128); 2], total: u128, paid: u128, put: u128 }
    let depth = c.pick(6, 8);
    product(c, "staking_histories", &[&[1, 3, 1_000_000_007, 10u128.pow(15) + 1], &[1, 2, 999, 10u128.pow(12) + 7]], |p| {
        let mut front: std::collections::HashSet<S> = [S { rps: 0, users: [(0, 0); 2], total: 0, paid: 0, put: 0 }].into_iter().collect();
        for _ in 0..depth {
            let mut next = std::collections::HashSet::new();
            for s in &front {
                for r in [p[1], p[1] * 7 + 3] {
                    if let Some(x) = staking::calculate_accumulated_rps(fx(s.rps), r, s.total) { let mut t = s.clone(); t.rps = x.into_inner(); t.put += r; next.insert(t); }
                }
                for u in 0..2 {
                    let amt = p[0] * (1 + 2 * u as u128);
                    let mut t = s.clone();
                    let (st, at) = t.users[u];
                    let rw = staking::calculate_rewards(fx(s.rps), fx(at), st);
                    let Some(rw) = rw else { bad(c, "staking_histories", "a position cannot be paid", p, (s.rps, at, st), ""); continue };
                    t.paid += rw;
                    if st == 0 { t.users[u] = (amt, s.rps); t.total += amt } else { t.users[u] = (0, 0); t.total -= st }
                    if t.paid > t.put { bad(c, "staking_histories", "pays out more than was distributed", p, t.paid, t.put) }
                    next.insert(t);
                }
            }
            c.add_transitions(front.len() as u64 * 4);
            c.add_states(next.len() as u64);
            front = next;
        }
        true
    });
}

// ------------------------------------------------------------------ N17 liquidity mining
/// N17
pub fn mining(c: &Check) {
    let (v, f) = (bal(c), fixeds(c));
    let t: Vec<u128> = join(&[&upto(c.pick(40, 200)), &[1000, 12_345, 1_000_000, u32::MAX as u128]]);
    let sc: Vec<u128> = vec![0, 1, 2, 7, 100, 5000, 1_000_000, u32::MAX as u128];
    product(c, "loyalty_multiplier", &[&f, &sc, &t], |p| {
        let n = "loyalty_multiplier";
        let (init, s, t) = (p[0], p[1], p[2]);
        let got = lm::calculate_loyalty_multiplier(t, fx(init), s as u32).ok().map(|x| x.into_inner());
        // (t + init*s)/(t+s)
        let num = b(init) * b(s) + b(t) * b(E18);
        let den = b(t) + b(s);
        let want = if den.is_zero() || num > b(u128::MAX) { None } else { Some(num / den) };
        if let Some(g) = got {
            if init <= E18 && (g > E18 || g < init && s > 0) { bad(c, n, "leaves the range from the initial percentage to one", p, g, init) }
            if let Ok(h) = lm::calculate_loyalty_multiplier(t + 1, fx(init), s as u32) { if init <= E18 && h.into_inner() < g { bad(c, n, "falls with time", p, g, h) } }
        }
        eq(c, n, p, got, want)
    });
    product(c, "lm_accumulated_rps", &[&f, &v, &v], |p| rps(c, "lm_accumulated_rps", p, lm::calculate_accumulated_rps(fx(p[0]), p[2], p[1]).ok().map(|x| x.into_inner())));
    product(c, "lm_reward", &[&f, &f, &v], |p| {
        let got = lm::calculate_reward(fx(p[0]), fx(p[1]), p[2]).ok();
        eq(c, "lm_reward", p, got, p[1].checked_sub(p[0]).map(|d| b(d) * b(p[2]) / b(E18)))
    });
    let lo = [0u128, 1, E18 / 10, E18 / 3, E18 - 1, E18, E18 + 1, 2 * E18];
    let vs: Vec<u128> = v.iter().copied().step_by(c.pick(1, 3)).collect();
    product(c, "lm_user_reward", &[&f, &f, &v, &vs, &lo], |p| {
        let n = "lm_user_reward";
        let (start, now, shares, claimed, mul) = (p[0], p[1], p[2], p[3], p[4]);
        let got = lm::calculate_user_reward(fx(start), shares, claimed, fx(now), fx(mul)).ok();
        let want = (|| {
            let max = fits(b(now.checked_sub(start)?) * b(shares) / b(E18))?;
            if max == 0 { return Some((0, 0)) }
            let cl = fits(b(max) * b(mul) / b(E18))?;
            Some((cl.checked_sub(claimed)?, max.checked_sub(cl)?))
        })();
        if let Some((u, x)) = got { if (u, x) != (0, 0) { let max = b(now - start) * b(shares) / b(E18); if b(u) + b(x) + b(claimed) != max { bad(c, n, "paid, claimed and forfeited parts do not add up", p, (u, x), max) } } }
        if got != want { bad(c, n, "is not the loyalty share less what was claimed", p, got, want) }
        got.is_some()
    });
    product(c, "lm_valued_shares", &[&v, &v], |p| eq(c, "lm_valued_shares", p, lm::calculate_valued_shares(p[0], p[1]).ok(), Some(b(p[0]) * b(p[1]))));
    product(c, "lm_global_farm_shares", &[&v, &f], |p| eq(c, "lm_global_farm_shares", p, lm::calculate_global_farm_shares(p[0], fx(p[1])).ok(), Some(b(p[0]) * b(p[1]) / b(E18))));
    let fs: Vec<u128> = f.iter().copied().step_by(c.pick(2, 1)).collect();
    product(c, "lm_yield_farm_rewards", &[&fs, &fs, &fs, &v], |p| {
        let n = "lm_yield_farm_rewards";
        let (yf, gf, mul, tot) = (p[0], p[1], p[2], p[3]);
        let got = lm::calculate_yield_farm_rewards(fx(yf), fx(gf), fx(mul), tot).ok().map(|(a, z)| (a.into_inner(), z));
        let want = (|| {
            let z = fits(b(tot) * b(mul) / b(E18))?;
            let r = fits(b(gf.checked_sub(yf)?) * b(z) / b(E18))?;
            if tot == 0 { return None }
            Some((fits(b(r) * b(E18) / b(tot))?, r))
        })();
        if let Some((d, r)) = got { if b(d) * b(tot) / b(E18) > b(r) { bad(c, n, "shares are promised more than the farm received", p, (d, r), "") } }
        if got != want { bad(c, n, "is not the stake times the growth of the global farm", p, got, want) }
        got.is_some()
    });
    let pr = [0u128, 1, 2, 10, 7200, u32::MAX as u128];
    let fs: Vec<u128> = f.iter().copied().step_by(2).collect();
    product(c, "lm_global_farm_rewards", &[&v, &fs, &fs, &vs, &pr], |p| {
        let n = "lm_global_farm_rewards";
        let (z, adj, yld, max, per) = (p[0], p[1], p[2], p[3], p[4]);
        let got = lm::calculate_global_farm_rewards(z, fx(adj), fx(yld), max, per).ok();
        let want = (|| {
            let a = fits(b(z) * b(adj) / b(E18))?;
            let full = b(a) * b(yld) * b(per);
            if full.bits() > 256 { return None }
            let r = fits(full / b(E18))?;
            let m = fits(b(max) * b(per))?;
            Some(b(r.min(m)))
        })();
        if let Some(g) = got { if b(g) > b(max) * b(per) { bad(c, n, "pays more than the maximum per period", p, g, max) } }
        eq(c, n, p, got, want)
    });
    mining_histories(c);
}
fn mining_histories(c: &Check) {
    #[derive(Clone, PartialEq, Eq, Hash)]
    struct U { vs: u128, at: u128, claimed: u128, entered: u128 }
    #[derive(Clone, PartialEq, Eq, Hash)]
    struct S { t: u128, upd: u128, z: u128, rpz: u128, yf_rpz: u128, rpvs: u128, vs: u128, left: u128, pot: u128, users: [Option<U>; 2] }
    let depth = c.pick(6, 7);
    let mult = [E18, E18 / 2, 3 * E18 + 1];
    product(c, "lm_histories", &[&[1, 1000, 10u128.pow(13) + 3], &[0, 1, 2], &[0, E18 / 5, E18]], |p| {
        let n = "lm_histories";
        let m = mult[p[1] as usize];
        let budget = 10u128.pow(18);
        let mut front: std::collections::HashSet<S> = [S { t: 0, upd: 0, z: 0, rpz: 0, yf_rpz: 0, rpvs: 0, vs: 0, left: budget, pot: 0, users: [None, None] }].into_iter().collect();
        // bring both farms up to date
        let sync = |s: &S| -> Option<S> {
            let mut s = s.clone();
            if s.z > 0 && s.t > s.upd {
                let r = lm::calculate_global_farm_rewards(s.z, fx(E18), fx(E18 / 1000 + 7), 10u128.pow(14), s.t - s.upd).ok()?.min(s.left);
                s.rpz = lm::calculate_accumulated_rps(fx(s.rpz), s.z, r).ok()?.into_inner();
                s.left -= r;
                s.pot += r;
            }
            s.upd = s.t;
            if s.vs > 0 {
                let (d, _) = lm::calculate_yield_farm_rewards(fx(s.yf_rpz), fx(s.rpz), fx(m), s.vs).ok()?;
                s.rpvs += d.into_inner();
            }
            s.yf_rpz = s.rpz;
            Some(s)
        };
        for _ in 0..depth {
            let mut next = std::collections::HashSet::new();
            for s in &front {
                for dt in [1u128, 30] { let mut x = s.clone(); x.t += dt; next.insert(x); }
                for u in 0..2 {
                    let Some(mut x) = sync(s) else { continue };
                    match x.users[u].clone() {
                        None => {
                            let Ok(vs) = lm::calculate_valued_shares(p[0], 3 + 4 * u as u128) else { continue };
                            let Ok(z) = lm::calculate_global_farm_shares(vs, fx(m)) else { continue };
                            if z == 0 { continue }
                            x.vs += vs;
                            x.z += z;
                            x.users[u] = Some(U { vs, at: x.rpvs, claimed: 0, entered: x.t });
                            next.insert(x);
                        }
                        Some(q) => {
                            let Ok(lmul) = lm::calculate_loyalty_multiplier(x.t - q.entered, fx(p[2]), 20) else { continue };
                            let Ok((rew, lost)) = lm::calculate_user_reward(fx(q.at), q.vs, q.claimed, fx(x.rpvs), lmul) else { bad(c, n, "a deposit cannot claim", p, (q.at, q.vs, q.claimed, x.rpvs), lmul); continue };
                            if rew > x.pot { bad(c, n, "rewards exceed what the farm accrued", p, rew, x.pot); continue }
                            let mut y = x.clone();
                            y.pot -= rew;
                            y.users[u] = Some(U { claimed: q.claimed + rew, ..q.clone() });
                            next.insert(y);
                            // leave: unclaimable part stays
                            if rew + lost > x.pot { bad(c, n, "paid and forfeited rewards exceed what the farm accrued", p, (rew, lost), x.pot); continue }
                            let mut y = x.clone();
                            y.pot -= rew + lost;
                            y.vs -= q.vs;
                            y.z -= lm::calculate_global_farm_shares(q.vs, fx(m)).unwrap_or(0).min(y.z);
                            y.users[u] = None;
                            next.insert(y);
                        }
                    }
                }
            }
            c.add_transitions(front.len() as u64 * 6);
            c.add_states(next.len() as u64);
            front = next;
        }
        true
    });
}

// ------------------------------------------------------------------ N18 rate limiter
fn deferred(d: u128, l: u128, t: u128) -> B { (b(d.max(1)) * b(t.saturating_sub(l)) / b(l.max(1))).min(b(u32::MAX as u128)) }
fn decayed(d: u128, l: u128, a: u128, g: u128) -> B { let x = b(l) * b(g) / b(d.max(1)); if b(a) > x { b(a) - x } else { B::zero() } }
/// N18
pub fn rate(c: &Check) {
    let v = bal(c);
    let d: Vec<u128> = vec![0, 1, 2, 3, 10, 99, 7200, 100_800, u32::MAX as u128 - 1, u32::MAX as u128];
    product(c, "deferred_duration", &[&d, &v, &v], |p| {
        let n = "deferred_duration";
        let (got, want) = (rl::calculate_deferred_duration(p[0] as u32, p[1], p[2]) as u128, deferred(p[0], p[1], p[2]));
        // the defect of KNOWN_FINDINGS.txt: the product saturates before it is divided. Exactly that wrong
        // value, only where the product does not fit, goes under the key of the finding.
        if p[0].max(1).checked_mul(p[2].saturating_sub(p[1])).is_none() {
            let saturated = (u128::MAX / p[1].max(1)).min(u32::MAX as u128);
            if got == saturated && b(got) < want {
                c.violation("deferred_duration:product_overflow", "product saturates before the division", json!({"args": strs(p)}));
                return true;
            }
        }
        eq(c, n, p, Some(got), Some(want))
    });
    let dec = |p: &[u128]| rl::decay_accumulated_amount(p[0] as u32, p[1], p[2], p[3] as u32);
    product(c, "decay_accumulated", &[&d, &v, &v, &d], |p| {
        let n = "decay_accumulated";
        let got = dec(p);
        if p[1].checked_mul(p[3]).is_none() {
            // an out-of-range product saturates: never decays faster than the limit allows, nor grows
            if b(got) < decayed(p[0], p[1], p[2], p[3]) || got > p[2] { bad(c, n, "decays faster than the limit", p, got, "") }
            return true;
        }
        eq(c, n, p, Some(got), Some(decayed(p[0], p[1], p[2], p[3])))
    });
    let vs: Vec<u128> = v.iter().copied().step_by(c.pick(3, 1)).collect();
    product(c, "new_accumulated", &[&d, &vs, &vs, &vs, &d], |p| {
        let got = rl::calculate_new_accumulated_amount(p[0] as u32, p[1], p[2], p[3], p[4] as u32);
        let want = p[2].saturating_add(dec(&[p[0], p[1], p[3], p[4]]));
        eq(c, "new_accumulated", p, Some(got), Some(b(want)))
    });
    // every sequence of transfers: what passes undeferred in any span is at most limit * (1 + span/duration) plus rounding
    let depth = c.pick(6, 8);
    product(c, "limit_histories", &[&[1, 4, 10, 100], &[1, 7, 1000, 123_456]], |p| {
        let n = "limit_histories";
        let (d, l) = (p[0] as u32, p[1]);
        // (accumulated, passed since the start, blocks)
        let mut front: std::collections::BTreeSet<(u128, u128, u128)> = [(0, 0, 0)].into_iter().collect();
        for step in 1..=depth {
            let mut next = std::collections::BTreeSet::new();
            for (acc, passed, t) in &front {
                for gap in [0u32, 1, d / 2, d, 3 * d] {
                    for amt in [1u128, l / 3, l, l + 1, 2 * l, 5 * l] {
                        let a = rl::calculate_new_accumulated_amount(d, l, amt, *acc, gap);
                        let df = rl::calculate_deferred_duration(d, l, a);
                        c.add_transitions(1);
                        let t2 = t + gap as u128;
                        if df == 0 {
                            let q = passed + amt;
                            if b(q) > b(l) + b(l) / b(d as u128) + b(l) * b(t2) / b(d as u128) + b(step as u128 + 1) { bad(c, n, "more passes than the limit", p, (q, t2), l) }
                            next.insert((a, q, t2));
                        } else {
                            // deferred by as long as it takes the excess to decay
                            if b(df as u128) * b(l) > b(a - l) * b(d as u128) { bad(c, n, "deferred for longer than the excess needs", p, df, a) }
                            next.insert((a, *passed, t2));
                        }
                    }
                }
            }
            c.add_states(next.len() as u64);
            front = next.into_iter().take(c.pick(3000, 30_000)).collect();
        }
        true
    });
}

// ------------------------------------------------------------------ N20 omnipool sub-pools
use hydra_dx_math::omnipool::types::{AssetReserveState, BalanceUpdate::Increase, Position};
use sub::types::MigrationDetails;
fn st(r: u128, q: u128, s: u128, ps: u128) -> AssetReserveState<u128> { AssetReserveState { reserve: r, hub_reserve: q, shares: s, protocol_shares: ps } }
fn share(n: u128, q: u128, d: u128) -> Option<B> { if d == 0 { None } else { fits(b(n) * b(q) / b(d)).map(b) } }
fn price_near(c: &Check, n: &str, p: &[u128], got: (u128, u128), num: B, den: B) {
    let sh = num.bits().max(den.bits()).saturating_sub(128);
    if num.is_zero() || den.is_zero() { return }
    let part = |x: B| (x >> sh).max(B::one());
    if (b(got.0), b(got.1)) != (part(num), part(den)) { bad(c, n, "price is not the exact ratio to 128 bits", p, got, (num >> sh, den >> sh)) }
}
/// N20
pub fn subpools(c: &Check) {
    let v: Vec<u128> = norm([vec![0, 1, 2, 3, 10, 999, u128::MAX / 2, u128::MAX], decades(5, 27).into_iter().step_by(c.pick(13, 6)).collect()].concat());
    product(c, "convert_position", &[&v, &v, &v, &v, &v, &[0, 1, 7, 10u128.pow(18), u128::MAX], &[1, 3, 10u128.pow(21)]], |p| {
        let n = "convert_position";
        let (shares, amount, hub, tokens, total, pn, pd) = (p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
        let got = sub::convert_position(Position { amount, shares, price: (pn, pd) }, MigrationDetails { price: (pd, pn.max(1)), shares: total, hub_reserve: hub, share_tokens: tokens });
        let want = share(shares, hub, total).zip(share(amount, tokens, total));
        match (&got, want) {
            (Some(g), Some((s, a))) => {
                if (b(g.shares), b(g.amount)) != (s, a) { bad(c, n, "not its share of the migrated asset", p, g, (s, a)) }
                if shares <= total && g.shares > hub || amount <= total && g.amount > tokens { bad(c, n, "receives more than was migrated", p, g, "") }
                price_near(c, n, p, g.price, b(pn) * b(pn.max(1)), b(pd) * b(pd));
            }
            (None, None) => {}
            _ => bad(c, n, "acceptance differs", p, got.is_some(), want.is_some()),
        }
        got.is_some()
    });
    product(c, "protocol_shares", &[&v, &v, &v], |p| eq(c, "protocol_shares", p, sub::recalculate_protocol_shares(p[0], p[1], p[2]), share(p[0], p[2], p[1])));
    product(c, "create_subpool", &[&v, &v, &v, &v, &v, &v], |p| {
        let n = "create_subpool";
        let got = sub::create_subpool_initial_state(&st(77, p[0], p[1], p[2]), &st(5, p[3], p[4], p[5]));
        let want = (|| { let h = fits(b(p[0]) + b(p[3]))?; let s = fits(share(p[0], p[2], p[1])? + share(p[3], p[5], p[4])?)?; Some((h, h, h, s)) })();
        let g = got.map(|x| (x.reserve, x.hub_reserve, x.shares, x.protocol_shares));
        if g != want { bad(c, n, "initial state differs", p, g, want) }
        if let Some((_, h, s, ps)) = g { if p[2] <= p[1] && p[5] <= p[4] && ps > s { bad(c, n, "protocol owns more than all shares", p, ps, (s, h)) } }
        g.is_some()
    });
    let w: Vec<u128> = v.iter().copied().step_by(c.pick(2, 1)).collect();
    product(c, "asset_migration", &[&w, &w, &w, &w, &w, &w, &w], |p| {
        let n = "asset_migration";
        let (a, s, iss) = (st(p[0], p[1], p[2], p[3]), st(1, p[4], p[5], 9), p[6]);
        let got = sub::calculate_asset_migration_details(&a, Some(&s), iss);
        let want = (|| {
            if p[4] == 0 || p[2] == 0 { return None }
            let p1 = b(p[5]) * b(p[1]) / b(p[4]);
            if (p1 * b(p[3])).bits() > 256 { return None }
            let ps = fits(p1 * b(p[3]) / b(p[2]))?;
            let ds = fits(p1)?;
            let du = fits(b(p[1]) * b(iss) / b(p[4]))?;
            Some((ps, ds, du))
        })();
        match (&got, want) {
            (Some((d, Some(ch))), Some((ps, ds, du))) => {
                if (d.shares, d.hub_reserve, d.share_tokens) != (p[2], p[1], du) { bad(c, n, "details differ", p, (d.shares, d.hub_reserve, d.share_tokens), (p[2], p[1], du)) }
                if (&ch.delta_reserve, &ch.delta_hub_reserve, &ch.delta_shares, &ch.delta_protocol_shares) != (&Increase(du), &Increase(p[1]), &Increase(ds), &Increase(ps)) { bad(c, n, "state change differs", p, ch, (du, p[1], ds, ps)) }
                price_near(c, n, p, d.price, b(p[1]) * b(iss), b(p[0]) * b(p[5]));
            }
            (None, None) => {}
            _ => bad(c, n, "acceptance differs", p, got.is_some(), want.is_some()),
        }
        if let Some((d, None)) = sub::calculate_asset_migration_details(&a, None, iss) { if (d.shares, d.hub_reserve, d.share_tokens, d.price) != (p[2], p[1], p[1], (p[1], p[0])) { bad(c, n, "details of a first asset differ", p, (d.shares, d.hub_reserve, d.share_tokens, d.price), "") } } else { bad(c, n, "first asset refused", p, "", "") }
        got.is_some()
    });
    let _ = FixedU128::zero().is_zero();
}
