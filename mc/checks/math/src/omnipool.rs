use crate::util::*;
use hydra_dx_math::omnipool as m;
use hydra_dx_math::omnipool::types::*;
use sp_arithmetic::{FixedPointNumber, FixedU128, Permill};
use BalanceUpdate::{Decrease, Increase};

const E12: u128 = 1_000_000_000_000;
fn st(reserve: u128, hub: u128) -> AssetReserveState<u128> { AssetReserveState { reserve, hub_reserve: hub, shares: reserve, protocol_shares: 0 } }
fn mil(x: u128) -> Permill { Permill::from_parts(x as u32) }
fn inc(x: BalanceUpdate<u128>) -> Option<u128> { match x { Increase(a) => Some(a), Decrease(0) => Some(0), _ => None } }
fn dec(x: BalanceUpdate<u128>) -> Option<u128> { match x { Decrease(a) => Some(a), Increase(0) => Some(0), _ => None } }
const FEES: [u128; 7] = [0, 1, 500, 2_500, 333_333, 999_999, 1_000_000];

fn pools(c: &Check) -> Vec<(u128, u128)> {
    let mut v = vec![];
    for r in [1u128, 2, 3, 7, 10] { for h in [1u128, 2, 5, 11] { v.push((r, h)) } }
    for (r, h) in [(1000, 999), (123_456_789, 77), (77, 123_456_789), (10 * E12, 4 * E12 + 1), (E12 * 1_000_003, E12 * 7_919), (93 * E12 * 1_000_000, 5 * E12 * 1_000_000 + 3), (10u128.pow(24), 31 * 10u128.pow(15)), (10u128.pow(27) + 13, 10u128.pow(19)), (5 * 10u128.pow(8), 7 * 10u128.pow(16))] { v.push((r, h)) }
    if c.thorough { for r in [1u128, 4, 13, 999_999_999_999, 10u128.pow(15) + 37, 10u128.pow(21)] { for h in [1u128, 3, 1_000_000, 10u128.pow(13) + 9, 10u128.pow(17)] { v.push((r, h)) } } v.push((0, 0)); v.push((1 << 100, 1 << 90)); v.push((u128::MAX / 4, u128::MAX / 8)); }
    v
}
fn amts(c: &Check) -> Vec<u128> { join(&[&upto(c.pick(4, 12)), &decades(3, 24)[..], &[10, 99, 1 << 100, u128::MAX / 3, u128::MAX]]) }

fn same_pair(n: &str, c: &Check, p: &[u128], r: u128, q: u128, add_r: u128, sub_q: u128, strict_r: bool) {
    // selling side: r grows by add_r, q falls by sub_q; product may not fall, and the moved leg is within a unit of exact
    if b(sub_q) > b(q) { bad(c, n, "takes more hub asset than the pool has", p, sub_q, q); return }
    if (b(r) + b(add_r)) * (b(q) - b(sub_q)) < b(r) * b(q) { bad(c, n, "value of the pool's selling side falls", p, (add_r, sub_q), (r, q)) }
    if strict_r {
        // q side derived from r: floor(add*q/(r+add))
        if (b(sub_q) + B::one()) * (b(r) + b(add_r)) < b(q) * b(add_r) { bad(c, n, "hub leg over a unit below exact", p, sub_q, b(q) * b(add_r) / (b(r) + b(add_r))) }
    } else if b(add_r) > b(r) * b(sub_q) / (b(q) - b(sub_q)) + B::one() { bad(c, n, "charges over a unit above exact", p, add_r, b(r) * b(sub_q) / (b(q) - b(sub_q))) }
}
fn out_pair(n: &str, c: &Check, p: &[u128], r: u128, q: u128, sub_r_gross: u128, add_q: u128) {
    if b(sub_r_gross) > b(r) { bad(c, n, "pays out more than the reserve", p, sub_r_gross, r); return }
    if (b(r) - b(sub_r_gross)) * (b(q) + b(add_q)) < b(r) * b(q) { bad(c, n, "value of the pool's buying side falls", p, (sub_r_gross, add_q), (r, q)) }
}

/// N05
pub fn trade(c: &Check) {
    let ps = pools(c);
    let pi: Vec<u128> = (0..ps.len() as u128).collect();
    let am = amts(c);
    let fi = c.pick(vec![0u128, 2_500, 333_333, 1_000_000], FEES.to_vec());
    let im = c.pick(vec![0u128, E12], vec![0, 1, E12, u128::MAX]);
    product(c, "omnipool_sell", &[&pi, &pi, &am, &fi, &fi, &im], |p| {
        let ((ri, qi), (ro, qo), amt, af, pf, imb) = (ps[p[0] as usize], ps[p[1] as usize], p[2], p[3], p[4], p[5]);
        let n = "omnipool_sell";
        let q = [&[ri, qi, ro, qo], &p[2..]].concat();
        let p = &q[..];
        match m::calculate_sell_state_changes(&st(ri, qi), &st(ro, qo), amt, mil(af), mil(pf), imb) {
            Some(s) => {
                let (Some(din), Some(dqi), Some(dro), Some(dqo)) = (inc(s.asset_in.delta_reserve), dec(s.asset_in.delta_hub_reserve), dec(s.asset_out.delta_reserve), inc(s.asset_out.delta_hub_reserve)) else { bad(c, n, "moves a reserve the wrong way", p, s, ""); return true };
                if din != amt { bad(c, n, "adds other than the sold amount", p, din, amt) }
                same_pair(n, c, p, ri, qi, amt, dqi, true);
                let fee = s.fee.protocol_fee;
                if b(fee) * b(1_000_000) > b(dqi) * b(pf) || (b(fee) + B::one()) * b(1_000_000) <= b(dqi) * b(pf) { bad(c, n, "protocol fee is not its share of the hub leg", p, fee, b(dqi) * b(pf) / b(1_000_000)) }
                if b(dqo) + b(fee) != b(dqi) { bad(c, n, "hub asset not conserved between the legs", p, (dqo, fee), dqi) }
                let gross = b(dro) + b(s.fee.asset_fee);
                let exact = if qo == 0 && dqo == 0 { B::zero() } else { b(ro) * b(dqo) / (b(qo) + b(dqo)) };
                match to_u128(gross) { Some(g) => { out_pair(n, c, p, ro, qo, g, dqo); if b(g) + B::one() < exact { bad(c, n, "underpays by more than a unit before fee", p, g, exact) } } None => bad(c, n, "payout overflows", p, gross, exact) }
                if b(s.fee.asset_fee) * b(1_000_000) < gross * b(af) { bad(c, n, "asset fee below its rate", p, s.fee.asset_fee, gross * b(af) / b(1_000_000)) }
                if b(s.fee.asset_fee) > div_ceil(gross * b(af), b(1_000_000)) { bad(c, n, "asset fee a unit above its rate", p, s.fee.asset_fee, gross * b(af) / b(1_000_000)) }
                if inc(s.delta_imbalance) != Some(fee.min(imb)) { bad(c, n, "imbalance not repaid from the protocol fee", p, s.delta_imbalance, fee.min(imb)) }
                if s.hdx_hub_amount != fee - fee.min(imb) { bad(c, n, "rest of the protocol fee lost", p, s.hdx_hub_amount, fee - fee.min(imb)) }
                if [s.asset_in.delta_shares, s.asset_out.delta_shares, s.asset_in.delta_protocol_shares, s.asset_out.delta_protocol_shares].iter().any(|x| **x != 0) { bad(c, n, "a trade changes share counts", p, s, 0) }
                true
            }
            None => { if ri > 0 && qi > 0 && qo > 0 { bad(c, n, "refuses a quote that exists", p, "none", "value") } false }
        }
    });
    product(c, "omnipool_buy", &[&pi, &pi, &am, &fi, &fi, &im], |p| {
        let ((ri, qi), (ro, qo), amt, af, pf, imb) = (ps[p[0] as usize], ps[p[1] as usize], p[2], p[3], p[4], p[5]);
        let n = "omnipool_buy";
        let q = [&[ri, qi, ro, qo], &p[2..]].concat();
        let p = &q[..];
        if amt > 10u128.pow(30) && b(amt) < b(ro) { return false }
        let nofee = b(ro) * b(1_000_000 - af) / b(1_000_000);
        // exact requirement on the hub leg
        let hub_out = (nofee > b(amt)).then(|| b(qo) * b(amt) / (nofee - b(amt)) + B::one());
        let hub_in = hub_out.filter(|_| pf < 1_000_000).map(|h| h * b(1_000_000) / b(1_000_000 - pf));
        match m::calculate_buy_state_changes(&st(ri, qi), &st(ro, qo), amt, mil(af), mil(pf), imb) {
            Some(s) => {
                let (Some(din), Some(dqi), Some(dro), Some(dqo)) = (inc(s.asset_in.delta_reserve), dec(s.asset_in.delta_hub_reserve), dec(s.asset_out.delta_reserve), inc(s.asset_out.delta_hub_reserve)) else { bad(c, n, "moves a reserve the wrong way", p, s, ""); return true };
                let Some(ho) = hub_out else { bad(c, n, "sells more than the reserve net of fee", p, s, "none"); return true };
                if dro != amt { bad(c, n, "delivers other than the bought amount", p, dro, amt) }
                // net-of-fee reserve times hub may not fall
                if (nofee - b(amt)) * (b(qo) + b(dqo)) < nofee * b(qo) { bad(c, n, "value of the pool's buying side falls", p, dqo, ho) }
                if b(dqo) > ho { bad(c, n, "hub leg over a unit above exact", p, dqo, ho) }
                if b(dqo) + b(s.fee.protocol_fee) != b(dqi) { bad(c, n, "hub asset not conserved between the legs", p, (dqo, s.fee.protocol_fee), dqi) }
                if b(s.fee.protocol_fee) * b(1_000_000) > b(dqi) * b(pf) || (b(s.fee.protocol_fee) + B::one()) * b(1_000_000) <= b(dqi) * b(pf) { bad(c, n, "protocol fee is not its share of the hub leg", p, s.fee.protocol_fee, b(dqi) * b(pf) / b(1_000_000)) }
                if dqi >= qi { bad(c, n, "takes all the hub asset of the selling side", p, dqi, qi); return true }
                same_pair(n, c, p, ri, qi, din, dqi, false);
                if (af == 0) != (s.fee.asset_fee == 0) && af < 1_000_000 { bad(c, n, "asset fee reported wrongly", p, s.fee.asset_fee, af) }
                if af > 0 && af < 1_000_000 { let e = b(amt) * b(af) / b(1_000_000 - af); if b(s.fee.asset_fee) < e || b(s.fee.asset_fee) > e + B::one() { bad(c, n, "asset fee off its rate", p, s.fee.asset_fee, e) } }
                if inc(s.delta_imbalance) != Some(s.fee.protocol_fee.min(imb)) { bad(c, n, "imbalance not repaid from the protocol fee", p, s.delta_imbalance, s.fee.protocol_fee.min(imb)) }
                if s.hdx_hub_amount != s.fee.protocol_fee - s.fee.protocol_fee.min(imb) { bad(c, n, "rest of the protocol fee lost", p, s.hdx_hub_amount, s.fee.protocol_fee) }
                if [s.asset_in.delta_shares, s.asset_out.delta_shares, s.asset_in.delta_protocol_shares, s.asset_out.delta_protocol_shares].iter().any(|x| **x != 0) { bad(c, n, "a trade changes share counts", p, s, 0) }
                true
            }
            None => {
                if let Some(h) = hub_in { if h < b(qi) && to_u128(h + b(ri) * h / (b(qi) - h) + b(2)).is_some() { bad(c, n, "refuses a quote that exists", p, "none", h) } }
                false
            }
        }
    });
    let hubtot: Vec<u128> = vec![0, 1, 10, 10u128.pow(12), 10u128.pow(18), 10u128.pow(24)];
    let im2: Vec<u128> = vec![0, 1, 5, 10u128.pow(11), 10u128.pow(17)];
    product(c, "omnipool_sell_hub", &[&pi, &am, &fi, &im2, &hubtot], |p| {
        let ((ro, qo), amt, af, imb, tot) = (ps[p[0] as usize], p[1], p[2], p[3], p[4]);
        let n = "omnipool_sell_hub";
        let q = [&[ro, qo], &p[1..]].concat();
        let p = &q[..];
        match m::calculate_sell_hub_state_changes(&st(ro, qo), amt, mil(af), I129 { value: imb, negative: true }, tot) {
            Some(s) => {
                let (Some(dr), Some(dq)) = (dec(s.asset.delta_reserve), inc(s.asset.delta_hub_reserve)) else { bad(c, n, "moves a reserve the wrong way", p, s, ""); return true };
                if dq != amt { bad(c, n, "adds other than the sold amount", p, dq, amt) }
                let gross = b(dr) + b(s.fee.asset_fee);
                out_pair(n, c, p, ro, qo, to_u128(gross).unwrap_or(u128::MAX), amt);
                if (gross + B::one()) * (b(qo) + b(amt)) < b(ro) * b(amt) { bad(c, n, "underpays by more than a unit before fee", p, gross, "") }
                if b(s.fee.asset_fee) * b(1_000_000) < gross * b(af) || b(s.fee.asset_fee) > div_ceil(gross * b(af), b(1_000_000)) { bad(c, n, "asset fee off its rate", p, s.fee.asset_fee, "") }
                if s.fee.protocol_fee != 0 { bad(c, n, "protocol fee on a hub trade", p, s.fee.protocol_fee, 0) }
                hub_imbalance(c, n, p, s.delta_imbalance, amt, imb, tot);
                true
            }
            None => { if imb <= tot && tot > 0 && qo > 0 && amt < 1 << 100 { bad(c, n, "refuses a quote that exists", p, "none", "value") } false }
        }
    });
    product(c, "omnipool_buy_hub", &[&pi, &am, &fi, &im2, &hubtot], |p| {
        let ((ro, qo), amt, af, imb, tot) = (ps[p[0] as usize], p[1], p[2], p[3], p[4]);
        let n = "omnipool_buy_hub";
        let q = [&[ro, qo], &p[1..]].concat();
        let p = &q[..];
        let nofee = b(ro) * b(1_000_000 - af) / b(1_000_000);
        match m::calculate_buy_for_hub_asset_state_changes(&st(ro, qo), amt, mil(af), I129 { value: imb, negative: true }, tot) {
            Some(s) => {
                let (Some(dr), Some(dq)) = (dec(s.asset.delta_reserve), inc(s.asset.delta_hub_reserve)) else { bad(c, n, "moves a reserve the wrong way", p, s, ""); return true };
                if dr != amt { bad(c, n, "delivers other than the bought amount", p, dr, amt) }
                if nofee <= b(amt) { bad(c, n, "sells more than the reserve net of fee", p, s, "none"); return true }
                if (nofee - b(amt)) * (b(qo) + b(dq)) < nofee * b(qo) { bad(c, n, "value of the pool's buying side falls", p, dq, "") }
                if b(dq) > b(qo) * b(amt) / (nofee - b(amt)) + B::one() { bad(c, n, "charges over a unit above exact", p, dq, "") }
                if dq == 0 && amt > 0 { bad(c, n, "gives away for free", p, dq, "") }
                hub_imbalance(c, n, p, s.delta_imbalance, dq, imb, tot);
                true
            }
            None => { if imb <= tot && tot > 0 && nofee > b(amt) && qo < 1 << 80 { bad(c, n, "refuses a quote that exists", p, "none", "value") } false }
        }
    });
    // the pool as a whole: every trade history of two traders' moves over two assets, product of each side never falls
    histories(c);
    let s = m::calculate_sell_state_changes(&st(1000, 500), &st(2000, 700), 100, mil(2500), mil(500), 3);
    sample(c, "omnipool_sell", &[1000, 500, 2000, 700, 100, 2500, 500, 3], s);
}

fn hub_imbalance(c: &Check, n: &str, p: &[u128], got: BalanceUpdate<u128>, dq: u128, imb: u128, tot: u128) {
    // dq*(tot-imb)/(tot+dq) + dq, overestimated, by at most one unit
    let Some(g) = dec(got) else { bad(c, n, "imbalance moves the wrong way", p, got, ""); return };
    if imb > tot { bad(c, n, "quotes with more imbalance than hub asset", p, got, "none"); return }
    if b(tot) + b(dq) == B::zero() { return }
    let num = b(dq) * (b(tot) - b(imb));
    let den = b(tot) + b(dq);
    let base = b(g) - b(dq).min(b(g));
    if b(g) < b(dq) || base * den < num { bad(c, n, "imbalance underestimated", p, g, num / den + b(dq)) }
    if base > num / den + B::one() { bad(c, n, "imbalance over a unit too large", p, g, num / den + b(dq)) }
}

fn histories(c: &Check) {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    struct S { r: [u128; 2], q: [u128; 2], paid: i128 }
    let depth = c.pick(4, 6);
    let starts = [S { r: [10, 20], q: [10, 10], paid: 0 }, S { r: [1000, 1000], q: [777, 333], paid: 0 }, S { r: [E12, 7], q: [99, E12], paid: 0 }];
    let acts = [1u128, 2, 7, 500];
    starts.par_iter().for_each(|s0| {
        let mut seen = std::collections::HashSet::new();
        let mut front = vec![(*s0, vec![])];
        seen.insert(*s0);
        let (mut ns, mut nt) = (1u64, 0u64);
        for _ in 0..depth {
            let mut next = vec![];
            for (s, h) in &front {
                for a in acts {
                    for op in 0..4usize {
                        nt += 1;
                        let (i, o) = (op & 1, 1 - (op & 1));
                        let r = if op < 2 { m::calculate_sell_state_changes(&st(s.r[i], s.q[i]), &st(s.r[o], s.q[o]), a, mil(2500), mil(500), 0) } else { m::calculate_buy_state_changes(&st(s.r[i], s.q[i]), &st(s.r[o], s.q[o]), a, mil(2500), mil(500), 0) };
                        let Some(r) = r else { continue };
                        let (Some(x), Some(y)) = (st(s.r[i], s.q[i]).delta_update(&r.asset_in), st(s.r[o], s.q[o]).delta_update(&r.asset_out)) else { continue };
                        let mut t = *s;
                        t.r[i] = x.reserve; t.q[i] = x.hub_reserve; t.r[o] = y.reserve; t.q[o] = y.hub_reserve;
                        let mut h2: Vec<(usize, u128)> = h.clone();
                        h2.push((op, a));
                        for k in 0..2 {
                            if b(t.r[k]) * b(t.q[k]) < b(s.r[k]) * b(s.q[k]) { c.violation("omnipool_history/product", format!("pool {s0:?} history {h2:?}: {s:?} -> {t:?}"), json!({"start": format!("{s0:?}"), "history": format!("{h2:?}")})) }
                        }
                        // hub asset held by the two sides never grows in a trade
                        if b(t.q[0]) + b(t.q[1]) > b(s0.q[0]) + b(s0.q[1]) { c.violation("omnipool_history/hub", format!("pool {s0:?} history {h2:?}: hub asset created, {t:?}"), json!({"start": format!("{s0:?}"), "history": format!("{h2:?}")})) }
                        if t.r[0] <= s0.r[0] && t.r[1] <= s0.r[1] && (t.r[0] < s0.r[0] || t.r[1] < s0.r[1]) && t.q[0] + t.q[1] >= s0.q[0] + s0.q[1] { c.violation("omnipool_history/drain", format!("pool {s0:?} history {h2:?}: trader profits {t:?}"), json!({"start": format!("{s0:?}"), "history": format!("{h2:?}")})) }
                        if seen.insert(t) { ns += 1; next.push((t, h2)) }
                    }
                }
                if c.stop() { return }
            }
            front = next;
        }
        c.add_states(ns); c.add_transitions(nt); c.add_traces(nt);
        c.section(&format!("omnipool histories {s0:?}"), json!({"states": ns, "transitions": nt, "depth": depth}));
    });
}

const D18: u128 = 1_000_000_000_000_000_000;
/// N06
pub fn liquidity(c: &Check) {
    let ps = pools(c);
    let pi: Vec<u128> = (0..ps.len() as u128).collect();
    let am = amts(c);
    let sh: Vec<u128> = vec![0, 1, 3, 2]; // shares relative to reserve: index into ratios
    let shares = |r: u128, k: u128| match k { 0 => r, 1 => r / 2 + 1, 2 => r.saturating_mul(3) / 2, _ => 1 };
    let imbs: Vec<u128> = vec![0, 1, E12];
    let tots: Vec<u128> = vec![1, 10u128.pow(15), 10u128.pow(20)];
    product(c, "omnipool_add", &[&pi, &am, &sh, &imbs, &tots], |p| {
        let ((r, q), amt, s, imb, tot) = (ps[p[0] as usize], p[1], shares(ps[p[0] as usize].0, p[2]), p[3], p[4]);
        let n = "omnipool_add";
        let a = AssetReserveState { reserve: r, hub_reserve: q, shares: s, protocol_shares: 0 };
        match m::calculate_add_liquidity_state_changes(&a, amt, I129 { value: imb, negative: true }, tot) {
            Some(d) => {
                let (Some(dr), Some(dq), Some(ds)) = (inc(d.asset.delta_reserve), inc(d.asset.delta_hub_reserve), inc(d.asset.delta_shares)) else { bad(c, n, "moves the wrong way", p, "", ""); return true };
                if dr != amt { bad(c, n, "adds other than the amount", p, dr, amt) }
                if r == 0 { bad(c, n, "quotes on an empty pool", p, dq, "none"); return true }
                // hub leg at the pool price, rounded down; price carries 18 decimals
                let ex = b(q) * b(amt) / b(r);
                if b(dq) > ex || b(dq) + b(amt) / b(D18) + b(2) < ex { bad(c, n, "hub leg off the pool price", p, dq, ex) }
                if b(ds) * b(r) > b(s) * b(amt) || (b(ds) + B::one()) * b(r) < b(s) * b(amt) { bad(c, n, "shares not proportional (rounded down)", p, ds, b(s) * b(amt) / b(r)) }
                if inc(d.asset.delta_protocol_shares) != Some(0) || *d.delta_position_reserve != 0 || *d.delta_position_shares != 0 || d.lp_hub_amount != 0 { bad(c, n, "adding liquidity pays or moves something else", p, "", 0) }
                let ei = b(dq) * b(imb) / b(tot);
                if dec(d.delta_imbalance).map(b) != Some(ei) { bad(c, n, "imbalance not grown in proportion", p, d.delta_imbalance, ei) }
                true
            }
            None => { if imb <= tot && r > 0 && r < 1 << 90 && q < 1 << 90 && amt < 1 << 90 && b(q) * b(amt) / b(r) < b(1 << 90) && q / r < 1 << 60 { bad(c, n, "refuses a quote that exists", p, "none", "value") } false }
        }
    });
    // remove: price of the position above, at and below the pool price
    let prices: Vec<u128> = vec![0, 1, 2, 3, 4, 5];
    let wf: Vec<u128> = vec![0, D18 / 10_000, D18 / 3, D18];
    let fr: Vec<u128> = vec![1, 2, 3, 10, 1_000_003];
    product(c, "omnipool_remove", &[&pi, &sh, &prices, &fr, &wf, &imbs[..2]], |p| {
        let (r, q) = ps[p[0] as usize];
        let s = shares(r, p[1]);
        if r == 0 || s == 0 { return false }
        if r > u128::MAX / 12 || q > u128::MAX / 1001 { return false }
        let n = "omnipool_remove";
        let (pn, pd) = match p[2] { 0 => (q, r), 1 => (q * 2, r), 2 => (q, r * 2), 3 => (q * 11 + 1, r * 10), 4 => (q * 10, r * 11 + 1), _ => (q * 1000, r) };
        // a position of a third of the pool (or all of it), of which a fraction is removed
        let pos_shares = (s / 3).max(1);
        let rem = (pos_shares / p[3]).max(1).min(pos_shares);
        let pos = Position { amount: (r / 3).max(1), shares: pos_shares, price: (pn, pd) };
        let a = AssetReserveState { reserve: r, hub_reserve: q, shares: s, protocol_shares: 0 };
        let f = p[4];
        let tot = q.max(1);
        let imb = p[5].min(tot);
        match m::calculate_remove_liquidity_state_changes(&a, rem, &pos, I129 { value: imb, negative: true }, tot, FixedU128::from_inner(f)) {
            Some(d) => {
                let (Some(dr), Some(dq), Some(ds), Some(dp)) = (dec(d.asset.delta_reserve), dec(d.asset.delta_hub_reserve), dec(d.asset.delta_shares), inc(d.asset.delta_protocol_shares)) else { bad(c, n, "moves the wrong way", p, "", ""); return true };
                if b(ds) + b(dp) != b(rem) { bad(c, n, "shares burned plus kept by the protocol differ from the shares removed", p, (ds, dp), rem) }
                if dec(d.delta_position_shares) != Some(rem) { bad(c, n, "position keeps its shares", p, d.delta_position_shares, rem) }
                if dec(d.delta_position_reserve).map(b) != Some(b(rem) * b(pos.amount) / b(pos.shares)) { bad(c, n, "position amount not reduced in proportion", p, d.delta_position_reserve, b(rem) * b(pos.amount) / b(pos.shares)) }
                // never more than the burned shares' part, after the withdrawal fee; hub leg in the same proportion
                let part = |x: u128| b(x) * b(ds) * b(D18 - f) / (b(s) * b(D18));
                if b(dr) > part(r) || b(dr) + b(2) < part(r) { bad(c, n, "reserve paid is not the burned shares' part less the fee", p, dr, part(r)) }
                if b(dq) > part(q) || b(dq) + b(3) + b(q) / b(r) < part(q) { bad(c, n, "hub removed is not the burned shares' part less the fee", p, dq, part(q)) }
                if (b(r) - b(dr)) * b(s) < b(r) * (b(s) - b(ds)) { bad(c, n, "remaining shares lose value", p, (dr, ds), (r, s)) }
                // protocol keeps shares exactly when the price fell: b = rem*(p0*r - q)/(p0*r + q)
                let tol = b(4) + b(4) * b(rem) / (b(q) + B::one()) + if pn == 0 { b(rem) } else { b(rem) * b(pd) / b(pn) / b(D18 / 2) };
                let (x, y) = (b(pn) * b(r), b(q) * b(pd)); // p0*r vs q, scaled by pd
                let eb = if x > y { (x - y) * b(rem) / (x + y) } else { B::zero() };
                if b(dp) + tol < eb || b(dp) > eb + tol { bad(c, n, "protocol share on a price fall is off the formula", p, dp, eb) }
                // ... and rounded up: in fixed-point prices, never less than the exact part
                let (px, cur) = (b(pn) * b(D18) / b(pd), b(q) * b(D18) / b(r));
                if cur < px {
                    let (x, y) = (px * b(r), b(q) * b(D18));
                    if x > y && b(dp) * (x + y) < b(rem) * (x - y) { bad(c, n, "protocol share on a price fall is rounded down", p, dp, b(rem) * (x - y) / (x + y)) }
                }
                if x + b(pd) <= y && dp != 0 { bad(c, n, "protocol takes shares although the price rose", p, dp, 0) }
                // hub paid out exactly when the price rose: q*(q - p0 r)/(q + p0 r) * ds/s less fee
                let eh = if y > x { b(q) * (y - x) / (y + x) * b(ds) / b(s) * b(D18 - f) / b(D18) } else { B::zero() };
                let htol = b(4) + (b(r) / b(D18) + b(2)) * b(4) * b(ds) / b(s);
                if b(d.lp_hub_amount) > eh + htol || b(d.lp_hub_amount) + htol < eh.min(b(*d.asset.delta_hub_reserve)) { bad(c, n, "hub asset paid to the provider is off the formula", p, d.lp_hub_amount, eh) }
                if d.lp_hub_amount > *d.asset.delta_hub_reserve { bad(c, n, "provider is paid more hub asset than leaves the pool", p, d.lp_hub_amount, *d.asset.delta_hub_reserve) }
                if x >= y && d.lp_hub_amount != 0 { bad(c, n, "hub asset paid although the price did not rise", p, d.lp_hub_amount, 0) }
                let ei = b(dq) * b(imb) / b(tot);
                if inc(d.delta_imbalance).map(b) != Some(ei) { bad(c, n, "imbalance not shrunk in proportion", p, d.delta_imbalance, ei) }
                true
            }
            None => false,
        }
    });
    // add followed by removing the whole position at an unchanged price never profits
    let am2 = join(&[&upto(c.pick(30, 80))[1..], &decades(3, 20)]);
    product(c, "omnipool_add_remove", &[&pi, &am2, &sh], |p| {
        let ((r, q), amt, s) = (ps[p[0] as usize], p[1], shares(ps[p[0] as usize].0, p[2]));
        if r == 0 { return false }
        let a = AssetReserveState { reserve: r, hub_reserve: q, shares: s, protocol_shares: 0 };
        let i0 = I129 { value: 0, negative: true };
        let Some(d) = m::calculate_add_liquidity_state_changes(&a, amt, i0, q) else { return false };
        let Some(n) = a.clone().delta_update(&d.asset) else { return false };
        if b(n.reserve) * b(s) < b(r) * b(n.shares) { bad(c, "omnipool_add_remove", "adding dilutes the other shares", p, (n.reserve, n.shares), (r, s)) }
        let ds = *d.asset.delta_shares;
        if ds == 0 { return true }
        let pos = Position { amount: amt, shares: ds, price: (q, r) };
        if let Some(e) = m::calculate_remove_liquidity_state_changes(&n, ds, &pos, i0, n.hub_reserve, FixedU128::from(0)) {
            if *e.asset.delta_reserve > amt { bad(c, "omnipool_add_remove", "round trip returns more than was added", p, e.asset.delta_reserve, amt) }
            if *e.asset.delta_hub_reserve > *d.asset.delta_hub_reserve && q <= 1 << 100 && b(*e.asset.delta_hub_reserve) > b(*d.asset.delta_hub_reserve) + B::one() + b(amt) / b(D18) { bad(c, "omnipool_add_remove", "round trip burns more hub asset than was minted", p, e.asset.delta_hub_reserve, d.asset.delta_hub_reserve) }
            if let Some(z) = n.clone().delta_update(&e.asset) { if b(z.reserve) * b(s) < b(r) * b(z.shares) { bad(c, "omnipool_add_remove", "round trip leaves less for the others", p, (z.reserve, z.shares), (r, s)) } }
        }
        true
    });
    // withdrawal fee: |spot - oracle| / oracle, clamped to [min, 1]
    let fx: Vec<u128> = join(&[&[0, 1, 2], &decades(3, 30), &[D18 - 1, D18, D18 + 1, D18 * 101 / 100, u128::MAX]]);
    product(c, "omnipool_withdrawal_fee", &[&fx, &fx, &FEES], |p| {
        let g = m::calculate_withdrawal_fee(FixedU128::from_inner(p[0]), FixedU128::from_inner(p[1]), mil(p[2])).into_inner();
        let min = p[2] * 10u128.pow(12);
        let diff = p[0].abs_diff(p[1]);
        if g < min || g > D18 { bad(c, "omnipool_withdrawal_fee", "outside [minimum, 1]", p, g, (min, D18)) }
        if p[1] == 0 { if g != min { bad(c, "omnipool_withdrawal_fee", "fee without an oracle price", p, g, min) } return true }
        let e = b(diff) * b(D18) / b(p[1]);
        let lo = e.min(b(D18)).max(b(min));
        if b(g) > lo + B::one() || b(g) + B::one() < lo { bad(c, "omnipool_withdrawal_fee", "not the relative price difference", p, g, lo) }
        true
    });
    sample(c, "omnipool_add", &[1000, 500, 100], m::calculate_add_liquidity_state_changes(&st(1000, 500), 100, I129 { value: 0, negative: true }, 500).map(|d| d.asset));
}

/// N07: caps, value and imbalance helpers
pub fn caps(c: &Check) {
    let v = join(&[&upto(c.pick(6, 12)), &[999, 10u128.pow(6), 10u128.pow(12) + 1, 10u128.pow(18), 10u128.pow(21), 10u128.pow(26), 1 << 120]]);
    let caps: Vec<u128> = vec![0, 1, 10u128.pow(15), D18 / 3, D18 / 2, D18 - 1, D18];
    product(c, "omnipool_verify_cap", &[&v, &v, &v, &caps], |p| {
        let (q, add, tot, cap) = (p[0], p[1], p[2], p[3]);
        if q > tot { return false }
        match m::verify_asset_cap(&st(1, q), cap, add, tot) {
            Some(ok) => {
                if tot + add == 0 { return true }
                // weight carried with 18 decimals, rounded down
                let w = (b(q) + b(add)) * b(D18) / (b(tot) + b(add));
                if ok != (w <= b(cap)) { bad(c, "omnipool_verify_cap", "cap verdict differs from the weight", p, ok, w) }
                true
            }
            None => { if tot + add > 0 { bad(c, "omnipool_verify_cap", "no verdict", p, "none", "") } false }
        }
    });
    product(c, "omnipool_cap_difference", &[&v, &v, &v, &caps], |p| {
        let (r, q, tot, cap) = (p[0], p[1], p[2], p[3]);
        if q > tot { return false }
        match m::calculate_cap_difference(&st(r, q), cap, tot) {
            Some(x) => {
                let max = b(cap) * b(tot) / b(D18);
                if max.is_zero() { bad(c, "omnipool_cap_difference", "room under a zero cap", p, x, "none"); return true }
                let e = if b(q) >= max { B::zero() } else { (max - b(q)) * b(r) / max };
                let tol = b(2) + b(r) / b(D18 / 2);
                if b(x) > e + tol || b(x) + tol < e { bad(c, "omnipool_cap_difference", "room under the cap is off", p, x, e) }
                if b(q) > max && b(x) > tol { bad(c, "omnipool_cap_difference", "room above the cap", p, x, 0) }
                true
            }
            None => false,
        }
    });
    let v2 = join(&[&upto(4), &[1_000, 10u128.pow(12), 10u128.pow(18) + 3, 1 << 100]]);
    product(c, "omnipool_tvl_cap_difference", &[&v2, &v2, &v2, &v2, &v2, &v2], |p| {
        let (r, q, sr, sq, cap, tot) = (p[0], p[1], p[2], p[3], p[4], p[5]);
        match m::calculate_tvl_cap_difference(&st(r, q), &st(sr, sq), cap, tot) {
            Some(x) => {
                if sr == 0 { bad(c, "omnipool_tvl_cap_difference", "room without a stable price", p, x, "none"); return true }
                let max = b(cap) * b(sq) / b(sr);
                let e = if max <= b(tot) { B::zero() } else { if q == 0 { bad(c, "omnipool_tvl_cap_difference", "room without hub asset", p, x, "none"); return true } (max - b(tot)) * b(r) / b(q) };
                if b(x) != e { bad(c, "omnipool_tvl_cap_difference", "room under the value cap is off", p, x, e) }
                true
            }
            None => { if sr > 0 && q > 0 { let max = b(cap) * b(sq) / b(sr); if max <= b(tot) || to_u128((max - b(tot)) * b(r) / b(q)).is_some() { bad(c, "omnipool_tvl_cap_difference", "no answer although one exists", p, "none", "") } } false }
        }
    });
    product(c, "omnipool_tvl", &[&v, &v, &v], |p| {
        match m::calculate_tvl(p[0], (p[1], p[2])) {
            Some(x) => { if p[2] == 0 || b(x) != b(p[0]) * b(p[1]) / b(p[2]) { bad(c, "omnipool_tvl", "value off the stable price", p, x, "") } true }
            None => { if p[2] != 0 && to_u128(b(p[0]) * b(p[1]) / b(p[2])).is_some() { bad(c, "omnipool_tvl", "no answer although one exists", p, "none", "") } false }
        }
    });
    product(c, "omnipool_delta_imbalance", &[&v, &v, &v], |p| {
        if m::calculate_delta_imbalance(p[0], I129 { value: p[1], negative: false }, p[2]) != (if p[1] == 0 { Some(0) } else { None }) { bad(c, "omnipool_delta_imbalance", "accepts a positive imbalance", p, "", "none") }
        match m::calculate_delta_imbalance(p[0], I129 { value: p[1], negative: true }, p[2]) {
            Some(x) => { let e = if p[1] == 0 { B::zero() } else if p[2] == 0 { bad(c, "omnipool_delta_imbalance", "answers with no hub asset", p, x, "none"); return true } else { b(p[0]) * b(p[1]) / b(p[2]) }; if b(x) != e { bad(c, "omnipool_delta_imbalance", "not proportional to the hub asset moved", p, x, e) } true }
            None => { if p[2] != 0 && to_u128(b(p[0]) * b(p[1]) / b(p[2])).is_some() { bad(c, "omnipool_delta_imbalance", "no answer although one exists", p, "none", "") } false }
        }
    });
    // signed balance updates
    let u: Vec<u128> = vec![0, 1, 2, 5, 7, u128::MAX / 2, u128::MAX - 1, u128::MAX];
    product(c, "omnipool_balance_update", &[&u, &u, &[0, 1], &[0, 1]], |p| {
        let mk = |x: u128, s: u128| if s == 0 { Increase(x) } else { Decrease(x) };
        let (x, y) = (mk(p[0], p[2]), mk(p[1], p[3]));
        let r = x.merge(y);
        // value in 2^140-offset arithmetic
        let off = B::one() << 140;
        let val = |z: BalanceUpdate<u128>| match z { Increase(v) => off + b(v), Decrease(v) => off - b(v) };
        let want = val(x) + val(y) - off;
        match r {
            Some(z) => { if val(z) != want { bad(c, "omnipool_balance_update", "merge is not the signed sum", p, z, want) } let z2 = x + y; if val(z2) != want { bad(c, "omnipool_balance_update", "sum is not the signed sum", p, z2, want) } true }
            None => { let m = if want > off { want - off } else { off - want }; if to_u128(m).is_some() { bad(c, "omnipool_balance_update", "merge refuses a sum that fits", p, "none", want) } false }
        }
    });
    product(c, "omnipool_balance_apply", &[&u, &u, &[0, 1]], |p| {
        let r = if p[2] == 0 { Increase(p[0]) + p[1] } else { Decrease(p[0]) + p[1] };
        let e = if p[2] == 0 { p[1].checked_add(p[0]) } else { p[1].checked_sub(p[0]) };
        if r != e { bad(c, "omnipool_balance_apply", "update applied wrongly", p, r, e) }
        r.is_some()
    });
    sample(c, "omnipool_verify_cap", &[1, 2, 3], m::verify_asset_cap(&st(1, 1), D18 / 2, 1, 10));
}
