use crate::util::*;
use hydra_dx_math::xyk as m;

fn reserves(c: &Check) -> Vec<u128> { join(&[&upto(c.pick(24, 48)), &powers(10, 1000, 10u128.pow(26)), &powers(1 << 16, 1, u128::MAX), &TOP]) }
fn amounts(c: &Check) -> Vec<u128> { join(&[&upto(c.pick(26, 60)), &powers(10, 1000, 10u128.pow(26)), &decades(3, c.pick(20, 27)), &TOP]) }

/// N01
pub fn trade(c: &Check) {
    let (r, a) = (reserves(c), amounts(c));
    product(c, "xyk_out_given_in", &[&r, &r, &a], |p| {
        let (ri, ro, amt) = (p[0], p[1], p[2]);
        let got = m::calculate_out_given_in(ri, ro, amt);
        // exact: ro*amt/(ri+amt)
        match got {
            Ok(x) => {
                if x > ro { bad(c, "xyk_out_given_in", "pays more than the reserve", p, x, ro) }
                // product must not fall
                if (b(ri) + b(amt)) * (b(ro) - b(x)) < b(ri) * b(ro) { bad(c, "xyk_out_given_in", "constant product decreases", p, x, "in*out") }
                // within one unit of the exact quote
                if amt > 0 && (b(x) + B::one()) * (b(ri) + b(amt)) < b(ro) * b(amt) { bad(c, "xyk_out_given_in", "underpays by more than a unit", p, x, b(ro) * b(amt) / (b(ri) + b(amt))) }
                if amt == 0 && x != 0 { bad(c, "xyk_out_given_in", "pays for nothing", p, x, 0) }
                true
            }
            Err(e) => {
                if amt == 0 || ri != 0 || ro != 0 { bad(c, "xyk_out_given_in", "refuses a quote that exists", p, e, "value") }
                false
            }
        }
    });
    product(c, "xyk_in_given_out", &[&r, &r, &a], |p| {
        let (ro, ri, amt) = (p[0], p[1], p[2]);
        let got = m::calculate_in_given_out(ro, ri, amt);
        match got {
            Ok(x) => {
                if amt == 0 { if x != 0 { bad(c, "xyk_in_given_out", "charges for nothing", p, x, 0) } return true }
                if amt >= ro { bad(c, "xyk_in_given_out", "sells the whole reserve or more", p, x, "error"); return true }
                if (b(ri) + b(x)) * (b(ro) - b(amt)) < b(ri) * b(ro) { bad(c, "xyk_in_given_out", "constant product decreases", p, x, "in*out") }
                let floor = b(ri) * b(amt) / (b(ro) - b(amt));
                if b(x) > floor + B::one() { bad(c, "xyk_in_given_out", "overcharges by more than a unit", p, x, floor) }
                if x == 0 { bad(c, "xyk_in_given_out", "gives away for free", p, x, floor) }
                true
            }
            Err(e) => {
                if amt == 0 || (amt < ro && to_u128(b(ri) * b(amt) / (b(ro) - b(amt)) + B::one()).is_some()) { bad(c, "xyk_in_given_out", "refuses a quote that exists", p, e, "value") }
                false
            }
        }
    });
    // sequences: every trade history up to `depth` over a small pool, real quotes applied to a model pool
    let depth = c.pick(4, 5);
    let start: Vec<(u128, u128)> = vec![(1, 1), (2, 3), (5, 5), (10, 100), (1000, 7), (1_000_000, 999_999), (10u128.pow(15), 3 * 10u128.pow(12))];
    let acts: Vec<u128> = vec![1, 2, 3, 10, 999, 10u128.pow(9)];
    start.par_iter().for_each(|s| {
        // wealth of the trader in both assets may not grow in both / end above the start in one with the other unchanged
        let mut front = vec![(*s, vec![])];
        let mut seen = std::collections::HashSet::new();
        seen.insert(*s);
        let k0 = b(s.0) * b(s.1);
        let (mut st, mut tr) = (1u64, 0u64);
        for _ in 0..depth {
            let mut next = vec![];
            for ((x, y), h) in &front {
                for a in &acts {
                    for op in 0..4 {
                        tr += 1;
                        let n = match op {
                            0 => m::calculate_out_given_in(*x, *y, *a).ok().map(|o| (*x + *a, y - o.min(*y))),
                            1 => m::calculate_out_given_in(*y, *x, *a).ok().map(|o| (x - o.min(*x), *y + *a)),
                            2 => m::calculate_in_given_out(*y, *x, *a).ok().filter(|_| a <= y).map(|i| (*x + i, y - a)),
                            _ => m::calculate_in_given_out(*x, *y, *a).ok().filter(|_| a <= x).map(|i| (x - a, *y + i)),
                        };
                        let Some(n) = n else { continue };
                        let mut h2: Vec<(u8, u128)> = h.clone();
                        h2.push((op, *a));
                        if b(n.0) * b(n.1) < k0 || b(n.0) * b(n.1) < b(*x) * b(*y) {
                            c.violation("xyk_history/product", format!("pool {s:?} history {h2:?} reaches {n:?}: product fell"), json!({"start": format!("{s:?}"), "history": format!("{h2:?}")}));
                        }
                        if (n.0 < s.0 && n.1 <= s.1) || (n.0 <= s.0 && n.1 < s.1) {
                            c.violation("xyk_history/drain", format!("pool {s:?} history {h2:?} reaches {n:?}: trader profits"), json!({"start": format!("{s:?}"), "history": format!("{h2:?}")}));
                        }
                        if seen.insert(n) { st += 1; next.push((n, h2)) }
                    }
                }
                if c.stop() { return }
            }
            front = next;
        }
        c.add_states(st);
        c.add_transitions(tr);
        c.add_traces(tr);
        c.section(&format!("histories from {s:?}"), json!({"states": st, "transitions": tr, "depth": depth}));
    });
    for p in [[10, 10, 5], [1000, 2000, 2000]] { sample(c, "xyk_out_given_in", &p, m::calculate_out_given_in(p[0], p[1], p[2])); sample(c, "xyk_in_given_out", &p, m::calculate_in_given_out(p[0], p[1], p[2])); }
}

/// N02
pub fn liquidity(c: &Check) {
    let (r, a) = (reserves(c), amounts(c));
    product(c, "xyk_liquidity_in", &[&r, &r, &a], |p| {
        let (ra, rb, amt) = (p[0], p[1], p[2]);
        let exact = |ra: u128| div_ceil(b(amt) * b(rb), b(ra));
        match m::calculate_liquidity_in(ra, rb, amt) {
            Ok(x) => {
                if ra == 0 { bad(c, "xyk_liquidity_in", "quotes against an empty reserve", p, x, "error"); return true }
                if b(x) < exact(ra) { bad(c, "xyk_liquidity_in", "asks less of the second asset than the pool ratio", p, x, exact(ra)) }
                if b(x) > exact(ra) + B::one() { bad(c, "xyk_liquidity_in", "asks more than a unit above the pool ratio", p, x, exact(ra)) }
                true
            }
            Err(e) => {
                if ra != 0 && to_u128(b(amt) * b(rb) / b(ra) + B::one()).is_some() { bad(c, "xyk_liquidity_in", "refuses a quote that exists", p, e, exact(ra)) }
                false
            }
        }
    });
    product(c, "xyk_shares", &[&r, &a, &r], |p| {
        let (ra, amt, iss) = (p[0], p[1], p[2]);
        match m::calculate_shares(ra, amt, iss) {
            Some(x) => {
                if ra == 0 { bad(c, "xyk_shares", "mints against an empty reserve", p, x, "none"); return true }
                if b(x) * b(ra) > b(iss) * b(amt) { bad(c, "xyk_shares", "mints more than the proportional share", p, x, b(iss) * b(amt) / b(ra)) }
                if (b(x) + B::one()) * b(ra) < b(iss) * b(amt) { bad(c, "xyk_shares", "mints over a unit too little", p, x, b(iss) * b(amt) / b(ra)) }
                true
            }
            None => {
                if ra != 0 && to_u128(b(iss) * b(amt) / b(ra)).is_some() { bad(c, "xyk_shares", "refuses a quote that exists", p, "none", "value") }
                false
            }
        }
    });
    let r2 = join(&[&upto(c.pick(9, 16)), &powers(1000, 1000, 10u128.pow(24)), &TOP[2..]]);
    product(c, "xyk_liquidity_out", &[&r2, &r2, &r2, &r2], |p| {
        let (ra, rb, amt, tot) = (p[0], p[1], p[2], p[3]);
        match m::calculate_liquidity_out(ra, rb, amt, tot) {
            Ok((x, y)) => {
                if tot == 0 { bad(c, "xyk_liquidity_out", "pays with no shares issued", p, (x, y), "error"); return true }
                for (v, r) in [(x, ra), (y, rb)] {
                    if b(v) * b(tot) > b(amt) * b(r) { bad(c, "xyk_liquidity_out", "pays more than the proportional share", p, (x, y), b(amt) * b(r) / b(tot)) }
                    if (b(v) + B::one()) * b(tot) < b(amt) * b(r) { bad(c, "xyk_liquidity_out", "pays over a unit too little", p, (x, y), b(amt) * b(r) / b(tot)) }
                }
                true
            }
            Err(e) => {
                if tot != 0 && to_u128(b(amt) * b(ra) / b(tot)).is_some() && to_u128(b(amt) * b(rb) / b(tot)).is_some() { bad(c, "xyk_liquidity_out", "refuses a quote that exists", p, e, "value") }
                false
            }
        }
    });
    // add then remove never profits, and never takes value per share from the others
    let s = join(&[&upto(c.pick(14, 22))[1..], &[100, 10_007, 10u128.pow(12)]]);
    product(c, "xyk_add_remove", &[&s, &s, &s, &s], |p| {
        let (ra, rb, iss, amt) = (p[0], p[1], p[2], p[3]);
        let (Ok(bin), Some(sh)) = (m::calculate_liquidity_in(ra, rb, amt), m::calculate_shares(ra, amt, iss)) else { return false };
        let (na, nb, ni) = (ra + amt, rb + bin, iss + sh);
        if b(na) * b(iss) < b(ra) * b(ni) || b(nb) * b(iss) < b(rb) * b(ni) { bad(c, "xyk_add_remove", "adding dilutes the existing shares", p, (bin, sh), "") }
        if let Ok((oa, ob)) = m::calculate_liquidity_out(na, nb, sh, ni) {
            if oa > amt || ob > bin { bad(c, "xyk_add_remove", "add then remove returns more than was put in", p, (oa, ob), (amt, bin)) }
            if ni > sh && (b(na - oa.min(na)) * b(iss) < b(ra) * b(iss) || b(nb - ob.min(nb)) * b(iss) < b(rb) * b(iss)) { bad(c, "xyk_add_remove", "round trip leaves less for the others", p, (oa, ob), (ra, rb)) }
        }
        true
    });
    for p in [[10, 20, 5], [1000, 2000, 2000]] { sample(c, "xyk_liquidity_in", &p, m::calculate_liquidity_in(p[0], p[1], p[2])); sample(c, "xyk_shares", &p, m::calculate_shares(p[0], p[1], p[2])); }
}
