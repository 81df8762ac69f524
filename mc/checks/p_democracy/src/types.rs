//! thresholds, convictions, tallies and the byte form of votes, on all small and many extreme values
use super::*;
use pallet_democracy::Approved;
use serde_json::json;
pub fn check(ck: &kit::Check) {
    let mut n = 0u64;
    let big = [0u128, 1, 2, 9, 10, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 100, u128::MAX / 6, u128::MAX / 6 + 1, u128::MAX / 5 + 1, u128::MAX - 1, u128::MAX];
    let near: Vec<u128> = (0..=ck.pick(17, 26)).collect();
    let mut go = |ayes: u128, nays: u128, turnout: u128, electorate: u128| for t in 0..3u8 {
        n += 1;
        // without anybody the chain has no issuance: nothing can have been voted
        if electorate == 0 { continue }
        let got = thr(t).approved(Tally { ayes, nays, turnout }, electorate);
        let want = passes(t, (ayes, nays, turnout), electorate);
        if got != want { ck.violation("threshold", format!("[thresholds] {:?}: {ayes} ayes, {nays} nays, turnout {turnout} of {electorate} passes: {got}, not {want}", thr(t)), json!({ "ayes": ayes.to_string(), "nays": nays.to_string(), "turnout": turnout.to_string(), "electorate": electorate.to_string() })); }
    };
    for a in &near { for b in &near { for t in &near { for e in &near { go(*a, *b, *t, *e); } } } }
    for a in big { for b in big { for t in big { for e in big { go(a, b, t, e); } } } }
    // where the roots and the quotients meet
    for s in 1..ck.pick(60u128, 150) { for q in 1..60u128 { for (d, f) in [(0i32, 0i32), (0, 1), (1, 0), (-1, 0), (0, -1)] {
        let off = |x: u128, d: i32| if d < 0 { x - 1 } else { x + d as u128 };
        go(off(q * s, d), q * (s + 3), off(s * s, f), (s + 3) * (s + 3)); go(q * (s + 3), off(q * s, d), off(s * s, f), (s + 3) * (s + 3)); go(q * (s + 3), off(q * s, d), (s + 3) * (s + 3), off(s * s, f));
    } } }
    for b in 0..=255u8 {
        n += 1;
        let got = Vote::decode(&mut &[b][..]);
        let want = if b & 127 < 7 { Some(Vote { aye: b > 127, conviction: Conviction::try_from(b & 127).unwrap() }) } else { None };
        if got.clone().ok() != want || want.map_or(false, |v| v.encode() != [b] || u8::from(v.conviction) != b & 127) || Conviction::try_from(b).is_ok() != (b < 7) { ck.violation("vote-byte", format!("[votes] byte {b} reads as {got:?}"), json!({ "byte": b })); }
    }
    for c in 0..7u8 { for x in big.iter().chain(&near) {
        n += 1;
        let k = Conviction::try_from(c).unwrap();
        let want = if c == 0 { x / 10 } else { x.saturating_mul(c as u128) };
        if (k.votes(*x).votes, k.votes(*x).capital, k.lock_periods() as u64) != (want, *x, locks(c)) { ck.violation("conviction", format!("[votes] {x} with {k:?} weighs {:?} and is locked for {} periods", k.votes(*x), k.lock_periods()), json!({ "conviction": c })); }
        // tallies: what does not fit is refused; taking away a vote undoes it
        for y in big { for aye in [true, false] { for z in big {
            let v = if c == 6 { V::Split(*x, z) } else { V::Std(aye, c, *x) };
            if c != 6 && z > 2 { continue }
            n += 1;
            let t = Tally { ayes: y, nays: z, turnout: y };
            let mut u = t.clone();
            let (a, b, w) = match v { V::Std(true, ..) => (want, 0, *x), V::Std(..) => (0, want, *x), V::Split(p, q) => (p / 10, q / 10, p.saturating_add(q)) };
            let fits = y.checked_add(a).zip(z.checked_add(b)).zip(y.checked_add(w)).map(|((a, b), c)| (a, b, c)).filter(|_| match v { V::Split(p, q) => p.checked_add(q).is_some(), _ => true });
            let got = u.add(v.real()).map(|_| (u.ayes, u.nays, u.turnout));
            let back = got.is_none() || u.remove(v.real()).is_some() && u == t;
            if got != fits || !back { ck.violation("tally", format!("[votes] {v:?} added to {t:?} gives {got:?}, not {fits:?}, and taken away {u:?}"), json!({ "conviction": c })); }
        } } }
    } }
    ck.add_states(n); ck.add_transitions(n); ck.add_traces(n);
    ck.section("values", json!({ "points": n }));
}
