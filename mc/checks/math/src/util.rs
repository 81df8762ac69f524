pub use kit::big::{b, div_ceil, to_u128, B};
pub use kit::lattice::*;
pub use kit::rayon::prelude::*;
pub use kit::serde_json::{json, Value};
pub use kit::{guarded, Check};
pub use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Enumerate the full product of `dims` in parallel; `f(point)` checks one point and says whether the
/// implementation gave a value there (as opposed to refusing).
pub fn product(c: &Check, name: &str, dims: &[&[u128]], f: impl Fn(&[u128]) -> bool + Sync) {
    let total: u64 = dims.iter().map(|d| d.len() as u64).product();
    let (done, ok) = (AtomicU64::new(0), AtomicU64::new(0));
    // split on the product of the first two dimensions
    let (a, rest) = dims.split_at(2.min(dims.len()));
    let heads: Vec<Vec<u128>> = if a.len() == 2 {
        a[0].iter().flat_map(|x| a[1].iter().map(move |y| vec![*x, *y])).collect()
    } else {
        a[0].iter().map(|x| vec![*x]).collect()
    };
    let capped = std::sync::atomic::AtomicBool::new(false);
    heads.par_iter().for_each(|h| {
        if c.stop() { return }
        if c.out_of_time() { capped.store(true, Relaxed); return }
        let mut p = h.clone();
        p.extend(rest.iter().map(|d| d[0]));
        let mut idx = vec![0usize; rest.len()];
        let (mut n, mut k) = (0u64, 0u64);
        loop {
            match guarded(|| f(&p)) {
                Ok(true) => k += 1,
                Ok(false) => {}
                Err(m) => c.violation(format!("{name}/panic"), format!("{name}{p:?} panicked: {m}"), json!({"fn": name, "args": strs(&p)})),
            }
            n += 1;
            if c.stop() { break }
            let mut i = rest.len();
            loop {
                if i == 0 { break }
                i -= 1;
                idx[i] += 1;
                if idx[i] < rest[i].len() { p[h.len() + i] = rest[i][idx[i]]; break }
                idx[i] = 0;
                p[h.len() + i] = rest[i][0];
                if i == 0 { i = usize::MAX; break }
            }
            if rest.is_empty() || i == usize::MAX { break }
        }
        done.fetch_add(n, Relaxed);
        ok.fetch_add(k, Relaxed);
    });
    if capped.load(Relaxed) { c.not_exhaustive() }
    let d = done.load(Relaxed);
    c.add_states(d);
    c.add_transitions(d);
    c.add_traces(d);
    c.section(&format!("domain:{name}"), json!({"points": d, "of": total, "accepted": ok.load(Relaxed), "dims": dims.iter().map(|d| d.len()).collect::<Vec<_>>(), "complete": d == total}));
    if ok.load(Relaxed) == 0 && d == total && d > 0 { c.violation(format!("refuses-all:{name}"), format!("[{name}] every one of the {d} points is refused"), json!({ "domain": name })) }
}
pub fn strs(p: &[u128]) -> Vec<String> { p.iter().map(|x| x.to_string()).collect() }
/// Report.
pub fn bad(c: &Check, name: &str, what: &str, p: &[u128], got: impl std::fmt::Debug, want: impl std::fmt::Debug) {
    c.violation(format!("{name}/{what}"), format!("{name}{p:?} = {got:?}: {what}; reference {want:?}"), json!({"fn": name, "args": strs(p), "got": format!("{got:?}"), "reference": format!("{want:?}")}))
}
pub fn sample(c: &Check, name: &str, p: &[u128], got: impl std::fmt::Debug) {
    c.sample(json!({"fn": name, "args": strs(p), "result": format!("{got:?}")}))
}
