//! P08: the moving-average oracle, on the real pallet-ema-oracle.
use frame_support::{parameter_types, traits::{ConstU32, Hooks}, BoundedVec};
use hydra_dx_math::{ema, fraction, ratio::Ratio, types::Fraction};
use hydradx_traits::{oracle::{AggregatedOracle, AggregatedPriceOracle, OraclePeriod}, OnLiquidityChangedHandler, OnTradeHandler, Source};
use pallet_ema_oracle::{OnActivityHandler, OracleWhitelist, MAX_PERIODS};
use sp_core::U256;
use std::collections::{BTreeMap, BTreeSet};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Ema: pallet_ema_oracle });
world::system!(Rt, ());
const MAX: u32 = 3;
parameter_types! { pub Periods: BoundedVec<OraclePeriod, ConstU32<MAX_PERIODS>> = OraclePeriod::all_periods().to_vec().try_into().unwrap(); }
impl pallet_ema_oracle::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type AuthorityOrigin = frame_system::EnsureRoot<u64>;
    type BlockNumberProvider = System;
    type SupportedPeriods = Periods;
    type OracleWhitelist = OracleWhitelist<Rt>;
    type MaxUniqueEntries = ConstU32<MAX>;
}
const SRC: [Source; 2] = [*b"omnipool", *b"hydraxyk"];
const PAIRS: [(AssetId, AssetId); 3] = [(1, 2), (1, 3), (2, 3)];
const BLOCKS: [u64; 6] = [1, 9, 100, 600, 14_400, 100_800];
fn smoothing(p: usize) -> Fraction { if p == 0 { fraction::frac(1, 1) } else { pallet_ema_oracle::into_smoothing(OraclePeriod::all_periods()[p]) } }
type Key = (usize, usize);
/// price n/d, volume (a_in, b_out, a_out, b_in), liquidity (a, b)
type Raw = ((u128, u128), (u128, u128, u128, u128), (u128, u128));
#[derive(Clone, Hash, PartialEq, Debug)]
struct Hist { periods: Vec<(Raw, u64)>, init: u64, price: ((u128, u128), (u128, u128)), liq: ((u128, u128), (u128, u128)), vol: (u128, u128, u128, u128) }
#[derive(Clone, Hash, PartialEq, Debug, Default)]
struct Book { white: BTreeSet<Key>, acc: BTreeMap<Key, Raw>, hist: BTreeMap<Key, Hist> }
fn r(p: (u128, u128)) -> Ratio { Ratio::new(p.0, p.1) }
fn to(x: Raw) -> (Ratio, ema::EmaVolume, ema::EmaLiquidity) { (r(x.0), x.1, x.2) }
fn from(x: (Ratio, ema::EmaVolume, ema::EmaLiquidity)) -> Raw { ((x.0.n, x.0.d), x.1, x.2) }
fn less(a: (u128, u128), b: (u128, u128)) -> bool { U256::from(a.0) * U256::from(b.1) < U256::from(b.0) * U256::from(a.1) }
/// a < b by more than the precision of the averages
fn below(a: (u128, u128), b: (u128, u128)) -> bool { let (x, y) = (U256::from(a.0) * U256::from(b.1), U256::from(b.0) * U256::from(a.1)); x < y && y - x > (y >> 90) }
fn inv(x: Raw) -> Raw { let ((n, d), (ai, bo, ao, bi), (a, b)) = x; ((d, n), (bi, ao, bo, ai), (b, a)) }
fn forward(x: Raw, iterations: u64, last: Raw, p: usize) -> Raw { from(ema::update_outdated_to_current(iterations as u32, to(x), (r(last.0), last.2), smoothing(p))) }
impl Book {
    /// what the oracle must answer at block `now` about the end of the block before
    fn answer(&self, k: Key, p: usize, now: u64) -> Option<(Raw, u64)> {
        let h = self.hist.get(&k)?;
        let parent = now - 1;
        let (last, at) = h.periods[0];
        let quiet = if at != parent { (last.0, (0, 0, 0, 0), last.2) } else { last };
        let (x, at) = h.periods[p];
        let x = if p == 0 { quiet } else if at < parent { forward(x, parent - at, quiet, p) } else { x };
        Some((x, parent.max(if p == 0 { parent } else { at }) - h.init))
    }
    fn close(&mut self, now: u64) {
        for (k, e) in std::mem::take(&mut self.acc) {
            match self.hist.get_mut(&k) {
                None => { self.hist.insert(k, Hist { periods: vec![(e, now); 6], init: now, price: (e.0, e.0), liq: (e.2, e.2), vol: e.1 }); }
                Some(h) => {
                    let (last, at) = h.periods[0];
                    let quiet = if at != now - 1 { (last.0, (0, 0, 0, 0), last.2) } else { last };
                    for p in 1..6 {
                        let (x, at) = h.periods[p];
                        let x = if at < now - 1 { forward(x, now - 1 - at, quiet, p) } else { x };
                        h.periods[p] = (from(ema::calculate_new_by_integrating_incoming(to(x), to(e), smoothing(p))), now);
                    }
                    h.periods[0] = (e, now);
                    if less(e.0, h.price.0) { h.price.0 = e.0 } if less(h.price.1, e.0) { h.price.1 = e.0 }
                    h.liq = ((h.liq.0.0.min(e.2.0), h.liq.0.1.min(e.2.1)), (h.liq.1.0.max(e.2.0), h.liq.1.1.max(e.2.1)));
                    h.vol = (h.vol.0.max(e.1.0), h.vol.1.max(e.1.1), h.vol.2.max(e.1.2), h.vol.3.max(e.1.3));
                }
            }
        }
    }
}
#[derive(Clone, Debug)]
enum Act { Trade(usize, AssetId, AssetId, u128, u128, u128, u128), Liq(usize, AssetId, AssetId, u128, u128, (u128, u128)), White(bool, bool, usize, AssetId, AssetId), Blocks(u64) }
fn key(s: usize, a: AssetId, b: AssetId) -> Key { (s, PAIRS.iter().position(|p| *p == (a.min(b), a.max(b))).unwrap()) }
fn enter(n: &mut Book, k: Key, e: Raw) -> bool {
    if !n.white.contains(&k) { return true }
    if let Some(o) = n.acc.get_mut(&k) { let v = o.1; *o = e; let s = |a: u128, b| a.saturating_add(b); o.1 = (s(v.0, e.1.0), s(v.1, e.1.1), s(v.2, e.1.2), s(v.3, e.1.3)); return true }
    if n.acc.len() as u32 >= MAX { return false }
    n.acc.insert(k, e);
    true
}
fn step(act: &Act, m: &mut Book) -> Result<bool, Wrong> {
    let now = System::block_number();
    let mut n = m.clone();
    let (good, ok) = match act.clone() {
        Act::Trade(s, i, o, x, y, li, lo) => {
            // the pool's price is the ratio of its reserves
            let p = Ratio::new(li, lo);
            let e: Raw = ((li, lo), (x, y, 0, 0), (li, lo));
            let e = if i < o { e } else { let e = inv(e); e };
            let good = li > 0 && lo > 0 && enter(&mut n, key(s, i, o), e);
            (good, call(|| <OnActivityHandler<Rt> as OnTradeHandler<AssetId, Balance, Ratio>>::on_trade(SRC[s], i, o, x, y, li, lo, p).map_err(|e| e.1)).is_ok())
        }
        Act::Liq(s, a, b, la, lb, p) => {
            let e: Raw = (p, (0, 0, 0, 0), (la, lb));
            let good = enter(&mut n, key(s, a, b), if a < b { e } else { inv(e) });
            (good, call(|| <OnActivityHandler<Rt> as OnLiquidityChangedHandler<AssetId, Balance, Ratio>>::on_liquidity_changed(SRC[s], a, b, 5, 7, la, lb, r(p)).map_err(|e| e.1)).is_ok())
        }
        Act::White(rt, add, s, a, b) => {
            let k = key(s, a, b);
            let who = || if rt { root() } else { signed(1) };
            if add {
                let good = rt && (n.white.contains(&k) || (n.white.len() as u32) < MAX);
                if good { n.white.insert(k); }
                (good, call(|| Ema::add_oracle(who(), SRC[s], (a, b))).is_ok())
            } else {
                let good = rt && n.white.contains(&k);
                if good { n.white.remove(&k); n.acc.remove(&k); n.hist.remove(&k); }
                (good, call(|| Ema::remove_oracle(who(), SRC[s], (a, b))).is_ok())
            }
        }
        Act::Blocks(k) => {
            Ema::on_finalize(now);
            n.close(now);
            System::set_block_number(now + k); // the blocks in between are empty
            Ema::on_initialize(now + k);
            (true, true)
        }
    };
    must!(good == ok, "accept", "accepted: {ok}, expected {good}");
    if good { *m = n; }
    let now = System::block_number();
    for s in 0..2 { for (q, (a, b)) in PAIRS.iter().enumerate() {
        let k = (s, q);
        for (p, period) in OraclePeriod::all_periods().iter().enumerate() {
            let get = |a, b| <Ema as AggregatedOracle<AssetId, Balance, u64, Ratio>>::get_entry(a, b, *period, SRC[s]).ok().map(|e| (((e.price.n, e.price.d), (e.volume.a_in, e.volume.b_out, e.volume.a_out, e.volume.b_in), (e.liquidity.a, e.liquidity.b)), e.oracle_age));
            let got = get(*a, *b);
            let want = m.answer(k, p, now);
            must!(got == want, "value", "{period:?} of {a}/{b} at {now}: {got:?}, expected {want:?}");
            must!(get(*b, *a) == want.map(|(x, age)| (inv(x), age)), "inverse", "{period:?} of {b}/{a} at {now} is {:?}, {a}/{b} is {want:?}", get(*b, *a));
            must!(<Ema as AggregatedPriceOracle<AssetId, u64, Ratio>>::get_price(*a, *b, *period, SRC[s]).ok() == want.map(|(x, age)| (r(x.0), age)), "price", "{period:?} of {a}/{b}");
            if let (Some((x, _)), Some(h)) = (got, m.hist.get(&k)) {
                must!(!below(x.0, h.price.0) && !below(h.price.1, x.0), "hull", "{period:?} price of {a}/{b} {:?} outside all prices ever seen {:?}", x.0, h.price);
                must!(x.2.0 >= h.liq.0.0 && x.2.1 >= h.liq.0.1 && x.2.0 <= h.liq.1.0 && x.2.1 <= h.liq.1.1, "hull", "{period:?} liquidity of {a}/{b} {:?} outside {:?}", x.2, h.liq);
                must!(x.1.0 <= h.vol.0 && x.1.1 <= h.vol.1 && x.1.2 <= h.vol.2 && x.1.3 <= h.vol.3, "hull", "{period:?} volume of {a}/{b} {:?} above {:?}", x.1, h.vol);
            }
        }
        must!(<Ema as AggregatedOracle<AssetId, Balance, u64, Ratio>>::get_entry(*a, *a, OraclePeriod::Short, SRC[s]).is_err(), "same", "an oracle of {a} in itself");
    } }
    Ok(ok)
}
fn begin(name: &str, acts: &[Act]) -> Start<Book> {
    start(name, || {
        System::set_block_number(1);
        let mut m = Book::default();
        for a in acts { match step(a, &mut m) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
        m
    })
}
fn main() {
    let ck = kit::Check::new("P08");
    // the smoothing factors are those of averages over the periods' numbers of blocks, 2 / (n + 1)
    for p in 0..6 {
        let want = ((U256::one() << 128) / U256::from(BLOCKS[p] + 1)).as_u128();
        let got = smoothing(p).to_bits();
        if got.abs_diff(want) > 1 << 16 { ck.violation("smoothing".to_string(), format!("smoothing of period {p} is {got}, expected {want}"), serde_json::json!({ "period": p })); }
        ck.add_transitions(1);
    }
    let w = |s, a, b| Act::White(true, true, s, a, b);
    let acts = |_: &Book| {
        let mut v = vec![Act::Blocks(1), Act::Blocks(2), Act::Blocks(25), Act::Blocks(20_000)];
        for (s, i, o, x, y, li, lo) in [(0, 1, 2, 10, 7, 1000, 800), (0, 2, 1, 5, 9, 700, 1100), (0, 1, 2, 0, 3, 1000, 800), (0, 1, 3, 3, 4, 500, 1), (1, 2, 1, 11, 22, 333, 444), (1, 3, 1, 1, 1, 1, 999), (0, 1, 2, 5, 5, 0, 9), (0, 1, 2, 5, 5, 9, 0), (0, 2, 3, u128::MAX, u128::MAX, u128::MAX, 1), (0, 3, 2, u128::MAX, 5, u128::MAX, u128::MAX - 3)] { v.push(Act::Trade(s, i, o, x, y, li, lo)); }
        v.push(Act::Liq(0, 1, 2, 1200, 900, (5, 4)));
        v.push(Act::Liq(0, 2, 1, 1300, 0, (3, 10)));
        for (s, a, b) in [(0, 2, 1), (1, 1, 2), (0, 3, 1)] { v.push(Act::White(true, true, s, a, b)); v.push(Act::White(true, false, s, a, b)); }
        v.push(Act::White(false, false, 0, 1, 2)); v.push(Act::White(false, true, 0, 2, 3));
        v
    };
    let t = |s, i, o, x, y, li, lo| Act::Trade(s, i, o, x, y, li, lo);
    let starts = vec![
        begin("two pairs listed", &[w(0, 1, 2), w(0, 1, 3)]),
        begin("some history", &[w(0, 1, 2), w(1, 1, 2), t(0, 1, 2, 90, 40, 9000, 7000), Act::Blocks(3), t(0, 2, 1, 4, 6, 8000, 7100), t(1, 1, 2, 4, 9, 600, 300), Act::Blocks(40)]),
        begin("extreme values", &[w(0, 2, 3), w(0, 1, 2), t(0, 2, 3, u128::MAX, 1, 1, u128::MAX), Act::Blocks(1)]),
    ];
    World { name: "oracle", depth: ck.pick(5, 7), events: false, actions: &acts, step: &step, prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
