//! P06: the circuit breaker, on the real pallet-circuit-breaker.
use frame_support::{parameter_types, traits::{ConstU32, Contains, Hooks}};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Cb: pallet_circuit_breaker });
world::system!(Rt, ());
const HUB: AssetId = 9;
pub struct White;
impl Contains<u64> for White { fn contains(a: &u64) -> bool { *a == 5 } }
parameter_types! {
    pub const Trade: (u32, u32) = (2_000, 10_000);
    pub Add: Option<(u32, u32)> = cfg(b":add");
    pub Remove: Option<(u32, u32)> = cfg(b":rem");
}
fn cfg(k: &[u8]) -> Option<(u32, u32)> { frame_support::storage::unhashed::get(k) }
impl pallet_circuit_breaker::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Balance = Balance;
    type TechnicalOrigin = frame_system::EnsureRoot<u64>;
    type WhitelistedAccounts = White;
    type DefaultMaxNetTradeVolumeLimitPerBlock = Trade;
    type DefaultMaxAddLiquidityLimitPerBlock = Add;
    type DefaultMaxRemoveLiquidityLimitPerBlock = Remove;
    type OmnipoolHubAsset = ConstU32<HUB>;
    type WeightInfo = ();
}
/// What the property says must be remembered of an asset: its configured limits, and what happened in this block.
#[derive(Clone, Hash, PartialEq, Debug, Default)]
struct Book { trade: Option<(u32, u32)>, add: Option<Option<(u32, u32)>>, rem: Option<Option<(u32, u32)>>, vol: Option<(u128, u128, u128)>, added: Option<(u128, u128)>, removed: Option<(u128, u128)> }
type Books = [Book; 2];
fn limit(of: u128, l: (u32, u32)) -> Option<u128> { Some(of.checked_mul(l.0 as u128)? / l.1 as u128) }
fn valid(l: (u32, u32)) -> bool { l.0 >= 1 && l.1 >= 1 && l.0 <= 10_000 && l.1 <= 10_000 }
impl Book {
    fn lim_trade(&self) -> (u32, u32) { self.trade.unwrap_or((2_000, 10_000)) }
    fn lim_add(&self) -> Option<(u32, u32)> { self.add.unwrap_or(cfg(b":add")) }
    fn lim_rem(&self) -> Option<(u32, u32)> { self.rem.unwrap_or(cfg(b":rem")) }
    fn open(&mut self, reserve: u128) -> Option<()> { if self.vol.is_none() { self.vol = Some((limit(reserve, self.lim_trade())?, 0, 0)); } Some(()) }
    fn flow(&mut self, i: u128, o: u128) -> Option<()> {
        let (l, a, b) = self.vol?;
        let (a, b) = (a.checked_add(i)?, b.checked_add(o)?);
        if a.abs_diff(b) > l { return None }
        self.vol = Some((l, a, b));
        Some(())
    }
    fn open_liq(&mut self, reserve: u128) -> Option<()> {
        if let (Some(l), None) = (self.lim_add(), self.added) { self.added = Some((limit(reserve, l)?, 0)); }
        if let (Some(l), None) = (self.lim_rem(), self.removed) { self.removed = Some((limit(reserve, l)?, 0)); }
        Some(())
    }
}
fn take(b: &mut Option<(u128, u128)>, x: u128) -> Option<()> { let (l, s) = (*b)?; let s = s.checked_add(x)?; if s > l { return None } *b = Some((l, s)); Some(()) }
#[derive(Clone, Debug)]
enum Act {
    Trade(AssetId, u128, u128, AssetId, u128, u128),
    Liq(bool, u64, AssetId, u128, u128),
    SetTrade(bool, AssetId, (u32, u32)),
    SetLiq(bool, bool, AssetId, Option<(u32, u32)>),
    NextBlock,
}
fn ix(a: AssetId) -> Option<usize> { match a { 1 => Some(0), 2 => Some(1), _ => None } }
fn step(act: &Act, m: &mut Books) -> Result<bool, Wrong> {
    let mut n = m.clone();
    let (e, r): (Option<()>, Result<(), sp_runtime::DispatchError>) = match act.clone() {
        Act::Trade(i, ri, x, o, ro, y) => {
            let e = (|| {
                if let Some(k) = ix(i) { n[k].open(ri)?; }
                if let Some(k) = ix(o) { n[k].open(ro)?; }
                if let Some(k) = ix(i) { n[k].flow(x, 0)?; }
                if let Some(k) = ix(o) { n[k].flow(0, y)?; }
                Some(())
            })();
            (e, call(|| Cb::ensure_pool_state_change_limit(i, ri, x, o, ro, y).map(|_| ())))
        }
        Act::Liq(add, who, a, reserve, x) => {
            let e = (|| {
                if who == 0 || who == 5 { return Some(()) }
                if let Some(k) = ix(a) {
                    n[k].open_liq(reserve)?;
                    if add && n[k].lim_add().is_some() { take(&mut n[k].added, x)?; }
                    if !add && n[k].lim_rem().is_some() { take(&mut n[k].removed, x)?; }
                }
                Some(())
            })();
            let from = || if who == 0 { root() } else { signed(who) };
            (e, call(|| if add { Cb::ensure_add_liquidity_limit(from(), a, reserve, x) } else { Cb::ensure_remove_liquidity_limit(from(), a, reserve, x) }.map(|_| ())))
        }
        Act::SetTrade(rt, a, l) => {
            let e = (rt && a != HUB && valid(l)).then_some(());
            if e.is_some() { n[ix(a).unwrap()].trade = Some(l); }
            (e, call(|| Cb::set_trade_volume_limit(if rt { root() } else { signed(1) }, a, l)))
        }
        Act::SetLiq(rt, add, a, l) => {
            let e = (rt && a != HUB && l.map_or(true, valid)).then_some(());
            if e.is_some() { let b = &mut n[ix(a).unwrap()]; if add { b.add = Some(l) } else { b.rem = Some(l) } }
            (e, call(|| if add { Cb::set_add_liquidity_limit(if rt { root() } else { signed(1) }, a, l) } else { Cb::set_remove_liquidity_limit(if rt { root() } else { signed(1) }, a, l) }))
        }
        Act::NextBlock => {
            let now = System::block_number();
            Cb::on_finalize(now);
            System::set_block_number(now + 1);
            Cb::on_initialize(now + 1);
            for b in n.iter_mut() { b.vol = None; b.added = None; b.removed = None; }
            (Some(()), Ok(()))
        }
    };
    must!(r.is_ok() == e.is_some(), "limit", "gives {r:?} with {m:?}");
    if r.is_ok() { *m = n; }
    // what the pallet remembers is what happened, and it is within the limits
    for a in [1, 2] {
        let b = &m[ix(a).unwrap()];
        let vol = Cb::allowed_trade_volume_limit_per_asset(a).map(|v| (v.limit, v.volume_in, v.volume_out));
        let add = Cb::allowed_add_liquidity_limit_per_asset(a).map(|v| (v.limit, v.liquidity));
        let rem = Cb::allowed_remove_liquidity_limit_per_asset(a).map(|v| (v.limit, v.liquidity));
        must!((vol, add, rem) == (b.vol, b.added, b.removed), "books", "asset {a}: {vol:?} {add:?} {rem:?}, expected {b:?}");
        must!((Cb::trade_volume_limit_per_asset(a), Cb::add_liquidity_limit_per_asset(a), Cb::remove_liquidity_limit_per_asset(a)) == (b.lim_trade(), b.lim_add(), b.lim_rem()), "limits", "asset {a}: {b:?}");
    }
    must!(Cb::allowed_trade_volume_limit_per_asset(HUB).is_none() && Cb::allowed_add_liquidity_limit_per_asset(HUB).is_none() && Cb::allowed_remove_liquidity_limit_per_asset(HUB).is_none(), "hub", "the hub asset is limited");
    Ok(r.is_ok())
}
fn begin(name: &str, add: Option<(u32, u32)>, rem: Option<(u32, u32)>) -> Start<Books> {
    start(name, || {
        System::set_block_number(1);
        if let Some(l) = add { frame_support::storage::unhashed::put(b":add", &l); }
        if let Some(l) = rem { frame_support::storage::unhashed::put(b":rem", &l); }
        Books::default()
    })
}
fn main() {
    let ck = kit::Check::new("P06");
    let trade = |_: &Books| {
        let mut v = vec![Act::NextBlock, Act::SetTrade(true, 1, (1, 10)), Act::SetTrade(true, 1, (10_000, 1)), Act::SetTrade(false, 1, (1, 1)), Act::SetTrade(true, HUB, (1, 1)), Act::SetTrade(true, 1, (0, 1)), Act::SetTrade(true, 1, (1, 0)), Act::SetTrade(true, 1, (10_001, 1)), Act::SetTrade(true, 1, (1, 10_001))];
        for r in [100, 107] {
            for (i, o) in [(1, 2), (2, 1), (1, HUB), (HUB, 1), (1, 1)] {
                for (x, y) in [(5, 7), (20, 20), (21, 3), (4, 21)] { v.push(Act::Trade(i, r, x, o, 100, y)); }
            }
        }
        v.push(Act::Trade(1, u128::MAX / 2_000, 5, 2, 100, 5));
        v.push(Act::Trade(1, u128::MAX / 2_000 + 1, 5, 2, 100, 5));
        v.push(Act::Trade(1, 100, u128::MAX, 2, 100, 1));
        v.push(Act::Trade(2, 100, 1, 1, 100, u128::MAX));
        v
    };
    World { name: "trades", depth: ck.pick(5, 7), events: false, actions: &trade, step: &step, prepare: &|| {} }.explore(&ck, vec![begin("defaults", None, None)]);
    let liq = |_: &Books| {
        let mut v = vec![Act::NextBlock];
        for add in [false, true] {
            for l in [None, Some((1, 10)), Some((3, 7))] { v.push(Act::SetLiq(true, add, 1, l)); }
            v.push(Act::SetLiq(false, add, 1, None)); v.push(Act::SetLiq(true, add, HUB, None)); v.push(Act::SetLiq(true, add, 1, Some((0, 1)))); v.push(Act::SetLiq(true, add, 1, Some((10_001, 3))));
            for w in [0, 1, 5] { v.push(Act::Liq(add, w, 1, 100, 11)); v.push(Act::Liq(add, w, HUB, 100, 10_000)); }
            for (r, x) in [(100, 3), (100, 10), (211, 21), (211, 5), (100, 31), (0, 0), (0, 1), (u128::MAX / 3, 9), (u128::MAX / 2, 9), (100, u128::MAX)] { v.push(Act::Liq(add, 2, 1, r, x)); }
            v.push(Act::Liq(add, 1, 2, 50, 5));
        }
        v.push(Act::Trade(1, 100, 5, 2, 100, 7));
        v
    };
    World { name: "liquidity", depth: ck.pick(5, 7), events: false, actions: &liq, step: &step, prepare: &|| {} }.explore(&ck, vec![begin("no limits", None, None), begin("limits 1/10 and 1/20", Some((1, 10)), Some((1, 20))), begin("limit on removing only", None, Some((1, 3)))]);
    ck.finish()
}
