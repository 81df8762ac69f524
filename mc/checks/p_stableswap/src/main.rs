//! P03: stableswap pools, on the real pallet-stableswap with stand-in tokens.
use frame_support::{parameter_types, traits::{ConstU128, Nothing}, weights::Weight};
use hydra_dx_math::stableswap::{self as m, types::AssetReserve};
use hydradx_traits::{pools::DustRemovalAccountWhitelist, registry::{AssetKind, Inspect as RegInspect}, router::{PoolType, TradeExecution}, AccountIdFor};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use pallet_stableswap::types::{AssetAmount, PoolState, StableswapHooks, Tradability};
use sp_core::U256;
use sp_runtime::{DispatchError, Permill};
use std::cell::RefCell;
use std::num::NonZeroU16;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Swap: pallet_stableswap });
world::system!(Rt, ());
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Nothing, ());
parameter_types! { pub Amps: std::ops::RangeInclusive<NonZeroU16> = NonZeroU16::new(2).unwrap()..=NonZeroU16::new(1000).unwrap(); }
const MIN_TRADE: u128 = 3;
const MIN_LIQ: u128 = 20;
const D: u8 = m::MAX_D_ITERATIONS;
const Y: u8 = m::MAX_Y_ITERATIONS;
impl pallet_stableswap::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Currency = Tokens;
    type ShareAccountId = Acc;
    type AssetInspection = Reg;
    type AuthorityOrigin = frame_system::EnsureRoot<u64>;
    type MinPoolLiquidity = ConstU128<MIN_LIQ>;
    type AmplificationRange = Amps;
    type MinTradingLimit = ConstU128<MIN_TRADE>;
    type WeightInfo = ();
    type BlockNumberProvider = System;
    type DustAccountHandler = White;
    type Hooks = Hooks;
}
fn acc(pool: AssetId) -> u64 { 1000 + pool as u64 }
pub struct Acc;
impl AccountIdFor<AssetId> for Acc {
    type AccountId = u64;
    fn from_assets(a: &AssetId, _: Option<&[u8]>) -> u64 { acc(*a) }
    fn name(a: &AssetId, _: Option<&[u8]>) -> Vec<u8> { a.to_le_bytes().to_vec() }
}
/// assets 1..5 have decimals 12, 12, 18, 12, 6; shares 10, 11, 12 have 18; 9 has no decimals; others are not registered
fn dec(a: AssetId) -> Option<u8> { match a { 1 | 2 | 4 => Some(12), 5 => Some(6), 3 | 10 | 11 | 12 => Some(18), _ => None } }
pub struct Reg;
impl RegInspect for Reg {
    type AssetId = AssetId;
    type Location = ();
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(a: AssetId) -> bool { a == 9 || dec(a).is_some() }
    fn decimals(a: AssetId) -> Option<u8> { dec(a) }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { Some(1) }
}
#[derive(Clone, Debug, PartialEq)]
enum Told { Liq(AssetId, PoolState<AssetId>), Trade(AssetId, AssetId, AssetId, PoolState<AssetId>), White(u64) }
thread_local! { static TOLD: RefCell<Vec<Told>> = RefCell::new(vec![]); }
fn tell(t: Told) { TOLD.with(|x| x.borrow_mut().push(t)) }
fn told() -> Vec<Told> { TOLD.with(|x| x.borrow().clone()) }
pub struct White;
impl DustRemovalAccountWhitelist<u64> for White {
    type Error = DispatchError;
    fn add_account(a: &u64) -> Result<(), DispatchError> { tell(Told::White(*a)); Ok(()) }
    fn remove_account(_: &u64) -> Result<(), DispatchError> { Ok(()) }
}
pub struct Hooks;
impl StableswapHooks<AssetId> for Hooks {
    fn on_liquidity_changed(p: AssetId, s: PoolState<AssetId>) -> DispatchResult { tell(Told::Liq(p, s)); Ok(()) }
    fn on_trade(p: AssetId, i: AssetId, o: AssetId, s: PoolState<AssetId>) -> DispatchResult { tell(Told::Trade(p, i, o, s)); Ok(()) }
    fn on_liquidity_changed_weight(_: usize) -> Weight { Weight::zero() }
    fn on_trade_weight(_: usize) -> Weight { Weight::zero() }
}

#[derive(Clone, Copy, Debug)]
enum Amt { N(u128), Part(u128), PartPlus1(u128), All, AllPlus1, Leave(u128) }
use Amt::*;
fn amt(a: Amt, of: u128) -> u128 { match a { N(n) => n, Part(p) => of / p, PartPlus1(p) => of / p + 1, All => of, AllPlus1 => of + 1, Leave(n) => of.saturating_sub(n) } }
#[derive(Clone, Copy, Debug)]
enum Lim { Open, Exact, Tight }
#[derive(Clone, Debug)]
enum Act {
    Create(bool, AssetId, Vec<AssetId>, u16),
    Sell(u64, AssetId, AssetId, AssetId, Amt, Lim, bool), Buy(u64, AssetId, AssetId, AssetId, Amt, Lim, bool),
    Add(u64, AssetId, Vec<(AssetId, Amt)>), SellForShares(u64, AssetId, AssetId, Amt, Lim), AddShares(u64, AssetId, AssetId, Amt, Lim, bool),
    RemoveOne(u64, AssetId, AssetId, Amt, Lim, bool), Withdraw(u64, AssetId, AssetId, Amt, Lim, bool),
    Fee(bool, AssetId, u32), Amplify(bool, AssetId, u16, u64, u64), SetTradable(bool, AssetId, AssetId, u8),
    Donate(u64, AssetId, AssetId, u128), GiveShares(u64, u64, AssetId, u128), Blocks(u64),
}
const WHO: [u64; 3] = [1, 2, 3];
const ASSETS: [AssetId; 8] = [1, 2, 3, 4, 5, 10, 11, 12];
const POOLS: [AssetId; 3] = [10, 11, 12];
fn bal(a: AssetId, w: u64) -> u128 { <Tokens as MultiCurrency<u64>>::free_balance(a, &w) }
fn iss(a: AssetId) -> u128 { <Tokens as MultiCurrency<u64>>::total_issuance(a) }
#[derive(Clone, PartialEq, Debug)]
struct Pool { assets: Vec<AssetId>, res: Vec<u128>, fee: u32, amp: (u16, u16, u64, u64), flags: Vec<u8>, shares: u128 }
fn pool(p: AssetId) -> Option<Pool> {
    Swap::pools(p).map(|i| Pool {
        assets: i.assets.to_vec(), res: i.assets.iter().map(|a| bal(*a, acc(p))).collect(), fee: i.fee.deconstruct(),
        amp: (i.initial_amplification.get(), i.final_amplification.get(), i.initial_block, i.final_block),
        flags: i.assets.iter().map(|a| Swap::asset_tradability(p, a).bits()).collect(), shares: iss(p),
    })
}
impl Pool {
    fn r(&self) -> Vec<AssetReserve> { self.assets.iter().zip(&self.res).map(|(a, r)| AssetReserve { amount: *r, decimals: dec(*a).unwrap_or(0) }).collect() }
    fn known(&self) -> bool { self.assets.iter().all(|a| dec(*a).is_some()) }
    fn ix(&self, a: AssetId) -> Option<usize> { self.assets.iter().position(|x| *x == a) }
    fn fee(&self) -> Permill { Permill::from_parts(self.fee) }
    /// amplification now: on the straight line between its ends
    fn a(&self) -> u128 {
        let (i, f, s, e) = self.amp;
        let n = System::block_number();
        let (i, f) = (i as u128, f as u128);
        if n >= e { return f; }
        if n <= s { return i; }
        let k = (n - s) as u128; let l = (e - s) as u128;
        if f > i { i + (f - i) * k / l } else { i - (i - f) * k / l }
    }
    fn d(&self) -> Option<u128> { m::calculate_d::<D>(&self.r(), self.a()) }
    fn prices(&self) -> Option<Vec<(u128, u128)>> { m::calculate_share_prices::<D>(&self.r(), self.a(), self.shares) }
    fn flag(&self, k: usize, f: u8) -> bool { self.flags[k] & f == f }
}
#[derive(Clone, PartialEq, Debug)]
struct See { pools: Vec<Option<Pool>>, bal: Vec<Vec<u128>>, iss: Vec<u128> }
fn see() -> See { See { pools: POOLS.iter().map(|p| pool(*p)).collect(), bal: WHO.iter().map(|w| ASSETS.iter().map(|a| bal(*a, *w)).collect()).collect(), iss: ASSETS.iter().map(|a| iss(*a)).collect() } }
fn state_ok(s: &See) -> Result<(), Wrong> {
    for (k, p) in POOLS.iter().enumerate() {
        match &s.pools[k] {
            None => must!(iss(*p) == 0, "shares", "shares of pool {p} exist without the pool"),
            Some(q) => {
                must!(q.assets.len() >= 2 && q.assets.len() <= 5 && q.assets.windows(2).all(|w| w[0] < w[1]) && !q.assets.contains(p), "pool", "pool {p}: {:?}", q.assets);
                must!((2..=1000).contains(&q.amp.1) && (2..=1000).contains(&q.a()), "amplification", "pool {p}: {:?} now {}", q.amp, q.a());
                must!(q.shares == 0 || q.res.iter().all(|r| *r > 0), "reserves", "pool {p} with {} shares has reserves {:?}", q.shares, q.res);
            }
        }
    }
    Ok(())
}
fn lim_min(l: Lim, x: u128) -> u128 { match l { Lim::Open => 0, Lim::Exact => x, Lim::Tight => x.saturating_add(1) } }
fn lim_max(l: Lim, x: u128) -> u128 { match l { Lim::Open => u128::MAX, Lim::Exact => x, Lim::Tight => x.saturating_sub(1) } }
type TE = Swap;
fn sell_quote(p: AssetId, i: AssetId, o: AssetId, x: u128) -> Option<u128> { dry(|| <TE as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_sell(PoolType::Stableswap(p), i, o, x)).ok() }
fn buy_quote(p: AssetId, i: AssetId, o: AssetId, x: u128) -> Option<u128> { dry(|| <TE as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::calculate_buy(PoolType::Stableswap(p), i, o, x)).ok() }
fn ex<E: std::fmt::Debug>(r: Result<(), hydradx_traits::router::ExecutorError<E>>) -> Result<(), DispatchError> where E: Into<DispatchError> { r.map_err(|e| match e { hydradx_traits::router::ExecutorError::Error(e) => e.into(), _ => DispatchError::Other("not supported") }) }
fn exec_sell(w: u64, p: AssetId, i: AssetId, o: AssetId, x: u128, l: u128) -> Result<(), DispatchError> { ex(<TE as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::execute_sell(signed(w), PoolType::Stableswap(p), i, o, x, l)) }
fn exec_buy(w: u64, p: AssetId, i: AssetId, o: AssetId, x: u128, l: u128) -> Result<(), DispatchError> { ex(<TE as TradeExecution<RuntimeOrigin, u64, AssetId, u128>>::execute_buy(signed(w), PoolType::Stableswap(p), i, o, x, l)) }
/// value of the invariant per share never falls
fn backed(a: &Pool, b: &Pool) -> Result<(), Wrong> {
    if a.shares == 0 || b.shares == 0 { return Ok(()); }
    if let (Some(x), Some(y)) = (a.d(), b.d()) {
        must!((U256::from(y) + U256::from(4)) * U256::from(a.shares) >= U256::from(x) * U256::from(b.shares), "dilution", "invariant per share fell: {x}/{} -> {y}/{} ({:?} -> {:?})", a.shares, b.shares, a.res, b.res);
    }
    Ok(())
}
/// the pool after a change of its reserves and shares
fn changed(p: &Pool, f: impl FnOnce(&mut Pool) -> Option<()>) -> Option<Pool> { let mut q = p.clone(); f(&mut q)?; Some(q) }
fn hook_state(a: &Pool, b: &Pool) -> PoolState<AssetId> {
    PoolState { assets: a.assets.clone(), before: a.res.clone(), after: b.res.clone(), delta: a.res.iter().zip(&b.res).map(|(x, y)| x.abs_diff(*y)).collect(), issuance_before: a.shares, issuance_after: b.shares, share_prices: b.prices().unwrap_or_default() }
}
/// after a call on pool `p` by `who`: pool is `want`, `who` paid and received exactly that, nothing else moved
fn settled(s0: &See, p: AssetId, who: u64, want: &Pool, share_delta: i128) -> Result<(), Wrong> {
    let s1 = see();
    let k = POOLS.iter().position(|x| *x == p).unwrap();
    let (a, b) = (s0.pools[k].as_ref().unwrap(), s1.pools[k].as_ref().unwrap());
    must!(b == want, "settle", "pool {p} is {b:?}, expected {want:?}");
    for (wi, w) in WHO.iter().enumerate() {
        for (ai, x) in ASSETS.iter().enumerate() {
            let d = s1.bal[wi][ai] as i128 - s0.bal[wi][ai] as i128;
            let e = if *w != who { 0 } else if *x == p { share_delta } else { a.ix(*x).map_or(0, |i| a.res[i] as i128 - b.res[i] as i128) };
            must!(d == e, "settle", "account {w} changed by {d} of asset {x}, expected {e}");
        }
    }
    for (ai, x) in ASSETS.iter().enumerate() {
        let e = if *x == p { share_delta } else { 0 };
        must!(s1.iss[ai] as i128 - s0.iss[ai] as i128 == e, "issuance", "issuance of {x}: {} -> {}", s0.iss[ai], s1.iss[ai]);
    }
    Ok(())
}

fn step(act: &Act) -> Result<bool, Wrong> {
    TOLD.with(|t| t.borrow_mut().clear());
    let s0 = see();
    let at = |p: AssetId| s0.pools[POOLS.iter().position(|x| *x == p).unwrap()].clone();
    let ok = match act.clone() {
        Act::Create(rt, p, list, amp) => {
            let mut u = list.clone(); u.sort(); u.dedup();
            let good = rt && at(p).is_none() && u.len() == list.len() && list.len() >= 2 && list.len() <= 5 && !list.contains(&p) && list.iter().all(|a| *a == 9 || dec(*a).is_some()) && (2..=1000).contains(&amp);
            let r = call(|| Swap::create_pool(if rt { root() } else { signed(1) }, p, list.clone(), amp, Permill::from_percent(1)));
            must!(r.is_ok() == good, "create", "create_pool gives {r:?}");
            if good {
                let q = pool(p).unwrap();
                must!(q.assets == u && q.fee == 10_000 && q.a() == amp as u128 && q.flags.iter().all(|f| *f == 15) && q.shares == 0 && told() == vec![Told::White(acc(p))], "create", "{q:?}, told {:?}", told());
            }
            good
        }
        Act::Sell(who, p, i, o, x, l, router) => {
            let q = at(p);
            let x = amt(x, q.as_ref().and_then(|q| Some(q.res[q.ix(i)?])).unwrap_or(100));
            let e = q.as_ref().and_then(|q| {
                let (ii, oo) = (q.ix(i)?, q.ix(o)?);
                if !q.known() || i == o || q.res[ii] == 0 || q.res[oo] == 0 { return None; }
                let (y, _) = m::calculate_out_given_in_with_fee::<D, Y>(&q.r(), ii, oo, x, q.a(), q.fee())?;
                let after = changed(q, |n| { n.res[ii] = n.res[ii].checked_add(x)?; n.res[oo] = n.res[oo].checked_sub(y)?; n.prices().map(|_| ()) })?;
                Some((x, y, after, q.flag(ii, 1) && q.flag(oo, 2)))
            });
            let min = e.as_ref().map_or(0, |e| lim_min(l, e.1));
            let good = e.as_ref().map_or(false, |e| e.3 && x >= MIN_TRADE && bal(i, who) >= x && e.1 >= min);
            let quote = sell_quote(p, i, o, x);
            let r = call(|| if router { exec_sell(who, p, i, o, x, min) } else { Swap::sell(signed(who), p, i, o, x, min) });
            must!(r.is_ok() == good, "sell", "selling {x} of {i} for {o} (limit {min}) gives {r:?}, expected {e:?}");
            if good {
                let (x, y, n, _) = e.unwrap();
                settled(&s0, p, who, &n, 0)?;
                must!(quote == Some(y) && y >= min, "quote", "quoted {quote:?}, got {y}");
                let (d0, d1) = (q.as_ref().unwrap().d().unwrap(), n.d().unwrap());
                must!(d1 + 2 >= d0, "invariant", "selling {x} for {y}: D {d0} -> {d1} at {q:?}");
                must!(told() == vec![Told::Trade(p, i, o, hook_state(q.as_ref().unwrap(), &n))], "hooks", "told {:?}", told());
            }
            good
        }
        Act::Buy(who, p, i, o, y, l, router) => {
            let q = at(p);
            let y = amt(y, q.as_ref().and_then(|q| Some(q.res[q.ix(o)?])).unwrap_or(100));
            let e = q.as_ref().and_then(|q| {
                let (ii, oo) = (q.ix(i)?, q.ix(o)?);
                if !q.known() || i == o || q.res[ii] == 0 || q.res[oo] <= y { return None; }
                let (x, _) = m::calculate_in_given_out_with_fee::<D, Y>(&q.r(), ii, oo, y, q.a(), q.fee())?;
                let after = changed(q, |n| { n.res[ii] = n.res[ii].checked_add(x)?; n.res[oo] = n.res[oo].checked_sub(y)?; n.prices().map(|_| ()) })?;
                Some((x, y, after, q.flag(ii, 1) && q.flag(oo, 2)))
            });
            let max = e.as_ref().map_or(u128::MAX, |e| lim_max(l, e.0));
            let good = e.as_ref().map_or(false, |e| e.3 && y >= MIN_TRADE && bal(i, who) >= e.0 && e.0 <= max);
            let quote = buy_quote(p, i, o, y);
            let r = call(|| if router { exec_buy(who, p, i, o, y, max) } else { Swap::buy(signed(who), p, o, i, y, max) });
            must!(r.is_ok() == good, "buy", "buying {y} of {o} for {i} (limit {max}) gives {r:?}, expected {e:?}");
            if good {
                let (x, y, n, _) = e.unwrap();
                settled(&s0, p, who, &n, 0)?;
                must!(quote == Some(x) && x <= max, "quote", "quoted {quote:?}, paid {x}");
                let (d0, d1) = (q.as_ref().unwrap().d().unwrap(), n.d().unwrap());
                must!(d1 + 2 >= d0, "invariant", "buying {y} for {x}: D {d0} -> {d1} at {q:?}");
                must!(told() == vec![Told::Trade(p, i, o, hook_state(q.as_ref().unwrap(), &n))], "hooks", "told {:?}", told());
            }
            good
        }
        Act::Add(..) | Act::SellForShares(..) => {
            let (who, p, list, lim) = match act.clone() { Act::Add(w, p, l) => (w, p, l, None), Act::SellForShares(w, p, a, x, l) => (w, p, vec![(a, x)], Some(l)), _ => unreachable!() };
            let q = at(p);
            let list: Vec<(AssetId, u128)> = list.iter().map(|(a, x)| (*a, amt(*x, q.as_ref().and_then(|q| q.ix(*a).map(|i| q.res[i])).unwrap_or(50).max(50)))).collect();
            let e = q.as_ref().and_then(|q| {
                if !q.known() || list.len() > q.assets.len() { return None; }
                let mut n = q.clone();
                for (k, (a, x)) in list.iter().enumerate() {
                    let i = q.ix(*a)?;
                    if list[..k].iter().any(|z| z.0 == *a) || !q.flag(i, 4) || *x < MIN_TRADE || bal(*a, who) < *x { return None; }
                    n.res[i] = n.res[i].checked_add(*x)?;
                }
                if n.res.iter().any(|r| *r == 0) { return None; }
                let s = m::calculate_shares::<D>(&q.r(), &n.r(), q.a(), q.shares, q.fee())?;
                n.shares = n.shares.checked_add(s)?;
                n.prices()?;
                if s == 0 || bal(p, who) + s < MIN_LIQ { return None; }
                Some((s, n))
            });
            let min = match (lim, &e) { (Some(l), Some(e)) => lim_min(l, e.0), _ => 0 };
            let good = e.as_ref().map_or(false, |e| e.0 >= min);
            let quote = if list.len() == 1 { sell_quote(p, list[0].0, p, list[0].1) } else { None };
            let r = call(|| if lim.is_some() { exec_sell(who, p, list[0].0, p, list[0].1, min) } else { Swap::add_liquidity(signed(who), p, list.iter().map(|(a, x)| AssetAmount::new(*a, *x)).collect()) });
            must!(r.is_ok() == good, "add", "adding {list:?} (least {min} shares) gives {r:?}, expected {e:?}");
            if good {
                let (s, n) = e.unwrap();
                settled(&s0, p, who, &n, s as i128)?;
                if list.len() == 1 { must!(quote == Some(s), "quote", "quoted {quote:?} shares, got {s}"); }
                let q = q.unwrap();
                must!(n.d() >= q.d(), "invariant", "adding {list:?}: D {:?} -> {:?}", q.d(), n.d());
                backed(&q, &n)?;
                must!(told() == vec![Told::Liq(p, hook_state(&q, &n))], "hooks", "told {:?}", told());
            }
            good
        }
        Act::AddShares(who, p, a, s, l, router) => {
            let q = at(p);
            let s = amt(s, q.as_ref().map_or(30, |q| q.shares));
            let e = q.as_ref().and_then(|q| {
                let i = q.ix(a)?;
                if !q.known() || !q.flag(i, 4) || q.res.iter().any(|r| *r == 0) { return None; }
                let (x, _) = m::calculate_add_one_asset::<D, Y>(&q.r(), s, i, q.shares, q.a(), q.fee())?;
                if x == 0 || bal(a, who) < x || bal(p, who).checked_add(s)? < MIN_LIQ { return None; }
                let n = changed(q, |n| { n.res[i] = n.res[i].checked_add(x)?; n.shares = n.shares.checked_add(s)?; n.prices().map(|_| ()) })?;
                Some((x, n))
            });
            let max = e.as_ref().map_or(u128::MAX, |e| lim_max(l, e.0));
            let good = e.as_ref().map_or(false, |e| e.0 <= max);
            let quote = buy_quote(p, a, p, s);
            let r = call(|| if router { exec_buy(who, p, a, p, s, max) } else { Swap::add_liquidity_shares(signed(who), p, s, a, max) });
            must!(r.is_ok() == good, "add_shares", "buying {s} shares of {p} with {a} (limit {max}) gives {r:?}, expected {e:?}");
            if good {
                let (x, n) = e.unwrap();
                settled(&s0, p, who, &n, s as i128)?;
                must!(quote == Some(x) && x <= max, "quote", "quoted {quote:?}, paid {x}");
                backed(&q.clone().unwrap(), &n)?;
                must!(told() == vec![Told::Liq(p, hook_state(&q.unwrap(), &n))], "hooks", "told {:?}", told());
            }
            good
        }
        Act::RemoveOne(who, p, a, s, l, router) => {
            let q = at(p);
            let have = bal(p, who);
            let s = amt(s, have);
            let e = q.as_ref().and_then(|q| {
                let i = q.ix(a)?;
                if !q.known() || !q.flag(i, 8) || s == 0 || s > have || (s != have && have - s < MIN_LIQ) || (q.shares != s && q.shares - s < MIN_LIQ) { return None; }
                let (x, _) = m::calculate_withdraw_one_asset::<D, Y>(&q.r(), s, i, q.shares, q.a(), q.fee())?;
                let n = changed(q, |n| { n.res[i] = n.res[i].checked_sub(x)?; n.shares = n.shares.checked_sub(s)?; n.prices().map(|_| ()) })?;
                Some((x, n))
            });
            let min = e.as_ref().map_or(0, |e| lim_min(l, e.0));
            let good = e.as_ref().map_or(false, |e| e.0 >= min);
            let quote = sell_quote(p, p, a, s);
            let r = call(|| if router { exec_sell(who, p, p, a, s, min) } else { Swap::remove_liquidity_one_asset(signed(who), p, a, s, min) });
            must!(r.is_ok() == good, "remove_one", "removing {s} of {have} shares for {a} (limit {min}) gives {r:?}, expected {e:?}");
            if good {
                let (x, n) = e.unwrap();
                settled(&s0, p, who, &n, -(s as i128))?;
                must!(quote == Some(x) && x >= min, "quote", "quoted {quote:?}, got {x}");
                backed(&q.clone().unwrap(), &n)?;
                must!(told() == vec![Told::Liq(p, hook_state(&q.unwrap(), &n))], "hooks", "told {:?}", told());
            }
            good
        }
        Act::Withdraw(who, p, a, x, l, router) => {
            let q = at(p);
            let have = bal(p, who);
            let x = amt(x, q.as_ref().and_then(|q| q.ix(a).map(|i| q.res[i])).unwrap_or(10));
            let e = q.as_ref().and_then(|q| {
                let i = q.ix(a)?;
                if !q.known() || !q.flag(i, 8) || x == 0 { return None; }
                let s = m::calculate_shares_for_amount::<D>(&q.r(), i, x, q.a(), q.shares, q.fee())?;
                if s > have || (s != have && have - s < MIN_LIQ) { return None; }
                let n = changed(q, |n| { n.res[i] = n.res[i].checked_sub(x)?; n.shares = n.shares.checked_sub(s)?; n.prices().map(|_| ()) })?;
                Some((s, n))
            });
            let max = e.as_ref().map_or(u128::MAX, |e| lim_max(l, e.0));
            let good = e.as_ref().map_or(false, |e| e.0 <= max);
            let quote = buy_quote(p, p, a, x);
            let r = call(|| if router { exec_buy(who, p, p, a, x, max) } else { Swap::withdraw_asset_amount(signed(who), p, a, x, max) });
            must!(r.is_ok() == good, "withdraw", "withdrawing {x} of {a} for at most {max} of {have} shares gives {r:?}, expected {e:?}");
            if good {
                let (s, n) = e.unwrap();
                settled(&s0, p, who, &n, -(s as i128))?;
                must!(quote == Some(s) && s <= max, "quote", "quoted {quote:?}, paid {s} shares");
                must!(s > 0, "free", "{x} of {a} were withdrawn for no shares");
                backed(&q.clone().unwrap(), &n)?;
                must!(told() == vec![Told::Liq(p, hook_state(&q.unwrap(), &n))], "hooks", "told {:?}", told());
            }
            good
        }
        Act::Fee(rt, p, f) => {
            let r = call(|| Swap::update_pool_fee(if rt { root() } else { signed(1) }, p, Permill::from_parts(f)));
            let good = rt && at(p).is_some();
            must!(r.is_ok() == good && (!good || see().pools[POOLS.iter().position(|x| *x == p).unwrap()] == changed(&at(p).unwrap(), |n| { n.fee = f; Some(()) })), "fee", "setting the fee gives {r:?}");
            good
        }
        Act::Amplify(rt, p, f, s, e) => {
            let now = System::block_number();
            let (s, e) = (now + s - 1, now + e - 1);
            let q = at(p);
            let cur = q.as_ref().map(|q| q.a());
            let good = rt && e > s && s >= now && cur.map_or(false, |c| c != f as u128) && (2..=1000).contains(&f);
            let r = call(|| Swap::update_amplification(if rt { root() } else { signed(1) }, p, f, s, e));
            must!(r.is_ok() == good, "amplify", "ramping from {cur:?} to {f} over {s}..{e} at {now} gives {r:?}");
            if good {
                let n = pool(p).unwrap();
                must!(n.amp == (cur.unwrap() as u16, f, s, e) && Some(n.a()) == cur, "amplify", "amplification jumps: {q:?} -> {n:?}");
            }
            good
        }
        Act::SetTradable(rt, p, a, f) => {
            let q = at(p);
            let good = rt && q.as_ref().map_or(false, |q| q.ix(a).is_some());
            let r = call(|| Swap::set_asset_tradable_state(if rt { root() } else { signed(1) }, p, a, Tradability::from_bits_truncate(f)));
            must!(r.is_ok() == good, "tradable", "{r:?}");
            if good { must!(pool(p) == changed(&q.clone().unwrap(), |n| { let i = n.ix(a)?; n.flags[i] = f; Some(()) }), "tradable", "{:?}", pool(p)); }
            good
        }
        Act::Donate(w, p, a, x) => call(|| <Tokens as MultiCurrency<u64>>::transfer(a, &w, &acc(p), x)).is_ok(),
        Act::GiveShares(a, b, p, x) => call(|| <Tokens as MultiCurrency<u64>>::transfer(p, &a, &b, x)).is_ok(),
        Act::Blocks(n) => { System::set_block_number(System::block_number() + n); true }
    };
    let s1 = see();
    if !ok { must!(s0 == s1, "refused", "a refused call changed something"); }
    if let Act::Sell(_, p, ..) | Act::Buy(_, p, ..) | Act::Add(_, p, _) | Act::SellForShares(_, p, ..) | Act::AddShares(_, p, ..) | Act::RemoveOne(_, p, ..) | Act::Withdraw(_, p, ..) | Act::Fee(_, p, _) | Act::Amplify(_, p, ..) | Act::SetTradable(_, p, ..) | Act::Create(_, p, ..) = act {
        for (k, x) in POOLS.iter().enumerate() { if x != p && !at(*x).map_or(false, |q| q.assets.contains(p)) && !at(*p).map_or(false, |q| q.assets.contains(x)) { must!(s0.pools[k] == s1.pools[k], "bystander", "pool {x} was touched"); } }
    }
    state_ok(&s1)?;
    Ok(ok)
}

fn setup(name: &str, fund: u128, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(5);
        for w in [1u64, 2] { for a in [1, 2, 3, 4, 5] { let _ = <Tokens as MultiCurrency<u64>>::deposit(a, &w, fund); } }
        let _ = <Tokens as MultiCurrency<u64>>::deposit(1, &3, 30);
        for a in acts { match step(a) { Ok(true) => {} Ok(false) => panic!("{a:?} refused in the start state of {name}"), Err(w) => panic!("{a:?} in the start state: {} {}", w.0, w.1) } }
    })
}
fn all(w: u64, p: AssetId, l: &[(AssetId, u128)]) -> Act { Act::Add(w, p, l.iter().map(|(a, x)| (*a, N(*x))).collect()) }

fn main() {
    let ck = kit::Check::new("P03");
    let acts = |_: &()| {
        let mut v = vec![];
        for (w, p, i, o) in [(2, 10, 1, 2), (2, 10, 2, 1), (2, 10, 4, 2), (3, 10, 1, 4), (2, 10, 1, 1), (2, 10, 1, 3), (2, 11, 1, 2)] {
            for x in [N(2), N(3), Part(3), All] { v.push(Act::Sell(w, p, i, o, x, Lim::Exact, false)); v.push(Act::Buy(w, p, i, o, x, Lim::Exact, true)); }
            v.push(Act::Sell(w, p, i, o, Part(4), Lim::Exact, true)); v.push(Act::Sell(w, p, i, o, Part(4), Lim::Tight, false)); v.push(Act::Buy(w, p, i, o, Part(4), Lim::Tight, false)); v.push(Act::Buy(w, p, i, o, Leave(1), Lim::Open, false));
        }
        for w in [1, 2] {
            v.push(Act::Add(w, 10, vec![(1, N(30)), (2, N(30)), (4, N(30))]));
            v.push(Act::Add(w, 10, vec![(4, Part(2)), (1, N(3))]));
            for a in [1, 2] {
                v.push(Act::Add(w, 10, vec![(a, Part(3))]));
                v.push(Act::SellForShares(w, 10, a, Part(5), Lim::Exact)); v.push(Act::SellForShares(w, 10, a, Part(5), Lim::Tight));
                for s in [N(1), N(19), Part(9)] { v.push(Act::AddShares(w, 10, a, s, Lim::Exact, a == 1)); }
                v.push(Act::AddShares(w, 10, a, Part(9), Lim::Tight, a == 2));
                for s in [N(1), Part(3), Leave(19), Leave(20), All, AllPlus1] { v.push(Act::RemoveOne(w, 10, a, s, Lim::Exact, a == 1)); }
                v.push(Act::RemoveOne(w, 10, a, Part(3), Lim::Tight, a == 2));
                for x in [N(1), Part(3), Leave(1), All] { v.push(Act::Withdraw(w, 10, a, x, Lim::Exact, a == 2)); }
                v.push(Act::Withdraw(w, 10, a, Part(3), Lim::Tight, a == 1));
            }
        }
        v.push(Act::Add(2, 10, vec![(1, N(20)), (1, N(20))])); v.push(Act::Add(2, 10, vec![(1, N(20)), (3, N(20))])); v.push(Act::Add(3, 10, vec![(1, AllPlus1)])); v.push(Act::Add(2, 10, vec![]));
        v.push(Act::Add(2, 10, vec![(1, N(20)), (2, N(20)), (4, N(20)), (3, N(20))])); v.push(Act::Add(2, 10, vec![(1, N(2))]));
        v.push(Act::Donate(2, 10, 2, 7)); v.push(Act::GiveShares(1, 3, 10, 5));
        v
    };
    let base = |name: &str, fund, res: &[(AssetId, u128)], amp, fee| setup(name, fund, &[Act::Create(true, 10, res.iter().map(|x| x.0).collect(), amp), Act::Fee(true, 10, fee), all(1, 10, res)]);
    let small = vec![
        base("balanced", 2000, &[(1, 300), (2, 300), (4, 300)], 100, 10_000),
        base("unbalanced, no fee", 2000, &[(1, 60), (2, 900), (4, 33)], 2, 0),
        base("large fee", 4000, &[(1, 500), (2, 40), (4, 2000)], 1000, 300_000),
        setup("never filled", 500, &[Act::Create(true, 10, vec![2, 1, 4], 50), Act::Donate(2, 10, 1, 40)]),
    ];
    World { name: "small", depth: ck.pick(3, 5), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, small);
    // governance, amplification in time, pools of shares of pools
    let acts = |_: &()| {
        let mut v = vec![];
        for rt in [true, false] {
            v.push(Act::Create(rt, 11, vec![10, 3], 100)); v.push(Act::Fee(rt, 10, 500_000)); v.push(Act::Fee(rt, 12, 0)); v.push(Act::Amplify(rt, 10, 200, 1, 11)); v.push(Act::SetTradable(rt, 10, 1, 0));
        }
        for (p, l, amp) in [(11, vec![3], 100), (11, vec![], 100), (11, vec![3, 4, 3], 100), (11, vec![11, 3], 100), (11, vec![3, 8], 100), (11, vec![9, 3], 100), (12, vec![1, 2, 3, 4, 9, 10], 5), (12, vec![4, 3, 2, 1, 10], 1), (12, vec![4, 3], 1001), (12, vec![4, 3], 2), (12, vec![4, 3], 0), (10, vec![1, 2], 10)] { v.push(Act::Create(true, p, l, amp)); }
        for (f, s, e) in [(1000, 1, 11), (2, 3, 4), (1, 1, 5), (1001, 1, 5), (300, 0, 5), (300, 4, 4), (100, 1, 20), (0, 1, 2)] { v.push(Act::Amplify(true, 10, f, s, e)); }
        for f in [1, 2, 4, 8, 15] { v.push(Act::SetTradable(true, 10, 1, f)); }
        v.push(Act::SetTradable(true, 10, 3, 0)); v.push(Act::SetTradable(true, 11, 10, 2));
        for n in [1, 4, 30] { v.push(Act::Blocks(n)); }
        for (p, i, o) in [(10, 1, 5), (10, 5, 1), (11, 3, 10), (11, 10, 3)] { v.push(Act::Sell(2, p, i, o, Part(4), Lim::Exact, false)); v.push(Act::Buy(2, p, i, o, Part(4), Lim::Exact, false)); }
        v.push(Act::Add(1, 11, vec![(10, N(1_000_000_000_000_000)), (3, N(1_000_000_000_000_000))])); v.push(Act::Add(2, 10, vec![(1, N(40)), (5, N(40))]));
        for a in [1, 5] { v.push(Act::RemoveOne(1, 10, a, Part(5), Lim::Exact, false)); v.push(Act::Withdraw(1, 10, a, Part(5), Lim::Exact, false)); v.push(Act::AddShares(2, 10, a, Part(5), Lim::Exact, false)); }
        v.push(Act::RemoveOne(1, 11, 10, Part(2), Lim::Exact, true));
        v
    };
    let gov = vec![base("governance", 20_000_000_000_000_000, &[(1, 300_000_000), (5, 290)], 100, 10_000), setup("share pool", 40_000_000_000_000_000, &[Act::Create(true, 10, vec![1, 5], 40), all(1, 10, &[(1, 1_500_000_000), (5, 1500)]), Act::Create(true, 11, vec![10, 3], 400), all(1, 11, &[(10, 2_000_000_000_000_000), (3, 2_000_000_000_000_000)]), Act::Amplify(true, 10, 90, 2, 9)])];
    World { name: "governance", depth: ck.pick(3, 5), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, gov);
    // sizes the chain really sees, and far more
    let acts = |_: &()| {
        let mut v = vec![];
        for (i, o) in [(1, 5), (5, 1), (3, 1)] { for x in [N(3), N(1_000_003), PartPlus1(7), Part(2), All] { v.push(Act::Sell(2, 10, i, o, x, Lim::Exact, false)); v.push(Act::Buy(2, 10, i, o, x, Lim::Exact, false)); } }
        for a in [1, 5, 3] { for x in [N(3), Part(7), All] {
            v.push(Act::Add(2, 10, vec![(a, x)])); v.push(Act::AddShares(2, 10, a, x, Lim::Exact, false)); v.push(Act::RemoveOne(1, 10, a, x, Lim::Exact, false)); v.push(Act::RemoveOne(2, 10, a, x, Lim::Exact, false)); v.push(Act::Withdraw(1, 10, a, x, Lim::Exact, false)); v.push(Act::Withdraw(2, 10, a, x, Lim::Exact, false));
        } }
        v
    };
    const U: u128 = 1_000_000_000_000;
    let large = vec![
        base("millions", 1 << 100, &[(1, 3_100_000 * U), (5, 2_900_000_000_001), (3, 3_000_017 * U * 1_000_000)], 320, 400),
        base("beyond the reserves of any chain", 1 << 125, &[(1, 1 << 100), (5, 1 << 81), (3, 1 << 119)], 1000, 1),
    ];
    World { name: "large", depth: ck.pick(2, 4), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, large);
    ck.finish()
}
