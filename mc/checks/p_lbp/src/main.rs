//! P04: liquidity bootstrapping pools, on the real pallet-lbp and the stand-in tokens.
use frame_support::{parameter_types, traits::{ConstU128, LockIdentifier, Nothing}};
use hydra_dx_math::{fee::calculate_pool_trade_fee as fee_of, lbp as m};
use hydradx_traits::{router::{PoolType, TradeExecution}, AssetPairAccountIdFor, CanCreatePool, LockedBalance, AMM};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use pallet_lbp::{DisallowWhenLBPPoolRunning, FeeCollectorWithAsset, PoolData, WeightCurveType, COLLECTOR_LOCK_ID, MAX_SALE_DURATION, MAX_WEIGHT};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Lbp: pallet_lbp });
world::system!(Rt, ());
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Nothing, ());
pub struct PairAcc;
impl AssetPairAccountIdFor<AssetId, u64> for PairAcc { fn from_assets(a: AssetId, b: AssetId, _: &str) -> u64 { pool_of(a, b) } }
fn pool_of(a: AssetId, b: AssetId) -> u64 { 100 + (a.min(b) * 10 + a.max(b)) as u64 }
pub struct Locked;
impl LockedBalance<AssetId, u64, Balance> for Locked {
    fn get_by_lock(id: LockIdentifier, a: AssetId, w: u64) -> Balance { Tokens::locks(w, a).into_iter().find(|l| l.id == id).map_or(0, |l| l.amount) }
}
const MIN_LIQ: u128 = 10;
const RATIO: u128 = 3;
parameter_types! { pub const Ratio3: u128 = RATIO; }
impl pallet_lbp::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type LockedBalance = Locked;
    type CreatePoolOrigin = frame_system::EnsureRoot<u64>;
    type LBPWeightFunction = pallet_lbp::LBPWeightFunction;
    type AssetPairAccountId = PairAcc;
    type WeightInfo = ();
    type MinTradingLimit = ConstU128<2>;
    type MinPoolLiquidity = ConstU128<MIN_LIQ>;
    type MaxInRatio = Ratio3;
    type MaxOutRatio = Ratio3;
    type BlockNumberProvider = System;
}

const WHO: [u64; 4] = [1, 2, 3, 4]; // owner, buyer, collector, other collector
const ASSETS: [AssetId; 3] = [1, 2, 3];
const PAIRS: [(AssetId, AssetId); 3] = [(1, 2), (1, 3), (2, 3)];
#[derive(Clone, PartialEq, Debug)]
struct Pool { owner: u64, start: Option<u64>, end: Option<u64>, a: AssetId, b: AssetId, wi: u32, wf: u32, fee: (u32, u32), col: u64, repay: u128 }
#[derive(Clone, PartialEq, Debug)]
struct See { bal: Vec<Vec<u128>>, locks: Vec<Vec<u128>>, pools: Vec<Option<Pool>>, cols: Vec<(u64, AssetId)> }
fn bal(a: AssetId, w: u64) -> u128 { Tokens::free_balance(a, &w) }
fn spendable(a: AssetId, w: u64) -> u128 { bal(a, w).saturating_sub(Locked::get_by_lock(COLLECTOR_LOCK_ID, a, w)) }
fn pool(id: u64) -> Option<Pool> {
    PoolData::<Rt>::get(id).map(|p| Pool { owner: p.owner, start: p.start, end: p.end, a: p.assets.0, b: p.assets.1, wi: p.initial_weight, wf: p.final_weight, fee: p.fee, col: p.fee_collector, repay: p.repay_target })
}
fn all() -> Vec<u64> { WHO.iter().copied().chain(PAIRS.iter().map(|(a, b)| pool_of(*a, *b))).collect() }
fn see() -> See {
    let mut cols: Vec<(u64, AssetId)> = FeeCollectorWithAsset::<Rt>::iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect();
    cols.sort();
    See {
        bal: all().iter().map(|w| ASSETS.iter().map(|a| bal(*a, *w)).collect()).collect(),
        locks: all().iter().map(|w| ASSETS.iter().map(|a| Locked::get_by_lock(COLLECTOR_LOCK_ID, *a, *w)).collect()).collect(),
        pools: PAIRS.iter().map(|(a, b)| pool(pool_of(*a, *b))).collect(),
        cols,
    }
}
impl See {
    fn w(&self, w: u64) -> usize { all().iter().position(|x| *x == w).unwrap() }
    fn mv(&mut self, a: AssetId, from: u64, to: u64, x: u128) { let (f, t) = (self.w(from), self.w(to)); self.bal[f][a as usize - 1] -= x; self.bal[t][a as usize - 1] += x; }
    fn put(&mut self, id: u64, p: Option<Pool>) { let i = PAIRS.iter().position(|(a, b)| pool_of(*a, *b) == id).unwrap(); self.pools[i] = p; }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Amt { N(u128), Part(u128), PartPlus1(u128) }
use Amt::*;
fn amt(x: Amt, of: u128) -> u128 { match x { N(n) => n, Part(p) => of / p, PartPlus1(p) => of / p + 1 } }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Lim { Exact, Tight }
#[derive(Clone, Debug, Default)]
struct Up { owner: Option<u64>, start: Option<u64>, end: Option<u64>, wi: Option<u32>, wf: Option<u32>, fee: Option<(u32, u32)>, col: Option<u64>, repay: Option<u128> }
#[derive(Clone, Debug)]
enum Act {
    /// by root, owner, asset a, amount, asset b, amount, weights, fee, collector, repay target
    Create(bool, u64, AssetId, u128, AssetId, u128, (u32, u32), (u32, u32), u64, u128),
    Update(u64, u64, Up),
    Add(u64, AssetId, u128, AssetId, u128),
    Remove(u64, u64),
    Sell(u64, AssetId, AssetId, Amt, Lim, bool),
    Buy(u64, AssetId, AssetId, Amt, Lim, bool),
    Donate(u64, AssetId, u64, u128),
    Blocks(u64),
}
fn valid(p: &Pool, now: u64) -> bool {
    let range = match (p.start, p.end) { (Some(s), Some(e)) => now < s && s < e && e - s < MAX_SALE_DURATION as u64, (None, None) => true, _ => false };
    let w = |w: u32| w >= MAX_WEIGHT / 50 && w < MAX_WEIGHT;
    range && w(p.wi) && w(p.wf) && p.fee.1 != 0
}
fn running(p: &Pool, now: u64) -> bool { matches!((p.start, p.end), (Some(s), Some(e)) if s <= now && now <= e) }
/// the weight of the accumulated asset: on the straight line between the ends
fn weight(p: &Pool, now: u64) -> u32 { m::calculate_linear_weights(p.start.unwrap(), p.end.unwrap(), p.wi, p.wf, now).expect("weight") }
fn rate(p: &Pool) -> (u32, u32) { if Locked::get_by_lock(COLLECTOR_LOCK_ID, p.a, p.col) < p.repay { (2, 10) } else { p.fee } }
/// (charged, received, pool's in, pool's out, fee) of selling x or buying y
#[derive(Debug, Clone, Copy)]
struct T { pays: u128, gets: u128, fee: u128, gross_in: u128, gross_out: u128 }
fn sell(p: &Pool, i: AssetId, o: AssetId, x: u128, now: u64) -> Option<T> {
    let id = pool_of(i, o);
    let wa = weight(p, now);
    let (wi, wo) = if i == p.a { (wa, MAX_WEIGHT - wa) } else { (MAX_WEIGHT - wa, wa) };
    let y = m::calculate_out_given_in(bal(i, id), bal(o, id), wi, wo, x).ok()?;
    Some(if i == p.a { let f = fee_of(x, rate(p))?; if f > x { return None } T { pays: x, gets: y, fee: f, gross_in: x, gross_out: y } }
         else { let f = fee_of(y, rate(p))?; T { pays: x, gets: y.checked_sub(f)?, fee: f, gross_in: x, gross_out: y } })
}
fn buy(p: &Pool, i: AssetId, o: AssetId, y: u128, now: u64) -> Option<T> {
    let id = pool_of(i, o);
    let wa = weight(p, now);
    let (wi, wo) = if i == p.a { (wa, MAX_WEIGHT - wa) } else { (MAX_WEIGHT - wa, wa) };
    let f_out = if o == p.a { fee_of(y, rate(p))? } else { 0 };
    let x = m::calculate_in_given_out(bal(i, id), bal(o, id), wi, wo, y.checked_add(f_out)?).ok()?;
    let fee = if o == p.a { f_out } else { let f = fee_of(x, rate(p))?; if f > x { return None } f };
    Some(T { pays: x, gets: y, fee, gross_in: x, gross_out: y })
}
fn state_ok(s: &See, now: u64) -> Result<(), Wrong> {
    let mut want: Vec<(u64, AssetId)> = s.pools.iter().flatten().map(|p| (p.col, p.a)).collect();
    want.sort();
    must!(s.cols == want, "collectors", "collectors in use {:?}, pools have {want:?}", s.cols);
    for (w, who) in all().iter().enumerate() { for (a, asset) in ASSETS.iter().enumerate() {
        must!(s.locks[w][a] == 0 || want.contains(&(*who, *asset)), "lock", "{} of {asset} stays locked at {who} without a pool", s.locks[w][a]);
    } }
    for ((a, b), p) in PAIRS.iter().zip(&s.pools) {
        let id = pool_of(*a, *b);
        let can = p.as_ref().map_or(true, |p| p.end.map_or(false, |e| e < now));
        must!(DisallowWhenLBPPoolRunning::<Rt>::can_create(*a, *b) == can && DisallowWhenLBPPoolRunning::<Rt>::can_create(*b, *a) == can, "can_create", "{p:?} at {now}");
        must!(Lbp::get_pool_assets(&id) == p.as_ref().map(|p| vec![p.a, p.b]), "record", "assets of {p:?}");
        if let Some(p) = p {
            must!((p.a.min(p.b), p.a.max(p.b)) == (*a, *b), "record", "{p:?} is stored for {a}/{b}");
            must!(valid(p, p.start.map_or(0, |s| s - 1)), "record", "invalid data {p:?}");
        }
    }
    Ok(())
}
fn step(act: &Act) -> Result<bool, Wrong> {
    let now = System::block_number();
    let s0 = see();
    let mut n = s0.clone();
    let ok = match act.clone() {
        Act::Create(rt, owner, a, x, b, y, (wi, wf), fee, col, repay) => {
            let p = Pool { owner, start: None, end: None, a, b, wi, wf, fee, col, repay };
            let good = rt && x >= MIN_LIQ && y >= MIN_LIQ && a != b && pool(pool_of(a, b)).is_none() && !s0.cols.contains(&(col, a)) && spendable(a, owner) >= x && spendable(b, owner) >= y && valid(&p, now);
            let r = call(|| Lbp::create_pool(if rt { root() } else { signed(1) }, owner, a, x, b, y, wi, wf, WeightCurveType::Linear, fee, col, repay));
            must!(r.is_ok() == good, "create", "creating {p:?} gives {r:?}");
            if good { n.mv(a, owner, pool_of(a, b), x); n.mv(b, owner, pool_of(a, b), y); n.cols.push((col, a)); n.cols.sort(); n.put(pool_of(a, b), Some(p)); }
            good
        }
        Act::Update(who, id, u) => {
            let old = pool(id);
            let changes = u.start.is_some() || u.end.is_some() || u.wi.is_some() || u.wf.is_some() || u.fee.is_some() || u.col.is_some() || u.repay.is_some();
            let new = old.clone().map(|o| Pool { owner: u.owner.unwrap_or(o.owner), start: u.start.or(o.start), end: u.end.or(o.end), wi: u.wi.unwrap_or(o.wi), wf: u.wf.unwrap_or(o.wf), fee: u.fee.unwrap_or(o.fee), col: u.col.unwrap_or(o.col), repay: u.repay.unwrap_or(o.repay), ..o });
            let good = match (&old, &new) { (Some(o), Some(p)) => changes && who == o.owner && o.start.map_or(true, |s| now < s) && u.col.map_or(true, |c| !s0.cols.contains(&(c, o.a))) && valid(p, now), _ => false };
            let r = call(|| Lbp::update_pool_data(signed(who), id, u.owner, u.start, u.end, u.wi, u.wf, u.fee, u.col, u.repay));
            must!(r.is_ok() == good, "update", "updating {old:?} at {now} gives {r:?}");
            if good {
                let (o, p) = (old.unwrap(), new.unwrap());
                n.cols.retain(|c| *c != (o.col, o.a)); n.cols.push((p.col, p.a)); n.cols.sort();
                n.put(id, Some(p));
            }
            good
        }
        Act::Add(who, a, x, b, y) => {
            let id = pool_of(a, b);
            let good = pool(id).map_or(false, |p| p.owner == who) && (x > 0 || y > 0) && spendable(a, who) >= x && spendable(b, who) >= y;
            let r = call(|| Lbp::add_liquidity(signed(who), (a, x), (b, y)));
            must!(r.is_ok() == good, "add", "adding {x}/{y} gives {r:?}");
            if good { n.mv(a, who, id, x); n.mv(b, who, id, y); }
            good
        }
        Act::Remove(who, id) => {
            let p = pool(id);
            let good = p.as_ref().map_or(false, |p| p.owner == who && !running(p, now));
            let r = call(|| Lbp::remove_liquidity(signed(who), id));
            must!(r.is_ok() == good, "remove", "removing {p:?} at {now} gives {r:?}");
            if good {
                let p = p.unwrap();
                for a in [p.a, p.b] { let x = n.bal[n.w(id)][a as usize - 1]; n.mv(a, id, who, x); }
                let w = n.w(p.col); n.locks[w][p.a as usize - 1] = 0;
                n.cols.retain(|c| *c != (p.col, p.a));
                n.put(id, None);
            }
            good
        }
        Act::Sell(who, i, o, x, l, router) => {
            let id = pool_of(i, o);
            let p = pool(id).filter(|p| running(p, now));
            let (ri, ro) = (bal(i, id), bal(o, id));
            let x = amt(x, ri);
            let e = p.as_ref().and_then(|p| sell(p, i, o, x, now));
            let min = e.map_or(0, |e| if l == Lim::Tight { e.gets + 1 } else { e.gets });
            let good = e.map_or(false, |e| x > 0 && l == Lim::Exact && x <= ri / RATIO && e.gross_out <= ro / RATIO && can_pay(p.as_ref().unwrap(), i, who, e));
            let quote = <Lbp as TradeExecution<RuntimeOrigin, u64, AssetId, Balance>>::calculate_sell(PoolType::LBP, i, o, x).ok();
            let r = call(|| if router { <Lbp as TradeExecution<RuntimeOrigin, u64, AssetId, Balance>>::execute_sell(signed(who), PoolType::LBP, i, o, x, min).map_err(|_| "no".into()) } else { Lbp::sell(signed(who), i, o, x, min) });
            must!(r.is_ok() == good, "sell", "selling {x} of {i} for {o} (at least {min}) at {now} gives {r:?}, expected {e:?} of {ri}/{ro} {p:?}");
            if good { let (e, p) = (e.unwrap(), p.unwrap()); must!(quote == Some(e.gets), "quote", "quoted {quote:?}, received {}", e.gets); trade(&mut n, &p, id, who, i, o, e); }
            good
        }
        Act::Buy(who, i, o, y, l, router) => {
            let id = pool_of(i, o);
            let p = pool(id).filter(|p| running(p, now));
            let (ri, ro) = (bal(i, id), bal(o, id));
            let y = amt(y, ro);
            let e = p.as_ref().and_then(|p| buy(p, i, o, y, now));
            let max = e.map_or(u128::MAX, |e| if l == Lim::Tight { e.pays.saturating_sub(1) } else { e.pays });
            let good = e.map_or(false, |e| y > 0 && e.pays <= max && y <= ro / RATIO && e.gross_in <= ri / RATIO && can_pay(p.as_ref().unwrap(), i, who, e));
            let quote = <Lbp as TradeExecution<RuntimeOrigin, u64, AssetId, Balance>>::calculate_buy(PoolType::LBP, i, o, y).ok();
            let r = call(|| if router { <Lbp as TradeExecution<RuntimeOrigin, u64, AssetId, Balance>>::execute_buy(signed(who), PoolType::LBP, i, o, y, max).map_err(|_| "no".into()) } else { Lbp::buy(signed(who), o, i, y, max) });
            must!(r.is_ok() == good, "buy", "buying {y} of {o} for {i} (at most {max}) at {now} gives {r:?}, expected {e:?} of {ri}/{ro} {p:?}");
            if good { let (e, p) = (e.unwrap(), p.unwrap()); must!(quote == Some(e.pays), "quote", "quoted {quote:?}, paid {}", e.pays); trade(&mut n, &p, id, who, i, o, e); }
            good
        }
        Act::Donate(who, a, to, x) => { let r = call(|| <Tokens as MultiCurrency<u64>>::transfer(a, &who, &to, x)); if r.is_ok() { n.mv(a, who, to, x); } r.is_ok() }
        Act::Blocks(k) => { System::set_block_number(now + k); true }
    };
    let s1 = see();
    must!(s1 == n, if ok { "effect" } else { "refused" }, "expected {n:?}, found {s1:?}");
    state_ok(&s1, System::block_number())?;
    Ok(ok)
}
/// a collector who trades pays the fee to itself, so it may come from what is locked
fn can_pay(p: &Pool, i: AssetId, who: u64, e: T) -> bool { bal(i, who) >= e.pays && spendable(i, who) >= if i == p.a && who == p.col { e.pays - e.fee } else { e.pays } }
/// the trader pays and gets what was computed, the fee in the accumulated asset reaches the collector and is locked there
fn trade(n: &mut See, p: &Pool, id: u64, who: u64, i: AssetId, o: AssetId, e: T) {
    let from_trader = if i == p.a { e.pays - e.fee } else { e.pays };
    n.mv(i, who, id, from_trader);
    n.mv(o, id, who, e.gets);
    n.mv(p.a, if i == p.a { who } else { id }, p.col, e.fee);
    let w = n.w(p.col);
    n.locks[w][p.a as usize - 1] += e.fee;
}

fn begin(name: &str, funds: u128, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        for w in WHO { for a in ASSETS { let _ = <Tokens as MultiCurrency<u64>>::deposit(a, &w, if w == 3 || w == 4 { 60 } else { funds }); } }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P04");
    const W: u32 = MAX_WEIGHT;
    let sale = |a: u64, b: u64| Up { start: Some(a), end: Some(b), ..Up::default() };
    let create = |a, x, b, y, w, fee, col, repay| Act::Create(true, 1, a, x, b, y, w, fee, col, repay);
    // life cycle: data, owners, collectors, sale periods
    let acts = |_: &()| {
        let mut v = vec![Act::Blocks(1), Act::Blocks(3)];
        for (x, y) in [(30, 40), (9, 40), (30, 9)] { v.push(Act::Create(true, 1, 1, x, 2, y, (W / 5, W / 2), (1, 10), 3, 0)); }
        v.push(Act::Create(false, 1, 1, 30, 2, 40, (W / 5, W / 2), (1, 10), 3, 0));
        v.push(Act::Create(true, 2, 2, 30, 1, 40, (W / 50, W - 1), (1, 10), 4, 12));
        v.push(Act::Create(true, 1, 1, 30, 3, 40, (W / 5, W / 2), (0, 1), 3, 5)); // the same collector for the same asset
        v.push(Act::Create(true, 1, 3, 30, 2, 40, (W / 5, W / 2), (2, 1), 3, 0)); // and for another one; fee above one
        for (w, f) in [((W / 50 - 1, W / 2), (1, 10)), ((W / 2, W), (1, 10)), ((W / 5, W / 2), (1, 0))] { v.push(Act::Create(true, 1, 1, 30, 3, 40, w, f, 4, 0)); }
        for id in [112, 113] {
            for u in [sale(3, 6), sale(4, 4), sale(1, 5), sale(5, 4 + MAX_SALE_DURATION as u64), sale(5, 5 + MAX_SALE_DURATION as u64), Up { start: Some(5), ..Up::default() }, Up { end: Some(9), ..Up::default() },
                Up { owner: Some(2), ..Up::default() }, Up { owner: Some(2), wi: Some(W / 3), ..Up::default() }, Up { col: Some(4), ..Up::default() }, Up { col: Some(3), ..Up::default() }, Up { wf: Some(W), ..Up::default() }, Up { fee: Some((1, 4)), repay: Some(9), ..Up::default() }] { v.push(Act::Update(1, id, u)); }
            v.push(Act::Update(2, id, sale(3, 6)));
            v.push(Act::Remove(1, id)); v.push(Act::Remove(2, id));
        }
        for w in [1, 2] { v.push(Act::Add(w, 1, 5, 2, 0)); v.push(Act::Add(w, 2, 3, 1, 7)); v.push(Act::Add(w, 1, 0, 2, 0)); v.push(Act::Add(w, 1, 100_000, 3, 1)); }
        for (i, o) in [(1, 2), (2, 1)] { v.push(Act::Sell(2, i, o, Part(3), Lim::Exact, false)); v.push(Act::Buy(2, i, o, Part(4), Lim::Exact, true)); }
        v.push(Act::Donate(2, 1, 112, 3)); v.push(Act::Donate(3, 1, 2, 25));
        v
    };
    let life = vec![
        begin("empty", 500, &[]),
        begin("two pools, one sale ahead", 500, &[create(1, 50, 2, 70, (W / 5, W / 2), (1, 10), 3, 0), Act::Create(true, 2, 3, 60, 1, 50, (W / 2, W / 5), (1, 3), 3, 3), Act::Update(1, 112, sale(2, 4))]),
    ];
    World { name: "life cycle", depth: ck.pick(4, 6), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, life);
    // trading during a sale
    let acts = |_: &()| {
        let mut v = vec![Act::Blocks(1), Act::Blocks(4), Act::Remove(1, 112), Act::Add(1, 1, 17, 2, 30), Act::Donate(3, 1, 2, 60), Act::Donate(3, 1, 2, 5)];
        for (i, o) in [(1, 2), (2, 1)] {
            for x in [N(0), N(1), N(12), Part(5), Part(3), PartPlus1(3)] { v.push(Act::Sell(2, i, o, x, Lim::Exact, false)); v.push(Act::Buy(2, i, o, x, Lim::Exact, false)); }
            for router in [false, true] { v.push(Act::Sell(2, i, o, Part(6), Lim::Tight, router)); v.push(Act::Buy(2, i, o, Part(6), Lim::Tight, router)); }
            v.push(Act::Sell(2, i, o, Part(4), Lim::Exact, true)); v.push(Act::Buy(2, i, o, Part(4), Lim::Exact, true));
            v.push(Act::Sell(3, i, o, N(30), Lim::Exact, false)); // the collector itself, part of whose balance is locked
        }
        v.push(Act::Sell(2, 1, 3, N(5), Lim::Exact, false)); v.push(Act::Buy(2, 3, 1, N(5), Lim::Exact, false));
        v
    };
    let run = |name: &str, funds, c: Act, len: u64| begin(name, funds, &[c, Act::Update(1, 112, sale(2, 2 + len)), Act::Blocks(1)]);
    let trading = vec![
        run("small, fee 1/10", 900, create(1, 200, 2, 300, (W / 5, W / 2), (1, 10), 3, 0), 4),
        run("small, assets swapped, repaying", 900, create(2, 250, 1, 150, (W / 50, W - 1), (1, 10), 3, 12), 5),
        run("small, no fee, repaying", 900, create(1, 100, 2, 900 / 2, (W - 1, W / 50), (0, 1), 1, 40), 3),
        run("fee above the amount", 900, create(1, 100, 2, 450, (W / 2, W / 3), (3, 2), 2, 0), 3),
        run("fee of everything", 900, create(1, 100, 2, 450, (W / 2, W / 3), (1, 1), 3, 0), 3),
        run("real magnitudes", 1 << 80, create(1, 1 << 62, 2, (1 << 60) + 12345, (W / 10, W / 2), (2, 1000), 3, 1 << 55), 5),
        run("amounts of 10^30", 1 << 105, create(1, 1 << 100, 2, (1 << 99) + 12345, (W / 10, W / 2), (2, 1000), 3, 1 << 97), 5),
    ];
    World { name: "trading", depth: ck.pick(4, 6), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, trading);
    ck.finish()
}
