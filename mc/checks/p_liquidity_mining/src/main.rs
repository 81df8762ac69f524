//! P12: liquidity mining, on the real pallet-liquidity-mining and the stand-in tokens.
use codec::{Decode, Encode};
use frame_support::{parameter_types, storage::unhashed, traits::{ConstU32, ConstU64, Contains}, PalletId};
use hydra_dx_math::liquidity_mining as m;
use hydradx_traits::{liquidity_mining::{Mutate, PriceAdjustment}, pools::DustRemovalAccountWhitelist, registry::{AssetKind, Inspect}};
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_liquidity_mining::{ActiveYieldFarm, Deposit, GlobalFarm, GlobalFarmData, LoyaltyCurve, YieldFarm};
use sp_arithmetic::{FixedPointNumber, FixedU128, Perquintill};
use sp_runtime::{traits::BlockNumberProvider, DispatchError};
use std::collections::BTreeMap;
use world::{call, dry, must, start, AssetId, Balance, Start, World, Wrong};

type Acc = u128;
frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Lm: pallet_liquidity_mining });
world::system!(Rt, (), u128);
/// 1: incentivized, 2: reward currency, 3: another asset
const ED: [u128; 4] = [0, 1, 10, 1];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED.get(*a as usize).copied().unwrap_or(u128::MAX) }; }
pub struct Keep;
fn wl(a: &Acc) -> Vec<u8> { (b":wl", a).encode() }
impl Contains<Acc> for Keep { fn contains(a: &Acc) -> bool { unhashed::exists(&wl(a)) } }
impl DustRemovalAccountWhitelist<Acc> for Keep {
    type Error = DispatchError;
    fn add_account(a: &Acc) -> Result<(), DispatchError> { unhashed::put(&wl(a), &()); Ok(()) }
    fn remove_account(a: &Acc) -> Result<(), DispatchError> { unhashed::kill(&wl(a)); Ok(()) }
}
world::tokens!(Rt, Eds, Keep, ());
pub struct Reg;
impl Inspect for Reg {
    type AssetId = AssetId;
    type Location = u8;
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(a: AssetId) -> bool { (1..4).contains(&a) }
    fn decimals(_: AssetId) -> Option<u8> { None }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(a: AssetId) -> Option<u128> { ED.get(a as usize).copied() }
}
impl GetByKey<AssetId, Balance> for Reg { fn get(a: &AssetId) -> Balance { ED[*a as usize] } }
pub struct Feed;
impl PriceAdjustment<GlobalFarmData<Rt>> for Feed {
    type Error = DispatchError;
    type PriceAdjustment = FixedU128;
    fn get(_: &GlobalFarmData<Rt>) -> Result<FixedU128, DispatchError> { oracle().map(FixedU128::from_inner).ok_or("no price".into()) }
}
fn oracle() -> Option<u128> { unhashed::get(b":price") }
pub struct Clock;
impl BlockNumberProvider for Clock { type BlockNumber = u64; fn current_block_number() -> u64 { unhashed::get(b":block").unwrap_or(0) } }
parameter_types! { pub const Pid: PalletId = PalletId(*b"LiqMinId"); pub const Treasury: Acc = 8; pub const MinTotal: u128 = 1_000; }
impl pallet_liquidity_mining::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type MultiCurrency = Tokens;
    type PalletId = Pid;
    type TreasuryAccountId = Treasury;
    type MinTotalFarmRewards = MinTotal;
    type MinPlannedYieldingPeriods = ConstU64<5>;
    type BlockNumberProvider = Clock;
    type AmmPoolId = u32;
    type MaxFarmEntriesPerDeposit = ConstU32<2>;
    type MaxYieldFarmsPerGlobalFarm = ConstU32<2>;
    type AssetRegistry = Reg;
    type NonDustableWhitelistHandler = Keep;
    type PriceAdjustment = Feed;
}
/// the records of the pallet, as they are stored
#[derive(Decode, Clone, PartialEq, Debug)]
struct G { id: u32, owner: Acc, at: u64, z: u128, rpz: u128, cur: u32, pending: u128, paid: u128, ypp: u64, planned: u64, bpp: u64, inc: u32, max: u128, min: u128, live: u32, total: u32, price: u128, state: u8 }
#[derive(Decode, Clone, PartialEq, Debug)]
struct Y { id: u32, at: u64, shares: u128, valued: u128, rpvs: u128, rpz: u128, curve: Option<(u128, u32)>, mult: u128, state: u8, entries: u64, left: u128, stopped: u64 }
#[derive(Decode, Clone, PartialEq, Debug)]
struct En { g: u32, y: u32, valued: u128, rpvs: u128, claimed: u128, entered: u64, at: u64, stopped: u64 }
#[derive(Decode, Clone, PartialEq, Debug)]
struct D { shares: u128, pool: u32, entries: Vec<En> }
type Bals = BTreeMap<Acc, u128>;
#[derive(Clone, PartialEq, Debug)]
struct See { g: BTreeMap<u32, G>, y: BTreeMap<(u32, u32, u32), Y>, active: BTreeMap<(u32, u32), u32>, d: BTreeMap<u128, D>, bal: Bals, farms: u32, deposits: u128 }
const WHO: [Acc; 6] = [1, 2, 3, 8, 9, 7];
fn pot() -> Acc { Lm::pot_account_id().unwrap() }
fn farm(g: u32) -> Acc { Lm::farm_account_id(g).ok().unwrap() }
fn re<A: Encode, B: Decode>(a: A) -> B { B::decode(&mut &a.encode()[..]).expect("record") }
fn see() -> See {
    let farms = Lm::last_farm_id();
    let mut s = See {
        g: GlobalFarm::<Rt>::iter().map(|(k, v)| (k, re(v))).collect(),
        y: YieldFarm::<Rt>::iter().map(|(k, v)| (k, re(v))).collect(),
        active: ActiveYieldFarm::<Rt>::iter().map(|(a, b, v)| ((a, b), v)).collect(),
        d: Deposit::<Rt>::iter().map(|(k, v)| (k, re(v))).collect(),
        bal: WHO.iter().copied().chain([pot()]).chain((1..=farms).map(farm)).map(|a| (a, Tokens::free_balance(2, &a))).collect(),
        farms, deposits: Lm::deposit_id(),
    };
    s.norm();
    s
}
impl See {
    /// the counter of a farm nobody is in, or which does not run, means nothing: it is set when the farm gets its first shares or runs again
    fn norm(&mut self) {
        for y in self.y.values_mut() { if y.valued == 0 || y.state != 0 { y.rpz = 0 } }
        self.bal.retain(|_, b| *b != 0);
        for d in self.d.values_mut() { d.entries.sort_by_key(|e| e.y) }
    }
    fn mv(&mut self, from: Acc, to: Acc, x: u128) -> Option<()> {
        if x == 0 || from == to { return Some(()) }
        let f = self.bal.entry(from).or_default();
        *f = f.checked_sub(x)?;
        let t = self.bal.entry(to).or_default();
        *t += x;
        (*t >= ED[2] || to > 100).then_some(())
    }
}
fn fx(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
const ONE: u128 = 1_000_000_000_000_000_000;
const MIN_MULT: u128 = ONE / 1000;
/// weight of a yield farm in its global farm
fn stake(y: &Y) -> Option<u128> { if y.state == 0 { m::calculate_global_farm_shares(y.valued, fx(y.mult)).ok() } else { Some(0) } }
/// rewards of the passed periods go from the farm's account to the pot, at most what is there above the existential deposit
fn sync_g(s: &mut See, g: &mut G, now: u64) -> Option<()> {
    if g.state != 0 || g.at == now { return Some(()) }
    if g.z != 0 {
        if let Some(p) = oracle() { g.price = p }
        let left = s.bal.get(&farm(g.id)).copied().unwrap_or(0).saturating_sub(ED[2]);
        let r = m::calculate_global_farm_rewards(g.z, fx(g.price), Perquintill::from_parts(g.ypp).into(), g.max, (now - g.at) as u128).ok()?.min(left);
        if r != 0 {
            s.mv(farm(g.id), pot(), r)?;
            g.rpz = m::calculate_accumulated_rps(fx(g.rpz), g.z, r).ok()?.into_inner();
            g.pending += r;
        }
    }
    g.at = now;
    Some(())
}
fn sync_y(y: &mut Y, g: &mut G, now: u64) -> Option<()> {
    if y.state != 0 { return Some(()) }
    if y.valued == 0 { y.rpz = g.rpz; y.at = now; return Some(()) }
    if y.at == now { return Some(()) }
    let (d, r) = m::calculate_yield_farm_rewards(fx(y.rpz), fx(g.rpz), fx(y.mult), y.valued).ok()?;
    y.rpz = g.rpz;
    g.paid += r;
    g.pending = g.pending.checked_sub(r)?;
    y.rpvs += d.into_inner();
    y.at = now;
    y.left += r;
    Some(())
}
#[derive(Clone, Debug)]
enum Act {
    /// owner, rewards, planned periods, blocks per period, yield per period in 1e-18, minimum deposit, price
    CreateG(Acc, u128, u64, u64, u64, u128, u128),
    Price(Acc, u32, u128),
    TermG(Acc, u32),
    /// owner, global farm, multiplier, loyalty curve, pool, are its assets right
    CreateY(Acc, u32, u128, Option<(u128, u32)>, u32, bool),
    Mult(Acc, u32, u32, u128),
    Stop(Acc, u32, u32),
    Resume(Acc, u32, u32, u32, u128),
    TermY(Acc, u32, u32, u32),
    /// global farm, yield farm, pool, shares, their value
    Dep(u32, u32, u32, u128, u128),
    Redep(u32, u32, u128, u128),
    Claim(Acc, u128, u32),
    Withdraw(Acc, u128, u32),
    Blocks(u64),
    Oracle(Option<u128>),
}
use Act::*;
fn mods<T>(s: &mut See, k: (u32, u32, u32), f: impl FnOnce(&mut See, &mut G, &mut Y) -> Option<T>) -> Option<T> {
    let (mut g, mut y) = (s.g.get(&k.1)?.clone(), s.y.get(&k)?.clone());
    let r = f(s, &mut g, &mut y)?;
    s.g.insert(k.1, g); s.y.insert(k, y);
    Some(r)
}
fn now_of(g: &G) -> u64 { Clock::current_block_number() / g.bpp }
/// the weight of a yield farm changes as `f` changes the farm
fn restake(g: &mut G, y: &mut Y, f: impl FnOnce(&mut Y)) -> Option<()> { let a = stake(y)?; f(y); g.z = (g.z - a).checked_add(stake(y)?)?; Some(()) }
fn claim(s: &mut See, who: Acc, d: u128, yid: u32, strict: bool) -> Option<(u32, u128, u128)> {
    let dep = s.d.get(&d)?.clone();
    let i = dep.entries.iter().position(|e| e.y == yid)?;
    let mut e = dep.entries[i].clone();
    let r = mods(s, (dep.pool, e.g, yid), |s, g, y| {
        let now = now_of(g);
        if y.state == 2 || strict && e.at == now { return None }
        sync_g(s, g, now)?;
        sync_y(y, g, now)?;
        let periods = y.at - e.entered - (y.stopped - e.stopped);
        let lm = match y.curve { None => FixedU128::from(1), Some((p, c)) => m::calculate_loyalty_multiplier(periods, fx(p), c).ok()? };
        let (r, un) = m::calculate_user_reward(fx(e.rpvs), e.valued, e.claimed, fx(y.rpvs), lm).ok()?;
        let dust = r < ED[2] && s.bal.get(&who).copied().unwrap_or(0) < ED[2];
        if r != 0 {
            y.left = y.left.checked_sub(r)?;
            e.claimed += r;
            e.at = now;
            s.mv(pot(), if dust { 8 } else { who }, r)?;
        }
        Some((e.g, if dust { 0 } else { r }, un))
    })?;
    s.d.get_mut(&d)?.entries[i] = e;
    Some(r)
}
fn withdraw(s: &mut See, who: Acc, d: u128, yid: u32) -> Option<(u128, Option<(u128, u128)>, bool)> {
    let dep = s.d.get(&d)?.clone();
    let e = dep.entries.iter().find(|e| e.y == yid)?.clone();
    let k = (dep.pool, e.g, yid);
    let c = if s.y.get(&k)?.state != 2 { let (_, r, un) = claim(s, who, d, yid, false)?; Some((r, un)) } else { None };
    mods(s, k, |s, g, y| {
        restake(g, y, |y| y.valued -= e.valued)?;
        y.shares -= dep.shares;
        if let Some((_, un)) = c { y.left = y.left.checked_sub(un)?; g.paid -= un; s.mv(pot(), farm(g.id), un)?; }
        y.entries -= 1;
        Some(())
    })?;
    if s.y[&k].state == 2 && s.y[&k].entries == 0 { s.y.remove(&k); s.g.get_mut(&e.g)?.total -= 1; }
    if s.g[&e.g].state == 2 && s.g[&e.g].total == 0 { s.g.remove(&e.g); }
    let l = s.d.get_mut(&d)?;
    l.entries.retain(|e| e.y != yid);
    let gone = l.entries.is_empty();
    if gone { s.d.remove(&d); }
    Some((dep.shares, c, gone))
}
fn deposit(s: &mut See, d: &mut D, g: u32, y: u32, value: u128) -> Option<()> {
    if d.entries.iter().any(|e| e.y == y) { return None }
    mods(s, (d.pool, g, y), |s, gf, yf| {
        if yf.state != 0 || d.shares < gf.min || value < gf.min || d.entries.len() == 2 { return None }
        let now = now_of(gf);
        sync_g(s, gf, now)?;
        sync_y(yf, gf, now)?;
        restake(gf, yf, |y| y.valued += value)?;
        yf.shares += d.shares;
        yf.entries += 1;
        d.entries.push(En { g, y, valued: value, rpvs: yf.rpvs, claimed: 0, entered: now, at: now, stopped: yf.stopped });
        Some(())
    })
}
/// what the call does to `s`, if it is accepted
fn expect(a: &Act, s: &mut See) -> Option<String> {
    match *a {
        CreateG(who, total, planned, bpp, ypp, min, price) => {
            if min < 1_000 || price == 0 || total < 1_000 || planned < 5 || bpp == 0 || ypp == 0 { return None }
            s.farms += 1;
            let id = s.farms;
            s.g.insert(id, G { id, owner: who, at: Clock::current_block_number() / bpp, z: 0, rpz: 0, cur: 2, pending: 0, paid: 0, ypp, planned, bpp, inc: 1, max: total / planned as u128, min, live: 0, total: 0, price, state: 0 });
            s.mv(who, farm(id), total)?;
            Some(format!("{:?}", (id, total / planned as u128)))
        }
        Price(who, g, p) => {
            let mut f = s.g.get(&g)?.clone();
            if p == 0 || f.state != 0 || f.owner != who { return None }
            let now = now_of(&f);
            sync_g(s, &mut f, now)?;
            f.price = p;
            s.g.insert(g, f);
            Some("()".into())
        }
        TermG(who, g) => {
            let f = s.g.get_mut(&g)?;
            if f.owner != who || f.state != 0 || f.live != 0 { return None }
            f.state = 2;
            let gone = f.total == 0;
            let x = s.bal.get(&farm(g)).copied().unwrap_or(0);
            s.mv(farm(g), who, x)?;
            if gone { s.g.remove(&g); }
            Some(format!("{:?}", (2, x, who)))
        }
        CreateY(who, g, mult, curve, pool, fits) => {
            let mut f = s.g.get(&g)?.clone();
            if mult < MIN_MULT || curve.map_or(false, |c| c.0 >= ONE) || f.state != 0 || f.owner != who || f.total >= 2 || !fits || s.active.contains_key(&(pool, g)) { return None }
            let now = now_of(&f);
            sync_g(s, &mut f, now)?;
            f.live += 1; f.total += 1;
            s.farms += 1;
            let id = s.farms;
            s.g.insert(g, f);
            s.y.insert((pool, g, id), Y { id, at: now, shares: 0, valued: 0, rpvs: 0, rpz: 0, curve, mult, state: 0, entries: 0, left: 0, stopped: 0 });
            s.active.insert((pool, g), id);
            Some(format!("{id:?}"))
        }
        Mult(who, g, pool, mult) => {
            let id = *s.active.get(&(pool, g))?;
            if mult < MIN_MULT { return None }
            mods(s, (pool, g, id), |s, g, y| {
                if g.owner != who { return None }
                let now = now_of(g);
                sync_g(s, g, now)?; sync_y(y, g, now)?;
                restake(g, y, |y| y.mult = mult)
            })?;
            Some(format!("{id:?}"))
        }
        Stop(who, g, pool) => {
            let id = *s.active.get(&(pool, g))?;
            mods(s, (pool, g, id), |s, g, y| {
                if g.owner != who { return None }
                let now = now_of(g);
                sync_g(s, g, now)?; sync_y(y, g, now)?;
                restake(g, y, |y| { y.state = 1; y.mult = 0 })
            })?;
            s.active.remove(&(pool, g));
            Some(format!("{id:?}"))
        }
        Resume(who, g, y, pool, mult) => {
            if mult < MIN_MULT || s.active.contains_key(&(pool, g)) { return None }
            mods(s, (pool, g, y), |s, g, y| {
                if g.owner != who || y.state != 1 { return None }
                let now = now_of(g);
                sync_g(s, g, now)?;
                y.rpz = g.rpz;
                y.stopped += now - y.at;
                y.at = now;
                restake(g, y, |y| { y.state = 0; y.mult = mult })
            })?;
            s.active.insert((pool, g), y);
            Some("()".into())
        }
        TermY(who, g, y, pool) => {
            let gone = mods(s, (pool, g, y), |s, g, y| {
                if g.owner != who || y.state != 1 { return None }
                g.paid -= y.left;
                s.mv(pot(), farm(g.id), y.left)?;
                y.left = 0;
                y.state = 2;
                g.live -= 1;
                Some(y.entries == 0)
            })?;
            if gone { s.y.remove(&(pool, g, y)); s.g.get_mut(&g)?.total -= 1; }
            Some("()".into())
        }
        Dep(g, y, pool, shares, value) => {
            let mut d = D { shares, pool, entries: vec![] };
            deposit(s, &mut d, g, y, value)?;
            s.deposits += 1;
            s.d.insert(s.deposits, d);
            Some(format!("{:?}", s.deposits))
        }
        Redep(g, y, d, value) => {
            let mut dep = s.d.get(&d)?.clone();
            deposit(s, &mut dep, g, y, value)?;
            let r = format!("{:?}", (dep.shares, dep.pool));
            s.d.insert(d, dep);
            Some(r)
        }
        Claim(who, d, y) => claim(s, who, d, y, true).map(|(g, r, un)| format!("{:?}", (g, 2, r, un))),
        Withdraw(who, d, y) => withdraw(s, who, d, y).map(|(x, c, gone)| format!("{:?}", (x, c.map(|(r, un)| (2, r, un)), gone))),
        Blocks(_) | Oracle(_) => unreachable!(),
    }
}
fn real(a: &Act) -> Result<String, DispatchError> {
    fn s<T: std::fmt::Debug>(r: Result<T, DispatchError>) -> Result<String, DispatchError> { r.map(|x| format!("{x:?}")) }
    match a.clone() {
        CreateG(who, total, planned, bpp, ypp, min, price) => s(call(|| <Lm as Mutate<_, _, _>>::create_global_farm(total, planned, bpp, 1, 2, who, Perquintill::from_parts(ypp), min, fx(price)))),
        Price(who, g, p) => s(call(|| <Lm as Mutate<_, _, _>>::update_global_farm_price_adjustment(who, g, fx(p)))),
        TermG(who, g) => s(call(|| <Lm as Mutate<_, _, _>>::terminate_global_farm(who, g))),
        CreateY(who, g, mult, c, pool, fits) => s(call(|| <Lm as Mutate<_, _, _>>::create_yield_farm(who, g, fx(mult), c.map(|(p, c)| LoyaltyCurve { initial_reward_percentage: fx(p), scale_coef: c }), pool, if fits { vec![3, 1] } else { vec![3, 2] }))),
        Mult(who, g, pool, mult) => s(call(|| <Lm as Mutate<_, _, _>>::update_yield_farm_multiplier(who, g, pool, fx(mult)))),
        Stop(who, g, pool) => s(call(|| <Lm as Mutate<_, _, _>>::stop_yield_farm(who, g, pool))),
        Resume(who, g, y, pool, mult) => s(call(|| <Lm as Mutate<_, _, _>>::resume_yield_farm(who, g, y, pool, fx(mult)))),
        TermY(who, g, y, pool) => s(call(|| <Lm as Mutate<_, _, _>>::terminate_yield_farm(who, g, y, pool))),
        Dep(g, y, pool, shares, v) => s(call(|| <Lm as Mutate<_, _, _>>::deposit_lp_shares(g, y, pool, shares, |a, p, x| if (a, p, x) == (1, pool, shares) { Ok(v) } else { Err("asked for another value".into()) }))),
        Redep(g, y, d, v) => s(call(|| <Lm as Mutate<_, _, _>>::redeposit_lp_shares(g, y, d, |_, _, _| Ok(v)))),
        Claim(who, d, y) => s(call(|| <Lm as Mutate<_, _, _>>::claim_rewards(who, d, y))),
        Withdraw(who, d, y) => {
            let g = <Lm as Mutate<_, _, _>>::get_global_farm_id(d, y).unwrap_or(99);
            let pool = Lm::deposit(d).map_or(0, |d| re::<_, D>(d).pool);
            s(call(|| <Lm as Mutate<_, _, _>>::withdraw_lp_shares(who, d, g, y, pool)))
        }
        Blocks(_) | Oracle(_) => unreachable!(),
    }
}
fn step(a: &Act) -> Result<bool, Wrong> {
    match a {
        Blocks(n) => { let now = Clock::current_block_number(); unhashed::put(b":block", &(now + n)); return Ok(true) }
        Oracle(p) => { match p { Some(p) => unhashed::put(b":price", p), None => unhashed::kill(b":price") } return Ok(true) }
        // the callers of this pallet see to it that the deposit is there
        Redep(_, _, d, _) | Claim(_, d, _) | Withdraw(_, d, _) if Lm::deposit(*d).is_none() => return Ok(false),
        Withdraw(_, d, y) if !re::<_, D>(Lm::deposit(*d).unwrap()).entries.iter().any(|e| e.y == *y) => return Ok(false),
        _ => {}
    }
    if let Withdraw(who, d, y) = a {
        // shares leave only as shares of the pool they came from
        let (pool, g) = (re::<_, D>(Lm::deposit(*d).unwrap()).pool, <Lm as Mutate<_, _, _>>::get_global_farm_id(*d, *y).unwrap());
        for other in [1, 2, 3, 77] { if other != pool {
            let r = dry(|| call(|| <Lm as Mutate<_, _, _>>::withdraw_lp_shares(*who, *d, g, *y, other)));
            must!(r.is_err(), "pool", "deposit {d} of pool {pool} is withdrawn as one of pool {other}: {r:?}");
        } }
    }
    let s0 = see();
    let mut n = s0.clone();
    let want = expect(a, &mut n);
    n.norm();
    let got = real(a);
    must!(got.is_ok() == want.is_some(), "accept", "gives {got:?} at {} in {s0:?}, expected {want:?}", Clock::current_block_number());
    let s1 = see();
    if let Some(w) = &want {
        let g = got.unwrap();
        must!(g == *w, "returns", "returns {g}, expected {w}, in {s0:?}");
        must!(s1 == n, "effect", "from {s0:?}\nexpected {n:?}\nfound {s1:?}");
    } else { must!(s1 == s0, "refused", "a refused call changed {s0:?} to {s1:?}"); }
    ok(&s1)?;
    Ok(want.is_some())
}
fn ok(s: &See) -> Result<(), Wrong> {
    let owed: u128 = s.g.values().map(|g| g.pending).sum::<u128>() + s.y.values().map(|y| y.left).sum::<u128>();
    let pot = s.bal.get(&pot()).copied().unwrap_or(0);
    must!(pot >= owed, "pot", "the pot holds {pot}, farms count on {owed} in {s:?}");
    must!(s.bal.values().sum::<u128>() == Tokens::total_issuance(2), "sum", "rewards are lost in {s:?}");
    for (k, g) in &s.g {
        let ys: Vec<_> = s.y.iter().filter(|y| y.0 .1 == *k).collect();
        must!(g.total as usize == ys.len() && g.live as usize == ys.iter().filter(|y| y.1.state != 2).count(), "farms", "counts of farm {k} in {s:?}");
        let z: u128 = ys.iter().map(|y| stake(y.1).unwrap()).sum();
        must!(g.z == z, "stake", "farm {k} counts {} shares, its yield farms have {z}, in {s:?}", g.z);
        // what the yield farms have a claim to by the counters is pending
        let due: u128 = ys.iter().filter(|y| y.1.state == 0 && y.1.valued != 0).map(|y| fx(g.rpz - y.1.rpz).checked_mul_int(stake(y.1).unwrap()).unwrap()).sum();
        must!(due <= g.pending, "pending", "farm {k} owes {due} to its yield farms, pending {}, in {s:?}", g.pending);
    }
    for (k, y) in &s.y {
        let es: Vec<_> = s.d.values().filter(|d| d.pool == k.0).flat_map(|d| d.entries.iter().filter(|e| (e.g, e.y) == (k.1, k.2)).map(move |e| (d.shares, e))).collect();
        must!(y.entries as usize == es.len() && y.shares == es.iter().map(|e| e.0).sum::<u128>() && y.valued == es.iter().map(|e| e.1.valued).sum::<u128>(), "entries", "farm {k:?} does not add up in {s:?}");
        must!((y.state == 0) == (s.active.get(&(k.0, k.1)) == Some(&k.2)), "active", "farm {k:?} in {s:?}");
        if y.state != 2 {
            let due: u128 = es.iter().map(|(_, e)| fx(y.rpvs - e.rpvs).checked_mul_int(e.valued).unwrap() - e.claimed).sum();
            must!(due <= y.left, "left", "farm {k:?} owes {due}, has {}, in {s:?}", y.left);
        }
    }
    // everybody can always leave, and all can
    let all: Vec<(u128, u32)> = s.d.iter().flat_map(|(d, v)| v.entries.iter().map(move |e| (*d, e.y))).collect();
    for rev in [false, true] {
        let mut l = all.clone();
        if rev { l.reverse() }
        if let Some((i, e)) = dry(|| l.iter().find_map(|(d, y)| real(&Withdraw(7, *d, *y)).err().map(|e| ((*d, *y), e)))) { return world::wrong("leave", format!("entry {i:?} cannot be withdrawn: {e:?} in {s:?}")) }
    }
    Ok(())
}
fn begin(name: &str, acts: &[Act]) -> Start<()> {
    start(name, || {
        frame_system::Pallet::<Rt>::set_block_number(1);
        unhashed::put(b":block", &100u64);
        Keep::add_account(&pot()).unwrap();
        for (a, x) in [(9, 1 << 70), (1, 500), (8, 10), (3, 5_000)] { <Tokens as MultiCurrency<Acc>>::deposit(2, &a, x).unwrap(); }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P12");
    let half = ONE / 2;
    let go = CreateG(9, 20_000, 20, 10, (ONE / 10) as u64, 1_000, ONE);
    // setting up farms
    let owner = |_: &()| {
        let mut v = vec![Blocks(10), Blocks(3), Oracle(Some(2 * ONE)), Oracle(None)];
        v.extend([go.clone(), CreateG(1, 1_000, 5, 1, 1, 1_000, 1), CreateG(1, 501, 5, 1, 1, 1_000, 1), CreateG(3, 999, 5, 1, 1, 1_000, ONE), CreateG(3, 1_000, 4, 1, 1, 1_000, ONE), CreateG(3, 1_000, 5, 0, 1, 1_000, ONE), CreateG(3, 1_000, 5, 1, 0, 1_000, ONE), CreateG(3, 1_000, 5, 1, 1, 999, ONE), CreateG(3, 5_000, 7, 1, 1, 1_000, 0), CreateG(3, 5_000, 7, 1, 1_000_000_000_000_000, 1_001, 3 * half)]);
        for g in 1..3 { v.extend([Price(9, g, 3 * ONE), TermG(9, g)]); for pool in 1..3 { v.extend([CreateY(9, g, half, None, pool, true), Mult(9, g, pool, 2 * ONE), Stop(9, g, pool)]) } }
        v.extend([CreateY(9, 1, 2 * ONE, Some((half, 3)), 3, true), CreateY(9, 1, MIN_MULT - 1, None, 1, true), CreateY(9, 1, MIN_MULT, Some((ONE, 1)), 1, true), CreateY(9, 1, MIN_MULT, Some((ONE - 1, 1)), 1, false), CreateY(1, 1, ONE, None, 1, true), Price(1, 1, ONE), Price(9, 1, 0), TermG(3, 1), Mult(1, 1, 1, ONE), Mult(9, 1, 1, MIN_MULT - 1), Stop(1, 1, 1)]);
        for y in 2..4 { for pool in 1..3 { v.extend([Resume(9, 1, y, pool, 3 * half), TermY(9, 1, y, pool)]) } }
        v.extend([Resume(1, 1, 2, 1, ONE), Resume(9, 1, 2, 1, MIN_MULT - 1), TermY(1, 1, 2, 1), Dep(1, 2, 1, 1_001, 1_001), Dep(1, 3, 2, 2_000, 1_003), Withdraw(1, 1, 2), Withdraw(1, 1, 3)]);
        v
    };
    let base = [go.clone(), CreateY(9, 1, half, None, 1, true)];
    let mut two = base.to_vec();
    two.extend([CreateY(9, 1, 2 * ONE, Some((half, 3)), 2, true), Dep(1, 2, 1, 1_001, 1_003), Dep(1, 2, 1, 1_001, 1_001)]);
    let starts = || vec![begin("nothing", &[]), begin("one yield farm", &base), begin("two yield farms, two deposits", &two)];
    World { name: "owner", depth: ck.pick(4, 6), events: false, actions: &owner, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts());
    // people coming and going
    let users = |_: &()| {
        let mut v = vec![Blocks(4), Blocks(10), Blocks(40), Oracle(Some(half)), Stop(9, 1, 1), Resume(9, 1, 2, 1, ONE), TermY(9, 1, 2, 1), Mult(9, 1, 1, 3 * half), Stop(9, 1, 2), TermY(9, 1, 3, 2), TermG(9, 1), CreateY(9, 1, 2 * ONE, None, 2, true)];
        v.extend([Dep(1, 2, 1, 1_000, 1_001), Dep(1, 2, 1, 1_000, 999), Dep(1, 2, 1, 999, 1_000), Dep(1, 3, 2, 5_000, 7_001), Dep(1, 3, 1, 5_000, 7_001), Dep(4, 5, 1, 1_500, 1_700)]);
        for d in 1..4 { v.extend([Redep(4, 5, d, 1_111), Claim(1, d, 2), Claim(2, d, 2), Claim(2, d, 3), Claim(2, d, 5), Withdraw(1, d, 2), Withdraw(2, d, 3), Withdraw(2, d, 5)]) }
        v.push(Redep(1, 2, 1, 1_500));
        v
    };
    let mut more = two.clone();
    more.extend([CreateG(3, 5_000, 5, 1, (ONE / 3) as u64, 1_000, ONE), CreateY(3, 4, ONE, Some((0, 20)), 1, true), Blocks(20), Redep(4, 5, 1, 1_201), Dep(1, 3, 2, 3_000, 1_600), Blocks(15)]);
    let mut rich = base.to_vec();
    rich.extend([Dep(1, 2, 1, 1 << 60, 1 << 61), Blocks(190), Claim(1, 1, 2)]);
    let mut late = base.to_vec();
    late.extend([Dep(1, 2, 1, 9_000, 9_001), Blocks(30), Claim(1, 1, 2), Blocks(10)]);
    let st = vec![begin("two yield farms, two deposits", &two), begin("two global farms, three deposits", &more), begin("nearly used up", &rich), begin("later", &late)];
    World { name: "users", depth: ck.pick(5, 7), events: false, actions: &users, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, st);
    ck.finish()
}
