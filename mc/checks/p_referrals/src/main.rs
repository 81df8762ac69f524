//! P11: referrals, on the real pallet-referrals and the stand-in tokens. Conversions go to a market with fixed rates.
use frame_support::{parameter_types, storage::unhashed, traits::{ConstU128, ConstU32, Hooks, Nothing}, weights::Weight, PalletId};
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::price::PriceProvider;
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_referrals::{Error, FeeDistribution, Level};
use sp_core::{bounded::BoundedVec, U256};
use sp_runtime::{traits::AccountIdConversion, DispatchError, Permill};
use std::collections::{BTreeMap, BTreeSet};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Referrals: pallet_referrals });
world::system!(Rt, (), u64, Db);
const READ: u64 = 400;
pub struct Db;
impl frame_support::traits::Get<frame_support::weights::RuntimeDbWeight> for Db { fn get() -> frame_support::weights::RuntimeDbWeight { frame_support::weights::RuntimeDbWeight { read: READ, write: 7 } } }
const ED: [u128; 5] = [2, 1, 3, 1, 1];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED[*a as usize] }; }
world::tokens!(Rt, Eds, Nothing, ());
const MARKET: u64 = 99;
const TREASURY: u64 = 50;
const PAYER: u64 = 9;
const STAKERS: u64 = 40;
const ASSETS: [AssetId; 5] = [0, 1, 2, 3, 4];
const ACCOUNTS: [u64; 4] = [1, 2, 3, STAKERS];
/// what one unit brings on the market (asset 2: dear, asset 3: cheap)
const RATE: [(u128, u128); 5] = [(1, 1), (1, 1), (7, 2), (1, 10), (1, 1)];
/// reward units per asset unit, by the oracle; asset 4 has no price
const PRICE: [(u128, u128); 5] = [(1, 1), (3, 2), (10, 3), (1, 9), (0, 0)];
/// smallest amount the market takes
const LEAST: [u128; 5] = [0, 20, 0, 0, 0];
fn broken(a: AssetId) -> bool { unhashed::get::<bool>(&[b'b', a as u8]).unwrap_or(false) }
fn external() -> bool { unhashed::get::<bool>(b":ext").unwrap_or(false) }
fn seed() -> u128 { unhashed::get::<u128>(b":seed").unwrap_or(0) }
fn brings(a: AssetId, x: u128) -> u128 { x * RATE[a as usize].0 / RATE[a as usize].1 }
pub struct Trades;
impl pallet_referrals::traits::Convert<u64, AssetId, Balance> for Trades {
    type Error = DispatchError;
    fn convert(who: u64, from: AssetId, to: AssetId, x: u128) -> Result<u128, DispatchError> {
        if broken(from) { return Err(DispatchError::Other("closed")) }
        if x < LEAST[from as usize] { return Err(Error::<Rt>::ConversionMinTradingAmountNotReached.into()) }
        let y = brings(from, x);
        if y == 0 { return Err(Error::<Rt>::ConversionZeroAmountReceived.into()) }
        <Tokens as MultiCurrency<u64>>::transfer(from, &who, &MARKET, x)?;
        <Tokens as MultiCurrency<u64>>::transfer(to, &MARKET, &who, y)?;
        Ok(y)
    }
}
pub struct Oracle;
impl PriceProvider<AssetId> for Oracle {
    type Price = EmaPrice;
    fn get_price(a: AssetId, b: AssetId) -> Option<EmaPrice> { assert_eq!(a, 0); if b == 4 { None } else { let p = PRICE[b as usize]; Some(EmaPrice::new(p.0, p.1)) } }
}
const LEVELS: [Level; 6] = [Level::None, Level::Tier0, Level::Tier1, Level::Tier2, Level::Tier3, Level::Tier4];
fn pct(r: u32, t: u32, e: u32) -> FeeDistribution { FeeDistribution { referrer: Permill::from_parts(r), trader: Permill::from_parts(t), external: Permill::from_parts(e) } }
fn level_data(l: Level) -> (u128, FeeDistribution) {
    match l {
        Level::None => (0, pct(0, 0, 500_000)), Level::Tier0 => (0, pct(50_000, 100_000, 400_000)), Level::Tier1 => (10, pct(100_000, 110_000, 333_333)),
        Level::Tier2 => (25, pct(150_001, 120_000, 200_000)), Level::Tier3 => (30, pct(200_000, 150_000, 100_000)), Level::Tier4 => (300, pct(250_000, 150_000, 0)),
    }
}
pub struct Levels;
impl GetByKey<Level, (Balance, FeeDistribution)> for Levels { fn get(l: &Level) -> (Balance, FeeDistribution) { level_data(*l) } }
pub struct W;
impl pallet_referrals::WeightInfo for W {
    fn register_code() -> Weight { Weight::zero() }
    fn link_code() -> Weight { Weight::zero() }
    fn convert() -> Weight { Weight::from_parts(1_000, 0) }
    fn claim_rewards() -> Weight { Weight::zero() }
    fn set_reward_percentage() -> Weight { Weight::zero() }
}
parameter_types! {
    pub const Pid: PalletId = PalletId(*b"test_ref");
    pub const Fee: (AssetId, Balance, u64) = (0, 222, TREASURY);
    pub Ext: Option<u64> = if external() { Some(STAKERS) } else { None };
    pub Seed: u128 = seed();
}
impl pallet_referrals::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type AuthorityOrigin = frame_system::EnsureRoot<u64>;
    type AssetId = AssetId;
    type Currency = Tokens;
    type Convert = Trades;
    type PriceProvider = Oracle;
    type RewardAsset = ConstU32<0>;
    type PalletId = Pid;
    type RegistrationFee = Fee;
    type CodeLength = ConstU32<6>;
    type MinCodeLength = ConstU32<3>;
    type LevelVolumeAndRewardPercentages = Levels;
    type ExternalAccount = Ext;
    type SeedNativeAmount = Seed;
    type WeightInfo = W;
}
fn pot() -> u64 { Pid::get().into_account_truncating() }
const CODES: [&[u8]; 8] = [b"ABC", b"abc", b"aBcD1", b"AB", b"A-CD", b"abcde9", b"", b"ABCD1"];
type Code = BoundedVec<u8, ConstU32<6>>;
fn code(i: usize) -> Code { CODES[i].to_vec().try_into().unwrap() }
fn upper(i: usize) -> Vec<u8> { CODES[i].to_ascii_uppercase() }
#[derive(Clone, PartialEq, Debug)]
struct See {
    bal: BTreeMap<(AssetId, u64), u128>, codes: BTreeMap<Vec<u8>, u64>, own: BTreeMap<u64, Vec<u8>>, link: BTreeMap<u64, u64>, rs: BTreeMap<u64, u128>, ts: BTreeMap<u64, u128>,
    total: u128, refs: BTreeMap<u64, (Level, u128)>, pct: BTreeMap<(AssetId, u8), FeeDistribution>, pending: BTreeSet<AssetId>,
}
fn see() -> See {
    let mut s = See { bal: Default::default(), codes: Default::default(), own: Default::default(), link: Default::default(), rs: Default::default(), ts: Default::default(), total: Referrals::total_shares(), refs: Default::default(), pct: Default::default(), pending: Default::default() };
    for w in [1, 2, 3, PAYER, STAKERS, TREASURY, MARKET, pot()] {
        for a in ASSETS { let b = Tokens::free_balance(a, &w); if b > 0 { s.bal.insert((a, w), b); } }
        if let Some(c) = Referrals::referral_code(w) { s.own.insert(w, c.into_inner()); }
        if let Some(c) = Referrals::linked_referral_account(w) { s.link.insert(w, c); }
        if let Some(c) = Referrals::referrer_level(w) { s.refs.insert(w, c); }
        let (r, t) = (Referrals::referrer_shares(w), Referrals::trader_shares(w));
        if r > 0 { s.rs.insert(w, r); }
        if t > 0 { s.ts.insert(w, t); }
    }
    for i in 0..CODES.len() { if let Some(w) = Referrals::referral_account(&Code::truncate_from(upper(i))) { s.codes.insert(upper(i), w); } }
    for a in ASSETS { for (i, l) in LEVELS.iter().enumerate() { if let Some(p) = Referrals::asset_rewards(a, *l) { s.pct.insert((a, i as u8), p); } } if Referrals::pending_conversions(a).is_some() { s.pending.insert(a); } }
    s
}
impl See {
    fn b(&self, a: AssetId, w: u64) -> u128 { *self.bal.get(&(a, w)).unwrap_or(&0) }
    fn set(&mut self, a: AssetId, w: u64, x: u128) { if x == 0 { self.bal.remove(&(a, w)); } else { self.bal.insert((a, w), x); } }
    /// keep: the sender must stay alive; otherwise what is left below the existential deposit is lost
    fn mv(&mut self, a: AssetId, from: u64, to: u64, x: u128, keep: bool) -> Option<()> {
        if x == 0 { return Some(()) }
        let left = self.b(a, from).checked_sub(x)?;
        let ed = ED[a as usize];
        if keep && left < ed { return None }
        if from == to { return Some(()) }
        if self.b(a, to) + x < ed { return None }
        self.set(a, from, if left < ed { 0 } else { left });
        let t = self.b(a, to) + x;
        self.set(a, to, t);
        Some(())
    }
    /// Err(true): the market refuses, in a way a claim puts up with
    fn market(&mut self, a: AssetId) -> Result<(), bool> {
        let x = self.b(a, pot());
        if broken(a) { return Err(false) }
        if x < LEAST[a as usize] || brings(a, x) == 0 { return Err(true) }
        let mut n = self.clone();
        n.mv(a, pot(), MARKET, x, false).ok_or(false)?;
        n.mv(0, MARKET, pot(), brings(a, x), false).ok_or(false)?;
        *self = n;
        Ok(())
    }
}
#[derive(Clone, Copy, Debug)]
enum Act { Register(u64, usize), Link(u64, usize), Pay(u64, AssetId, u128), Convert(AssetId), Claim(u64), Rewards(bool, AssetId, u8, [u32; 3]), Idle(u64), Market(AssetId, bool), Donate(u128), Spend(u64, AssetId, u128) }
use Act::*;
fn real(a: &Act) -> Result<u128, DispatchError> {
    let z = |_| 0;
    match *a {
        Register(w, c) => call(|| Referrals::register_code(signed(w), code(c))).map(z),
        Link(w, c) => call(|| Referrals::link_code(signed(w), code(c))).map(z),
        Pay(w, a, x) => Referrals::process_trade_fee(PAYER, w, a, x),
        Convert(a) => call(|| Referrals::convert(signed(3), a)).map(z),
        Claim(w) => call(|| Referrals::claim_rewards(signed(w))).map(z),
        Rewards(r, a, l, [x, y, z]) => call(|| Referrals::set_reward_percentage(if r { root() } else { signed(1) }, a, LEVELS[l as usize], pct(x, y, z))).map(|_| 0),
        Idle(n) => {
            let used = Referrals::on_idle(System::block_number(), Weight::from_parts(READ + 1_000 * n + 999, 0));
            // (what there is to convert may be less than there is room for: it is charged all the same)
            assert_eq!(used, Weight::from_parts(READ + 1_000 * n, 0), "the weight of idle conversions");
            Ok(0)
        }
        Market(a, b) => { unhashed::put(&[b'b', a as u8], &b); Ok(0) }
        Donate(x) => <Tokens as MultiCurrency<u64>>::transfer(0, &PAYER, &pot(), x).map(z),
        Spend(w, a, x) => <Tokens as MultiCurrency<u64>>::transfer(a, &w, &MARKET, x).map(z),
    }
}
fn frac(x: u128, n: u128, d: u128) -> u128 { (U256::from(x) * U256::from(n) / U256::from(d)).as_u128() }
/// what must happen: None if the call must be refused, otherwise what it returns
fn expect(a: &Act, n: &mut See) -> Option<u128> {
    match *a {
        Register(w, c) => {
            let u = upper(c);
            if n.own.contains_key(&w) || u.len() < 3 || !u.iter().all(|b| b.is_ascii_alphanumeric()) || n.codes.contains_key(&u) { return None }
            n.mv(0, w, TREASURY, 222, true)?;
            n.codes.insert(u.clone(), w); n.own.insert(w, u); n.refs.insert(w, (Level::Tier0, 0));
        }
        Link(w, c) => {
            let r = *n.codes.get(&upper(c))?;
            if r == w || n.link.contains_key(&w) { return None }
            n.link.insert(w, r);
        }
        Pay(w, a, x) => {
            if a == 4 { return Some(0) }
            let r = n.link.get(&w).copied();
            let level = r.map_or(Level::None, |r| n.refs[&r].0);
            let li = LEVELS.iter().position(|l| *l == level).unwrap() as u8;
            let p = n.pct.get(&(a, li)).copied().unwrap_or(level_data(level).1);
            let part = |on: bool, p: Permill| if on { frac(x, p.deconstruct() as u128, 1_000_000) } else { 0 };
            let (rr, tr, er) = (part(r.is_some(), p.referrer), part(true, p.trader), part(external(), p.external));
            let taken = rr + tr + er;
            if taken > x { return None }
            n.mv(a, PAYER, pot(), taken, true)?;
            let sh = |v: u128| frac(v, PRICE[a as usize].0, PRICE[a as usize].1);
            n.total += sh(rr) + sh(tr) + sh(er);
            if let Some(r) = r { if sh(rr) > 0 { *n.rs.entry(r).or_default() += sh(rr); } }
            for (w, v) in [(w, sh(tr)), (STAKERS, sh(er))] { if v > 0 { *n.ts.entry(w).or_default() += v; } }
            if a != 0 { n.pending.insert(a); }
            return Some(taken)
        }
        Convert(a) => { if n.b(a, pot()) == 0 { return None } n.market(a).ok()?; n.pending.remove(&a); }
        Claim(w) => {
            for a in n.pending.clone() { if n.market(a) == Err(false) { return None } }
            n.pending.clear();
            let (r, t) = (n.rs.remove(&w).unwrap_or(0), n.ts.remove(&w).unwrap_or(0));
            if r + t == 0 { return Some(0) }
            let reserve = n.b(0, pot()).saturating_sub(seed());
            let (x, y) = (frac(r, reserve, n.total), frac(t, reserve, n.total));
            n.mv(0, pot(), w, x + y, r + t != n.total)?;
            n.total -= r + t;
            if let Some((l, sum)) = n.refs.get_mut(&w) {
                *sum += x;
                // the highest tier whose threshold, and every threshold below it, has been reached
                let mut i = LEVELS.iter().position(|k| k == l).unwrap();
                while i < 5 && *sum >= level_data(LEVELS[i + 1]).0 { i += 1; }
                *l = LEVELS[i];
            }
        }
        Rewards(r, a, l, [x, y, z]) => { if !r || x + y + z > 1_000_000 { return None } n.pct.insert((a, l), pct(x, y, z)); }
        Idle(_) => unreachable!(),
        Market(..) => {}
        Donate(x) => n.mv(0, PAYER, pot(), x, false)?,
        Spend(w, a, x) => n.mv(a, w, MARKET, x, false)?,
    }
    Some(0)
}
fn subsets(v: &[AssetId], k: usize) -> Vec<Vec<AssetId>> { (0u32..1 << v.len()).filter(|m| m.count_ones() as usize == k).map(|m| v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, a)| *a).collect()).collect() }
/// m: assets that left the list of pending conversions without being converted
fn step(a: &Act, m: &mut BTreeSet<AssetId>) -> Result<bool, Wrong> {
    let s0 = see();
    let went;
    let s1;
    if let Idle(k) = a {
        let all: Vec<AssetId> = s0.pending.iter().copied().collect();
        let can: Vec<See> = subsets(&all, all.len().min(*k as usize)).into_iter().map(|set| { let mut n = s0.clone(); for a in set { n.market(a).ok(); n.pending.remove(&a); } n }).collect();
        real(a).ok();
        s1 = see();
        must!(can.contains(&s1), "effect", "from {s0:?}\nfound {s1:?}\nexpected one of {can:?}");
        went = true;
    } else {
        let mut n = s0.clone();
        let want = expect(a, &mut n);
        let got = real(a);
        must!(got.as_ref().ok() == want.as_ref(), "accept", "gives {got:?}, expected {want:?}, in {s0:?}");
        s1 = see();
        if want.is_some() { must!(s1 == n, "effect", "from {s0:?}\nexpected {n:?}\nfound {s1:?}"); } else { must!(s1 == s0, "refused", "a refused call changed {s0:?} to {s1:?}"); }
        went = want.is_some();
    }
    if let Claim(w) = a { if went {
        must!(!s1.rs.contains_key(w) && !s1.ts.contains_key(w), "spent", "{s1:?}");
    } }
    if let Pay(_, _, x) = a { must!(s0.b(0, PAYER) <= s1.b(0, PAYER) + x, "taken", "{s0:?} to {s1:?}"); }
    for a in ASSETS { if s0.pending.contains(&a) && !s1.pending.contains(&a) && s1.b(a, pot()) > 0 { m.insert(a); } if s1.b(a, pot()) == 0 { m.remove(&a); } }
    ok(&s1, m)?;
    Ok(went)
}
fn ok(s: &See, m: &BTreeSet<AssetId>) -> Result<(), Wrong> {
    let sum: u128 = s.rs.values().chain(s.ts.values()).sum();
    must!(s.total == sum, "total", "{sum} shares in {s:?}");
    for a in 1..5 { must!(s.b(a, pot()) == 0 || s.pending.contains(&a) || m.contains(&a), "pending", "asset {a} waits unlisted in {s:?}"); }
    must!(s.b(0, pot()) >= seed(), "seed", "{s:?}");
    for (c, w) in &s.codes { must!(s.own.get(w) == Some(c) && s.refs.contains_key(w), "codes", "{s:?}"); }
    must!(s.own.len() == s.codes.len() && s.refs.len() == s.own.len() && s.link.iter().all(|(a, b)| a != b && s.refs.contains_key(b)), "codes", "{s:?}");
    // everybody can claim, in either order; nobody gets more than the share's part, to rounding; the seed stays
    if s.total > 0 {
        for rev in [false, true] {
            let mut l: Vec<u64> = ACCOUNTS.to_vec();
            if rev { l.reverse() }
            let r = dry(|| {
                for a in ASSETS { unhashed::put(&[b'b', a as u8], &false); }
                let mut first = true;
                for w in &l {
                    let had = see();
                    let mine = had.rs.get(w).unwrap_or(&0) + had.ts.get(w).unwrap_or(&0);
                    if mine == 0 { continue }
                    let mut n = had.clone();
                    if let Err(e) = real(&Claim(*w)) { if expect(&Claim(*w), &mut n).is_none() { continue } return Err(format!("{w} cannot claim: {e:?}")) }
                    let got = see();
                    let paid = got.b(0, *w) - had.b(0, *w);
                    let full = got.b(0, pot()) + paid - seed();
                    let due = frac(mine, full, had.total);
                    if paid > due || paid + 1 < due { return Err(format!("{w} gets {paid}, due {due}")) }
                    if first && got.total + mine != had.total { return Err("shares".into()) }
                    first = false;
                }
                let e = see();
                if e.b(0, pot()) >= seed() { Ok(()) } else { Err(format!("the seed went: {e:?}")) }
            });
            if let Err(e) = r { return wrong("claims", format!("{e} in {s:?}")) }
        }
    }
    Ok(())
}
fn begin(name: &str, sd: u128, ext: bool, acts: &[Act]) -> Start<BTreeSet<AssetId>> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":ext", &ext);
        unhashed::put(b":seed", &sd);
        for (w, x) in [(1, 1_000), (2, 223), (3, 500), (PAYER, 1 << 60), (MARKET, 1 << 60)] { for a in ASSETS { if w > 3 || a == 0 { <Tokens as MultiCurrency<u64>>::deposit(a, &w, x).unwrap(); } } }
        if sd > 0 { real(&Donate(sd)).unwrap(); }
        let mut m = BTreeSet::new();
        for a in acts { match step(a, &mut m) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
        m
    })
}
fn main() {
    let ck = kit::Check::new("P11");
    let set = [Register(1, 0), Register(3, 2), Link(2, 1), Link(3, 0)];
    let acts = |_: &BTreeSet<AssetId>| {
        let mut v = vec![Idle(0), Idle(1), Idle(2), Market(2, true), Market(2, false), Donate(7), Spend(1, 0, 300)];
        for w in 1..4 { v.push(Claim(w)); for c in [0, 1, 2] { v.extend([Register(w, c), Link(w, c)]); } }
        v.push(Claim(STAKERS));
        for c in 3..8 { v.push(Register(2, c)); }
        v.extend([Link(1, 7), Link(3, 5), Register(2, 5), Link(2, 6)]);
        for w in 1..4 { v.extend([Pay(w, 0, 100), Pay(w, 1, 777), Pay(w, 2, 5)]); }
        v.extend([Pay(2, 3, 1_001), Pay(2, 4, 100), Pay(2, 0, 0), Pay(2, 1, 9), Pay(3, 3, 55), Pay(1, 0, 1 << 61)]);
        for a in 0..4 { v.push(Convert(a)); }
        v.extend([Rewards(true, 0, 1, [600_000, 200_000, 200_000]), Rewards(true, 0, 1, [600_000, 200_000, 200_001]), Rewards(false, 1, 1, [1, 2, 3]), Rewards(true, 1, 0, [500_000, 250_000, 0]), Rewards(true, 2, 2, [0, 1_000_000, 0])]);
        v
    };
    let mut fees = set.to_vec();
    fees.extend([Pay(2, 1, 500), Pay(3, 2, 90), Pay(2, 0, 40), Pay(1, 3, 400)]);
    let mut later = fees.clone();
    later.extend([Idle(2), Claim(1), Rewards(true, 1, 0, [500_000, 250_000, 100_000]), Pay(1, 1, 30), Market(2, true), Pay(2, 2, 1_000), Idle(9), Pay(3, 0, 333)]);
    let starts = vec![
        begin("nothing", 100, true, &[]), begin("two codes", 100, false, &set), begin("fees taken", 100, true, &fees), begin("fees taken, no seed, no third party", 0, false, &fees),
        begin("later", 1_000, true, &later), begin("later, no seed", 0, true, &later),
    ];
    World { name: "referrals", depth: ck.pick(3, 5), events: false, actions: &acts, step: &|a: &Act, m: &mut BTreeSet<AssetId>| step(a, m), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
