//! P09: bonds, on the real pallet-bonds and pallet-asset-registry with the stand-in tokens.
use frame_support::{parameter_types, storage::unhashed, traits::{ConstU32, Contains, Nothing, SortedMembers, Time}, PalletId};
use hydradx_traits::registry::{AssetKind, Inspect};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use sp_runtime::{traits::AccountIdConversion, Permill};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, AssetRegistry: pallet_asset_registry, Bonds: pallet_bonds });
world::system!(Rt, ());
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { AssetRegistry::existential_deposit(*a).unwrap_or(Balance::MAX) }; }
world::tokens!(Rt, Eds, Nothing, ());
pub struct Now;
impl Time for Now { type Moment = u64; fn now() -> u64 { unhashed::get(b":now").unwrap_or(0) } }
pub struct Issuers;
impl SortedMembers<u64> for Issuers { fn sorted_members() -> Vec<u64> { vec![1, 2] } }
pub struct Kinds;
impl Contains<AssetKind> for Kinds { fn contains(k: &AssetKind) -> bool { matches!(k, AssetKind::Token | AssetKind::StableSwap) } }
parameter_types! {
    pub const Pid: PalletId = PalletId(*b"pltbonds");
    pub Fee: Permill = Permill::from_parts(unhashed::get(b":fee").unwrap_or(0));
    pub const Treasury: u64 = 7;
    #[derive(PartialEq, Debug)]
    pub RegLimit: u32 = 32;
    #[derive(PartialEq, Debug)]
    pub RegMin: u32 = 2;
}
impl pallet_asset_registry::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type RegistryOrigin = frame_system::EnsureRoot<u64>;
    type Currency = Tokens;
    type UpdateOrigin = frame_system::EnsureRoot<u64>;
    type AssetId = AssetId;
    type AssetNativeLocation = u8;
    type StringLimit = RegLimit;
    type MinStringLimit = RegMin;
    type SequentialIdStartAt = ConstU32<1000>;
    type RegExternalWeightMultiplier = frame_support::traits::ConstU64<1>;
    type WeightInfo = ();
}
impl pallet_bonds::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Currency = Tokens;
    type AssetRegistry = AssetRegistry;
    type ExistentialDeposits = Eds;
    type TimestampProvider = Now;
    type PalletId = Pid;
    type IssueOrigin = frame_system::EnsureSignedBy<Issuers, u64>;
    type AssetTypeWhitelist = Kinds;
    type ProtocolFee = Fee;
    type FeeReceiver = Treasury;
    type WeightInfo = ();
}
/// asset 1 and 2 may be bonded, asset 3 may not (its kind), asset 4 does not exist
const ED: [u128; 3] = [1, 5, 1];
const BASE: [AssetId; 2] = [1, 2];
const TIMES: [u64; 3] = [10, 20, 30];
const WHO: [u64; 4] = [1, 2, 3, 7];
fn pot() -> u64 { Pid::get().into_account_truncating() }
fn fee(x: u128) -> u128 { let p = Fee::get().deconstruct() as u128; let (q, r) = (x / 1_000_000, x % 1_000_000); q * p + (r * p + 999_999) / 1_000_000 }
#[derive(Clone, PartialEq, Debug)]
struct See { bal: Vec<Vec<u128>>, ids: Vec<Vec<Option<AssetId>>>, bonds: Vec<Vec<Vec<u128>>> }
fn bal(a: AssetId, w: u64) -> u128 { Tokens::free_balance(a, &w) }
fn bond(i: usize, t: usize) -> Option<AssetId> { Bonds::bond_id((BASE[i], TIMES[t])) }
fn see() -> See {
    See {
        bal: WHO.iter().copied().chain([pot()]).map(|w| [1, 2, 3].iter().map(|a| bal(*a, w)).collect()).collect(),
        ids: (0..2).map(|i| (0..3).map(|t| bond(i, t)).collect()).collect(),
        bonds: (0..2).map(|i| (0..3).map(|t| WHO.iter().map(|w| bond(i, t).map_or(0, |b| bal(b, *w))).collect()).collect()).collect(),
    }
}
#[derive(Clone, Copy, Debug)]
enum Amt { N(u128), All, AllPlus1, AllBut(u128) }
use Amt::*;
fn amt(x: Amt, of: u128) -> u128 { match x { N(n) => n, All => of, AllPlus1 => of + 1, AllBut(n) => of.saturating_sub(n) } }
#[derive(Clone, Debug)]
enum Act { Issue(u64, AssetId, Amt, usize), Redeem(u64, usize, usize, Amt), RedeemBase(u64, AssetId, u128), Give(u64, u64, usize, usize, Amt), Donate(u64, AssetId, u128), Time(u64) }
fn wi(w: u64) -> usize { if w == pot() { 4 } else { WHO.iter().position(|x| *x == w).unwrap() } }
impl See {
    /// a transfer as the currency makes it, or None when it cannot: enough funds, and the receiver does not end as dust
    fn mv(&mut self, a: AssetId, from: u64, to: u64, x: u128) -> Option<()> {
        if x == 0 || from == to { return Some(()) }
        let (f, t, k) = (wi(from), wi(to), a as usize - 1);
        self.bal[f][k] = self.bal[f][k].checked_sub(x)?;
        self.bal[t][k] += x;
        (self.bal[t][k] >= ED[k]).then_some(())
    }
}
fn step(act: &Act) -> Result<bool, Wrong> {
    let s0 = see();
    let now = Now::now();
    let mut n = s0.clone();
    let (good, r): (bool, Result<(), sp_runtime::DispatchError>) = match act.clone() {
        Act::Issue(who, a, x, t) => {
            let x = amt(x, bal(a, who));
            let f = fee(x);
            let e = (|| {
                if who == 3 || !BASE.contains(&a) { return None }
                let i = a as usize - 1;
                if s0.ids[i][t].is_none() && TIMES[t] < now { return None }
                n.mv(a, who, pot(), x - f)?;
                n.mv(a, who, 7, f)?;
                let b = &mut n.bonds[i][t][wi(who)];
                *b += x - f;
                if x > f && *b == x - f && *b < ED[i] { return None }
                Some(())
            })();
            let before = AssetRegistry::next_asset_id();
            let r = call(|| Bonds::issue(signed(who), a, x, TIMES[t]));
            if e.is_some() {
                let i = a as usize - 1;
                if s0.ids[i][t].is_none() {
                    let b = bond(i, t);
                    must!(r.is_err() || b == before, "id", "new bond {b:?}, the registry's next id was {before:?}");
                    n.ids[i][t] = b;
                    if let Some(b) = b { must!(AssetRegistry::asset_type(b) == Some(AssetKind::Bond) && AssetRegistry::existential_deposit(b) == Some(ED[i]) && !AssetRegistry::is_sufficient(b) && Bonds::bond(b) == Some((a, TIMES[t])) && AssetRegistry::asset_name(b) == Some(Bonds::bond_name(a, TIMES[t])), "registered", "bond {b} of {a} until {}", TIMES[t]); }
                }
            }
            (e.is_some(), r)
        }
        Act::Redeem(who, i, t, x) => {
            let have = bond(i, t).map_or(0, |b| bal(b, who));
            let x = amt(x, have);
            let e = (|| { bond(i, t)?; if now < TIMES[t] || x > have { return None } n.bonds[i][t][wi(who)] -= x; n.mv(BASE[i], pot(), who, x) })();
            (e.is_some(), call(|| Bonds::redeem(signed(who), bond(i, t).unwrap_or(77), x)))
        }
        Act::RedeemBase(who, a, x) => (false, call(|| Bonds::redeem(signed(who), a, x))),
        Act::Give(from, to, i, t, x) => {
            let have = bond(i, t).map_or(0, |b| bal(b, from));
            let x = amt(x, have);
            let e = bond(i, t).is_some() && x <= have && (x == 0 || n.bonds[i][t][wi(to)] + x >= ED[i]);
            if e { n.bonds[i][t][wi(from)] -= x; n.bonds[i][t][wi(to)] += x; }
            (e, call(|| <Tokens as MultiCurrency<u64>>::transfer(bond(i, t).unwrap_or(77), &from, &to, x)).and_then(|_| if bond(i, t).is_some() { Ok(()) } else { Err("no bond".into()) }))
        }
        Act::Donate(from, a, x) => (n.mv(a, from, pot(), x).is_some(), call(|| <Tokens as MultiCurrency<u64>>::transfer(a, &from, &pot(), x))),
        Act::Time(t) => { unhashed::put(b":now", &(now + t)); (true, Ok(())) }
    };
    must!(r.is_ok() == good, "accept", "gives {r:?} at {now} in {s0:?}");
    let s1 = see();
    if good { must!(s1 == n, "effect", "expected {n:?}, found {s1:?}"); } else { must!(s1 == s0, "refused", "a refused call changed {s0:?} to {s1:?}"); }
    // every bond in circulation is covered one to one by what the pallet holds
    for i in 0..2 {
        let owed: u128 = (0..3).filter_map(|t| bond(i, t)).map(|b| Tokens::total_issuance(b)).sum();
        must!(bal(BASE[i], pot()) >= owed, "covered", "bonds of asset {} for {owed}, held {}", BASE[i], bal(BASE[i], pot()));
        for t in 0..3 { if let Some(b) = bond(i, t) { must!(Tokens::total_issuance(b) == s1.bonds[i][t].iter().sum::<u128>(), "issuance", "bond {b}"); } }
    }
    Ok(good)
}
fn begin(name: &str, fee: u32, funds: u128, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":fee", &fee); unhashed::put(b":now", &15u64);
        for (k, kind) in [pallet_asset_registry::AssetType::Token, pallet_asset_registry::AssetType::StableSwap, pallet_asset_registry::AssetType::XYK].into_iter().enumerate() {
            AssetRegistry::register(root(), Some(k as u32 + 1), None, kind, Some(ED[k]), None, None, None, None, true).expect("register");
            for w in [1, 2, 3] { let _ = <Tokens as MultiCurrency<u64>>::deposit(k as u32 + 1, &w, funds); }
        }
        if fee == 33_333 { let _ = <Tokens as MultiCurrency<u64>>::deposit(2, &7, 5); }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P09");
    let acts = |_: &()| {
        let mut v = vec![Act::Time(5), Act::Time(20), Act::RedeemBase(1, 1, 3), Act::Donate(3, 1, 9), Act::Donate(3, 2, 9)];
        for (w, a, x, t) in [(1, 1, N(20), 1), (1, 2, N(33), 1), (2, 1, N(7), 1), (2, 1, N(7), 2), (1, 1, N(5), 0), (1, 1, N(1), 1), (1, 1, N(0), 1), (2, 2, N(6), 1), (2, 2, N(4), 1), (1, 2, N(17), 2), (3, 1, N(20), 1), (1, 3, N(20), 1), (1, 4, N(20), 1), (1, 1, All, 2), (1, 1, AllPlus1, 2), (1, 2, AllBut(2), 1)] { v.push(Act::Issue(w, a, x, t)); }
        for i in 0..2 { for t in [1, 2] { for w in [1, 2, 3] { for x in [N(1), All, AllBut(1)] { v.push(Act::Redeem(w, i, t, x)); } } v.push(Act::Redeem(2, i, t, AllPlus1)); v.push(Act::Redeem(1, i, t, N(0))); } v.push(Act::Give(1, 3, i, 1, N(3))); v.push(Act::Give(1, 3, i, 1, N(6))); v.push(Act::Give(1, 2, i, 1, All)); }
        v
    };
    let starts = vec![begin("no fee", 0, 90, &[]), begin("fee 1/30", 33_333, 90, &[Act::Issue(1, 1, N(40), 1), Act::Issue(1, 2, N(50), 1)]), begin("everything is fee", 1_000_000, 90, &[]), begin("fee 20%, large", 200_000, (1 << 120) + 7, &[Act::Issue(2, 1, N((1 << 119) + 3), 2)])];
    World { name: "bonds", depth: ck.pick(4, 7), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
