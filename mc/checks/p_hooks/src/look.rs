//! Locks, vesting, balances, pool permissions, frozen collections and relay chain data, as the adapters read them.
use super::*;
use cumulus_primitives_core::PersistedValidationData;
use frame_support::traits::{fungible, fungibles, tokens::{Fortitude, Preservation, Provenance}, LockableCurrency, WithdrawReasons};
use hydradx_traits::{CanCreatePool, LockedBalance};
use orml_traits::MultiLockableCurrency;
use pallet_staking::traits::{Freeze, VestingDetails};
use runtime_adapters::{inspect::MultiInspectAdapter, xyk::AllowPoolCreation, MultiCurrencyLockedBalance, RelayChainBlockHashProvider, RelayChainBlockHashProviderAdapter, RelayChainBlockNumberProvider};
use sp_runtime::traits::{BlockNumberProvider, Hash};
use std::collections::BTreeMap;

impl cumulus_pallet_parachain_system::Config for Rt {}
pub struct PairAcc;
impl hydradx_traits::AssetPairAccountIdFor<AssetId, AccountId32> for PairAcc { fn from_assets(a: AssetId, b: AssetId, _: &str) -> AccountId32 { acc(150 + 5 * a.min(b) as u8 + a.max(b) as u8) } }
impl pallet_lbp::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type LockedBalance = Locked;
    type CreatePoolOrigin = frame_system::EnsureRoot<AccountId32>;
    type LBPWeightFunction = pallet_lbp::LBPWeightFunction;
    type AssetPairAccountId = PairAcc;
    type WeightInfo = ();
    type MinTradingLimit = ConstU128<2>;
    type MinPoolLiquidity = ConstU128<10>;
    type MaxInRatio = ConstU128<3>;
    type MaxOutRatio = ConstU128<3>;
    type BlockNumberProvider = System;
}
type Locked = MultiCurrencyLockedBalance<Rt, Hdx>;
const IDS: [[u8; 8]; 3] = [*b"ormlvest", *b"ormlvesu", *b"stk_stks"];
const ASSETS: [AssetId; 3] = [HDX, 2, 3];
/// amounts locked, (who, asset, id)
type Book = BTreeMap<(u8, AssetId, usize), u128>;
#[derive(Clone, Debug)]
enum Act { Lock(u8, AssetId, usize, u128), Unlock(u8, AssetId, usize), Pay(u8, u8, AssetId, u128), Kind(AssetId, u8), Pool(AssetId, AssetId), Dates(AssetId, AssetId, u64, u64), Blocks(u64), Relay(Option<u32>), Freeze(u8, u128), Make(u8, u128), Move(u8, u128, u128, u8) }
fn kind(a: AssetId) -> u8 { unhashed::get(&(b":kind", a).encode()).unwrap_or(0) }
pub struct Kinds;
impl RegInspect for Kinds {
    type AssetId = AssetId;
    type Location = ();
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(_: AssetId) -> bool { true }
    fn decimals(_: AssetId) -> Option<u8> { None }
    fn asset_type(a: AssetId) -> Option<AssetKind> { match kind(a) { 0 => Some(AssetKind::Token), 1 => Some(AssetKind::XYK), 2 => Some(AssetKind::StableSwap), 3 => Some(AssetKind::Bond), 4 => Some(AssetKind::External), _ => None } }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { Some(1) }
}
fn head(n: u32) -> Vec<u8> { (0..n % 40).map(|x| x.wrapping_mul(n) as u8).collect() }
fn step(a: &Act, m: &mut Book) -> Result<bool, Wrong> {
    let ok = match a.clone() {
        Act::Lock(w, c, i, x) => { if c == HDX { <Balances as LockableCurrency<AccountId32>>::set_lock(IDS[i], &acc(w), x, WithdrawReasons::all()) } else { call(|| <Tokens as MultiLockableCurrency<AccountId32>>::set_lock(IDS[i], c, &acc(w), x)).expect("locks") } if x == 0 { m.remove(&(w, c, i)); } else { m.insert((w, c, i), x); } true }
        Act::Unlock(w, c, i) => { if c == HDX { <Balances as LockableCurrency<AccountId32>>::remove_lock(IDS[i], &acc(w)) } else { call(|| <Tokens as MultiLockableCurrency<AccountId32>>::remove_lock(IDS[i], c, &acc(w))).expect("unlocks") } m.remove(&(w, c, i)); true }
        Act::Pay(f, t, c, x) => if c == HDX { call(|| <Balances as frame_support::traits::Currency<AccountId32>>::transfer(&acc(f), &acc(t), x, frame_support::traits::ExistenceRequirement::AllowDeath)).is_ok() } else { call(|| <Tokens as MultiCurrency<AccountId32>>::transfer(c, &acc(f), &acc(t), x)).is_ok() },
        Act::Kind(c, k) => { unhashed::put(&(b":kind", c).encode(), &k); true }
        Act::Pool(x, y) => call(|| Lbp::create_pool(frame_system::RawOrigin::Root.into(), acc(1), x, 50, y, 60, 20_000_000, 60_000_000, pallet_lbp::WeightCurveType::Linear, (1, 100), acc(100 + x as u8), 0)).is_ok(),
        Act::Dates(x, y, s, e) => call(|| Lbp::update_pool_data(signed_by(acc(1)), <PairAcc as hydradx_traits::AssetPairAccountIdFor<AssetId, AccountId32>>::from_assets(x, y, ""), None, Some(s), Some(e), None, None, None, None, None)).is_ok(),
        Act::Blocks(n) => { System::set_block_number(System::block_number() + n); true }
        Act::Relay(n) => { cumulus_pallet_parachain_system::Pallet::<Rt>::set_validation_data(n.map(|n| PersistedValidationData { parent_head: polkadot_parachain::primitives::HeadData(head(n)), relay_parent_number: n, ..Default::default() })); true }
        Act::Make(w, c) => call(|| <Uniques as frame_support::traits::tokens::nonfungibles::Create<AccountId32>>::create_collection(&c, &acc(w), &acc(w))).is_ok(),
        Act::Move(w, c, i, t) => { let _ = call(|| <Uniques as frame_support::traits::tokens::nonfungibles::Mutate<AccountId32>>::mint_into(&c, &i, &acc(w))); call(|| <Uniques as frame_support::traits::tokens::nonfungibles::Transfer<AccountId32>>::transfer(&c, &i, &acc(t))).is_ok() }
        Act::Freeze(w, c) => {
            let n = System::events().len();
            let ev = |n: usize| format!("{:?}", &System::events()[n..]);
            let before = chain();
            let want = dry(|| (call(|| Uniques::freeze_collection(signed_by(acc(w)), c)), chain(), ev(n)));
            let r = call(|| FreezableNFT::<Rt, RuntimeOrigin>::freeze_collection(acc(w), c));
            must!(r == want.0 && chain() == want.1 && ev(n) == want.2, "freeze", "freezing gives {r:?}, not {:?}", want.0);
            must!(r.is_ok() || chain() == before, "refused", "a refused freeze changed something");
            r.is_ok()
        }
    };
    read(m)?;
    Ok(ok)
}
fn read(m: &Book) -> Result<(), Wrong> {
    for w in [1u8, 2, 9] {
        let vested = <VestingInfo<Rt> as VestingDetails<AccountId32, Balance>>::locked(acc(w));
        must!(vested == m.get(&(w, HDX, 0)).copied().unwrap_or(0), "vesting", "account {w} has {vested} vesting; locks {m:?}");
        for c in ASSETS {
            for (i, id) in IDS.iter().enumerate() { let l = Locked::get_by_lock(*id, c, acc(w)); must!(l == m.get(&(w, c, i)).copied().unwrap_or(0), "locks", "lock {i} of {w} in {c} is {l}; locks {m:?}"); }
            type I = MultiInspectAdapter<AccountId32, AssetId, Balance, Balances, Tokens, Hdx>;
            let a = acc(w);
            macro_rules! same { ($f:ident, $($x:expr),*) => { {
                let got = <I as fungibles::Inspect<AccountId32>>::$f(c $(, $x)*);
                let want = if c == HDX { <Balances as fungible::Inspect<AccountId32>>::$f($($x),*) } else { <Tokens as fungibles::Inspect<AccountId32>>::$f(c $(, $x)*) };
                must!(format!("{got:?}") == format!("{want:?}"), "inspect", "{} of {c} for {w} is {got:?}, not {want:?}", stringify!($f));
            } } }
            same!(total_issuance,); same!(minimum_balance,); same!(total_balance, &a); same!(balance, &a);
            for p in [Preservation::Expendable, Preservation::Protect, Preservation::Preserve] { for f in [Fortitude::Polite, Fortitude::Force] { same!(reducible_balance, &a, p, f); } }
            for x in [0u128, 1, 30, 500, BIG] { for p in [Provenance::Extant, Provenance::Minted] { same!(can_deposit, &a, x, p); } same!(can_withdraw, &a, x); }
            let there = <I as fungibles::Inspect<AccountId32>>::asset_exists(c);
            must!(there == (c == HDX || <Tokens as fungibles::Inspect<AccountId32>>::asset_exists(c)), "inspect", "asset {c} exists: {there}");
        }
    }
    // no pools of pool shares or of unknown assets, none beside a sale that is not over
    let now = System::block_number();
    for (x, y) in [(0, 2), (2, 0), (2, 3), (3, 2), (3, 3)] {
        let p = pallet_lbp::PoolData::<Rt>::get(<PairAcc as hydradx_traits::AssetPairAccountIdFor<AssetId, AccountId32>>::from_assets(x, y, ""));
        let want = [x, y].iter().all(|a| kind(*a) != 1 && kind(*a) < 5) && p.map_or(true, |p| p.end.map_or(false, |e| e < now));
        let got = <AllowPoolCreation<Rt, Kinds> as CanCreatePool<AssetId>>::can_create(x, y);
        must!(got == want, "pools", "a pool of {x} and {y} may be created: {got}");
    }
    let d = cumulus_pallet_parachain_system::Pallet::<Rt>::validation_data();
    let n = RelayChainBlockNumberProvider::<Rt>::current_block_number();
    must!(n == d.as_ref().map_or(0, |d| d.relay_parent_number), "relay", "relay block {n} of {d:?}");
    let h = <RelayChainBlockHashProviderAdapter<Rt> as RelayChainBlockHashProvider>::parent_hash();
    must!(h == d.as_ref().map(|d| sp_runtime::traits::BlakeTwo256::hash(&d.parent_head.0)), "relay", "parent hash {h:?} of {d:?}");
    Ok(())
}
pub fn check(ck: &kit::Check) {
    let begin = |name: &str, acts: &[Act]| start(name, || {
        System::set_block_number(5);
        for w in [1u8, 2] { <Balances as fungible::Mutate<AccountId32>>::mint_into(&acc(w), 500 * w as u128).unwrap(); for a in [HDX, 2, 3] { <Tokens as MultiCurrency<AccountId32>>::deposit(a, &acc(w), 900 + a as u128 * 7).unwrap(); } }
        let mut m = Book::new();
        for a in acts { match step(a, &mut m) { Ok(true) => {} Ok(false) => panic!("{a:?} refused in the start {name}"), Err(w) => panic!("{a:?} in the start {name}: {} {}", w.0, w.1) } }
        m
    });
    let acts = |_: &Book| {
        let mut v = vec![];
        for w in [1, 2] { for c in [HDX, 2] { for i in 0..3 { for x in [0, 30, 5000] { v.push(Act::Lock(w, c, i, x)); } v.push(Act::Unlock(w, c, i)); } } }
        v.push(Act::Lock(1, 3, 0, 8));
        for c in [HDX, 2] { for x in [30, 480, 500] { v.push(Act::Pay(1, 2, c, x)); v.push(Act::Pay(1, 9, c, x)); } }
        v
    };
    World { name: "locks", depth: ck.pick(3, 4), events: false, actions: &acts, step: &|a: &Act, m: &mut Book| step(a, m), prepare: &|| {} }.explore(ck, vec![begin("free", &[])]);
    let acts = |_: &Book| {
        let mut v = vec![];
        for c in [0, 2, 3] { for k in 0..7 { v.push(Act::Kind(c, k)); } }
        for (x, y) in [(0, 2), (2, 3), (3, 2)] { v.push(Act::Pool(x, y)); v.push(Act::Dates(x, y, 8, 10)); v.push(Act::Dates(x, y, 6, 7)); }
        for n in [1, 3] { v.push(Act::Blocks(n)); }
        for n in [None, Some(0), Some(7), Some(u32::MAX)] { v.push(Act::Relay(n)); }
        for w in [1, 2] { for c in [1, 77] { v.push(Act::Make(w, c)); v.push(Act::Freeze(w, c)); v.push(Act::Move(w, c, 3, 3 - w)); } }
        v
    };
    World { name: "pools", depth: ck.pick(3, 4), events: true, actions: &acts, step: &|a: &Act, m: &mut Book| step(a, m), prepare: &|| {} }.explore(ck, vec![begin("nothing", &[]), begin("sale", &[Act::Pool(0, 2), Act::Dates(0, 2, 6, 8), Act::Pool(2, 3), Act::Make(1, 1)])]);
}
