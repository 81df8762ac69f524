//! P28: tokens arriving by XCM are deferred by the excess over their limit, on the real pallet-xcm-rate-limiter.
use cumulus_pallet_xcmp_queue::XcmDeferFilter;
use frame_support::storage::unhashed;
use orml_traits::GetByKey;
use pallet_xcm_rate_limiter::{AccumulatedAmount, AccumulatedAmounts};
use polkadot_xcm::{v2, v3, v3::prelude::*, v4, VersionedXcm};
use sp_core::U256;
use sp_runtime::traits::{BlockNumberProvider, Convert};
use std::collections::BTreeMap;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Limiter: pallet_xcm_rate_limiter });
world::system!(Rt, ());
/// defer duration, longest deferral, limits of the assets 0..3
type Cfg = (u32, u32, [Option<u128>; 4]);
fn cfg() -> Cfg { unhashed::get(b":cfg").unwrap() }
macro_rules! g { ($n:ident, $e:expr) => { pub struct $n; impl frame_support::traits::Get<u32> for $n { fn get() -> u32 { $e } } } }
g!(Duration, cfg().0); g!(Longest, cfg().1);
pub struct Relay;
impl BlockNumberProvider for Relay { type BlockNumber = u32; fn current_block_number() -> u32 { unhashed::get(b":now").unwrap_or(0) } }
pub struct Ids;
impl Convert<MultiLocation, Option<AssetId_>> for Ids { fn convert(l: MultiLocation) -> Option<u32> { (0..4).find(|i| place(*i) == l).map(|i| i as u32) } }
type AssetId_ = u32;
pub struct Limits;
impl GetByKey<u32, Option<u128>> for Limits { fn get(a: &u32) -> Option<u128> { cfg().2[*a as usize] } }
impl pallet_xcm_rate_limiter::Config for Rt { type RuntimeEvent = RuntimeEvent; type AssetId = u32; type DeferDuration = Duration; type MaxDeferDuration = Longest; type RelayBlockNumberProvider = Relay; type CurrencyIdConvert = Ids; type RateLimitFor = Limits; }

/// Four known places and one the chain has no asset for.
fn place(i: usize) -> MultiLocation {
    match i { 0 => MultiLocation::here(), 1 => MultiLocation::new(1, Junctions::Here), 2 => MultiLocation::new(1, Junctions::X2(Parachain(1000), GeneralIndex(7))), 3 => MultiLocation::new(1, Junctions::X1(Parachain(1000))), _ => MultiLocation::new(1, Junctions::X1(Parachain(99))) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Reserve, Teleport, Withdraw, Behind, Both, Empty, New, Old, Alien, Abstract, Item }
#[derive(Clone, Debug)]
enum Act { Msg(Kind, Vec<(usize, u128)>), Later(u32), Back(u32) }
#[derive(Clone, Debug)]
#[derive(Hash, PartialEq, Eq)]
struct M { now: u32, acc: BTreeMap<usize, (u128, u32)> }

fn message(k: Kind, l: &[(usize, u128)]) -> VersionedXcm<RuntimeCall> {
    let a: MultiAssets = l.iter().map(|&(i, n)| (place(i), n).into()).collect::<Vec<MultiAsset>>().into();
    let v4a = || -> v4::Assets { l.iter().map(|&(i, n)| { let p = place(i); let js = p.interior.list(); let inner = match js.len() { 0 => v4::Junctions::Here, 1 => [js[0]].into(), _ => [js[0], js[1]].into() }; v4::Asset::from((v4::Location { parents: p.parents, interior: inner }, n)) }).collect::<Vec<_>>().into() };
    match k {
        Kind::Reserve => v3::Xcm(vec![ReserveAssetDeposited(a), ClearOrigin]).into(),
        Kind::Teleport => v3::Xcm(vec![ReceiveTeleportedAsset(a)]).into(),
        Kind::Withdraw => v3::Xcm(vec![WithdrawAsset(a), ClearOrigin]).into(),
        Kind::Behind => v3::Xcm(vec![ClearOrigin, ReserveAssetDeposited(a)]).into(),
        Kind::Both => v3::Xcm(vec![ReserveAssetDeposited(a.clone()), ReceiveTeleportedAsset(a)]).into(),
        Kind::Empty => v3::Xcm(vec![]).into(),
        Kind::New => v4::Xcm(vec![v4::Instruction::ReserveAssetDeposited(v4a()), v4::Instruction::ClearOrigin]).into(),
        Kind::Old => v2::Xcm(vec![v2::Instruction::ReceiveTeleportedAsset(a)]).into(),
        Kind::Alien => v2::Xcm(vec![v2::Instruction::ReserveAssetDeposited(a), v2::Instruction::DescendOrigin(vec![1; 33])]).into(),
        Kind::Abstract => v3::Xcm(vec![ReserveAssetDeposited(MultiAsset { id: v3::AssetId::Abstract([7; 32]), fun: Fungible(l.first().map_or(1, |x| x.1)) }.into())]).into(),
        Kind::Item => v3::Xcm(vec![ReserveAssetDeposited(l.iter().map(|&(i, n)| MultiAsset { id: place(i).into(), fun: NonFungible(AssetInstance::Index(n)) }).collect::<Vec<_>>().into())]).into(),
    }
}
fn low(x: U256) -> u128 { u128::try_from(x).unwrap_or(u128::MAX) }
fn step(a: &Act, m: &mut M) -> Result<bool, Wrong> {
    let (k, l) = match a {
        Act::Later(n) => { m.now = m.now.saturating_add(*n); unhashed::put(b":now", &m.now); return Ok(true) }
        Act::Back(n) => { if m.now < *n { return Ok(false) } m.now -= n; unhashed::put(b":now", &m.now); return Ok(true) }
        Act::Msg(k, l) => (*k, l),
    };
    let (dur, longest, limits) = cfg();
    let x = message(k, l);
    let before = sp_io::with_ext(|e| e.map.clone());
    let (_, got) = Limiter::deferred_by(2000.into(), m.now, &x);
    // what arrives: the tokens of the first instruction, if it brings tokens from elsewhere
    let mut arrives: BTreeMap<usize, u128> = BTreeMap::new();
    if matches!(k, Kind::Reserve | Kind::Teleport | Kind::Both | Kind::New | Kind::Old) { for &(i, n) in l { let e = arrives.entry(i).or_default(); *e = e.saturating_add(n); } }
    let mut wait = 0u32;
    let d = U256::from(dur.max(1));
    for (i, n) in arrives {
        if i > 3 { continue }
        let Some(limit) = limits[i] else { continue };
        let (old, at) = m.acc.get(&i).copied().unwrap_or((0, 0));
        // a limit's worth leaves in every duration
        let gone = low(U256::from(limit) * U256::from(m.now.saturating_sub(at))).checked_div(dur.max(1) as u128).unwrap();
        let acc = old.saturating_sub(gone).saturating_add(n);
        m.acc.insert(i, (acc, m.now));
        let over = acc.saturating_sub(limit);
        let w = low(d * U256::from(over)) / limit.max(1);
        wait = wait.max(u32::try_from(w).unwrap_or(u32::MAX));
        // as documented: at most the limit passes at once, twice the limit waits one duration
        if over == 0 { must!(w == 0, "free", "{a:?}: within the limit but waits {w}") }
    }
    let want = if k == Kind::Alien { Some(longest) } else if wait > 0 { Some(wait.min(longest)) } else { None };
    must!(got == want, "deferral", "{a:?} at {} with {:?}: deferred by {got:?}, not {want:?}", m.now, cfg());
    for i in 0..5 {
        let s = Limiter::accumulated_amount(place(i));
        let (amount, last_updated) = m.acc.get(&i).copied().unwrap_or((0, 0));
        must!(s == AccumulatedAmount { amount, last_updated }, "accumulated", "{a:?} with {:?}: place {i} has {s:?}, not {amount} at {last_updated}", cfg());
    }
    let known: Vec<Vec<u8>> = m.acc.keys().map(|i| AccumulatedAmounts::<Rt>::hashed_key_for(place(*i)).to_vec()).collect();
    sp_io::with_ext(|e| { let o = &before; e.map.iter().all(|(k, v)| known.iter().any(|n| n[..] == k[..]) || o.get(k) == Some(v)) && o.keys().all(|k| e.map.contains_key(k)) }).then_some(()).ok_or(Wrong("contents".into(), format!("{a:?}: something else changed")))?;
    Ok(true)
}
fn main() {
    let ck = kit::Check::new("P28");
    let cfgs: Vec<(&str, Cfg)> = vec![
        ("plain", (10, 100, [Some(1000), Some(300), None, Some(7)])), ("one block", (1, 3, [Some(1000), Some(1), None, Some(0)])), ("no duration", (0, 5, [Some(10), Some(0), None, Some(3)])),
        ("long", (600, 7200, [Some(1_000_000_000_000), Some(u128::MAX), Some(1), Some(999)])), ("no longest", (10, 0, [Some(1000), Some(300), None, Some(7)])),
        ("huge", (u32::MAX, u32::MAX, [Some(u128::MAX / 2), Some(3), None, Some(u128::MAX)])),
    ];
    use Kind::*;
    for (n, c) in cfgs {
        let l0 = c.2[0].unwrap(); let l1 = c.2[1].unwrap();
        let mut acts: Vec<Act> = vec![Act::Later(1), Act::Later(c.0.saturating_sub(1).max(2)), Act::Later(c.0), Act::Back(1)];
        if ck.pick(false, true) { acts.push(Act::Later(u32::MAX)) }
        for v in [1, l0 / 2, l0, l0.saturating_add(1), l0.saturating_add(l0 / 2), l0.saturating_mul(2), u128::MAX] { acts.push(Act::Msg(Reserve, vec![(0, v)])) }
        for v in [l1, l1.saturating_mul(3)] { acts.push(Act::Msg(Teleport, vec![(1, v)])) }
        acts.push(Act::Msg(Reserve, vec![(0, l0.saturating_mul(2)), (1, l1.saturating_mul(3)), (3, 8)]));
        acts.push(Act::Msg(Reserve, vec![(4, 1000), (2, u128::MAX), (3, 9)]));
        acts.push(Act::Msg(New, vec![(2, 5), (3, 4), (0, l0)]));
        acts.push(Act::Msg(Old, vec![(3, 4), (0, l0)]));
        acts.push(Act::Msg(Both, vec![(1, l1)]));
        for k in [Withdraw, Behind, Alien, Abstract, Item, Empty] { acts.push(Act::Msg(k, vec![(0, l0.saturating_mul(2)), (3, 50)])) }
        World { name: "arrivals", depth: ck.pick(5, 6), events: false, actions: &|_: &M| acts.clone(), step: &|a: &Act, m: &mut M| step(a, m), prepare: &|| {} }
            .explore(&ck, vec![start(n, || { unhashed::put(b":cfg", &c); unhashed::put(b":now", &1u32); M { now: 1, acc: Default::default() } })]);
    }
    ck.finish()
}
