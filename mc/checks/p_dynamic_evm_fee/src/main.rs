//! P25: the EVM base fee, on the real pallet-dynamic-evm-fee.
use frame_support::{storage::unhashed, traits::{Get, Hooks}, weights::Weight};
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::NativePriceOracle;
use pallet_dynamic_evm_fee::BaseFeePerGas;
use pallet_evm::FeeCalculator;
use sp_core::{U256, U512};
use sp_runtime::FixedU128;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Fee: pallet_dynamic_evm_fee });
world::system!(Rt, ());
/// default, least and greatest fee; multiplier; price of WETH
type Cfg = (u128, u128, u128, u128, Option<(u128, u128)>);
fn cfg() -> Cfg { unhashed::get(b":cfg").unwrap_or((15_000_000, 1_500_000, 14_415_000_000, 0, None)) }
macro_rules! g { ($n:ident, $t:ty, $e:expr) => { pub struct $n; impl Get<$t> for $n { fn get() -> $t { $e } } } }
g!(Dflt, u128, cfg().0); g!(Least, u128, cfg().1); g!(Most, u128, cfg().2); g!(Mult, FixedU128, FixedU128::from_inner(cfg().3)); g!(Weth, AssetId, 20);
pub struct Oracle;
impl NativePriceOracle<AssetId, EmaPrice> for Oracle { fn price(a: AssetId) -> Option<EmaPrice> { if a == 20 { cfg().4.map(|(n, d)| EmaPrice { n, d }) } else { Some(EmaPrice { n: 1, d: 1 }) } } }
impl pallet_dynamic_evm_fee::Config for Rt { type AssetId = AssetId; type MinBaseFeePerGas = Least; type MaxBaseFeePerGas = Most; type DefaultBaseFeePerGas = Dflt; type FeeMultiplier = Mult; type NativePriceOracle = Oracle; type WethAssetId = Weth; type WeightInfo = W; }
pub struct W;
impl pallet_dynamic_evm_fee::WeightInfo for W { fn on_initialize() -> Weight { Weight::from_parts(7, 7) } }
const ONE: u128 = 1_000_000_000_000_000_000;
const REF: u128 = 8945857934143137845;
/// floor, at most the greatest number
fn muldiv(a: u128, b: u128, c: u128) -> u128 { u128::try_from(U512::from(a) * U512::from(b) / U512::from(c)).unwrap_or(u128::MAX) }
/// The fee of a block, if there is one to be set; None also where a price cannot be had.
fn fee(c: Cfg) -> Option<u128> {
    let (n, d) = c.4?;
    if d == 0 { return None }
    let p = u128::try_from(U512::from(n) * U512::from(ONE) / U512::from(d)).ok()?;
    let q = u128::try_from(U512::from(p) * U512::from(ONE) / U512::from(REF)).ok()?;
    let busy = c.0.saturating_add(muldiv(c.0, c.3, ONE).saturating_mul(3));
    Some(muldiv(busy, q, ONE).max(c.1).min(c.2))
}
#[derive(Clone, Debug)]
enum Act { Block(Cfg) }
fn step(a: &Act, m: &mut U256) -> Result<bool, Wrong> {
    let Act::Block(c) = a.clone();
    unhashed::put(b":cfg", &c);
    let old = sp_io::with_ext(|e| e.map.clone());
    <Fee as Hooks<u64>>::integrity_test();
    let before = if BaseFeePerGas::<Rt>::exists() { *m } else { U256::from(c.0) };
    must!(Fee::base_evm_fee() == before, "before", "the fee is {}, not {before}", Fee::base_evm_fee());
    let w = Fee::on_initialize(1);
    let want = fee(c).map_or(before, U256::from);
    let got = Fee::base_evm_fee();
    must!(got == want, "fee", "{c:?}: the fee is {got}, not {want}");
    must!(Fee::min_gas_price() == (want, Weight::from_parts(7, 7)) && w == Weight::from_parts(7, 7), "gas price", "{c:?}: {:?}", Fee::min_gas_price());
    // as documented: within its bounds, the fee follows load and price
    if let (Some(_), Some((n, d))) = (fee(c), c.4) {
        must!(got >= U256::from(c.1) && got <= U256::from(c.2), "bounds", "{c:?}: {got}");
        if let Some(more) = fee((c.0, c.1, c.2, c.3.saturating_add(ONE / 7), c.4)) { must!(U256::from(more) >= got, "load", "{c:?}: more load makes {more}") }
        if let Some(more) = n.checked_add(1).and_then(|n| fee((c.0, c.1, c.2, c.3, Some((n, d))))) { must!(U256::from(more) >= got, "price", "{c:?}: a better price makes {more}") }
    }
    let new = sp_io::with_ext(|e| e.map.clone());
    let key = BaseFeePerGas::<Rt>::hashed_key();
    must!(new.iter().all(|(k, v)| k[..] == key[..] || old.get(k) == Some(v)) && old.keys().all(|k| new.contains_key(k)), "contents", "{c:?}: something else changed");
    *m = got;
    Ok(true)
}
fn main() {
    let ck = kit::Check::new("P25");
    let mut acts = vec![];
    for (d, lo, hi) in [(15_000_000, 1_500_000, 14_415_000_000), (0, 0, 10), (1, 0, u128::MAX), (u128::MAX, 1, u128::MAX), (1 << 100, 5, 1 << 101), (999, 998, 1000)] {
        for m in [0, 1, ONE / 1000, ONE / 2, ONE - 1, ONE, ONE + 1, 3 * ONE, 320 * ONE, u128::MAX / 2, u128::MAX] {
            for p in [None, Some((1, 0)), Some((0, 1)), Some((1, 1)), Some((REF, ONE)), Some((REF - 1, ONE)), Some((REF + 1, ONE)), Some((2 * REF, ONE)), Some((ONE, REF)), Some((1, u128::MAX)), Some((u128::MAX, 1)), Some((u128::MAX / ONE, 1)), Some((u128::MAX / ONE + 1, 1)), Some((REF * 38, 1)), Some((REF * 39, 1)), Some((3, 7)), Some((u128::MAX, u128::MAX)), Some((161803, 10000))] {
                acts.push(Act::Block((d, lo, hi, m, p)));
            }
        }
    }
    World { name: "blocks", depth: ck.pick(2, 2), events: false, actions: &|_: &U256| acts.clone(), step: &|a: &Act, m: &mut U256| step(a, m), prepare: &|| {} }.explore(&ck, vec![start("new chain", || U256::zero()), start("far beyond", || { BaseFeePerGas::<Rt>::put(U256::MAX); U256::MAX })]);
    // every pair of a small grid around the bounds, one block each
    let mut small = vec![];
    for m in 0..ck.pick(60u128, 240) { for n in 0..ck.pick(60u128, 240) { small.push(Act::Block((1_000, 300, 5_000, m * ONE / 30, Some((n * REF / 20, ONE))))); } }
    World { name: "grid", depth: 1, events: false, actions: &|_: &U256| small.clone(), step: &|a: &Act, m: &mut U256| step(a, m), prepare: &|| {} }.explore(&ck, vec![start("new chain", || U256::zero())]);
    ck.finish()
}
