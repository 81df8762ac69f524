//! P07: dynamic fees, on the real pallet-dynamic-fees.
use frame_support::{parameter_types, storage::unhashed};
use hydra_dx_math::dynamic_fees::{recalculate_asset_fee, recalculate_protocol_fee, types as mt};
use orml_traits::GetByKey;
use pallet_dynamic_fees::{traits::{Volume, VolumeProvider}, types::{FeeEntry, FeeParams}, AssetFee, UpdateAndRetrieveFees};
use sp_runtime::{FixedU128, Permill};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Fees: pallet_dynamic_fees });
world::system!(Rt, ());
pub struct Vol(u128, u128);
impl Volume<Balance> for Vol { fn amount_in(&self) -> Balance { self.0 } fn amount_out(&self) -> Balance { self.1 } }
pub struct Oracle;
fn key(a: AssetId, what: u8) -> [u8; 6] { [b':', what, a as u8, (a >> 8) as u8, 0, 0] }
impl VolumeProvider<AssetId, Balance> for Oracle {
    type Volume = Vol;
    fn asset_volume(a: AssetId) -> Option<Vol> { unhashed::get::<(u128, u128)>(&key(a, b'v')).map(|v| Vol(v.0, v.1)) }
    fn asset_liquidity(a: AssetId) -> Option<Balance> { unhashed::get(&key(a, b'l')) }
}
type P = (u32, u32, u128, u128);
fn params(p: P) -> FeeParams<Permill> { FeeParams { min_fee: Permill::from_parts(p.0), max_fee: Permill::from_parts(p.1), decay: FixedU128::from_inner(p.2), amplification: FixedU128::from_inner(p.3) } }
fn mparams(p: P) -> mt::FeeParams<Permill> { mt::FeeParams { min_fee: Permill::from_parts(p.0), max_fee: Permill::from_parts(p.1), decay: FixedU128::from_inner(p.2), amplification: FixedU128::from_inner(p.3) } }
fn cfg() -> (P, P) { unhashed::get(b":cfg").unwrap_or(((0, 0, 0, 1), (0, 0, 0, 1))) }
parameter_types! {
    pub AssetP: FeeParams<Permill> = params(cfg().0);
    pub ProtocolP: FeeParams<Permill> = params(cfg().1);
}
impl pallet_dynamic_fees::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type BlockNumberProvider = System;
    type Fee = Permill;
    type AssetId = AssetId;
    type Oracle = Oracle;
    type AssetFeeParameters = AssetP;
    type ProtocolFeeParameters = ProtocolP;
}
/// (fees, block of the last change) of an asset, as the property defines them
type Book = [Option<(u32, u32, u64)>; 2];
#[derive(Clone, Debug)]
enum Act { Get(AssetId), Volume(AssetId, Option<(u128, u128)>), Liquidity(AssetId, Option<u128>), Blocks(u64) }
fn stored(a: AssetId) -> Option<(u32, u32, u64)> { AssetFee::<Rt>::get(a).map(|FeeEntry { asset_fee, protocol_fee, timestamp }| (asset_fee.deconstruct(), protocol_fee.deconstruct(), timestamp)) }
fn step(act: &Act, m: &mut Book) -> Result<bool, Wrong> {
    let now = System::block_number();
    match act.clone() {
        Act::Get(a) => {
            let k = a as usize - 1;
            let (pa, pp) = cfg();
            let old = m[k].unwrap_or((pa.0, pp.0, 0));
            let got: (Permill, Permill) = <UpdateAndRetrieveFees<Rt> as GetByKey<AssetId, (Permill, Permill)>>::get(&a);
            let got = (got.0.deconstruct(), got.1.deconstruct());
            let mut want = (old.0, old.1);
            if let (true, Some((i, o)), Some(l)) = (now != old.2, unhashed::get::<(u128, u128)>(&key(a, b'v')), unhashed::get::<u128>(&key(a, b'l'))) {
                let e = || mt::OracleEntry { amount_in: i, amount_out: o, liquidity: l };
                want = (recalculate_asset_fee(e(), Permill::from_parts(old.0), (now - old.2) as u128, mparams(pa)).deconstruct(), recalculate_protocol_fee(e(), Permill::from_parts(old.1), (now - old.2) as u128, mparams(pp)).deconstruct());
                m[k] = Some((want.0, want.1, now));
                // money leaving the asset never lowers its fee below plain decay, money coming in never raises it above
                let still = mt::OracleEntry { amount_in: i, amount_out: i, liquidity: l };
                let (d0, d1) = (recalculate_asset_fee(still, Permill::from_parts(old.0), (now - old.2) as u128, mparams(pa)).deconstruct(), recalculate_protocol_fee(mt::OracleEntry { amount_in: i, amount_out: i, liquidity: l }, Permill::from_parts(old.1), (now - old.2) as u128, mparams(pp)).deconstruct());
                if o >= i { must!(got.0 >= d0 && got.1 <= d1, "direction", "net outflow {i}/{o} moves the fees from {old:?} to {got:?}, without it {d0}/{d1}"); }
                if i >= o { must!(got.0 <= d0 && got.1 >= d1, "direction", "net inflow {i}/{o} moves the fees from {old:?} to {got:?}, without it {d0}/{d1}"); }
            }
            must!(got == want, "fee", "fees {got:?}, expected {want:?} from {old:?} at {now}");
            must!(got.0 >= pa.0 && got.0 <= pa.1 && got.1 >= pp.0 && got.1 <= pp.1, "bounds", "fees {got:?} outside {pa:?} {pp:?}");
            // asking again in the same block gives the same answer
            let again: (Permill, Permill) = <UpdateAndRetrieveFees<Rt> as GetByKey<AssetId, (Permill, Permill)>>::get(&a);
            must!((again.0.deconstruct(), again.1.deconstruct()) == got || unhashed::get::<u128>(&key(a, b'l')).is_none(), "stable", "asked twice at {now}: {got:?} then {again:?}");
        }
        Act::Volume(a, v) => match v { Some(v) => unhashed::put(&key(a, b'v'), &v), None => unhashed::kill(&key(a, b'v')) },
        Act::Liquidity(a, l) => match l { Some(l) => unhashed::put(&key(a, b'l'), &l), None => unhashed::kill(&key(a, b'l')) },
        Act::Blocks(n) => System::set_block_number(now + n),
    }
    for a in [1, 2] { must!(stored(a) == m[a as usize - 1], "record", "fees of {a}: {:?}, expected {:?}", stored(a), m[a as usize - 1]); }
    Ok(true)
}
fn begin(name: &str, p: (P, P)) -> Start<Book> {
    start(name, || { System::set_block_number(1); unhashed::put(b":cfg", &p); for a in [1, 2] { unhashed::put(&key(a, b'v'), &(0u128, 0u128)); unhashed::put(&key(a, b'l'), &1_000_000u128); } [None, None] })
}
fn main() {
    let ck = kit::Check::new("P07");
    const ONE: u128 = 1_000_000_000_000_000_000;
    let acts = |_: &Book| {
        let mut v = vec![Act::Get(1), Act::Get(2), Act::Blocks(1), Act::Blocks(7), Act::Blocks(100_000)];
        for x in [None, Some((0, 0)), Some((10_000, 0)), Some((0, 10_000)), Some((3_000, 500_000)), Some((900_000, 1_000)), Some((u128::MAX, 0)), Some((0, u128::MAX)), Some((777, 777))] { v.push(Act::Volume(1, x)); }
        for l in [None, Some(0), Some(1), Some(1_000_000), Some(u128::MAX)] { v.push(Act::Liquidity(1, l)); }
        v
    };
    let starts = vec![
        begin("as in the runtime", ((2_500, 50_000, 10_000_000_000_000, 2 * ONE), (500, 1_000, 5_000_000_000_000, ONE))),
        begin("no decay, large amplification", ((0, 1_000_000, 0, 10 * ONE), (1_000, 999_999, 0, 5 * ONE))),
        begin("fast decay", ((100, 900_000, ONE / 10, ONE), (0, 1_000_000, ONE / 1000, ONE / 3))),
        begin("one possible fee", ((3_000, 3_000, ONE / 10, ONE), (0, 0, ONE / 1000, ONE / 3))),
    ];
    World { name: "fees", depth: ck.pick(7, 9), events: false, actions: &acts, step: &step, prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
