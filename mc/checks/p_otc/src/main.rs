//! P05: OTC orders, on the real pallet-otc and the stand-in tokens.
use frame_support::{parameter_types, traits::Nothing};
use hydradx_traits::registry::{AssetKind, Inspect};
use orml_traits::{parameter_type_with_key, MultiCurrency, NamedMultiReservableCurrency};
use pallet_otc::{Orders, NAMED_RESERVE_ID};
use sp_core::U256;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Otc: pallet_otc });
world::system!(Rt, ());
const ED: [u128; 5] = [1, 1, 3, 2, 1 << 126];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED[*a as usize] }; }
world::tokens!(Rt, Eds, Nothing, ());
parameter_types! { pub const Mult: u8 = 5; }
pub struct Reg;
impl Inspect for Reg {
    type AssetId = AssetId;
    type Location = u8;
    fn is_sufficient(_: AssetId) -> bool { true }
    fn exists(a: AssetId) -> bool { a != 3 }
    fn decimals(_: AssetId) -> Option<u8> { None }
    fn asset_type(_: AssetId) -> Option<AssetKind> { None }
    fn is_banned(_: AssetId) -> bool { false }
    fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
    fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
    fn existential_deposit(_: AssetId) -> Option<u128> { None }
}
impl pallet_otc::Config for Rt {
    type AssetId = AssetId;
    type AssetRegistry = Reg;
    type Currency = Tokens;
    type RuntimeEvent = RuntimeEvent;
    type ExistentialDeposits = Eds;
    type ExistentialDepositMultiplier = Mult;
    type WeightInfo = ();
}
const WHO: [u64; 3] = [1, 2, 3];
const ASSETS: [AssetId; 3] = [1, 2, 3];
#[derive(Clone, PartialEq, Debug)]
struct Order { owner: u64, i: AssetId, o: AssetId, x: u128, y: u128, part: bool }
#[derive(Clone, PartialEq, Debug)]
struct See { free: Vec<Vec<u128>>, reserved: Vec<Vec<u128>>, named: Vec<Vec<u128>>, issued: Vec<u128>, orders: Vec<(u32, Order)>, next: u32 }
fn free(a: AssetId, w: u64) -> u128 { Tokens::free_balance(a, &w) }
fn see() -> See {
    let mut orders: Vec<(u32, Order)> = Orders::<Rt>::iter().map(|(k, o)| (k, Order { owner: o.owner, i: o.asset_in, o: o.asset_out, x: o.amount_in, y: o.amount_out, part: o.partially_fillable })).collect();
    orders.sort_by_key(|o| o.0);
    let t = |f: &dyn Fn(AssetId, u64) -> u128| WHO.iter().map(|w| ASSETS.iter().map(|a| f(*a, *w)).collect()).collect();
    See {
        free: t(&free), reserved: t(&|a, w| Tokens::total_balance(a, &w) - free(a, w)), named: t(&|a, w| Tokens::reserved_balance_named(&NAMED_RESERVE_ID, a, &w)),
        issued: ASSETS.iter().map(|a| Tokens::total_issuance(*a)).collect(), orders, next: Otc::next_order_id(),
    }
}
impl See {
    fn total(&self, a: AssetId, w: u64) -> u128 { self.free[w as usize - 1][a as usize - 1] + self.reserved[w as usize - 1][a as usize - 1] }
    /// a transfer between free balances, or None if the currency cannot make it
    fn mv(&mut self, a: AssetId, from: u64, to: u64, x: u128) -> Option<()> {
        if x == 0 || from == to { return Some(()) }
        if self.total(a, to).checked_add(x)? < ED[a as usize] { return None }
        let (f, t, a) = (from as usize - 1, to as usize - 1, a as usize - 1);
        self.free[f][a] = self.free[f][a].checked_sub(x)?;
        self.free[t][a] += x;
        Some(())
    }
    fn reserve(&mut self, a: AssetId, w: u64, x: u128) -> Option<()> {
        let (w, a) = (w as usize - 1, a as usize - 1);
        self.free[w][a] = self.free[w][a].checked_sub(x)?; self.reserved[w][a] += x; self.named[w][a] += x;
        Some(())
    }
    fn unreserve(&mut self, a: AssetId, w: u64, x: u128) -> Option<()> {
        let (w, a) = (w as usize - 1, a as usize - 1);
        self.free[w][a] += x; self.reserved[w][a] = self.reserved[w][a].checked_sub(x)?; self.named[w][a] = self.named[w][a].checked_sub(x)?;
        Some(())
    }
}
fn min(a: AssetId) -> Option<u128> { ED[a as usize].checked_mul(5) }
fn enough(a: AssetId, x: u128) -> bool { min(a).map_or(false, |m| x >= m) }
#[derive(Clone, Copy, Debug)]
enum Amt { N(u128), Half, HalfPlus1, All, AllPlus1, Leave(u128) }
use Amt::*;
fn amt(x: Amt, of: u128) -> u128 { match x { N(n) => n, Half => of / 2, HalfPlus1 => of / 2 + 1, All => of, AllPlus1 => of + 1, Leave(n) => of.saturating_sub(n) } }
#[derive(Clone, Debug)]
enum Act { Place(u64, AssetId, AssetId, u128, u128, bool), Part(u64, u32, Amt), Fill(u64, u32), Cancel(u64, u32), Give(AssetId, u64, u64, Amt) }
fn settle(n: &mut See, o: &Order, who: u64, x: u128, y: u128) -> Option<()> {
    n.mv(o.i, who, o.owner, x)?;
    n.unreserve(o.o, o.owner, y)?;
    n.mv(o.o, o.owner, who, y)
}
fn step(act: &Act) -> Result<bool, Wrong> {
    let s0 = see();
    let find = |id: u32| s0.orders.iter().position(|o| o.0 == id);
    let mut n = s0.clone();
    let ev = frame_system::Pallet::<Rt>::events().len();
    let (e, r): (Option<()>, _) = match act.clone() {
        Act::Place(who, i, o, x, y, part) => {
            let e = (|| { if i == 3 || !enough(i, x) || !enough(o, y) { return None } n.reserve(o, who, y)?; n.orders.push((n.next, Order { owner: who, i, o, x, y, part })); n.next = n.next.checked_add(1)?; Some(()) })();
            n.orders.sort_by_key(|o| o.0);
            (e, call(|| Otc::place_order(signed(who), i, o, x, y, part)))
        }
        Act::Part(who, id, x) => {
            let k = find(id);
            let x = amt(x, k.map_or(7, |k| s0.orders[k].1.x));
            let e = (|| {
                let k = k?;
                let o = s0.orders[k].1.clone();
                if !o.part || x > o.x { return None }
                // what the taker receives never beats the order's price, and is within one unit of it
                let y = (U256::from(o.y) * U256::from(x) / U256::from(o.x)).as_u128();
                let (lx, ly) = (o.x - x, o.y - y);
                if !enough(o.i, lx) || !enough(o.o, ly) { return None }
                settle(&mut n, &o, who, x, y)?;
                n.orders[k].1 = Order { x: lx, y: ly, ..o };
                Some(())
            })();
            (e, call(|| Otc::partial_fill_order(signed(who), id, x)))
        }
        Act::Fill(who, id) => {
            let e = (|| { let k = find(id)?; let o = s0.orders[k].1.clone(); settle(&mut n, &o, who, o.x, o.y)?; n.orders.remove(k); Some(()) })();
            (e, call(|| Otc::fill_order(signed(who), id)))
        }
        Act::Cancel(who, id) => {
            let e = (|| { let k = find(id)?; let o = s0.orders[k].1.clone(); if o.owner != who { return None } n.unreserve(o.o, who, o.y)?; n.orders.remove(k); Some(()) })();
            (e, call(|| Otc::cancel_order(signed(who), id)))
        }
        Act::Give(a, from, to, x) => { let x = amt(x, free(a, from)); (n.mv(a, from, to, x), call(|| <Tokens as MultiCurrency<u64>>::transfer(a, &from, &to, x))) }
    };
    let s1 = see();
    must!(r.is_ok() == e.is_some(), "accept", "gives {r:?} in {s0:?}");
    if e.is_none() { must!(s0 == s1, "refused", "a refused call changed {s0:?} to {s1:?}"); }
    else {
        must!(s1 == n, "effect", "expected {n:?}, found {s1:?}");
        let now = frame_system::Pallet::<Rt>::events();
        let told = now[ev..].iter().filter(|e| matches!(e.event, RuntimeEvent::Otc(_))).count();
        must!(sp_io::with_ext(|e| e.drop_events) || told == usize::from(!matches!(act, Act::Give(..))), "event", "{told} events of the pallet");
    }
    // every order is backed by exactly what it offers, whatever happened before
    for (w, who) in WHO.iter().enumerate() { for (a, asset) in ASSETS.iter().enumerate() {
        let owed: u128 = s1.orders.iter().filter(|o| o.1.owner == *who && o.1.o == *asset).map(|o| o.1.y).sum();
        must!(s1.named[w][a] == owed && s1.reserved[w][a] == owed, "backing", "orders of {who} offer {owed} of {asset}, {} is reserved for them, {} in all", s1.named[w][a], s1.reserved[w][a]);
    } }
    for o in &s1.orders { must!(enough(o.1.i, o.1.x) && enough(o.1.o, o.1.y) && o.0 < s1.next, "order", "{o:?}, next {}", s1.next); }
    must!(s1.issued == s0.issued, "issuance", "{:?} -> {:?}", s0.issued, s1.issued);
    Ok(r.is_ok())
}
fn begin(name: &str, funds: [u128; 3], acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        for w in WHO { for a in ASSETS { if funds[w as usize - 1] > 0 { let _ = <Tokens as MultiCurrency<u64>>::deposit(a, &w, funds[w as usize - 1]); } } }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P05");
    let acts = |_: &()| {
        let mut v = vec![];
        for (w, i, o, x, y, p) in [(1, 1, 2, 20, 33, true), (1, 2, 1, 40, 17, true), (2, 1, 2, 15, 15, false), (2, 2, 1, 31, 50, true), (1, 1, 2, 4, 33, true), (1, 1, 2, 20, 14, true), (1, 1, 2, 5, 15, true), (1, 3, 1, 20, 20, true), (2, 1, 3, 20, 20, true), (1, 1, 1, 12, 24, true), (3, 1, 2, 1, 1, false), (3, 1, 2, 6, 16, true)] { v.push(Act::Place(w, i, o, x, y, p)); }
        for id in 0..3 {
            for w in [1, 2, 3] { v.push(Act::Fill(w, id)); }
            v.push(Act::Cancel(1, id)); v.push(Act::Cancel(2, id));
            for x in [N(0), N(1), N(2), Half, HalfPlus1, All, AllPlus1, Leave(5), Leave(15), Leave(4)] { v.push(Act::Part(2, id, x)); }
            v.push(Act::Part(1, id, Half)); v.push(Act::Part(3, id, N(1))); v.push(Act::Part(3, id, N(4)));
        }
        v.push(Act::Give(2, 1, 2, All)); v.push(Act::Give(1, 3, 2, All)); v.push(Act::Give(2, 2, 1, Half));
        v
    };
    let starts = vec![
        begin("empty", [100, 100, 20], &[]),
        begin("one order", [100, 60, 6], &[Act::Place(1, 1, 2, 31, 50, true)]),
        begin("poor taker", [200, 40, 0], &[Act::Place(1, 1, 2, 20, 61, true), Act::Place(1, 2, 1, 16, 90, true), Act::Place(2, 1, 2, 15, 30, false)]),
    ];
    World { name: "small", depth: ck.pick(4, 6), events: true, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    let acts = |_: &()| {
        let mut v = vec![];
        for (w, i, o, x, y) in [(1, 1, 2, 1u128 << 100, (1 << 120) + 3), (2, 2, 1, (1u128 << 120) - 7, 999_999_999_999_999_989), (1, 1, 2, u128::MAX, 1 << 90), (1, 1, 2, 1 << 90, u128::MAX)] { v.push(Act::Place(w, i, o, x, y, true)); }
        for id in 0..3 {
            for w in [1, 2] { v.push(Act::Fill(w, id)); v.push(Act::Cancel(w, id)); for x in [N(1), N(1_000_003), N(12_345_678_901_234_567), Half, HalfPlus1, Leave(5), Leave(20)] { v.push(Act::Part(w, id, x)); } }
        }
        v
    };
    World { name: "large", depth: ck.pick(4, 6), events: true, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, vec![begin("empty", [1 << 124, 1 << 123, 0], &[])]);
    ck.finish()
}
