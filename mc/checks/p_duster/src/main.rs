//! P16: the duster, on the real pallets duster and currencies over the stand-in tokens and balances, which call the
//! duster for dust and ask it which accounts may keep dust.
use frame_support::{parameter_types, storage::unhashed, traits::ConstU128};
use hydradx_traits::pools::DustRemovalAccountWhitelist;
use orml_traits::{currency::MutationHooks, parameter_type_with_key, GetByKey, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency};
use pallet_currencies::BasicCurrencyAdapter;
use pallet_duster::{DusterWhitelist, Event};
use std::collections::{BTreeMap, BTreeSet};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Duster: pallet_duster });
world::system!(Rt, pallet_balances::AccountData<u128>);
world::balances!(Rt, 4);
/// the existential deposit of asset 2 can be raised on a running chain, as in the asset registry
fn ed(c: AssetId) -> u128 { match c { 0 => 4, 1 => 5, _ => unhashed::get::<u128>(b":ed").unwrap_or(3) } }
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ed(*a) }; }
pub struct Hooks;
impl MutationHooks<u64, AssetId, Balance> for Hooks {
    type OnDust = Duster;
    type OnSlash = ();
    type PreDeposit = ();
    type PostDeposit = ();
    type PreTransfer = ();
    type PostTransfer = ();
    type OnNewTokenAccount = ();
    type OnKilledTokenAccount = ();
}
world::tokens!(Rt, Eds, DusterWhitelist<Rt>, Hooks);
parameter_types! { pub const Native: AssetId = 0; }
impl pallet_currencies::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type NativeCurrency = BasicCurrencyAdapter<Rt, Balances, i128, u64>;
    type GetNativeCurrencyId = Native;
    type WeightInfo = ();
}
pub struct Mins;
impl GetByKey<AssetId, Balance> for Mins { fn get(a: &AssetId) -> Balance { ed(*a) } }
const REWARD: u128 = 6;
impl pallet_duster::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = AssetId;
    type MultiCurrency = Currencies;
    type MinCurrencyDeposits = Mins;
    type Reward = ConstU128<REWARD>;
    type NativeCurrencyId = Native;
    type BlacklistUpdateOrigin = frame_system::EnsureRoot<u64>;
    type WeightInfo = ();
}
const DEST: u64 = 8;
const POT: u64 = 9;
const WHO: [u64; 5] = [1, 2, 3, DEST, POT];
const AS: [AssetId; 3] = [0, 1, 2];
#[derive(Clone, Debug)]
enum Act { Dust(u64, u64, AssetId), Add(Option<u64>, u64), Remove(Option<u64>, u64), TraitAdd(u64), TraitRemove(u64), Move(AssetId, u64, u64, u128), Withdraw(AssetId, u64, u128), Raise(u128), Reserve(AssetId, u64, u128), Unreserve(AssetId, u64, u128) }
#[derive(Clone, PartialEq, Debug)]
struct See { bal: BTreeMap<(AssetId, u64), (u128, u128)>, keep: BTreeSet<u64>, issued: [u128; 3] }
fn frozen(c: AssetId, w: u64) -> u128 { if c == 0 { System::account(w).data.frozen } else { Tokens::accounts(w, c).frozen } }
fn see() -> See {
    let mut bal = BTreeMap::new();
    for w in WHO { for c in AS { let b = if c == 0 { let d = System::account(w).data; (d.free, d.reserved) } else { let d = Tokens::accounts(w, c); (d.free, d.reserved) }; if b != (0, 0) { bal.insert((c, w), b); } } }
    See { bal, keep: WHO.into_iter().filter(|w| Duster::blacklisted(*w).is_some()).collect(), issued: AS.map(|c| <Currencies as MultiCurrency<u64>>::total_issuance(c)) }
}
impl See {
    fn b(&self, c: AssetId, w: u64) -> (u128, u128) { *self.bal.get(&(c, w)).unwrap_or(&(0, 0)) }
    fn set(&mut self, c: AssetId, w: u64, b: (u128, u128)) { if b == (0, 0) { self.bal.remove(&(c, w)); } else { self.bal.insert((c, w), b); } }
    fn total(&self, c: AssetId, w: u64) -> u128 { let b = self.b(c, w); b.0 + b.1 }
    /// what the ledgers do with a balance left below the existential deposit: balances burns the free part, tokens offers it to the duster
    fn swept(&mut self, c: AssetId, w: u64) {
        let t = self.total(c, w);
        if t == 0 || t >= ed(c) { return }
        if c == 0 { if self.b(0, w).1 == 0 { self.issued[0] -= t; self.set(0, w, (0, 0)); } return }
        // dust goes to the destination, unless the account may keep it or part of it cannot move
        if self.keep.contains(&w) || w == DEST || self.b(c, w).1 > 0 || frozen(c, w) > 0 { return }
        let d = self.b(c, DEST);
        if d.0 + d.1 + t < ed(c) && !self.keep.contains(&DEST) { return }
        self.set(c, DEST, (d.0 + t, d.1));
        self.set(c, w, (0, 0));
    }
    fn mv(&mut self, c: AssetId, f: u64, t: u64, x: u128) -> Option<()> {
        if x == 0 || f == t { return Some(()) }
        let (a, b) = (self.b(c, f), self.b(c, t));
        let left = a.0.checked_sub(x)?;
        if left + if c == 0 { a.1 } else { 0 } < frozen(c, f) { return None }
        // the rest of a reserve cannot be left without free balance on balances
        if c == 0 && a.1 > 0 && left < ed(0) { return None }
        if b.0 + if c == 0 { 0 } else { b.1 } + x < ed(c) && !(c > 0 && self.keep.contains(&t)) { return None }
        self.set(c, f, (left, a.1));
        self.set(c, t, (b.0 + x, b.1));
        self.swept(c, f);
        Some(())
    }
}
fn step(a: &Act) -> Result<bool, Wrong> {
    let s0 = see();
    let mut n = s0.clone();
    let ev = System::events().len();
    let mut told: Vec<Event<Rt>> = vec![];
    let (e, r): (Option<()>, DispatchResult) = match *a {
        Act::Dust(who, w, c) => {
            let t = s0.total(c, w);
            let e = (|| {
                if s0.keep.contains(&w) || w == DEST || t == 0 || t >= ed(c) { return None }
                // everything the account holds, to the destination
                n.mv(c, w, DEST, t)?;
                told.push(Event::Dusted { who: w, amount: t });
                // a pot that cannot pay does not stop the dusting
                let mut m = n.clone();
                if m.mv(0, POT, who, REWARD).is_some() { n = m; }
                Some(())
            })();
            (e, call(|| Duster::dust_account(signed(who), w, c)))
        }
        Act::Add(o, w) => { let e = o.is_none().then(|| { n.keep.insert(w); told.push(Event::Added { who: w }); }); (e, call(|| Duster::add_nondustable_account(o.map_or(root(), signed), w))) }
        Act::Remove(o, w) => { let e = (o.is_none() && n.keep.remove(&w)).then(|| { told.push(Event::Removed { who: w }); }); (e, call(|| Duster::remove_nondustable_account(o.map_or(root(), signed), w))) }
        Act::TraitAdd(w) => { n.keep.insert(w); (Some(()), call(|| <Duster as DustRemovalAccountWhitelist<u64>>::add_account(&w))) }
        Act::TraitRemove(w) => (n.keep.remove(&w).then_some(()), call(|| <Duster as DustRemovalAccountWhitelist<u64>>::remove_account(&w))),
        Act::Move(c, f, t, x) => (n.mv(c, f, t, x), call(|| <Currencies as MultiCurrency<u64>>::transfer(c, &f, &t, x))),
        Act::Withdraw(c, w, x) => {
            let b = s0.b(c, w);
            let e = b.0.checked_sub(x).filter(|l| l + if c == 0 { b.1 } else { 0 } >= frozen(c, w)).map(|l| { n.set(c, w, (l, b.1)); n.issued[c as usize] -= x; n.swept(c, w); });
            (e, call(|| <Currencies as MultiCurrency<u64>>::withdraw(c, &w, x)))
        }
        Act::Raise(x) => { unhashed::put(b":ed", &x); (Some(()), Ok(())) }
        Act::Reserve(c, w, x) => { let b = s0.b(c, w); let e = b.0.checked_sub(x).filter(|l| *l >= frozen(c, w)).map(|l| n.set(c, w, (l, b.1 + x))); (e, call(|| <Currencies as MultiReservableCurrency<u64>>::reserve(c, &w, x))) }
        Act::Unreserve(c, w, x) => { let b = s0.b(c, w); let x = x.min(b.1); n.set(c, w, (b.0 + x, b.1 - x)); if x > 0 { n.swept(c, w); } (Some(()), call(|| { <Currencies as MultiReservableCurrency<u64>>::unreserve(c, &w, x); Ok::<(), sp_runtime::DispatchError>(()) })) }
    };
    let s1 = see();
    must!(r.is_ok() == e.is_some(), "accept", "gives {r:?} in {s0:?}");
    if e.is_none() { must!(s0 == s1, "refused", "a refused call changed {s0:?} to {s1:?}"); return Ok(false); }
    must!(s1 == n, "effect", "expected {n:?}, found {s1:?}");
    let got: Vec<_> = System::events()[ev..].iter().filter_map(|e| if let RuntimeEvent::Duster(e) = &e.event { Some(e.clone()) } else { None }).collect();
    must!(got == told, "event", "announces {got:?} instead of {told:?}");
    for c in AS { let sum: u128 = WHO.iter().map(|w| s1.total(c, *w)).sum(); must!(sum == s1.issued[c as usize], "issuance", "{sum} of {c} held, {} issued", s1.issued[c as usize]); }
    // dusting destroys nothing and only ever takes from accounts below the existential deposit
    if let Act::Dust(_, w, c) = *a {
        must!(s0.issued == s1.issued, "destroyed", "{:?} became {:?}", s0.issued, s1.issued);
        must!(s0.total(c, w) < ed(c) && !s0.keep.contains(&w) && s1.total(c, DEST) == s0.total(c, DEST) + s0.total(c, w), "taken", "{s0:?} became {s1:?}");
    }
    Ok(true)
}
fn begin(name: &str, dest: bool, pot: u128, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        frame_support::traits::BuildGenesisConfig::build(&pallet_duster::GenesisConfig::<Rt> { account_blacklist: vec![], reward_account: Some(POT), dust_account: Some(DEST) });
        for (c, w, x) in [(0, 1, 50u128), (1, 1, 50), (2, 1, 50), (0, 2, 90), (1, 2, 12), (2, 2, 4)] { <Currencies as MultiCurrencyExtended<u64>>::update_balance(c, &w, x as i128).unwrap(); }
        if dest { for c in AS { <Currencies as MultiCurrency<u64>>::deposit(c, &DEST, 20).unwrap(); } }
        if pot > 0 { <Currencies as MultiCurrency<u64>>::deposit(0, &POT, pot).unwrap(); }
        if name.contains("locked") { <Currencies as MultiLockableCurrency<u64>>::set_lock(*b"lock-one", 2, &2, 2).unwrap(); }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P16");
    let mut v = vec![];
    for who in [1, 3] { for w in [1, 2, 3, DEST] { for c in AS { if who == 1 || c > 0 { v.push(Act::Dust(who, w, c)); } } } }
    v.push(Act::Dust(2, 2, 2));
    for w in [1, 2, 3] { v.push(Act::Add(None, w)); v.push(Act::Remove(None, w)); if w > 1 { v.push(Act::TraitAdd(w)); v.push(Act::TraitRemove(w)); } }
    v.push(Act::Add(Some(1), 1)); v.push(Act::Remove(Some(2), 2)); v.push(Act::Add(None, DEST)); v.push(Act::Remove(None, DEST));
    for (f, t) in [(1, 3), (2, 1), (3, 2), (1, 2)] { for (c, xs) in [(1, vec![2, 9, 10, 47, 12]), (2, vec![1, 2, 4, 49, 50]), (0, vec![47, 2, 50])] { for x in xs { v.push(Act::Move(c, f, t, x)); } } }
    for (c, w, x) in [(1, 1, 47), (2, 2, 2), (0, 1, 48), (1, 2, 12)] { v.push(Act::Withdraw(c, w, x)); }
    for x in [5, 51, 3] { v.push(Act::Raise(x)); }
    for (c, w, x) in [(2, 2, 2), (2, 2, 4), (1, 1, 3)] { v.push(Act::Reserve(c, w, x)); v.push(Act::Unreserve(c, w, x)); }
    let starts = vec![
        begin("destination and pot hold all", true, 40, &[]),
        begin("pot nearly empty", true, 11, &[Act::Raise(5)]),
        begin("no pot", true, 0, &[Act::Add(None, 3), Act::Move(1, 1, 3, 2), Act::Move(2, 2, 3, 1)]),
        begin("destination holds nothing", false, 40, &[Act::Add(None, 2), Act::Move(1, 2, 1, 10), Act::Raise(5)]),
        begin("locked below a raised deposit", true, 40, &[Act::Raise(5)]),
        begin("destination spared", false, 17, &[Act::Add(None, DEST), Act::Raise(6)]),
    ];
    World { name: "duster", depth: ck.pick(4, 6), events: true, actions: &|_: &()| v.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
