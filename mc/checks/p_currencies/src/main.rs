//! P15: the currencies router, on the real pallet-currencies over the stand-in balances and tokens.
//! Every operation of the router is compared with the same operation of the ledger it must reach.
use frame_support::{parameter_types, storage::unhashed, traits::{fungible, fungibles, tokens::{Fortitude, Precision, Preservation, Provenance}, BalanceStatus, Contains, Currency as _, ExistenceRequirement, Imbalance, LockableCurrency, NamedReservableCurrency, ReservableCurrency, WithdrawReasons}};
use orml_traits::{parameter_type_with_key, BasicCurrency, BasicCurrencyExtended, BasicLockableCurrency, BasicReservableCurrency, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency, NamedMultiReservableCurrency, TransferAll};
use pallet_currencies::{fungibles::FungibleCurrencies, BasicCurrencyAdapter, Currency, Event};
use sp_runtime::DispatchError;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies });
world::system!(Rt, pallet_balances::AccountData<u128>);
const ED: [u128; 3] = [4, 5, 3];
parameter_type_with_key! { pub Eds: |a: AssetId| -> Balance { ED[*a as usize] }; }
pub struct Wl;
impl Contains<u64> for Wl { fn contains(a: &u64) -> bool { *a == 3 && unhashed::get::<bool>(b":wl").unwrap_or(false) } }
world::tokens!(Rt, Eds, Wl, ());
world::balances!(Rt, 4);
parameter_types! { pub const Native: AssetId = 0; pub const Other: AssetId = 1; pub const Third: AssetId = 2; }
impl pallet_currencies::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type MultiCurrency = Tokens;
    type NativeCurrency = Adapter;
    type GetNativeCurrencyId = Native;
    type WeightInfo = ();
}
type Adapter = BasicCurrencyAdapter<Rt, Balances, i128, u64>;
type CN = Currency<Rt, Native>;
type CO = Currency<Rt, Other>;
type CT = Currency<Rt, Third>;
type FC = FungibleCurrencies<Rt>;
const WHO: [u64; 4] = [1, 2, 3, 4];
const AS: [AssetId; 3] = [0, 1, 2];
const L: [[u8; 8]; 2] = [*b"lock-one", *b"lock-two"];
const R: [[u8; 8]; 2] = [*b"resv-one", *b"resv-two"];
/// how the operation is asked for
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via { Call, Multi, Basic }
use Via::*;
#[derive(Clone, Debug)]
enum Act {
    Transfer(Via, AssetId, u64, u64, u128), Native(u64, u64, u128), Deposit(Via, AssetId, u64, u128), Withdraw(Via, AssetId, u64, u128), Slash(Via, AssetId, u64, u128), Update(Via, AssetId, u64, i128), NotRoot(AssetId, u64, i128), Unsigned(AssetId, u64, u128),
    SetLock(Via, usize, AssetId, u64, u128), Extend(Via, usize, AssetId, u64, u128), Unlock(Via, usize, AssetId, u64),
    Reserve(Via, AssetId, u64, u128), Unreserve(Via, AssetId, u64, u128), SlashReserved(Via, AssetId, u64, u128), Repatriate(Via, AssetId, u64, u64, u128, bool),
    ReserveN(usize, AssetId, u64, u128), UnreserveN(usize, AssetId, u64, u128), SlashReservedN(usize, AssetId, u64, u128), RepatriateN(usize, AssetId, u64, u64, u128, bool),
    All(u64, u64), Mint(AssetId, u64, u128), Burn(AssetId, u64, u128, bool, bool), FTransfer(AssetId, u64, u64, u128, u8),
}
type E = DispatchError;
fn st(b: bool) -> BalanceStatus { if b { BalanceStatus::Reserved } else { BalanceStatus::Free } }
fn pres(k: u8) -> Preservation { [Preservation::Expendable, Preservation::Protect, Preservation::Preserve][k as usize] }
fn prec(b: bool) -> Precision { if b { Precision::Exact } else { Precision::BestEffort } }
fn forced(b: bool) -> Fortitude { if b { Fortitude::Force } else { Fortitude::Polite } }
fn gap<I>(r: (I, u128)) -> u128 { r.1 }
fn all() -> WithdrawReasons { WithdrawReasons::all() }
/// The primitive operation on the ledger that holds the currency, and what it answers.
fn spec(a: &Act) -> Result<u128, E> {
    let none = |_: ()| 0;
    match *a {
        Act::Transfer(_, _, f, t, x) if x == 0 || f == t => Ok(0),
        Act::Native(f, t, x) | Act::Transfer(_, 0, f, t, x) => Balances::transfer(&f, &t, x, ExistenceRequirement::AllowDeath).map(none),
        Act::Transfer(_, c, f, t, x) => <Tokens as MultiCurrency<u64>>::transfer(c, &f, &t, x).map(none),
        Act::Deposit(_, _, _, 0) | Act::Withdraw(_, _, _, 0) => Ok(0),
        Act::Deposit(_, c, w, x) => grow(c, w, x),
        Act::Withdraw(_, c, w, x) => shrink(c, w, x),
        Act::Slash(_, 0, w, x) => Ok(gap(Balances::slash(&w, x))),
        Act::Slash(_, c, w, x) => Ok(<Tokens as MultiCurrency<u64>>::slash(c, &w, x)),
        Act::Update(_, c, w, x) => if x > 0 { grow(c, w, x as u128) } else if x < 0 { shrink(c, w, x.unsigned_abs()) } else { Ok(0) },
        Act::NotRoot(..) | Act::Unsigned(..) => Err(E::BadOrigin),
        Act::SetLock(_, i, 0, w, x) => { Balances::set_lock(L[i], &w, x, all()); Ok(0) }
        Act::SetLock(_, i, c, w, x) => <Tokens as MultiLockableCurrency<u64>>::set_lock(L[i], c, &w, x).map(none),
        Act::Extend(_, i, 0, w, x) => { Balances::extend_lock(L[i], &w, x, all()); Ok(0) }
        Act::Extend(_, i, c, w, x) => <Tokens as MultiLockableCurrency<u64>>::extend_lock(L[i], c, &w, x).map(none),
        Act::Unlock(_, i, 0, w) => { Balances::remove_lock(L[i], &w); Ok(0) }
        Act::Unlock(_, i, c, w) => <Tokens as MultiLockableCurrency<u64>>::remove_lock(L[i], c, &w).map(none),
        Act::Reserve(_, 0, w, x) => <Balances as ReservableCurrency<u64>>::reserve(&w, x).map(none),
        Act::Reserve(_, c, w, x) => <Tokens as MultiReservableCurrency<u64>>::reserve(c, &w, x).map(none),
        Act::Unreserve(_, 0, w, x) => Ok(<Balances as ReservableCurrency<u64>>::unreserve(&w, x)),
        Act::Unreserve(_, c, w, x) => Ok(<Tokens as MultiReservableCurrency<u64>>::unreserve(c, &w, x)),
        Act::SlashReserved(_, 0, w, x) => Ok(gap(<Balances as ReservableCurrency<u64>>::slash_reserved(&w, x))),
        Act::SlashReserved(_, c, w, x) => Ok(<Tokens as MultiReservableCurrency<u64>>::slash_reserved(c, &w, x)),
        Act::Repatriate(_, 0, f, t, x, s) => <Balances as ReservableCurrency<u64>>::repatriate_reserved(&f, &t, x, st(s)),
        Act::Repatriate(_, c, f, t, x, s) => <Tokens as MultiReservableCurrency<u64>>::repatriate_reserved(c, &f, &t, x, st(s)),
        Act::ReserveN(i, 0, w, x) => <Balances as NamedReservableCurrency<u64>>::reserve_named(&R[i], &w, x).map(none),
        Act::ReserveN(i, c, w, x) => <Tokens as NamedMultiReservableCurrency<u64>>::reserve_named(&R[i], c, &w, x).map(none),
        Act::UnreserveN(i, 0, w, x) => Ok(<Balances as NamedReservableCurrency<u64>>::unreserve_named(&R[i], &w, x)),
        Act::UnreserveN(i, c, w, x) => Ok(<Tokens as NamedMultiReservableCurrency<u64>>::unreserve_named(&R[i], c, &w, x)),
        Act::SlashReservedN(i, 0, w, x) => Ok(gap(<Balances as NamedReservableCurrency<u64>>::slash_reserved_named(&R[i], &w, x))),
        Act::SlashReservedN(i, c, w, x) => Ok(<Tokens as NamedMultiReservableCurrency<u64>>::slash_reserved_named(&R[i], c, &w, x)),
        Act::RepatriateN(i, 0, f, t, x, s) => <Balances as NamedReservableCurrency<u64>>::repatriate_reserved_named(&R[i], &f, &t, x, st(s)),
        Act::RepatriateN(i, c, f, t, x, s) => <Tokens as NamedMultiReservableCurrency<u64>>::repatriate_reserved_named(&R[i], c, &f, &t, x, st(s)),
        Act::All(f, t) => {
            for c in AS { let x = free(c, f); if c > 0 && x > 0 { <Tokens as MultiCurrency<u64>>::transfer(c, &f, &t, x)?; } }
            Balances::transfer(&f, &t, free(0, f), ExistenceRequirement::AllowDeath).map(none)
        }
        Act::Mint(0, w, x) => <Balances as fungible::Mutate<u64>>::mint_into(&w, x),
        Act::Mint(c, w, x) => <Tokens as fungibles::Mutate<u64>>::mint_into(c, &w, x),
        Act::Burn(0, w, x, p, f) => <Balances as fungible::Mutate<u64>>::burn_from(&w, x, prec(p), forced(f)),
        Act::Burn(c, w, x, p, f) => <Tokens as fungibles::Mutate<u64>>::burn_from(c, &w, x, prec(p), forced(f)),
        Act::FTransfer(0, f, t, x, k) => <Balances as fungible::Mutate<u64>>::transfer(&f, &t, x, pres(k)),
        Act::FTransfer(c, f, t, x, k) => <Tokens as fungibles::Mutate<u64>>::transfer(c, &f, &t, x, pres(k)),
    }
}
/// what is deposited arrives in full or not at all
fn grow(c: AssetId, w: u64, x: u128) -> Result<u128, E> {
    if c == 0 { let i = Balances::deposit_creating(&w, x); let got = i.peek(); drop(i); if got == x { Ok(0) } else { Err(E::Other("part")) } } else { <Tokens as MultiCurrency<u64>>::deposit(c, &w, x).map(|_| 0) }
}
fn shrink(c: AssetId, w: u64, x: u128) -> Result<u128, E> {
    if c == 0 { Balances::withdraw(&w, x, all(), ExistenceRequirement::AllowDeath).map(|_| 0) } else { <Tokens as MultiCurrency<u64>>::withdraw(c, &w, x).map(|_| 0) }
}
macro_rules! basic { ($c:expr, $t:ident => $e:expr) => { match $c { 0 => { type $t = CN; $e } 1 => { type $t = CO; $e } _ => { type $t = CT; $e } } } }
type P = Currencies;
fn real(a: &Act) -> Result<u128, E> {
    let none = |_: ()| 0;
    match *a {
        Act::Transfer(Call, c, f, t, x) => P::transfer(signed(f), t, c, x).map(none),
        Act::Transfer(Multi, c, f, t, x) => <P as MultiCurrency<u64>>::transfer(c, &f, &t, x).map(none),
        Act::Transfer(Basic, c, f, t, x) => basic!(c, T => <T as BasicCurrency<u64>>::transfer(&f, &t, x)).map(none),
        Act::Native(f, t, x) => P::transfer_native_currency(signed(f), t, x).map(none),
        Act::Deposit(Basic, c, w, x) => basic!(c, T => <T as BasicCurrency<u64>>::deposit(&w, x)).map(none),
        Act::Deposit(_, c, w, x) => <P as MultiCurrency<u64>>::deposit(c, &w, x).map(none),
        Act::Withdraw(Basic, c, w, x) => basic!(c, T => <T as BasicCurrency<u64>>::withdraw(&w, x)).map(none),
        Act::Withdraw(_, c, w, x) => <P as MultiCurrency<u64>>::withdraw(c, &w, x).map(none),
        Act::Slash(Basic, c, w, x) => Ok(basic!(c, T => <T as BasicCurrency<u64>>::slash(&w, x))),
        Act::Slash(_, c, w, x) => Ok(<P as MultiCurrency<u64>>::slash(c, &w, x)),
        Act::Update(Call, c, w, x) => P::update_balance(root(), w, c, x).map(none),
        Act::Update(Multi, c, w, x) => <P as MultiCurrencyExtended<u64>>::update_balance(c, &w, x).map(none),
        Act::Update(Basic, c, w, x) => basic!(c, T => <T as BasicCurrencyExtended<u64>>::update_balance(&w, x)).map(none),
        Act::NotRoot(c, w, x) => P::update_balance(signed(w), w, c, x).map(none),
        Act::Unsigned(c, w, x) => { P::transfer(root(), w, c, x)?; P::transfer_native_currency(root(), w, x).map(none) }
        Act::SetLock(Basic, i, c, w, x) => basic!(c, T => <T as BasicLockableCurrency<u64>>::set_lock(L[i], &w, x)).map(none),
        Act::SetLock(_, i, c, w, x) => <P as MultiLockableCurrency<u64>>::set_lock(L[i], c, &w, x).map(none),
        Act::Extend(Basic, i, c, w, x) => basic!(c, T => <T as BasicLockableCurrency<u64>>::extend_lock(L[i], &w, x)).map(none),
        Act::Extend(_, i, c, w, x) => <P as MultiLockableCurrency<u64>>::extend_lock(L[i], c, &w, x).map(none),
        Act::Unlock(Basic, i, c, w) => basic!(c, T => <T as BasicLockableCurrency<u64>>::remove_lock(L[i], &w)).map(none),
        Act::Unlock(_, i, c, w) => <P as MultiLockableCurrency<u64>>::remove_lock(L[i], c, &w).map(none),
        Act::Reserve(Basic, c, w, x) => basic!(c, T => <T as BasicReservableCurrency<u64>>::reserve(&w, x)).map(none),
        Act::Reserve(_, c, w, x) => <P as MultiReservableCurrency<u64>>::reserve(c, &w, x).map(none),
        Act::Unreserve(Basic, c, w, x) => Ok(basic!(c, T => <T as BasicReservableCurrency<u64>>::unreserve(&w, x))),
        Act::Unreserve(_, c, w, x) => Ok(<P as MultiReservableCurrency<u64>>::unreserve(c, &w, x)),
        Act::SlashReserved(Basic, c, w, x) => Ok(basic!(c, T => <T as BasicReservableCurrency<u64>>::slash_reserved(&w, x))),
        Act::SlashReserved(_, c, w, x) => Ok(<P as MultiReservableCurrency<u64>>::slash_reserved(c, &w, x)),
        Act::Repatriate(Basic, c, f, t, x, s) => basic!(c, T => <T as BasicReservableCurrency<u64>>::repatriate_reserved(&f, &t, x, st(s))),
        Act::Repatriate(_, c, f, t, x, s) => <P as MultiReservableCurrency<u64>>::repatriate_reserved(c, &f, &t, x, st(s)),
        Act::ReserveN(i, c, w, x) => <P as NamedMultiReservableCurrency<u64>>::reserve_named(&R[i], c, &w, x).map(none),
        Act::UnreserveN(i, c, w, x) => Ok(<P as NamedMultiReservableCurrency<u64>>::unreserve_named(&R[i], c, &w, x)),
        Act::SlashReservedN(i, c, w, x) => Ok(<P as NamedMultiReservableCurrency<u64>>::slash_reserved_named(&R[i], c, &w, x)),
        Act::RepatriateN(i, c, f, t, x, s) => <P as NamedMultiReservableCurrency<u64>>::repatriate_reserved_named(&R[i], c, &f, &t, x, st(s)),
        Act::All(f, t) => <P as TransferAll<u64>>::transfer_all(&f, &t).map(none),
        Act::Mint(c, w, x) => <FC as fungibles::Mutate<u64>>::mint_into(c, &w, x),
        Act::Burn(c, w, x, p, f) => <FC as fungibles::Mutate<u64>>::burn_from(c, &w, x, prec(p), forced(f)),
        Act::FTransfer(c, f, t, x, k) => <FC as fungibles::Mutate<u64>>::transfer(c, &f, &t, x, pres(k)),
    }
}
/// what the router announces for an operation that went through
fn told(a: &Act) -> Vec<Event<Rt>> {
    match *a {
        Act::Transfer(_, c, f, t, x) if x > 0 && f != t => vec![Event::Transferred { currency_id: c, from: f, to: t, amount: x }],
        Act::Native(f, t, x) => vec![Event::Transferred { currency_id: 0, from: f, to: t, amount: x }],
        Act::Deposit(_, c, w, x) if x > 0 => vec![Event::Deposited { currency_id: c, who: w, amount: x }],
        Act::Withdraw(_, c, w, x) if x > 0 => vec![Event::Withdrawn { currency_id: c, who: w, amount: x }],
        Act::Update(_, c, w, x) => vec![Event::BalanceUpdated { currency_id: c, who: w, amount: x }],
        _ => vec![],
    }
}
fn free(c: AssetId, w: u64) -> u128 { if c == 0 { System::account(w).data.free } else { Tokens::accounts(w, c).free } }
fn held(c: AssetId, w: u64) -> u128 { if c == 0 { System::account(w).data.reserved } else { Tokens::accounts(w, c).reserved } }
fn frozen(c: AssetId, w: u64) -> u128 { if c == 0 { System::account(w).data.frozen } else { Tokens::accounts(w, c).frozen } }
fn issued(c: AssetId) -> u128 { if c == 0 { pallet_balances::TotalIssuance::<Rt>::get() } else { orml_tokens::TotalIssuance::<Rt>::get(c) } }
type Ledger = Vec<(AssetId, u64, u128, u128, u128)>;
fn ledger() -> Ledger { AS.iter().flat_map(|c| WHO.iter().map(|w| (*c, *w, free(*c, *w), held(*c, *w), frozen(*c, *w))).collect::<Vec<_>>()).collect() }
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
/// accounts and currencies an operation may touch
fn names(a: &Act) -> (Option<AssetId>, [u64; 2], bool) {
    match *a {
        Act::Transfer(_, c, f, t, _) | Act::Repatriate(_, c, f, t, ..) | Act::RepatriateN(_, c, f, t, ..) | Act::FTransfer(c, f, t, ..) => (Some(c), [f, t], true),
        Act::Native(f, t, _) => (Some(0), [f, t], true),
        Act::All(f, t) => (None, [f, t], true),
        Act::Deposit(_, c, w, _) | Act::Withdraw(_, c, w, _) | Act::Slash(_, c, w, _) | Act::Update(_, c, w, _) | Act::SlashReserved(_, c, w, _) | Act::SlashReservedN(_, c, w, _) | Act::Mint(c, w, _) | Act::Burn(c, w, ..) => (Some(c), [w, w], false),
        Act::NotRoot(c, w, _) | Act::Unsigned(c, w, _) | Act::SetLock(_, _, c, w, _) | Act::Extend(_, _, c, w, _) | Act::Unlock(_, _, c, w) | Act::Reserve(_, c, w, _) | Act::Unreserve(_, c, w, _) | Act::ReserveN(_, c, w, _) | Act::UnreserveN(_, c, w, _) => (Some(c), [w, w], true),
    }
}
fn step(a: &Act) -> Result<bool, Wrong> {
    let (m0, l0) = (map(), ledger());
    let want = dry(|| { let r = call(|| spec(a)); r.map(|x| (x, map())) });
    let ev = System::events().len();
    // a transfer of everything keeps itself whole; everything else runs inside a transaction
    let r = if matches!(a, Act::All(..)) { real(a) } else { call(|| real(a)) };
    let (m1, l1) = (map(), ledger());
    match (&r, &want) {
        (Ok(x), Ok((y, m))) => {
            must!(x == y, "answer", "answers {x}, the ledger {y}, from {l0:?}");
            must!(m1 == *m, "effect", "leaves {l1:?} instead of what the ledger's own operation leaves, from {l0:?}");
            let got: Vec<_> = System::events()[ev..].iter().filter_map(|e| if let RuntimeEvent::Currencies(e) = &e.event { Some(e.clone()) } else { None }).collect();
            must!(got == told(a), "event", "announces {got:?}");
        }
        (Err(_), Err(_)) => must!(m0 == m1, "refused", "refused ({r:?}) but leaves {l1:?} from {l0:?}"),
        _ => return wrong("accept", format!("gives {r:?}, the ledger's own operation {:?}, from {l0:?}", want.map(|w| w.0))),
    }
    // only what is named moves, and only issuing operations change the issuance
    let (c, ws, keeps) = names(a);
    for (x, y) in l0.iter().zip(&l1) { must!(x == y || (c.map_or(true, |c| c == x.0) && ws.contains(&x.1)), "bystander", "{x:?} became {y:?}"); }
    for c in AS {
        let (sum0, sum1): (u128, u128) = (l0.iter().filter(|x| x.0 == c).map(|x| x.2 + x.3).sum(), l1.iter().filter(|x| x.0 == c).map(|x| x.2 + x.3).sum());
        must!(sum1 == issued(c), "issuance", "{} of {c} issued, {sum1} held", issued(c));
        // moving may only lose what is left below the existential deposit
        if keeps { must!(sum1 <= sum0 && sum0 - sum1 < ED[c as usize] * 2, "conserved", "{sum0} of {c} became {sum1}"); }
    }
    if let (Act::Transfer(_, c, f, t, x), true) = (a, r.is_ok()) { if f != t && *x > 0 {
        let find = |l: &Ledger, w: u64| *l.iter().find(|y| y.0 == *c && y.1 == w).unwrap();
        let left = find(&l0, *f).2 - x;
        must!(find(&l1, *t).2 == find(&l0, *t).2 + x && (find(&l1, *f).2 == left || left < ED[*c as usize] && find(&l1, *f).2 == 0) && left + if *c == 0 { find(&l0, *f).3 } else { 0 } >= find(&l0, *f).4, "moved", "{l0:?} became {l1:?}");
    } }
    // the answers about an account depend on nothing else: those about the accounts that changed
    ask(&l1.iter().zip(&l0).filter(|(y, x)| x != y).map(|x| *x.0).collect())?;
    Ok(r.is_ok())
}
/// Every question gets the answer of the ledger that holds the currency.
fn ask(l: &Ledger) -> Result<(), Wrong> {
    macro_rules! same { ($a:expr, $b:expr, $($t:tt)*) => { { let (a, b) = (format!("{:?}", $a), format!("{:?}", $b)); must!(a == b, "query", "{}: {a} instead of {b}", format!($($t)*)); } } }
    for c in AS {
        must!(<P as MultiCurrency<u64>>::total_issuance(c) == issued(c) && <FC as fungibles::Inspect<u64>>::total_issuance(c) == issued(c) && basic!(c, T => <T as BasicCurrency<u64>>::total_issuance()) == issued(c), "query", "issuance of {c}");
        let ed = ED[c as usize];
        must!(<P as MultiCurrency<u64>>::minimum_balance(c) == ed && <FC as fungibles::Inspect<u64>>::minimum_balance(c) == ed && basic!(c, T => <T as BasicCurrency<u64>>::minimum_balance()) == ed, "query", "minimum balance of {c}");
        same!(<FC as fungibles::Inspect<u64>>::asset_exists(c), c == 0 || <Tokens as fungibles::Inspect<u64>>::asset_exists(c), "asset {c} exists");
    }
    for &(c, w, fr, he, fz) in l {
        must!(<P as MultiCurrency<u64>>::free_balance(c, &w) == fr && basic!(c, T => <T as BasicCurrency<u64>>::free_balance(&w)) == fr, "query", "free balance of {w} in {c}");
        must!(<P as MultiCurrency<u64>>::total_balance(c, &w) == fr + he && basic!(c, T => <T as BasicCurrency<u64>>::total_balance(&w)) == fr + he && <FC as fungibles::Inspect<u64>>::total_balance(c, &w) == fr + he, "query", "total balance of {w} in {c}");
        must!(<P as MultiReservableCurrency<u64>>::reserved_balance(c, &w) == he && basic!(c, T => <T as BasicReservableCurrency<u64>>::reserved_balance(&w)) == he, "query", "reserved balance of {w} in {c}");
        for i in 0..2 { must!(<P as NamedMultiReservableCurrency<u64>>::reserved_balance_named(&R[i], c, &w) == if c == 0 { Balances::reserved_balance_named(&R[i], &w) } else { <Tokens as NamedMultiReservableCurrency<u64>>::reserved_balance_named(&R[i], c, &w) }, "query", "named reserve of {w} in {c}"); }
        same!(<FC as fungibles::Inspect<u64>>::balance(c, &w), if c == 0 { <Balances as fungible::Inspect<u64>>::balance(&w) } else { <Tokens as fungibles::Inspect<u64>>::balance(c, &w) }, "balance of {w} in {c}");
        for k in 0..3 { for f in [false, true] { must!(<FC as fungibles::Inspect<u64>>::reducible_balance(c, &w, pres(k), forced(f)) == if c == 0 { <Balances as fungible::Inspect<u64>>::reducible_balance(&w, pres(k), forced(f)) } else { <Tokens as fungibles::Inspect<u64>>::reducible_balance(c, &w, pres(k), forced(f)) }, "query", "reducible balance of {w} in {c}"); } }
        let spare = fr.saturating_sub(fz);
        for x in [0, 1, ED[c as usize] - 1, ED[c as usize], spare, spare.saturating_add(1), fr, fr.saturating_add(1), u128::MAX] {
            let ok = x <= spare || x == 0;
            must!(<P as MultiCurrency<u64>>::ensure_can_withdraw(c, &w, x).is_ok() == ok && basic!(c, T => <T as BasicCurrency<u64>>::ensure_can_withdraw(&w, x)).is_ok() == ok, "query", "may {w} withdraw {x} of {c} of {fr}, {fz} frozen?");
            let ok = x <= fr;
            must!(<P as MultiCurrency<u64>>::can_slash(c, &w, x) == ok && basic!(c, T => <T as BasicCurrency<u64>>::can_slash(&w, x)) == ok, "query", "can {x} of {c} be slashed from {w}?");
            let ok = if c == 0 { Balances::can_reserve(&w, x) } else { <Tokens as MultiReservableCurrency<u64>>::can_reserve(c, &w, x) };
            must!(<P as MultiReservableCurrency<u64>>::can_reserve(c, &w, x) == ok && basic!(c, T => <T as BasicReservableCurrency<u64>>::can_reserve(&w, x)) == ok, "query", "can {w} reserve {x} of {c}?");
            same!(<FC as fungibles::Inspect<u64>>::can_withdraw(c, &w, x), if c == 0 { <Balances as fungible::Inspect<u64>>::can_withdraw(&w, x) } else { <Tokens as fungibles::Inspect<u64>>::can_withdraw(c, &w, x) }, "can {w} withdraw {x} of {c}?");
            for p in [true, false] { let p = || if p { Provenance::Minted } else { Provenance::Extant }; same!(<FC as fungibles::Inspect<u64>>::can_deposit(c, &w, x, p()), if c == 0 { <Balances as fungible::Inspect<u64>>::can_deposit(&w, x, p()) } else { <Tokens as fungibles::Inspect<u64>>::can_deposit(c, &w, x, p()) }, "can {w} take {x} of {c}?"); }
        }
    }
    Ok(())
}
fn begin(name: &str, funds: &[(AssetId, u64, u128)], acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        for &(c, w, x) in funds { grow(c, w, x).unwrap(); }
        if name.ends_with("spared") { unhashed::put(b":wl", &true); }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
        ask(&ledger()).unwrap();
    })
}
fn every(full: bool) -> Vec<Act> {
    let mut v = vec![Act::All(1, 2), Act::All(2, 1), Act::All(1, 4), Act::All(3, 1), Act::All(1, 1), Act::All(4, 3)];
    for c in AS {
        let e = ED[c as usize];
        for via in [Call, Multi, Basic] {
            if !full && via != [Call, Multi, Basic][(c as usize + 1) % 3] { continue }
            for (f, t) in [(1, 2), (2, 1), (1, 4), (3, 2), (1, 1), (4, 1)] { for x in [0, 1, e, 17, 50, 50 - e + 1, u128::MAX] { if full || (x != e && x != 0 && f < 3) { v.push(Act::Transfer(via, c, f, t, x)); } } }
            for w in [1, 2, 4] { for x in [0, 1, 17, 50, 51, u128::MAX] { if full || x == 17 || x == 1 {
                if via != Call { if x < u128::MAX { v.push(Act::Deposit(via, c, w, x)); } v.push(Act::Withdraw(via, c, w, x)); v.push(Act::Slash(via, c, w, x)); if x > 0 { v.push(Act::Reserve(via, c, w, x)); v.push(Act::Unreserve(via, c, w, x)); v.push(Act::SlashReserved(via, c, w, x)); } }
                if x <= 51 { v.push(Act::Update(via, c, w, x as i128)); v.push(Act::Update(via, c, w, -(x as i128))); }
            } } }
            if via != Call {
                for w in [1, 4] { for x in [0, 17, 45] { v.push(Act::SetLock(via, 0, c, w, x)); v.push(Act::Extend(via, 1, c, w, x)); v.push(Act::Extend(via, 0, c, w, x)); } v.push(Act::Unlock(via, 0, c, w)); }
                for (f, t) in [(1, 2), (2, 1), (1, 4), (1, 1)] { for x in [1, 17, 60] { for s in [false, true] { v.push(Act::Repatriate(via, c, f, t, x, s)); } } }
            }
        }
        for i in 0..2 { for w in [1, 2] { for x in [0, 7, 17, 60] { v.push(Act::ReserveN(i, c, w, x)); v.push(Act::UnreserveN(i, c, w, x)); v.push(Act::SlashReservedN(i, c, w, x)); if i == 0 || x == 7 { for s in [false, true] { v.push(Act::RepatriateN(i, c, w, 3 - w, x, s)); v.push(Act::RepatriateN(i, c, w, 4, x, s)); } } } } }
        for (f, t, x) in [(1, 2, 17), (2, 1, 17), (1, 4, 50), (1, 2, 0), (1, 1, 5), (1, 4, 1)] { if c == 0 { v.push(Act::Native(f, t, x)); } for k in 0..3 { v.push(Act::FTransfer(c, f, t, x, k)); } }
        for w in [1, 4] { for x in [0, 1, 17, 50, 60] { v.push(Act::Mint(c, w, x)); for p in [false, true] { for f in [false, true] { v.push(Act::Burn(c, w, x, p, f)); } } } }
        v.push(Act::NotRoot(c, 1, 5)); v.push(Act::Unsigned(c, 1, 5));
    }
    v
}
/// balances does not take locks for accounts it does not know (its own debug assertion)
fn fits(a: &Act) -> bool { !matches!(*a, Act::SetLock(_, _, 0, w, _) | Act::Extend(_, _, 0, w, _) | Act::Unlock(_, _, 0, w) if free(0, w) + held(0, w) == 0) }
fn main() {
    let ck = kit::Check::new("P15");
    let rich: Vec<(AssetId, u64, u128)> = vec![(0, 1, 50), (1, 1, 50), (2, 1, 50), (0, 2, 90), (1, 2, 60), (2, 2, 4), (0, 3, 30)];
    let starts = || vec![
        begin("plain", &rich, &[]),
        begin("locked and reserved", &rich, &[Act::SetLock(Multi, 0, 0, 1, 20), Act::SetLock(Multi, 0, 1, 1, 30), Act::Reserve(Multi, 0, 1, 10), Act::Reserve(Multi, 1, 1, 12), Act::ReserveN(0, 0, 2, 17), Act::ReserveN(1, 1, 2, 20), Act::ReserveN(0, 0, 1, 9), Act::ReserveN(0, 2, 1, 40)]),
        begin("only other currencies", &[(1, 1, 50), (2, 1, 17), (1, 3, 9), (2, 3, 40)], &[Act::ReserveN(0, 1, 1, 17), Act::SetLock(Multi, 1, 2, 3, 39)]),
        begin("only native", &[(0, 1, 50), (0, 2, 21), (0, 4, 4)], &[Act::SetLock(Multi, 1, 0, 2, 60), Act::Reserve(Multi, 0, 1, 33)]),
        begin("third account spared", &rich, &[Act::Transfer(Multi, 1, 1, 3, 2), Act::Transfer(Multi, 2, 1, 3, 1)]),
    ];
    let (full, part) = (every(true), every(false));
    World { name: "every operation", depth: ck.pick(2, 3), events: true, actions: &|_: &()| full.iter().filter(|a| fits(a)).cloned().collect(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts());
    let few: Vec<Act> = part.into_iter().filter(|a| { let (c, ..) = names(a); c != Some(2) }).collect();
    World { name: "long runs", depth: ck.pick(3, 4), events: true, actions: &|_: &()| few.iter().filter(|a| fits(a)).cloned().collect(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts().into_iter().take(ck.pick(1, 5)).collect());
    ck.finish()
}
