//! P26: pausing calls, on the real pallet-transaction-pause.
use frame_support::traits::{Contains, EnsureOrigin, GetCallMetadata, Nothing};
use orml_traits::parameter_type_with_key;
use pallet_transaction_pause::{Error, Event, PausedTransactionFilter, PausedTransactions};
use sp_runtime::{traits::Dispatchable, DispatchError};
use std::collections::BTreeSet;
use world::*;

// names of forty letters and one more
frame_support::construct_runtime!(pub enum Rt { System: frame_system, TransactionPause: pallet_transaction_pause, Balances: pallet_balances, Abcdefghijklmnopqrstuvwxyzabcdefghijklmn: pallet_utility, Abcdefghijklmnopqrstuvwxyzabcdefghijklmno: orml_tokens });
type Utility = Abcdefghijklmnopqrstuvwxyzabcdefghijklmn;
impl frame_system::Config for Rt {
    type BaseCallFilter = Open; type BlockWeights = (); type BlockLength = (); type RuntimeOrigin = RuntimeOrigin; type RuntimeCall = RuntimeCall; type RuntimeTask = RuntimeTask; type Nonce = u64;
    type Block = frame_system::mocking::MockBlock<Rt>; type Hash = sp_core::H256; type Hashing = sp_runtime::traits::BlakeTwo256; type AccountId = u64; type Lookup = sp_runtime::traits::IdentityLookup<u64>;
    type RuntimeEvent = RuntimeEvent; type BlockHashCount = frame_support::traits::ConstU64<250>; type DbWeight = (); type Version = (); type PalletInfo = PalletInfo; type AccountData = pallet_balances::AccountData<u128>;
    type OnNewAccount = (); type OnKilledAccount = (); type SystemWeightInfo = (); type SS58Prefix = (); type OnSetCode = (); type MaxConsumers = frame_support::traits::ConstU32<16>;
}
/// as in the runtime: what is not paused may be called
pub struct Open;
impl Contains<RuntimeCall> for Open { fn contains(c: &RuntimeCall) -> bool { !PausedTransactionFilter::<Rt>::contains(c) } }
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Nothing, ());
world::balances!(Rt, 10);
impl pallet_utility::Config for Rt { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
/// root or account 3
pub struct Council;
impl EnsureOrigin<RuntimeOrigin> for Council {
    type Success = ();
    fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match o.clone().into() { Ok(frame_system::RawOrigin::Root) | Ok(frame_system::RawOrigin::Signed(3)) => Ok(()), _ => Err(o) } }
}
impl pallet_transaction_pause::Config for Rt { type RuntimeEvent = RuntimeEvent; type UpdateOrigin = Council; type WeightInfo = (); }
const P40: &str = "Abcdefghijklmnopqrstuvwxyzabcdefghijklmn";
const P41: &str = "Abcdefghijklmnopqrstuvwxyzabcdefghijklmno";
fn calls() -> Vec<(RuntimeCall, &'static str, &'static str)> {
    let b = |c| RuntimeCall::Balances(c);
    let mut v = vec![
        (RuntimeCall::System(frame_system::Call::remark { remark: vec![] }), "System", "remark"), (RuntimeCall::System(frame_system::Call::remark_with_event { remark: vec![] }), "System", "remark_with_event"),
        (b(pallet_balances::Call::transfer_allow_death { dest: 2, value: 1 }), "Balances", "transfer_allow_death"), (b(pallet_balances::Call::transfer_keep_alive { dest: 2, value: 1 }), "Balances", "transfer_keep_alive"),
        (RuntimeCall::TransactionPause(pallet_transaction_pause::Call::pause_transaction { pallet_name: b"System".to_vec(), function_name: b"other".to_vec() }), "TransactionPause", "pause_transaction"),
        (RuntimeCall::TransactionPause(pallet_transaction_pause::Call::unpause_transaction { pallet_name: b"System".to_vec(), function_name: b"other".to_vec() }), "TransactionPause", "unpause_transaction"),
        (RuntimeCall::Abcdefghijklmnopqrstuvwxyzabcdefghijklmno(orml_tokens::Call::transfer { dest: 2, currency_id: 1, amount: 1 }), P41, "transfer"),
    ];
    let inner = RuntimeCall::System(frame_system::Call::remark { remark: vec![] });
    v.push((RuntimeCall::Abcdefghijklmnopqrstuvwxyzabcdefghijklmn(pallet_utility::Call::batch_all { calls: vec![inner.clone()] }), P40, "batch_all"));
    v.push((RuntimeCall::Abcdefghijklmnopqrstuvwxyzabcdefghijklmn(pallet_utility::Call::batch { calls: vec![inner] }), P40, "batch"));
    v
}
type Name = Vec<u8>;
fn pallets() -> Vec<Name> { let mut v: Vec<Name> = ["System", "Balances", "TransactionPause", "transactionpause", "TransactionPause\0", "TransactionPaus", "", P40, P41].iter().map(|s| s.as_bytes().to_vec()).collect(); v.push(vec![0xff, 0xfe]); v.push([b"TransactionPause", &[0xc3][..]].concat()); v.push(vec![b'x'; 300]); v }
fn functions() -> Vec<Name> { let mut v: Vec<Name> = ["remark", "remark_with_event", "transfer_allow_death", "transfer", "pause_transaction", "batch_all", "", P40, P41].iter().map(|s| s.as_bytes().to_vec()).collect(); v.push(vec![0xff; 40]); v }
#[derive(Clone, Debug)]
enum Act { Pause(u64, Name, Name), Unpause(u64, Name, Name), Batch }
type M = BTreeSet<(Name, Name)>;
/// 0: root, 99: nobody
fn origin(k: u64) -> RuntimeOrigin { match k { 0 => root(), 99 => RuntimeOrigin::none(), k => signed(k) } }
fn step(a: &Act, m: &mut M) -> Result<bool, Wrong> {
    let old = sp_io::with_ext(|e| e.map.clone());
    let allowed = |o: u64| if o == 0 || o == 3 { Ok(()) } else { Err(DispatchError::BadOrigin) };
    let err = |e: Error<Rt>| -> Result<(), DispatchError> { Err(e.into()) };
    let mut n = m.clone();
    let (want, event, got) = match a.clone() {
        Act::Pause(o, p, f) => (
            allowed(o).and_then(|_| if p.len() > 40 || f.len() > 40 { err(Error::NameTooLong) } else if std::str::from_utf8(&p).is_err() { err(Error::InvalidCharacter) } else if p == b"TransactionPause" { err(Error::CannotPause) } else { n.insert((p.clone(), f.clone())); Ok(()) }),
            Event::<Rt>::TransactionPaused { pallet_name_bytes: p.clone(), function_name_bytes: f.clone() }, call(|| TransactionPause::pause_transaction(origin(o), p, f))),
        Act::Unpause(o, p, f) => (
            allowed(o).and_then(|_| if p.len() > 40 || f.len() > 40 { err(Error::NameTooLong) } else { n.remove(&(p.clone(), f.clone())); Ok(()) }),
            Event::TransactionUnpaused { pallet_name_bytes: p.clone(), function_name_bytes: f.clone() }, call(|| TransactionPause::unpause_transaction(origin(o), p, f))),
        Act::Batch => {
            // a paused call does not go through inside another one either
            let c = |k: &str| m.contains(&(b"System".to_vec(), k.as_bytes().to_vec()));
            let inner = vec![RuntimeCall::System(frame_system::Call::remark { remark: vec![1] })];
            let got = dry(|| RuntimeCall::Abcdefghijklmnopqrstuvwxyzabcdefghijklmn(pallet_utility::Call::batch_all { calls: inner }).dispatch(signed(1)).is_ok());
            let want = !c("remark") && !m.contains(&(P40.as_bytes().to_vec(), b"batch_all".to_vec()));
            must!(got == want, "batch", "a batch of a call goes through: {got}, not {want}");
            return Ok(false)
        }
    };
    must!(want == got, "outcome", "{got:?}, not {want:?}");
    if got.is_err() { must!(sp_io::with_ext(|e| e.map.clone()) == old, "refused", "a refused call changed something"); return Ok(false) }
    let events: Vec<_> = System::events().into_iter().map(|r| r.event).collect();
    must!(events == if n != *m { vec![RuntimeEvent::TransactionPause(event)] } else { vec![] }, "event", "{events:?}");
    System::reset_events();
    let entries = n.len() as i64 - m.len() as i64;
    *m = n;
    let new = sp_io::with_ext(|e| e.map.clone());
    must!(new.len() as i64 - old.len() as i64 == entries, "contents", "{} entries more, not {entries}", new.len() as i64 - old.len() as i64);
    asks(m)?;
    Ok(true)
}
fn asks(m: &M) -> Result<(), Wrong> {
    let kept: M = PausedTransactions::<Rt>::iter_keys().map(|(a, b)| (a.into_inner(), b.into_inner())).collect();
    must!(kept == *m, "list", "paused: {kept:?}, not {m:?}");
    for (c, p, f) in calls() {
        let meta = c.get_call_metadata();
        assert!(meta.pallet_name == p && meta.function_name == f);
        let want = m.contains(&(p.as_bytes().to_vec(), f.as_bytes().to_vec()));
        must!(PausedTransactionFilter::<Rt>::contains(&c) == want, "filter", "{p}::{f} is paused: {}, not {want}", !want);
        must!(want != (p == "TransactionPause") || !want, "own calls", "{p}::{f} is paused");
    }
    Ok(())
}
fn main() {
    let ck = kit::Check::new("P26");
    let _ = std::any::type_name::<Utility>();
    let mut acts = vec![Act::Batch];
    for o in [0, 3, 1, 99] { for p in pallets() { for f in functions() { if o == 0 || (p.len() < 20 && f.len() < 10) { acts.push(Act::Pause(o, p.clone(), f.clone())); acts.push(Act::Unpause(o, p.clone(), f)); } } } }
    let begin = |n: &str, xs: &[(&str, &str)]| start(n, || { System::set_block_number(1); let mut m = M::new(); for (p, f) in xs { step(&Act::Pause(0, p.as_bytes().to_vec(), f.as_bytes().to_vec()), &mut m).unwrap(); } m });
    World { name: "names", depth: ck.pick(2, 4), events: true, actions: &|_: &M| acts.clone(), step: &step, prepare: &|| {} }.explore(&ck, vec![begin("nothing paused", &[]), begin("some paused", &[("System", "remark"), (P40, "batch_all"), ("", "")])]);
    let mut few = vec![Act::Batch];
    for p in ["System", "Balances", "TransactionPause", P40] { for f in ["remark", "transfer_allow_death", "batch_all"] { for k in [0, 3] { few.push(Act::Pause(k, p.into(), f.into())); few.push(Act::Unpause(k, p.into(), f.into())); } } }
    World { name: "long runs", depth: ck.pick(7, 10), events: true, actions: &|_: &M| few.clone(), step: &step, prepare: &|| {} }.explore(&ck, vec![begin("nothing paused", &[])]);
    ck.finish()
}
