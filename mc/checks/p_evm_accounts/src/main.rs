//! P23: EVM addresses and the accounts behind them, on the real pallet-evm-accounts.
use frame_support::{parameter_types, storage::unhashed, traits::EnsureOrigin, traits::Hooks};
use codec::Encode;
use hydradx_traits::evm::InspectEvmAccounts;
use pallet_evm_accounts::{Error, Event};
use sp_core::{crypto::AccountId32, H160, U256};
use sp_runtime::DispatchError;
use std::collections::{BTreeMap, BTreeSet};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Evm: pallet_evm_accounts });
type Acc = AccountId32;
world::system!(Rt, (), AccountId32);
parameter_types! { pub const Mult: u32 = 10; }
fn nkey(a: H160) -> Vec<u8> { (b":nonce", a).encode() }
pub struct Nonces;
impl pallet_evm_accounts::EvmNonceProvider for Nonces { fn get_nonce(a: H160) -> U256 { U256(unhashed::get_or(&nkey(a), [0; 4])) } }
/// root or account 3
pub struct Council;
impl EnsureOrigin<RuntimeOrigin> for Council {
    type Success = ();
    fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match o.clone().into() { Ok(frame_system::RawOrigin::Root) => Ok(()), Ok(frame_system::RawOrigin::Signed(w)) if w == who(3) => Ok(()), _ => Err(o) } }
}
impl pallet_evm_accounts::Config for Rt { type RuntimeEvent = RuntimeEvent; type EvmNonceProvider = Nonces; type FeeMultiplier = Mult; type ControllerOrigin = Council; type WeightInfo = (); }
fn bytes(f: impl Fn(usize) -> u8) -> [u8; 32] { let mut b = [0; 32]; for i in 0..32 { b[i] = f(i) } b }
/// 0, 1: same address, other tail; 2: differs from 0 in the address's last byte; 3: the council's; 4: the truncated account of 0's address;
/// 5: nearly a truncated account; 6: nothing but zeros; 7: nothing but ones
fn who(k: u8) -> Acc { Acc::new(match k {
    0 => bytes(|i| i as u8 + 1), 1 => bytes(|i| if i == 20 { 99 } else { i as u8 + 1 }), 2 => bytes(|i| if i == 19 { 99 } else { i as u8 + 1 }), 3 => [3; 32],
    4 => bytes(|i| match i { 0..=3 => b"ETH\0"[i], 4..=23 => i as u8 - 3, _ => 0 }), 5 => bytes(|i| match i { 0..=3 => b"ETH\0"[i], 4..=23 => i as u8 - 3, 31 => 1, _ => 0 }),
    6 => [0; 32], _ => [255; 32],
}) }
fn addr(a: &Acc) -> H160 { H160::from_slice(&AsRef::<[u8; 32]>::as_ref(a)[..20]) }
fn addrs() -> Vec<H160> { let mut v: Vec<H160> = (0..8).map(|k| addr(&who(k))).collect(); v.push(H160::from_slice(&AsRef::<[u8; 32]>::as_ref(&who(4))[4..24])); v.push(H160::repeat_byte(77)); v.sort(); v.dedup(); v }
fn truncated(a: H160) -> Acc { Acc::new(bytes(|i| match i { 0 => b'E', 1 => b'T', 2 => b'H', 4..=23 => a.0[i - 4], _ => 0 })) }
#[derive(Clone, Debug)]
enum Act { Bind(u8), Add(u8, u8), Remove(u8, u8), Renounce(u8), Nonce(u8, [u64; 4]) }
#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct M { bound: BTreeMap<H160, [u8; 32]>, deployers: BTreeSet<H160>, nonce: BTreeMap<H160, [u64; 4]> }
/// 100: nobody, 101: root
fn origin(k: u8) -> RuntimeOrigin { match k { 100 => RuntimeOrigin::none(), 101 => RuntimeOrigin::root(), _ => RuntimeOrigin::signed(who(k)) } }
fn step(a: &Act, m: &mut M) -> Result<bool, Wrong> {
    let old = sp_io::with_ext(|e| e.map.clone());
    let council = |k: u8| if k == 101 || k == 3 { Ok(()) } else { Err(DispatchError::BadOrigin) };
    let user = |k: u8| if k < 100 { Ok(who(k)) } else { Err(DispatchError::BadOrigin) };
    let mut n = m.clone();
    let mut grows = 0;
    let (want, got): (Result<Event<Rt>, DispatchError>, _) = match a.clone() {
        Act::Bind(k) => (user(k).and_then(|w| {
            let x = addr(&w);
            if n.bound.contains_key(&x) { return Err(Error::<Rt>::AddressAlreadyBound.into()) }
            if n.nonce.get(&x).map_or(false, |v| *v != [0; 4]) { return Err(Error::<Rt>::TruncatedAccountAlreadyUsed.into()) }
            n.bound.insert(x, *AsRef::<[u8; 32]>::as_ref(&w)); grows = 1;
            Ok(Event::Bound { account: w, address: x })
        }), call(|| Evm::bind_evm_address(origin(k)))),
        Act::Add(o, k) => { let x = addrs()[k as usize]; (council(o).map(|_| { if n.deployers.insert(x) { grows = 1 } Event::DeployerAdded { who: x } }), call(|| Evm::add_contract_deployer(origin(o), x))) }
        Act::Remove(o, k) => { let x = addrs()[k as usize]; (council(o).map(|_| { if n.deployers.remove(&x) { grows = -1 } Event::DeployerRemoved { who: x } }), call(|| Evm::remove_contract_deployer(origin(o), x))) }
        Act::Renounce(k) => (user(k).map(|w| { let x = addr(&w); if n.deployers.remove(&x) { grows = -1 } Event::DeployerRemoved { who: x } }), call(|| Evm::renounce_contract_deployer(origin(k)))),
        Act::Nonce(k, v) => { let x = addrs()[k as usize]; if m.nonce.get(&x) == Some(&v) { return Ok(false) } m.nonce.insert(x, v); unhashed::put(&nkey(x), &v); return asks(m).map(|_| true) }
    };
    match (&want, &got) {
        (Ok(e), Ok(_)) => {
            let events: Vec<_> = System::events().into_iter().map(|r| r.event).collect();
            must!(events == vec![RuntimeEvent::Evm(e.clone())], "event", "{events:?}, not {e:?}");
            System::reset_events();
            *m = n;
            let new = sp_io::with_ext(|e| e.map.clone());
            let touched = new.iter().filter(|(k, v)| old.get(*k) != Some(*v)).count() + old.keys().filter(|k| !new.contains_key(*k)).count();
            must!(touched <= 1 && new.len() as i64 - old.len() as i64 == grows, "contents", "{touched} entries touched, {} more", new.len() as i64 - old.len() as i64);
        }
        (Err(w), Err(g)) => { must!(w == g, "reason", "{g:?}, not {w:?}"); must!(sp_io::with_ext(|e| e.map.clone()) == old, "refused", "a refused call changed something"); }
        _ => return wrong("accept", format!("{got:?}, not {want:?}")),
    }
    asks(m)?;
    Ok(got.is_ok())
}
fn asks(m: &M) -> Result<(), Wrong> {
    for x in addrs() {
        let b = m.bound.get(&x).map(|b| Acc::new(*b));
        must!(Evm::bound_account_id(x) == b, "bound account", "{x:?} leads to {:?}, not {b:?}", Evm::bound_account_id(x));
        must!(Evm::truncated_account_id(x) == truncated(x), "truncated", "{x:?}: {:?}", Evm::truncated_account_id(x));
        let acc = Evm::account_id(x);
        must!(acc == b.clone().unwrap_or(truncated(x)), "account", "{x:?} leads to {acc:?}");
        must!(b.is_none() || Evm::evm_address(&acc) == x, "there and back", "{x:?} leads to {acc:?}, which leads to {:?}", Evm::evm_address(&acc));
        must!(Evm::is_evm_account(truncated(x)), "is evm account", "of {x:?}");
        must!(Evm::account(x) == m.bound.get(&x).map(|b| b[20..].try_into().unwrap()), "bound account", "last bytes of {x:?}");
        must!(Evm::can_deploy_contracts(x) == m.deployers.contains(&x), "deployers", "{x:?} may deploy: {}", Evm::can_deploy_contracts(x));
    }
    for k in 0..8 {
        must!(Evm::evm_address(&who(k)) == addr(&who(k)), "address", "of account {k}: {:?}", Evm::evm_address(&who(k)));
        must!(Evm::is_evm_account(who(k)) == (k == 4), "is evm account", "account {k}");
        let bound = m.bound.get(&addr(&who(k))) == Some(AsRef::<[u8; 32]>::as_ref(&who(k)));
        must!((Evm::account_id(addr(&who(k))) == who(k)) == bound, "own address", "account {k} reached by its address, though bound is {bound}");
    }
    Ok(())
}
fn begin(name: &str, acts: &[Act]) -> Start<M> {
    start(name, || {
        System::set_block_number(1);
        <Evm as Hooks<u64>>::integrity_test();
        let mut m = M::default();
        for a in acts { match step(a, &mut m) { Ok(true) => (), Ok(false) => panic!("start {name}: {a:?} refused"), Err(x) => panic!("start {name}: {a:?} gives {x:?}") } }
        m
    })
}
fn main() {
    let ck = kit::Check::new("P23");
    let n = addrs().len() as u8;
    // which single bits and bytes tell accounts apart
    let mut odd = None;
    for pos in 0..32 { for v in 0..=255u8 {
        for base in [who(0), who(4), who(6)] {
            let mut b: [u8; 32] = *base.as_ref(); b[pos] = v;
            let is = b[..4] == *b"ETH\0" && b[24..] == [0; 8];
            if Evm::is_evm_account(Acc::new(b)) != is || Evm::evm_address(&Acc::new(b)) != H160::from_slice(&b[..20]) { odd = Some(b) }
        }
    } }
    if let Some(b) = odd { ck.violation("bytes", format!("account {b:?} taken for what it is not"), serde_json::json!(b.to_vec())) }
    ck.add_traces(32 * 256 * 3);
    let mut acts = vec![];
    for k in (0..8).chain([100, 101]) { acts.push(Act::Bind(k)); acts.push(Act::Renounce(k)); }
    for o in [101, 3, 100, 0] { for k in 0..n { acts.push(Act::Add(o, k)); acts.push(Act::Remove(o, k)); } }
    for k in 0..n { for v in [[0; 4], [1, 0, 0, 0], [0, 0, 0, 1 << 63]] { if k < 4 || v[0] == 1 { acts.push(Act::Nonce(k, v)); } } }
    World { name: "addresses", depth: ck.pick(4, 5), events: true, actions: &|_: &M| acts.clone(), step: &step, prepare: &|| {} }.explore(&ck, vec![
        begin("nothing bound", &[]), begin("some bound", &[Act::Bind(0), Act::Bind(4), Act::Bind(6), Act::Add(3, 2), Act::Add(101, 5)]), begin("all bound", &[Act::Bind(1), Act::Bind(2), Act::Bind(3), Act::Bind(4), Act::Bind(6), Act::Bind(7), Act::Nonce(2, [1, 0, 0, 0])]),
    ]);
    ck.finish()
}
