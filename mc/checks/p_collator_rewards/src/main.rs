//! P27: rewards of collators, and the two pallets that only record: genesis-history and relaychain-info.
use codec::{Decode, Encode};
use cumulus_pallet_parachain_system::OnSystemEvent;
use frame_support::{storage::unhashed, traits::{BuildGenesisConfig, Get, Nothing}};
use orml_traits::{parameter_type_with_key, MultiCurrency};
use pallet_collator_rewards::{Collators, Event};
use pallet_session::SessionManager;
use sp_core::H256;
use std::collections::BTreeMap;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Rewards: pallet_collator_rewards, Past: pallet_genesis_history, Relay: pallet_relaychain_info });
world::system!(Rt, ());
const ED: u128 = 10;
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { ED }; }
world::tokens!(Rt, Eds, Nothing, ());
fn reward() -> u128 { unhashed::get_or(b":reward", 25) }
fn excluded() -> Vec<u64> { unhashed::get_or(b":excluded", vec![]) }
macro_rules! g { ($n:ident, $t:ty, $e:expr) => { pub struct $n; impl Get<$t> for $n { fn get() -> $t { $e } } } }
g!(Reward, u128, reward()); g!(Asset, AssetId, 1); g!(Excluded, Vec<u64>, excluded()); g!(Max, u32, 3);
/// the manager below: tells what it was asked, answers what it is told to
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
enum Asked { New(u32), Start(u32), End(u32) }
fn heard(a: Asked) { let mut v: Vec<Asked> = unhashed::get_or(b":asked", vec![]); v.push(a); unhashed::put(b":asked", &v) }
pub struct Below;
impl SessionManager<u64> for Below {
    fn new_session(i: u32) -> Option<Vec<u64>> { heard(Asked::New(i)); unhashed::get_or(b":collators", None) }
    fn start_session(i: u32) { heard(Asked::Start(i)) }
    fn end_session(i: u32) { heard(Asked::End(i)) }
}
impl pallet_collator_rewards::Config for Rt { type RuntimeEvent = RuntimeEvent; type Balance = Balance; type CurrencyId = AssetId; type Currency = Tokens; type RewardPerCollator = Reward; type RewardCurrencyId = Asset; type ExcludedCollators = Excluded; type SessionManager = Below; type MaxCandidates = Max; }
impl pallet_genesis_history::Config for Rt {}
pub struct RelayBlock;
impl sp_runtime::traits::BlockNumberProvider for RelayBlock { type BlockNumber = u64; fn current_block_number() -> u64 { 5 } }
impl pallet_relaychain_info::Config for Rt { type RuntimeEvent = RuntimeEvent; type RelaychainBlockNumberProvider = RelayBlock; }
#[derive(Clone, Debug)]
enum Act { New(u32, Option<Vec<u64>>, bool), Start(u32), End(u32), Rotate(Option<Vec<u64>>), Reward(u128), Exclude(Vec<u64>), Spend(u64), Relay(u64, u32) }
#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct M { session: u32, stored: BTreeMap<u32, Vec<u64>>, free: BTreeMap<u64, u128> }
const WHO: [u64; 5] = [1, 2, 3, 4, 5];
fn step(a: &Act, m: &mut M) -> Result<bool, Wrong> {
    let mut events: Vec<RuntimeEvent> = vec![];
    let mut asked = vec![];
    let mut new = |m: &mut M, i: u32, c: &Option<Vec<u64>>, asked: &mut Vec<Asked>, f: &dyn Fn(u32) -> Option<Vec<u64>>| -> Result<(), Wrong> {
        unhashed::put(b":collators", c); asked.push(Asked::New(i));
        let want = c.clone().filter(|c| c.len() <= 3);
        let got = f(i);
        must!(got == want, "collators", "session {i} gets {got:?}, not {want:?}");
        if let Some(c) = want { m.stored.insert(i, c); }
        Ok(())
    };
    // what ending a session pays
    let end = |m: &mut M, i: u32, asked: &mut Vec<Asked>, events: &mut Vec<RuntimeEvent>| {
        asked.push(Asked::End(i));
        for w in m.stored.remove(&i).unwrap_or_default() {
            if excluded().contains(&w) { continue }
            let f = m.free.entry(w).or_default();
            if reward() == 0 { events.push(Event::<Rt>::CollatorRewarded { who: w, amount: 0, currency: 1 }.into()); continue }
            if *f == 0 && reward() < ED { continue }
            *m.free.get_mut(&w).unwrap() += reward();
            events.push(RuntimeEvent::Tokens(orml_tokens::Event::Deposited { currency_id: 1, who: w, amount: reward() }));
            events.push(Event::<Rt>::CollatorRewarded { who: w, amount: reward(), currency: 1 }.into());
        }
        Rewards::end_session(i);
    };
    unhashed::kill(b":asked");
    System::reset_events();
    match a.clone() {
        Act::New(i, c, genesis) => new(m, i, &c, &mut asked, &|i| if genesis { Rewards::new_session_genesis(i) } else { Rewards::new_session(i) })?,
        Act::Start(i) => { asked.push(Asked::Start(i)); Rewards::start_session(i) }
        Act::End(i) => end(m, i, &mut asked, &mut events),
        Act::Rotate(c) => { let i = m.session; end(m, i, &mut asked, &mut events); asked.push(Asked::Start(i + 1)); Rewards::start_session(i + 1); new(m, i + 2, &c, &mut asked, &Rewards::new_session)?; m.session = (i + 1) % 6 }
        Act::Reward(x) => { if reward() == x { return Ok(false) } unhashed::put(b":reward", &x); }
        Act::Exclude(v) => { if excluded() == v { return Ok(false) } unhashed::put(b":excluded", &v); }
        Act::Spend(w) => { let x = *m.free.get(&w).unwrap_or(&0); if x == 0 { return Ok(false) } call(|| <Tokens as MultiCurrency<u64>>::withdraw(1, &w, x)).map_err(|e| Wrong("spend".into(), format!("{e:?}")))?; m.free.insert(w, 0); System::reset_events(); }
        Act::Relay(block, n) => {
            System::set_block_number(block);
            pallet_relaychain_info::OnValidationDataHandler::<Rt>::on_validation_data(&cumulus_primitives_core::PersistedValidationData { relay_parent_number: n, ..Default::default() });
            pallet_relaychain_info::OnValidationDataHandler::<Rt>::on_validation_code_applied();
            events.push(pallet_relaychain_info::Event::<Rt>::CurrentBlockNumbers { parachain_block_number: block, relaychain_block_number: n as u64 }.into());
            let got: Vec<_> = System::events().into_iter().map(|r| r.event).collect();
            System::set_block_number(1);
            must!(got == events, "relay", "{got:?}, not {events:?}");
        }
    }
    m.free.retain(|_, x| *x > 0);
    let got: Vec<_> = System::events().into_iter().map(|r| r.event).collect();
    let mine = |v: &Vec<RuntimeEvent>| -> Vec<RuntimeEvent> { v.iter().filter(|e| matches!(e, RuntimeEvent::Rewards(_) | RuntimeEvent::Relay(_)) || matches!(e, RuntimeEvent::Tokens(orml_tokens::Event::Deposited { .. }))).cloned().collect() };
    must!(mine(&got) == mine(&events), "events", "{:?}, not {:?}", mine(&got), mine(&events));
    let was: Vec<Asked> = unhashed::get_or(b":asked", vec![]);
    must!(was == asked, "manager", "the manager below hears {was:?}, not {asked:?}");
    let stored: BTreeMap<u32, Vec<u64>> = Collators::<Rt>::iter().map(|(k, v)| (k, v.into_inner())).collect();
    must!(stored == m.stored, "stored", "{stored:?}, not {:?}", m.stored);
    for w in WHO { let f = Tokens::total_balance(1, &w); must!(f == *m.free.get(&w).unwrap_or(&0), "balance", "{w} has {f}, not {:?}", m.free.get(&w)); }
    for i in 0..9 { must!(Rewards::collators(i).into_inner() == m.stored.get(&i).cloned().unwrap_or_default(), "stored", "session {i}"); }
    unhashed::kill(b":asked"); unhashed::kill(b":collators");
    System::reset_events();
    Ok(true)
}
fn begin(name: &str, excluded: Vec<u64>, reward: u128, acts: &[Act]) -> Start<M> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":excluded", &excluded); unhashed::put(b":reward", &reward);
        let mut m = M::default();
        for a in acts { if let Err(x) = step(a, &mut m) { panic!("start {name}: {a:?} gives {x:?}") } }
        m
    })
}
fn main() {
    let ck = kit::Check::new("P27");
    // genesis-history records what it is given, and gives it back
    for (a, b) in [(0u8, 0u8), (1, 2), (255, 254)] {
        let chain = pallet_genesis_history::Chain { genesis_hash: H256::repeat_byte(a), last_block_hash: H256::repeat_byte(b) };
        let s = start("", || { pallet_genesis_history::GenesisConfig::<Rt> { previous_chain: chain.clone(), _phantom: Default::default() }.build(); (Past::previous_chain() == chain) as u64 });
        if s.model != 1 || s.map.len() != 1 { ck.violation("history", format!("{chain:?} is not what is recorded"), serde_json::json!([a, b])) }
        ck.add_traces(1);
    }
    let sets: Vec<Option<Vec<u64>>> = vec![None, Some(vec![]), Some(vec![1]), Some(vec![1, 2, 3]), Some(vec![3, 1]), Some(vec![2, 2]), Some(vec![1, 2, 3, 4]), Some(vec![4, 5])];
    let mut acts = vec![Act::Relay(1, 0), Act::Relay(7, u32::MAX)];
    for c in &sets { acts.push(Act::Rotate(c.clone())); for i in [0, 1, 5] { acts.push(Act::New(i, c.clone(), i == 1)); } }
    for i in [0, 1, 2, 5] { acts.push(Act::End(i)); acts.push(Act::Start(i)); }
    for r in [0, 9, 10, 25] { acts.push(Act::Reward(r)); }
    for e in [vec![], vec![1], vec![2, 4]] { acts.push(Act::Exclude(e)); }
    for w in WHO { acts.push(Act::Spend(w)); }
    World { name: "sessions", depth: ck.pick(4, 5), events: true, actions: &|_: &M| acts.clone(), step: &step, prepare: &|| {} }.explore(&ck, vec![
        begin("new chain", vec![], 25, &[]),
        begin("running", vec![2], 25, &[Act::New(0, Some(vec![1, 2]), true), Act::New(1, Some(vec![2, 3]), true), Act::Rotate(Some(vec![1, 2, 3])), Act::Rotate(Some(vec![3]))]),
        begin("little reward", vec![], 9, &[Act::New(0, Some(vec![1, 2]), true), Act::Reward(25), Act::Rotate(Some(vec![1, 3])), Act::Reward(9)]),
    ]);
    ck.finish()
}
