//! P19: the asset registry, on the real pallet-asset-registry: extrinsics by every kind of origin and the traits other
//! pallets register through; only four ids are left for assets that do not choose theirs.
use frame_support::{parameter_types, traits::{BuildGenesisConfig, Contains, Nothing}};
use hydradx_traits::registry::{AssetKind, Create, Inspect, Mutate};
use orml_traits::{parameter_type_with_key, GetByKey};
use pallet_asset_registry::{AssetIds, AssetLocations, AssetType, Assets, BannedAssets, Event, LocationAssets, NextAssetId, OracleWhitelist, XcmRateLimitsInRegistry};
use sp_core::bounded::BoundedVec;
use std::collections::{BTreeMap, BTreeSet};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Tokens: orml_tokens, Registry: pallet_asset_registry });
world::system!(Rt, ());
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Nothing, ());
const START: AssetId = u32::MAX - 5;
const MIN: usize = 3;
const CLERK: u64 = 9;
parameter_types! {
    #[derive(PartialEq, Debug)] pub const Long: u32 = 5;
    #[derive(PartialEq, Debug)] pub const Short: u32 = MIN as u32;
    pub const First: AssetId = START;
    pub const Clerk: u64 = CLERK;
}
pub struct ClerkOnly;
impl frame_support::traits::SortedMembers<u64> for ClerkOnly { fn sorted_members() -> Vec<u64> { vec![CLERK] } }
impl pallet_asset_registry::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type Currency = Tokens;
    type RegistryOrigin = frame_system::EnsureRoot<u64>;
    type UpdateOrigin = frame_system::EnsureSignedBy<ClerkOnly, u64>;
    type AssetId = AssetId;
    type AssetNativeLocation = u8;
    type StringLimit = Long;
    type MinStringLimit = Short;
    type SequentialIdStartAt = First;
    type RegExternalWeightMultiplier = frame_support::traits::ConstU64<1>;
    type WeightInfo = ();
}
type Text = BoundedVec<u8, Long>;
type Str = &'static str;
fn text(s: Str) -> Text { let b: Vec<u8> = s.chars().map(|c| c as u8).collect(); Text::try_from(b).unwrap() }
#[derive(Clone, Debug, PartialEq)]
struct Asset { name: Option<Vec<u8>>, kind: AssetType, ed: u128, symbol: Option<Vec<u8>>, decimals: Option<u8>, rate: Option<u128>, sufficient: bool }
#[derive(Clone, Debug, PartialEq, Default)]
struct Book { assets: BTreeMap<AssetId, Asset>, names: BTreeMap<Vec<u8>, AssetId>, places: BTreeMap<AssetId, u8>, at: BTreeMap<u8, AssetId>, banned: BTreeSet<AssetId>, next: AssetId }
fn read() -> Book {
    Book {
        assets: Assets::<Rt>::iter().map(|(i, d)| (i, Asset { name: d.name.map(|n| n.to_vec()), kind: d.asset_type, ed: d.existential_deposit, symbol: d.symbol.map(|s| s.to_vec()), decimals: d.decimals, rate: d.xcm_rate_limit, sufficient: d.is_sufficient })).collect(),
        names: AssetIds::<Rt>::iter().map(|(n, i)| (n.to_vec(), i)).collect(),
        places: AssetLocations::<Rt>::iter().collect(), at: LocationAssets::<Rt>::iter().collect(),
        banned: BannedAssets::<Rt>::iter().map(|(i, _)| i).collect(), next: NextAssetId::<Rt>::get(),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Who { Root, Clerk, User }
fn who(w: Who) -> RuntimeOrigin { match w { Who::Root => root(), Who::Clerk => signed(CLERK), Who::User => signed(1) } }
#[derive(Clone, Copy, Debug)]
struct New { id: Option<AssetId>, name: Option<Str>, kind: u8, ed: Option<u128>, symbol: Option<Str>, decimals: Option<u8>, place: Option<u8>, rate: Option<u128>, sufficient: bool }
const NEW: New = New { id: None, name: None, kind: 0, ed: None, symbol: None, decimals: None, place: None, rate: None, sufficient: false };
#[derive(Clone, Copy, Debug)]
struct Change { name: Option<Str>, kind: Option<u8>, ed: Option<u128>, symbol: Option<Str>, decimals: Option<u8>, place: Option<u8>, rate: Option<u128>, sufficient: Option<bool> }
const SAME: Change = Change { name: None, kind: None, ed: None, symbol: None, decimals: None, place: None, rate: None, sufficient: None };
#[derive(Clone, Debug)]
enum Act { Register(Who, New), Update(Who, AssetId, Change), External(Option<u64>, u8), Ban(Who, AssetId), Unban(Who, AssetId), Create(New), Get(New), SetPlace(AssetId, u8) }
const KINDS: [(AssetType, AssetKind); 5] = [(AssetType::Token, AssetKind::Token), (AssetType::XYK, AssetKind::XYK), (AssetType::StableSwap, AssetKind::StableSwap), (AssetType::Bond, AssetKind::Bond), (AssetType::External, AssetKind::External)];
fn plain(s: &Option<Vec<u8>>) -> bool { s.as_ref().map_or(true, |s| s.len() >= MIN && s.iter().all(|c| !matches!(c, 9..=13 | 32 | 0x85 | 0xa0))) }
fn long(s: &Option<Vec<u8>>) -> bool { s.as_ref().map_or(true, |s| s.len() >= MIN) }
impl Book {
    fn place(&mut self, id: AssetId, at: u8, said: &mut Vec<Event<Rt>>) -> Option<()> { if self.at.contains_key(&at) || self.places.contains_key(&id) { return None } self.at.insert(at, id); self.places.insert(id, at); said.push(Event::LocationSet { asset_id: id, location: at }); Some(()) }
    fn add(&mut self, n: &New, said: &mut Vec<Event<Rt>>) -> Option<AssetId> {
        let b = |s: Option<Str>| s.map(|s| text(s).to_vec());
        let a = Asset { name: b(n.name), kind: KINDS[n.kind as usize].0, ed: n.ed.unwrap_or(1), symbol: b(n.symbol), decimals: n.decimals, rate: n.rate, sufficient: n.sufficient };
        if !plain(&a.symbol) || !long(&a.name) || a.name.as_ref().map_or(false, |x| self.names.contains_key(x)) { return None }
        let id = match n.id { Some(i) => { if i >= START { return None } i } None => { let i = self.next.checked_add(START)?; self.next += 1; i } };
        if self.assets.contains_key(&id) { return None }
        if let Some(x) = &a.name { self.names.insert(x.clone(), id); }
        if let Some(at) = n.place { self.place(id, at, said)?; }
        said.push(Event::Registered { asset_id: id, asset_name: n.name.map(text), asset_type: a.kind, existential_deposit: a.ed, xcm_rate_limit: a.rate, symbol: n.symbol.map(text), decimals: a.decimals, is_sufficient: a.sufficient });
        self.assets.insert(id, a);
        Some(id)
    }
    fn change(&mut self, top: bool, id: AssetId, c: &Change, said: &mut Vec<Event<Rt>>) -> Option<()> {
        let b = |s: Option<Str>| s.map(|s| text(s).to_vec());
        let mut a = self.assets.get(&id)?.clone();
        if let Some(x) = b(c.name) { if !long(&Some(x.clone())) || self.names.contains_key(&x) { return None } if let Some(old) = &a.name { self.names.remove(old); } self.names.insert(x.clone(), id); a.name = Some(x); }
        if let Some(k) = c.kind { a.kind = KINDS[k as usize].0; }
        if let Some(x) = c.ed { a.ed = x; }
        if let Some(x) = c.rate { a.rate = Some(x); }
        if let Some(x) = b(c.symbol) { if !plain(&Some(x.clone())) { return None } a.symbol = Some(x); }
        if let Some(x) = c.sufficient { if a.sufficient && !x { return None } a.sufficient = x; }
        if let Some(x) = c.decimals { if a.decimals.is_some() && !top { return None } a.decimals = Some(x); }
        if let Some(x) = c.place { if !top { return None } if let Some(old) = self.places.remove(&id) { self.at.remove(&old); } self.place(id, x, said)?; }
        let t = |s: &Option<Vec<u8>>| s.clone().map(|s| Text::truncate_from(s));
        said.push(Event::Updated { asset_id: id, asset_name: t(&a.name), asset_type: a.kind, existential_deposit: a.ed, xcm_rate_limit: a.rate, symbol: t(&a.symbol), decimals: a.decimals, is_sufficient: a.sufficient });
        self.assets.insert(id, a);
        Some(())
    }
    /// what the call gives: nothing when refused, otherwise the id it returns, if any
    fn apply(&mut self, a: &Act, said: &mut Vec<Event<Rt>>) -> Option<Option<AssetId>> {
        match a {
            Act::Register(w, n) => if *w == Who::Root { self.add(n, said)?; Some(None) } else { None },
            Act::External(w, at) => { (*w)?; self.add(&New { kind: 4, place: Some(*at), ..NEW }, said)?; Some(None) }
            Act::Update(w, id, c) => if *w == Who::User { None } else { self.change(*w == Who::Root, *id, c, said).map(|_| None) },
            Act::Ban(w, id) => if *w == Who::Clerk && self.assets.contains_key(id) && self.banned.insert(*id) { said.push(Event::AssetBanned { asset_id: *id }); Some(None) } else { None },
            Act::Unban(w, id) => if *w == Who::Clerk && self.banned.remove(id) { said.push(Event::AssetUnbanned { asset_id: *id }); Some(None) } else { None },
            Act::Create(n) => self.add(n, said).map(Some),
            Act::Get(n) => match self.names.get(&text(n.name.unwrap()).to_vec()) { Some(i) => Some(Some(*i)), None => self.add(&New { id: None, ..*n }, said).map(Some) },
            Act::SetPlace(id, at) => if self.assets.contains_key(id) { self.place(*id, *at, said).map(|_| None) } else { None },
        }
    }
}
fn real(a: &Act) -> Result<Option<AssetId>, String> {
    let none = |r: Result<(), sp_runtime::DispatchError>| r.map(|_| None).map_err(|e| format!("{e:?}"));
    let some = |r: Result<AssetId, sp_runtime::DispatchError>| r.map(Some).map_err(|e| format!("{e:?}"));
    match a {
        Act::Register(w, n) => none(call(|| Registry::register(who(*w), n.id, n.name.map(text), KINDS[n.kind as usize].0, n.ed, n.symbol.map(text), n.decimals, n.place, n.rate, n.sufficient))),
        Act::Update(w, id, c) => none(call(|| Registry::update(who(*w), *id, c.name.map(text), c.kind.map(|k| KINDS[k as usize].0), c.ed, c.rate, c.sufficient, c.symbol.map(text), c.decimals, c.place))),
        Act::External(w, at) => none(call(|| Registry::register_external(w.map_or(root(), signed), *at))),
        Act::Ban(w, id) => none(call(|| Registry::ban_asset(who(*w), *id))),
        Act::Unban(w, id) => none(call(|| Registry::unban_asset(who(*w), *id))),
        Act::SetPlace(id, at) => none(call(|| <Registry as Mutate<Balance>>::set_location(*id, *at))),
        Act::Create(n) => { let (nm, k, sy) = (n.name.map(text), KINDS[n.kind as usize].1, n.symbol.map(text)); some(call(|| match (n.sufficient, n.ed) {
            (true, Some(ed)) => <Registry as Create<Balance>>::register_sufficient_asset(n.id, nm, k, ed, sy, n.decimals, n.place, n.rate),
            (false, Some(_)) => <Registry as Create<Balance>>::register_insufficient_asset(n.id, nm, k, n.ed, sy, n.decimals, n.place, n.rate),
            _ => <Registry as Create<Balance>>::register_asset(n.id, nm, k, n.ed, sy, n.decimals, n.place, n.rate, n.sufficient),
        })) }
        Act::Get(n) => { let (nm, k, sy) = (text(n.name.unwrap()), KINDS[n.kind as usize].1, n.symbol.map(text)); some(call(|| match (n.sufficient, n.ed) {
            (true, Some(ed)) => <Registry as Create<Balance>>::get_or_register_sufficient_asset(nm, k, ed, sy, n.decimals, n.place, n.rate),
            (false, Some(_)) => <Registry as Create<Balance>>::get_or_register_insufficient_asset(nm, k, n.ed, sy, n.decimals, n.place, n.rate),
            _ => <Registry as Create<Balance>>::get_or_register_asset(nm, k, n.ed, sy, n.decimals, n.place, n.rate, n.sufficient),
        })) }
    }
}
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
fn step(a: &Act) -> Result<bool, Wrong> {
    let (m0, old) = (map(), read());
    let (mut want, mut said) = (old.clone(), vec![]);
    let result = want.apply(a, &mut said);
    let ev = System::events().len();
    let got = real(a);
    let new = read();
    match result {
        Some(id) => {
            must!(got == Ok(id), "accept", "gives {got:?}, expected {id:?}");
            must!(new == want, "effect", "{new:?} instead of {want:?}");
            let heard: Vec<Event<Rt>> = System::events()[ev..].iter().filter_map(|e| if let RuntimeEvent::Registry(e) = &e.event { Some(e.clone()) } else { None }).collect();
            must!(heard == said, "event", "announces {heard:?}");
        }
        None => { must!(got.is_err(), "accept", "accepted: {got:?}"); must!(map() == m0, "refused", "a refused call changed the registry"); }
    }
    for (i, a) in &old.assets {
        let b = new.assets.get(i);
        must!(b.map_or(false, |b| (b.sufficient || !a.sufficient) && (b.decimals.is_some() || a.decimals.is_none())), "lost", "asset {i} was {a:?}, is {b:?}");
    }
    for i in new.assets.keys().filter(|i| !old.assets.contains_key(i)) { must!(*i < START || *i == START + old.next, "id", "new id {i}"); }
    sound(&new)?;
    Ok(got.is_ok())
}
fn sound(b: &Book) -> Result<(), Wrong> {
    must!(b.names == b.assets.iter().filter_map(|(i, a)| a.name.clone().map(|n| (n, *i))).collect() && b.names.len() == b.assets.values().filter(|a| a.name.is_some()).count(), "name", "names {:?} of {:?}", b.names, b.assets);
    must!(b.at == b.places.iter().map(|(i, l)| (*l, *i)).collect() && b.at.len() == b.places.len() && b.places.keys().all(|i| b.assets.contains_key(i)), "location", "assets are at {:?}, locations hold {:?}", b.places, b.at);
    must!(b.banned.iter().all(|i| b.assets.contains_key(i)), "ban", "{:?}", b.banned);
    must!(b.assets.keys().all(|i| *i < START || *i - START < b.next), "id", "{:?} with {} next", b.assets.keys(), b.next);
    // what others are told
    let ids: BTreeSet<AssetId> = b.assets.keys().copied().chain([0, 1, 2, 3, START, START + 1, START + 2, START + 3, u32::MAX]).collect();
    for i in ids {
        let a = b.assets.get(&i);
        let r = || <Registry as Inspect>::is_sufficient(i) == a.map_or(false, |a| a.sufficient)
            && <Registry as Inspect>::exists(i) == a.is_some()
            && <Registry as Inspect>::decimals(i) == a.and_then(|a| a.decimals)
            && <Registry as Inspect>::asset_type(i) == a.map(|a| KINDS.iter().find(|k| k.0 == a.kind).unwrap().1)
            && <Registry as Inspect>::is_banned(i) == b.banned.contains(&i)
            && <Registry as Inspect>::asset_name(i) == a.and_then(|a| a.name.clone())
            && <Registry as Inspect>::asset_symbol(i) == a.and_then(|a| a.symbol.clone())
            && <Registry as Inspect>::existential_deposit(i) == a.map(|a| a.ed)
            && <Registry as GetByKey<AssetId, Balance>>::get(&i) == a.map_or(u128::MAX, |a| a.ed)
            && <XcmRateLimitsInRegistry<Rt> as GetByKey<AssetId, Option<Balance>>>::get(&i) == a.and_then(|a| a.rate)
            && Registry::asset_to_location(i) == b.places.get(&i).copied();
        must!(r(), "query", "asset {i} is {a:?}");
        for j in [0, 1, 2, START + 1] { let both = [i, j].iter().all(|x| b.assets.get(x).map_or(false, |a| a.sufficient)); must!(<OracleWhitelist<Rt> as Contains<(hydradx_traits::Source, AssetId, AssetId)>>::contains(&(*b"anywhere", i, j)) == both, "query", "whitelist of {i}, {j}"); }
    }
    for l in 0..5 { must!(Registry::location_to_asset(l) == b.at.get(&l).copied(), "query", "location {l}"); }
    must!(Registry::next_asset_id() == b.next.checked_add(START), "query", "next id {:?}", Registry::next_asset_id());
    Ok(())
}
fn begin(name: &str, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        call(|| { pallet_asset_registry::GenesisConfig::<Rt> { registered_assets: vec![(Some(1), Some(text("one")), 7, Some(text("ONE")), Some(10), Some(99), true), (Some(2), None, 3, None, None, None, false)], ..Default::default() }.build(); Ok::<(), sp_runtime::DispatchError>(()) }).unwrap();
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
        sound(&read()).unwrap();
    })
}
fn registers() -> Vec<New> {
    let mut v = vec![NEW];
    for id in [0, 1, 3, START - 1, START, START + 1, u32::MAX] { v.push(New { id: Some(id), ..NEW }); }
    for name in ["", "ab", "abc", "abcde", "one", "HDX", "a c"] { v.push(New { name: Some(name), ..NEW }); }
    for symbol in ["", "AB", "ABC", "ABCDE", "A C", "AB\n", "\u{a0}BC", "ONE"] { v.push(New { symbol: Some(symbol), kind: 2, ..NEW }); }
    for place in 0..3 { v.push(New { place: Some(place), kind: 3, ..NEW }); }
    v.push(New { id: Some(3), name: Some("abc"), kind: 1, ed: Some(0), symbol: Some("ABC"), decimals: Some(12), place: Some(1), rate: Some(5), sufficient: true });
    v.push(New { id: Some(3), name: Some("one"), place: Some(2), ..NEW });
    v.push(New { id: None, name: Some("abc"), kind: 4, ed: Some(u128::MAX), symbol: Some("A C"), decimals: Some(0), place: Some(2), rate: Some(0), sufficient: true });
    v.push(New { id: None, name: Some("xyz"), kind: 0, ed: Some(9), symbol: None, decimals: None, place: Some(0), rate: None, sufficient: true });
    v.push(New { id: None, name: Some("xyz"), kind: 2, ed: Some(9), symbol: None, decimals: Some(3), place: None, rate: Some(1), sufficient: false });
    v
}
fn changes() -> Vec<Change> {
    let mut v = vec![SAME];
    for name in ["", "ab", "abc", "one", "xyz", "HDX"] { v.push(Change { name: Some(name), ..SAME }); }
    for symbol in ["AB", "ABC", "A C"] { v.push(Change { symbol: Some(symbol), ..SAME }); }
    for k in [1, 4] { v.push(Change { kind: Some(k), ..SAME }); }
    for x in [0, 8] { v.push(Change { ed: Some(x), ..SAME }); v.push(Change { rate: Some(x), ..SAME }); }
    for x in [false, true] { v.push(Change { sufficient: Some(x), ..SAME }); }
    for x in [0, 6] { v.push(Change { decimals: Some(x), ..SAME }); }
    for x in 0..3 { v.push(Change { place: Some(x), ..SAME }); }
    v.push(Change { name: Some("abc"), kind: Some(2), ed: Some(4), symbol: Some("XYZ"), decimals: Some(4), place: Some(1), rate: Some(2), sufficient: Some(true) });
    v.push(Change { name: Some("abc"), decimals: Some(4), place: Some(1), sufficient: Some(false), ..SAME });
    v
}
fn main() {
    let ck = kit::Check::new("P19");
    let mut all = vec![];
    for n in registers() { all.push(Act::Register(Who::Root, n)); if n.symbol.is_none() || n.name.is_some() { all.push(Act::Create(n)); } if n.name.is_some() { all.push(Act::Get(n)); } }
    for w in [Who::Clerk, Who::User] { all.push(Act::Register(w, NEW)); }
    for w in [Who::Root, Who::Clerk] { for i in [1, 2, START + 1] { for c in changes() { all.push(Act::Update(w, i, c)); } } all.push(Act::Update(w, 5, SAME)); }
    all.push(Act::Update(Who::User, 1, SAME));
    for l in 0..3 { all.push(Act::External(Some(1), l)); for i in [1, 2, 5, START + 1] { all.push(Act::SetPlace(i, l)); } }
    all.push(Act::External(None, 0));
    for w in [Who::Root, Who::Clerk, Who::User] { for i in [0, 1, 5] { all.push(Act::Ban(w, i)); all.push(Act::Unban(w, i)); } }
    let starts = vec![
        begin("genesis", &[]),
        begin("ids run out", &[Act::External(Some(1), 0), Act::External(Some(1), 7), Act::External(Some(2), 8)]),
        begin("named and placed", &[Act::Create(New { name: Some("abc"), place: Some(0), ..NEW }), Act::SetPlace(1, 1), Act::Update(Who::Root, 2, Change { name: Some("xyz"), decimals: Some(6), ..SAME }), Act::Ban(Who::Clerk, 1)]),
    ];
    World { name: "every call", depth: ck.pick(3, 4), events: true, actions: &|_: &()| all.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    // longer histories of names, locations, ids and bans
    let mut some = vec![];
    for name in ["abc", "one", "xyz"] { some.push(Act::Get(New { name: Some(name), ..NEW })); for (w, i) in [(Who::Root, 1), (Who::Clerk, 2), (Who::Root, START + 1)] { some.push(Act::Update(w, i, Change { name: Some(name), ..SAME })); } }
    for l in 0..3 { some.push(Act::External(Some(1), l)); for i in [1, START + 1] { some.push(Act::SetPlace(i, l)); some.push(Act::Update(Who::Root, i, Change { place: Some(l), ..SAME })); } }
    for i in [1, START + 1] { some.push(Act::Ban(Who::Clerk, i)); some.push(Act::Unban(Who::Clerk, i)); }
    some.push(Act::Update(Who::Clerk, 2, Change { decimals: Some(6), sufficient: Some(true), ..SAME }));
    some.push(Act::Update(Who::Clerk, 2, Change { sufficient: Some(false), ..SAME }));
    let starts = vec![begin("genesis", &[])];
    World { name: "long runs", depth: ck.pick(5, 6), events: true, actions: &|_: &()| some.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
