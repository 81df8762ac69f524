//! P20: collections and items, on the real pallet-nft over the stand-in uniques and balances; collection types are all
//! combinations of permissions.
use frame_support::traits::{tokens::nonfungibles::{Destroy, Inspect, InspectEnumerable, Mutate, Transfer}, AsEnsureOriginWithArg, ConstU128, ConstU32, Currency, ReservableCurrency};
use hydradx_traits::nft::{CreateTypedCollection, ReserveCollectionId};
use pallet_nft::{CollectionType, Collections, Event, Items, NftPermission, NftPermissions};
use sp_core::bounded::BoundedVec;
use sp_runtime::DispatchError;
use std::collections::{BTreeMap, BTreeSet};
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Uniques: pallet_uniques, Nft: pallet_nft });
world::system!(Rt, pallet_balances::AccountData<u128>);
world::balances!(Rt, 1);
const DEP_C: u128 = 100;
const DEP_I: u128 = 10;
const RESERVED: u128 = 2;
impl pallet_uniques::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type CollectionId = u128;
    type ItemId = u128;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<u64>;
    type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<u64>>;
    type Locker = ();
    type CollectionDeposit = ConstU128<DEP_C>;
    type ItemDeposit = ConstU128<DEP_I>;
    type MetadataDepositBase = ConstU128<1>;
    type AttributeDepositBase = ConstU128<1>;
    type DepositPerByte = ConstU128<1>;
    type StringLimit = ConstU32<4>;
    type KeyLimit = ConstU32<4>;
    type ValueLimit = ConstU32<4>;
    type WeightInfo = ();
}
const CREATE: u8 = 1;
const MINT: u8 = 2;
const MOVE: u8 = 4;
const BURN: u8 = 8;
const DESTROY: u8 = 16;
const DEPOSIT: u8 = 32;
pub struct Bits;
impl NftPermission<u8> for Bits {
    fn can_create(t: &u8) -> bool { t & CREATE != 0 }
    fn can_mint(t: &u8) -> bool { t & MINT != 0 }
    fn can_transfer(t: &u8) -> bool { t & MOVE != 0 }
    fn can_burn(t: &u8) -> bool { t & BURN != 0 }
    fn can_destroy(t: &u8) -> bool { t & DESTROY != 0 }
    fn has_deposit(t: &u8) -> bool { t & DEPOSIT != 0 }
}
impl pallet_nft::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type NftCollectionId = u128;
    type NftItemId = u128;
    type CollectionType = u8;
    type Permissions = Bits;
    type ReserveCollectionIdUpTo = ConstU128<RESERVED>;
}
type Meta = BoundedVec<u8, ConstU32<4>>;
fn meta(n: u8) -> Meta { Meta::truncate_from((0..n).collect()) }
#[derive(Clone, Debug, PartialEq)]
struct Item { owner: u64, meta: Vec<u8>, deposit: u128 }
#[derive(Clone, Debug, PartialEq)]
struct Coll { owner: u64, kind: u8, meta: Vec<u8>, deposit: u128, items: BTreeMap<u128, Item> }
#[derive(Clone, Debug, PartialEq)]
struct Book { colls: BTreeMap<u128, Coll>, money: BTreeMap<u64, (u128, u128)> }
const USERS: [u64; 3] = [1, 2, 3];
/// the books of both pallets, which must be the same
fn read() -> Result<Book, Wrong> {
    let mut b = Book { colls: BTreeMap::new(), money: USERS.iter().map(|w| (*w, (Balances::free_balance(w), Balances::reserved_balance(w)))).collect() };
    for (id, c) in Collections::<Rt>::iter() {
        let Some(d) = pallet_uniques::Class::<Rt>::get(id) else { return wrong("books", format!("collection {id} is not in uniques")) };
        let mut items = BTreeMap::new();
        for (i, x) in Items::<Rt>::iter_prefix(id) { let Some(u) = pallet_uniques::Asset::<Rt>::get(id, i) else { return wrong("books", format!("item {id}/{i} is not in uniques")) }; items.insert(i, Item { owner: u.owner, meta: x.metadata.to_vec(), deposit: u.deposit }); }
        must!(d.items as usize == items.len() && pallet_uniques::Asset::<Rt>::iter_prefix(id).count() == items.len(), "books", "collection {id} has {} items in uniques, {items:?} here", d.items);
        must!(d.free_holding == (c.collection_type & DEPOSIT == 0) && d.issuer == d.owner && d.admin == d.owner, "books", "collection {id}: {d:?}");
        let own: u128 = items.values().map(|i| i.deposit).sum();
        must!(d.total_deposit >= own, "books", "collection {id}: {d:?}");
        b.colls.insert(id, Coll { owner: d.owner, kind: c.collection_type, meta: c.metadata.to_vec(), deposit: d.total_deposit - own, items });
    }
    must!(pallet_uniques::Class::<Rt>::iter().count() == b.colls.len() && Items::<Rt>::iter().count() == b.colls.values().map(|c| c.items.len()).sum::<usize>(), "books", "records left behind");
    Ok(b)
}
#[derive(Clone, Debug)]
enum Act { Create(u64, u128, u8, u8), Mint(u64, u128, u128, u8), Move(u64, u128, u128, u64), Burn(u64, u128, u128), Destroy(u64, u128), XCreate(u64, u128, u8, Option<u8>), XMint(u128, u128, u64), XBurn(u128, u128, Option<u64>), XMove(u128, u128, u64), XDestroy(u128, Option<u64>) }
impl Book {
    fn hold(&mut self, w: u64, x: u128) -> Option<()> { if !Balances::can_reserve(&w, x) { return None } let m = self.money.get_mut(&w)?; m.0 -= x; m.1 += x; Some(()) }
    fn free(&mut self, w: u64, x: u128) { let m = self.money.get_mut(&w).unwrap(); m.0 += x; m.1 -= x; }
    fn create(&mut self, w: u64, id: u128, kind: u8, m: Vec<u8>) -> Option<()> { if self.colls.contains_key(&id) { return None } let d = if kind & DEPOSIT != 0 { DEP_C } else { 0 }; self.hold(w, d)?; self.colls.insert(id, Coll { owner: w, kind, meta: m, deposit: d, items: BTreeMap::new() }); Some(()) }
    fn mint(&mut self, w: u64, id: u128, i: u128, m: Vec<u8>) -> Option<()> { let c = self.colls.get(&id)?.clone(); if c.items.contains_key(&i) { return None } let d = if c.kind & DEPOSIT != 0 { DEP_I } else { 0 }; self.hold(c.owner, d)?; self.colls.get_mut(&id).unwrap().items.insert(i, Item { owner: w, meta: m, deposit: d }); Some(()) }
    fn shift(&mut self, id: u128, i: u128, to: u64) -> Option<()> { self.colls.get_mut(&id)?.items.get_mut(&i)?.owner = to; Some(()) }
    fn burn(&mut self, id: u128, i: u128, w: Option<u64>) -> Option<u64> { let c = self.colls.get_mut(&id)?; let o = c.owner; let x = c.items.get(&i)?.clone(); if w.map_or(false, |w| w != x.owner) { return None } c.items.remove(&i); self.free(o, x.deposit); Some(x.owner) }
    fn destroy(&mut self, id: u128, w: Option<u64>) -> Option<u64> { let c = self.colls.get(&id)?.clone(); if !c.items.is_empty() || w.map_or(false, |w| w != c.owner) { return None } self.free(c.owner, c.deposit); self.colls.remove(&id); Some(c.owner) }
    fn kind(&self, id: u128, may: u8) -> Option<u8> { let k = self.colls.get(&id)?.kind; if k & may != 0 { Some(k) } else { None } }
    fn apply(&mut self, a: &Act, said: &mut Vec<Event<Rt>>) -> Option<()> {
        let created = |owner, id, kind, m| Event::CollectionCreated { owner, collection_id: id, collection_type: kind, metadata: m };
        match *a {
            Act::Create(w, id, k, m) => { if id <= RESERVED || k & CREATE == 0 { return None } self.create(w, id, k, meta(m).to_vec())?; said.push(created(w, id, k, meta(m))); }
            Act::XCreate(w, id, k, m) => { let m = m.map(meta).unwrap_or_default(); self.create(w, id, k, m.to_vec())?; said.push(created(w, id, k, m)); }
            Act::Mint(w, id, i, m) => { self.kind(id, MINT)?; if self.colls[&id].owner != w { return None } self.mint(w, id, i, meta(m).to_vec())?; said.push(Event::ItemMinted { owner: w, collection_id: id, item_id: i, metadata: meta(m) }); }
            Act::XMint(id, i, w) => { self.mint(w, id, i, vec![])?; said.push(Event::ItemMinted { owner: w, collection_id: id, item_id: i, metadata: Meta::default() }); }
            Act::Move(w, id, i, to) => { self.kind(id, MOVE)?; if w == to { return Some(()) } if self.colls[&id].items.get(&i)?.owner != w { return None } self.shift(id, i, to)?; said.push(Event::ItemTransferred { from: w, to, collection_id: id, item_id: i }); }
            Act::XMove(id, i, to) => { let w = self.colls.get(&id)?.items.get(&i)?.owner; if w != to { self.shift(id, i, to)?; said.push(Event::ItemTransferred { from: w, to, collection_id: id, item_id: i }); } }
            Act::Burn(w, id, i) => { self.kind(id, BURN)?; self.burn(id, i, Some(w))?; said.push(Event::ItemBurned { owner: w, collection_id: id, item_id: i }); }
            Act::XBurn(id, i, w) => { let o = self.burn(id, i, w)?; said.push(Event::ItemBurned { owner: o, collection_id: id, item_id: i }); }
            Act::Destroy(w, id) => { self.kind(id, DESTROY)?; self.destroy(id, Some(w))?; said.push(Event::CollectionDestroyed { owner: w, collection_id: id }); }
            Act::XDestroy(id, w) => { let o = self.destroy(id, w)?; said.push(Event::CollectionDestroyed { owner: o, collection_id: id }); }
        }
        Some(())
    }
}
fn real(a: &Act) -> Result<(), DispatchError> {
    call(|| match *a {
        Act::Create(w, id, k, m) => Nft::create_collection(signed(w), id, k, meta(m)),
        Act::Mint(w, id, i, m) => Nft::mint(signed(w), id, i, meta(m)),
        Act::Move(w, id, i, to) => Nft::transfer(signed(w), id, i, to),
        Act::Burn(w, id, i) => Nft::burn(signed(w), id, i),
        Act::Destroy(w, id) => Nft::destroy_collection(signed(w), id),
        Act::XCreate(w, id, k, m) => <Nft as CreateTypedCollection<_, _, _, _>>::create_typed_collection(w, id, k, m.map(meta)),
        Act::XMint(id, i, w) => <Nft as Mutate<u64>>::mint_into(&id, &i, &w),
        Act::XBurn(id, i, w) => <Nft as Mutate<u64>>::burn(&id, &i, w.as_ref()),
        Act::XMove(id, i, to) => <Nft as Transfer<u64>>::transfer(&id, &i, &to),
        Act::XDestroy(id, w) => <Nft as Destroy<u64>>::destroy(id, pallet_uniques::DestroyWitness { items: 0, item_metadatas: 0, attributes: 0 }, w).map(|_| ()),
    })
}
fn map() -> sp_io::Map { sp_io::with_ext(|e| e.map.clone()) }
fn step(a: &Act) -> Result<bool, Wrong> {
    let (m0, mut want, mut said) = (map(), read()?, vec![]);
    let result = want.apply(a, &mut said);
    let ev = System::events().len();
    let got = real(a);
    if result.is_none() { must!(got.is_err(), "accept", "accepted"); must!(m0 == map(), "refused", "a refused call changed the state"); return Ok(false) }
    must!(got.is_ok(), "accept", "refused: {got:?}");
    let new = read()?;
    must!(new == want, "effect", "{new:?} instead of {want:?}");
    let heard: Vec<Event<Rt>> = System::events()[ev..].iter().filter_map(|e| if let RuntimeEvent::Nft(e) = &e.event { Some(e.clone()) } else { None }).collect();
    must!(heard == said, "event", "announces {heard:?}, not {said:?}");
    asks(&new)?;
    Ok(true)
}
fn asks(b: &Book) -> Result<(), Wrong> {
    must!(<Nft as InspectEnumerable<u64>>::collections().collect::<BTreeSet<u128>>() == b.colls.keys().copied().collect(), "query", "collections");
    for id in IDS {
        let c = b.colls.get(&id);
        must!(<Nft as Inspect<u64>>::collection_owner(&id) == c.map(|c| c.owner), "query", "owner of {id}");
        must!(<Nft as ReserveCollectionId<u128>>::is_id_reserved(id) == (id <= RESERVED), "query", "{id}");
        must!(<Nft as InspectEnumerable<u64>>::items(&id).collect::<BTreeSet<u128>>() == c.map_or(BTreeSet::new(), |c| c.items.keys().copied().collect()), "query", "items of {id}");
        must!(<Nft as Destroy<u64>>::get_destroy_witness(&id).map(|w| w.items as usize) == c.map(|c| c.items.len()), "query", "witness of {id}");
        for i in ITEMS { must!(<Nft as Inspect<u64>>::owner(&id, &i) == c.and_then(|c| c.items.get(&i)).map(|i| i.owner), "query", "owner of {id}/{i}"); must!(<Nft as Inspect<u64>>::can_transfer(&id, &i) == c.map_or(false, |c| c.kind & MOVE != 0), "query", "{id}/{i}"); }
        for w in USERS { must!(<Nft as InspectEnumerable<u64>>::owned_in_collection(&id, &w).collect::<BTreeSet<u128>>() == c.map_or(BTreeSet::new(), |c| c.items.iter().filter(|(_, x)| x.owner == w).map(|(i, _)| *i).collect()), "query", "items of {w} in {id}"); }
    }
    for w in USERS {
        let mine: BTreeSet<(u128, u128)> = b.colls.iter().flat_map(|(id, c)| c.items.iter().filter(|(_, x)| x.owner == w).map(|(i, _)| (*id, *i))).collect();
        must!(<Nft as InspectEnumerable<u64>>::owned(&w).collect::<BTreeSet<_>>() == mine, "query", "items of {w}");
        let held: u128 = b.colls.values().filter(|c| c.owner == w).map(|c| c.deposit + c.items.values().map(|i| i.deposit).sum::<u128>()).sum();
        must!(Balances::reserved_balance(w) == held, "deposit", "{w} has {} reserved, deposits are {held}", Balances::reserved_balance(w));
    }
    Ok(())
}
const IDS: [u128; 5] = [0, 2, 3, 4, u128::MAX];
const ITEMS: [u128; 3] = [0, 1, u128::MAX];
fn begin(name: &str, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        for (w, x) in [(1, 1_000), (2, 225), (3, 50)] { let _ = Balances::deposit_creating(&w, x); }
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
        asks(&read().unwrap()).unwrap();
    })
}
fn main() {
    let ck = kit::Check::new("P20");
    // the permissions of the two real types: markets may do everything, farms' receipts only change hands
    for (t, want) in [(CollectionType::Marketplace, [true; 6]), (CollectionType::LiquidityMining, [false, false, true, false, false, false])] {
        let got = [NftPermissions::can_create(&t), NftPermissions::can_mint(&t), NftPermissions::can_transfer(&t), NftPermissions::can_burn(&t), NftPermissions::can_destroy(&t), NftPermissions::has_deposit(&t)];
        if got != want { ck.violation("permissions", format!("permissions of {t:?}: {got:?}"), serde_json::json!({})); }
    }
    let kinds = [63u8, 0, 63 - CREATE, 63 - MINT, 63 - MOVE, 63 - BURN, 63 - DESTROY, 63 - DEPOSIT, MINT, BURN, MOVE, DESTROY, CREATE];
    let mut starts = vec![begin("nothing", &[])];
    for k in kinds { starts.push(begin(&format!("collection of type {k}"), &[Act::XCreate(1, 3, k, Some(2)), Act::XMint(3, 0, 1), Act::XMint(3, 1, 2), Act::XCreate(2, 0, k, None)])); }
    let mut all = vec![];
    for w in [1, 2] { for id in IDS { for k in [63, 63 - CREATE, 63 - DEPOSIT] { all.push(Act::Create(w, id, k, 4)); } for k in [0, 63] { all.push(Act::XCreate(w, id, k, if w == 1 { None } else { Some(3) })); } } }
    all.push(Act::Create(3, 3, 63, 1));
    for id in [0, 3, 4] {
        for i in [0, 1] {
            for w in USERS { all.push(Act::Mint(w, id, i, 3)); all.push(Act::Burn(w, id, i)); all.push(Act::XMint(id, i, w)); all.push(Act::XBurn(id, i, Some(w))); all.push(Act::XMove(id, i, w)); for to in [1, 2] { all.push(Act::Move(w, id, i, to)); } }
            all.push(Act::XBurn(id, i, None));
        }
        all.push(Act::Mint(1, id, u128::MAX, 0));
        for w in USERS { all.push(Act::Destroy(w, id)); all.push(Act::XDestroy(id, Some(w))); }
        all.push(Act::XDestroy(id, None));
    }
    World { name: "nft", depth: ck.pick(3, 4), events: true, actions: &|_: &()| all.clone(), step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
