//! P10: staking, on the real pallet-staking with the stand-in tokens and NFTs. Democracy is present as the calls it makes.
use codec::{Decode, Encode};
use frame_support::{parameter_types, storage::unhashed, traits::{AsEnsureOriginWithArg, ConstU128, ConstU32, ConstU64, Everything, NeverEnsureOrigin}, PalletId};
use hydra_dx_math::staking as m;
use orml_traits::{parameter_type_with_key, GetByKey, MultiCurrency};
use pallet_democracy::{traits::DemocracyHooks, AccountVote, Vote as DVote};
use pallet_staking::{integrations::democracy::StakingDemocracy, traits::{DemocracyReferendum, Freeze, VestingDetails}, types::Action, SigmoidPercentage, STAKING_LOCK_ID};
use sp_arithmetic::{FixedPointNumber, FixedU128};
use sp_runtime::{traits::{AccountIdConversion, BlockNumberProvider}, DispatchError, DispatchResult, Perbill, Permill};
use std::collections::BTreeMap;
use world::*;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Uniques: pallet_uniques, Tokens: orml_tokens, Staking: pallet_staking });
world::system!(Rt, pallet_balances::AccountData<Balance>);
world::balances!(Rt, 1);
parameter_type_with_key! { pub Eds: |_a: AssetId| -> Balance { 1 }; }
world::tokens!(Rt, Eds, Everything, ());
impl pallet_uniques::Config for Rt {
    type RuntimeEvent = RuntimeEvent;
    type CollectionId = u128;
    type ItemId = u128;
    type Currency = Balances;
    type ForceOrigin = frame_system::EnsureRoot<u64>;
    type CreateOrigin = AsEnsureOriginWithArg<NeverEnsureOrigin<u64>>;
    type Locker = ();
    type CollectionDeposit = ConstU128<0>;
    type ItemDeposit = ConstU128<0>;
    type MetadataDepositBase = ConstU128<0>;
    type AttributeDepositBase = ConstU128<0>;
    type DepositPerByte = ConstU128<0>;
    type StringLimit = ConstU32<72>;
    type KeyLimit = ConstU32<256>;
    type ValueLimit = ConstU32<256>;
    type WeightInfo = ();
}
pub struct Clock;
impl BlockNumberProvider for Clock { type BlockNumber = u64; fn current_block_number() -> u64 { unhashed::get(b":block").unwrap_or(0) } }
/// 0 ongoing, 1 finished, 2 cancelled
fn referendum(i: u32) -> u8 { unhashed::get(&(b":ref", i).encode()).unwrap_or(0) }
pub struct Refs;
impl DemocracyReferendum for Refs { fn is_referendum_finished(i: u32) -> bool { referendum(i) == 1 } }
pub struct Vest;
fn vested(w: u64) -> u128 { unhashed::get(&(b":vest", w).encode()).unwrap_or(0) }
impl VestingDetails<u64, Balance> for Vest { fn locked(w: u64) -> u128 { vested(w) } }
pub struct MinSlash;
fn min_slash(p: FixedU128) -> u128 { if p >= FixedU128::from_rational(1, 2) { 5 } else { 1 } }
impl GetByKey<FixedU128, u128> for MinSlash { fn get(p: &FixedU128) -> u128 { min_slash(*p) } }
pub struct MaxPoints;
impl GetByKey<Action, u32> for MaxPoints { fn get(_: &Action) -> u32 { 100 } }
pub struct Frozen;
impl Freeze<u64, u128> for Frozen { fn freeze_collection(o: u64, c: u128) -> DispatchResult { Uniques::freeze_collection(RuntimeOrigin::signed(o), c) } }
parameter_types! {
    pub const Pid: PalletId = PalletId(*b"test_stk");
    pub const TimeW: Permill = Permill::from_percent(80);
    pub const ActionW: Perbill = Perbill::from_percent(20);
    pub const TimePer: u8 = 2;
    pub const StakeW: u8 = 2;
    pub const Free: u128 = 2;
    pub A: FixedU128 = FixedU128::from_rational(15, 100);
}
const MIN: u128 = 10;
impl pallet_staking::Config for Rt {
    type WeightInfo = ();
    type RuntimeEvent = RuntimeEvent;
    type AssetId = AssetId;
    type Currency = Tokens;
    type PeriodLength = ConstU64<10>;
    type PalletId = Pid;
    type NativeAssetId = ConstU32<0>;
    type MinStake = ConstU128<MIN>;
    type TimePointsWeight = TimeW;
    type ActionPointsWeight = ActionW;
    type TimePointsPerPeriod = TimePer;
    type UnclaimablePeriods = Free;
    type CurrentStakeWeight = StakeW;
    type BlockNumberProvider = Clock;
    type PositionItemId = u128;
    type CollectionId = u128;
    type NFTCollectionId = ConstU128<1>;
    type NFTHandler = Uniques;
    type PayablePercentage = SigmoidPercentage<A, ConstU32<3>>;
    type MaxVotes = ConstU32<2>;
    type MaxPointsPerAction = MaxPoints;
    type ReferendumInfo = Refs;
    type Vesting = Vest;
    type Collections = Frozen;
    type AuthorityOrigin = frame_system::EnsureRoot<u64>;
    type MinSlash = MinSlash;
}
#[derive(Decode, Clone, PartialEq, Debug)]
struct P { stake: u128, actions: u128, rps: u128, created: u64, slash: u128, unpaid: u128, locked: u128 }
#[derive(Decode, Clone, PartialEq, Debug, Default)]
struct S { total: u128, rps: u128, reserved: u128 }
/// amount, conviction
type V = (u128, u8);
#[derive(Clone, PartialEq, Debug)]
struct See { on: bool, s: S, p: BTreeMap<u128, (u64, P)>, votes: BTreeMap<(u128, u32), V>, done: BTreeMap<(u64, u32), V>, bal: BTreeMap<u64, u128>, lock: BTreeMap<u64, u128>, next: u128 }
const WHO: [u64; 4] = [1, 2, 3, 9];
fn pot() -> u64 { Pid::get().into_account_truncating() }
fn re<A: Encode, B: Decode>(a: A) -> B { B::decode(&mut &a.encode()[..]).expect("record") }
fn bal(w: u64) -> u128 { Tokens::free_balance(0, &w) }
fn see() -> See {
    let next = Staking::next_position_id();
    let mut n = See {
        on: !Staking::staking().encode().iter().all(|b| *b == 0), s: re(Staking::staking()), next,
        p: (0..next).filter_map(|i| Some((i, (Uniques::owner(1, i).unwrap_or(0), re(Staking::positions(i)?))))).collect(),
        votes: Default::default(), done: Default::default(),
        bal: WHO.iter().copied().chain([pot()]).map(|w| (w, bal(w))).collect(),
        lock: WHO.iter().map(|w| (*w, orml_tokens::Locks::<Rt>::get(w, 0).iter().filter(|l| l.id == STAKING_LOCK_ID).map(|l| l.amount).sum())).filter(|l: &(u64, u128)| l.1 != 0).collect(),
    };
    for i in 0..next { for (r, v) in re::<_, Vec<(u32, V)>>(Staking::position_votes(i)) { n.votes.insert((i, r), v); } }
    for w in WHO { for r in 0..4 { if let Some(v) = Staking::processed_votes(w, r) { n.done.insert((w, r), re(v)); } } }
    n
}
#[derive(Clone, Debug)]
enum Act {
    Init(bool),
    Stake(u64, u128),
    Inc(u64, u128, u128),
    Claim(u64, u128),
    Unstake(u64, u128),
    /// who, referendum, amount, conviction (7: split)
    Vote(u64, u32, u128, u8),
    Unvote(u64, u32),
    End(u32, u8),
    Blocks(u64),
    Fee(AssetId, u128),
    Donate(u128),
    Vesting(u64, u128),
}
use Act::*;
fn fx(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
fn period(b: u64) -> u128 { (b / 10) as u128 }
/// how many times a vote counts, in tenths
fn times(c: u8) -> u128 { match c { 0 => 1, c => c as u128 * 10 } }
fn points((x, c): V, stake: u128) -> u128 { (x * times(c) / 10) * 100 / (6 * stake) }
impl See {
    fn pos(&self, w: u64) -> Option<u128> { self.p.iter().find(|p| p.1 .0 == w).map(|p| *p.0) }
    fn pay(&mut self, from: u64, to: u64, x: u128) -> Option<()> {
        let f = self.bal.get_mut(&from)?;
        *f = f.checked_sub(x)?;
        *self.bal.get_mut(&to)? += x;
        Some(())
    }
    /// what came into the pot is shared out
    fn update(&mut self) -> Option<()> {
        if self.s.total == 0 { return Some(()) }
        let new = self.bal[&pot()].checked_sub(self.s.reserved)?;
        if new == 0 { return Some(()) }
        let r = m::calculate_accumulated_rps(fx(self.s.rps), new, self.s.total)?.into_inner();
        if r != self.s.rps { self.s.rps = r; self.s.reserved += new; }
        Some(())
    }
    /// votes in finished referenda give their points once
    fn process(&mut self, w: u64, id: u128) {
        let mine: Vec<_> = self.votes.iter().filter(|v| v.0 .0 == id && referendum(v.0 .1) == 1).map(|v| (*v.0, *v.1)).collect();
        for ((_, r), v) in mine {
            let p = &mut self.p.get_mut(&id).unwrap().1;
            p.actions += points(v, p.stake);
            self.votes.remove(&(id, r));
            self.done.insert((w, r), v);
        }
    }
    fn points(&self, p: &P, now: u64) -> Option<u128> { m::calculate_points(period(p.created), period(now), 2, TimeW::get(), p.actions, ActionW::get(), p.slash) }
    /// payable now, not payable, percentage
    fn rewards(&self, p: &P, now: u64) -> Option<(u128, u128, FixedU128)> {
        let new = m::calculate_rewards(fx(self.s.rps), fx(p.rps), p.stake)?;
        if period(now) - period(p.created) <= 2 { return Some((0, p.unpaid + new, FixedU128::from(0))) }
        let pc = m::sigmoid(self.points(p, now)?, A::get(), 3)?;
        let all = m::calculate_total_rewards(new, p.locked, p.unpaid);
        let pay = m::calculate_percentage_amount(all, pc).saturating_sub(p.locked);
        Some((pay, all - p.locked - pay, pc))
    }
    fn mine(&self, w: u64, id: u128) -> Option<P> { self.p.get(&id).filter(|p| self.on && p.0 == w).map(|p| p.1.clone()) }
    fn has_done(&self, w: u64) -> bool { self.done.keys().any(|k| k.0 == w) }
}
fn expect(a: &Act, s: &mut See) -> Option<()> {
    let now = Clock::current_block_number();
    match *a {
        Init(by_root) => {
            if !by_root || s.on || s.bal[&pot()] == 0 { return None }
            s.on = true;
            s.s = S { reserved: s.bal[&pot()], ..S::default() };
        }
        Stake(w, x) => {
            if x < MIN || !s.on || s.pos(w).is_some() { return None }
            s.update()?;
            if s.bal[&w].checked_sub(vested(w))? < x { return None }
            s.p.insert(s.next, (w, P { stake: x, actions: 0, rps: s.s.rps, created: now, slash: 0, unpaid: 0, locked: 0 }));
            s.next += 1;
            s.lock.insert(w, x);
            s.s.total += x;
        }
        Inc(w, id, x) => {
            let p = s.mine(w, id)?;
            if x < MIN || s.has_done(w) || s.bal[&w].checked_sub(vested(w))?.saturating_sub(p.stake + p.locked) < x { return None }
            s.update()?;
            s.process(w, id);
            let mut p = s.mine(w, id)?;
            let (pay, unpaid, pc) = s.rewards(&p, now)?;
            s.pay(pot(), w, pay)?;
            p.locked += pay;
            p.unpaid = unpaid;
            p.rps = s.s.rps;
            p.slash += m::calculate_slashed_points(s.points(&p, now)?, p.stake, x, 2, min_slash(pc))?;
            p.stake += x;
            s.s.reserved = s.s.reserved.checked_sub(pay)?;
            s.s.total += x;
            s.lock.insert(w, p.stake + p.locked);
            s.p.insert(id, (w, p));
        }
        Claim(w, id) => {
            s.mine(w, id)?;
            if s.has_done(w) { return None }
            s.update()?;
            s.process(w, id);
            let mut p = s.mine(w, id)?;
            let (pay, unpaid, _) = s.rewards(&p, now)?;
            s.pay(pot(), w, pay)?;
            p.locked = 0;
            p.slash += s.points(&p, now)?;
            // what is not payable goes back, once something is payable
            if period(now) - period(p.created) > 2 { p.unpaid = 0; s.s.reserved = s.s.reserved.checked_sub(unpaid)?; } else { p.unpaid = unpaid }
            p.rps = s.s.rps;
            s.s.reserved = s.s.reserved.checked_sub(pay)?;
            s.lock.insert(w, p.stake);
            s.p.insert(id, (w, p));
        }
        Unstake(w, id) => {
            let p = s.mine(w, id)?;
            if s.has_done(w) || s.votes.keys().any(|k| k.0 == id) { return None }
            s.update()?;
            let (pay, rest, _) = s.rewards(&p, now)?;
            s.pay(pot(), w, pay)?;
            s.s.total -= p.stake;
            s.s.reserved = s.s.reserved.checked_sub(pay)?.checked_sub(rest)?;
            s.lock.remove(&w);
            s.p.remove(&id);
        }
        Vote(w, r, x, c) => {
            let Some(id) = s.pos(w) else { return Some(()) };
            s.process(w, id);
            let p = s.mine(w, id)?;
            let most = s.bal[&w].saturating_sub(vested(w)).saturating_sub(p.locked).min(p.stake);
            if !s.votes.contains_key(&(id, r)) && s.votes.keys().filter(|k| k.0 == id).count() == 2 { return None }
            s.votes.insert((id, r), (x.min(most), if c == 7 { 0 } else { c }));
        }
        Unvote(w, r) => {
            let Some(id) = s.pos(w) else { return Some(()) };
            if s.done.remove(&(w, r)).is_some() { return Some(()) }
            if let Some(v) = s.votes.remove(&(id, r)) { if referendum(r) == 1 { let p = &mut s.p.get_mut(&id).unwrap().1; p.actions += points(v, p.stake); } }
        }
        Fee(a, x) => { if a == 0 && s.on { s.pay(9, pot(), x)? } }
        Donate(x) => s.pay(9, pot(), x)?,
        _ => {}
    }
    Some(())
}
type Dem = StakingDemocracy<Rt>;
fn real(a: &Act) -> DispatchResult {
    match *a {
        Init(r) => call(|| Staking::initialize_staking(if r { root() } else { signed(1) })),
        Stake(w, x) => call(|| Staking::stake(signed(w), x)),
        Inc(w, id, x) => call(|| Staking::increase_stake(signed(w), id, x)),
        Claim(w, id) => call(|| Staking::claim(signed(w), id)),
        Unstake(w, id) => call(|| Staking::unstake(signed(w), id)),
        Vote(w, r, x, c) => {
            use pallet_democracy::Conviction::*;
            let v = if c == 7 { AccountVote::Split { aye: x / 2, nay: x - x / 2 } } else { AccountVote::Standard { vote: DVote { aye: x % 2 == 0, conviction: [None, Locked1x, Locked2x, Locked3x, Locked4x, Locked5x, Locked6x][c as usize] }, balance: x } };
            call(|| <Dem as DemocracyHooks<u64, Balance>>::on_vote(&w, r, v))
        }
        Unvote(w, r) => { <Dem as DemocracyHooks<u64, Balance>>::on_remove_vote(&w, r, match referendum(r) { 0 => Some(false), 1 => Some(true), _ => None }); Ok(()) }
        Fee(a, x) => call(|| { let r = Staking::process_trade_fee(9, a, x)?; if r == if a == 0 && Staking::staking().encode().iter().any(|b| *b != 0) { x } else { 0 } { Ok(()) } else { Err(DispatchError::Other("wrong fee")) } }),
        Donate(x) => call(|| <Tokens as MultiCurrency<u64>>::transfer(0, &9, &pot(), x)),
        End(r, how) => { unhashed::put(&(b":ref", r).encode(), &how); Ok(()) }
        Blocks(n) => { let b = Clock::current_block_number(); unhashed::put(b":block", &(b + n)); Ok(()) }
        Vesting(w, x) => { unhashed::put(&(b":vest", w).encode(), &x); Ok(()) }
    }
}
fn step(a: &Act) -> Result<bool, Wrong> {
    match *a {
        // democracy takes votes only while the referendum runs, and it ends once
        Vote(_, r, ..) | End(r, _) if referendum(r) != 0 => return Ok(false),
        _ => {}
    }
    let s0 = see();
    let mut n = s0.clone();
    let want = expect(a, &mut n);
    let got = real(a);
    must!(got.is_ok() == want.is_some(), "accept", "gives {got:?} at {} in {s0:?}", Clock::current_block_number());
    let s1 = see();
    if want.is_some() { must!(s1 == n, "effect", "at {} from {s0:?}\nexpected {n:?}\nfound {s1:?}", Clock::current_block_number()); } else { must!(s1 == s0, "refused", "a refused call changed {s0:?} to {s1:?}"); }
    ok(&s1)?;
    Ok(want.is_some())
}
fn ok(s: &See) -> Result<(), Wrong> {
    must!(s.s.total == s.p.values().map(|p| p.1.stake).sum::<u128>(), "total", "{s:?}");
    must!(s.bal[&pot()] >= s.s.reserved, "pot", "the pot has {}, {} is promised, in {s:?}", s.bal[&pot()], s.s.reserved);
    must!(s.bal.values().sum::<u128>() == Tokens::total_issuance(0), "sum", "{s:?}");
    let owed: u128 = s.p.values().map(|(_, p)| m::calculate_rewards(fx(s.s.rps), fx(p.rps), p.stake).unwrap() + p.unpaid).sum();
    must!(!s.on || s.s.reserved >= owed, "reserved", "{owed} is owed in {s:?}");
    for (i, (w, p)) in &s.p {
        must!(s.pos(*w) == Some(*i) && s.lock.get(w) == Some(&(p.stake + p.locked)), "lock", "position {i} in {s:?}");
        for ((j, r), (x, _)) in &s.votes { if i == j { must!(<Dem as DemocracyHooks<u64, Balance>>::remove_vote_locks_if_needed(w, *r) == Some(*x), "vote lock", "{i} {r} in {s:?}"); } }
        for ((v, r), (x, _)) in &s.done { if v == w { must!(<Dem as DemocracyHooks<u64, Balance>>::remove_vote_locks_if_needed(w, *r) == Some(*x), "vote lock", "{i} {r} in {s:?}"); } }
    }
    must!(s.lock.keys().all(|w| s.pos(*w).is_some()), "unlocked", "{s:?}");
    // all can leave, in either order, and nothing remains locked or promised beyond what was there at the beginning and rounding
    for rev in [false, true] {
        let mut l: Vec<(u128, u64)> = s.p.iter().map(|(i, p)| (*i, p.0)).collect();
        if rev { l.reverse() }
        let r = dry(|| { for (i, w) in &l { for r in 0..4 { real(&Unvote(*w, r)).ok(); } real(&Unstake(*w, *i)).map_err(|e| format!("{w} cannot leave: {e:?}"))?; } let e = see(); if e.lock.is_empty() && e.s.total == 0 && e.votes.is_empty() && e.done.is_empty() { Ok(()) } else { Err(format!("left over {e:?}")) } });
        if let Err(e) = r { return wrong("leave", format!("{e} in {s:?}")) }
    }
    Ok(())
}
fn begin(name: &str, acts: &[Act]) -> Start<()> {
    start(name, || {
        System::set_block_number(1);
        unhashed::put(b":block", &5u64);
        for (w, x) in [(1, 1_000), (2, 90), (3, 400), (9, 1 << 60)] { <Tokens as MultiCurrency<u64>>::deposit(0, &w, x).unwrap(); }
        real(&Vesting(3, 300)).unwrap();
        for a in acts { match step(a) { Ok(true) => (), x => panic!("start {name}: {a:?} gives {x:?}") } }
    })
}
fn main() {
    let ck = kit::Check::new("P10");
    let init = [Donate(100), Init(true)];
    let acts = |_: &()| {
        let mut v = vec![Blocks(5), Blocks(40), Donate(100), Init(true), Init(false), Fee(0, 777), Fee(1, 777), End(0, 1), End(1, 1), End(1, 2), Vesting(1, 950)];
        v.extend([Stake(1, 300), Stake(1, 9), Stake(2, 10), Stake(2, 91), Stake(3, 100), Stake(3, 101)]);
        for (w, id) in [(1, 0), (2, 1), (3, 1)] { v.extend([Claim(w, id), Unstake(w, id)]); }
        v.extend([Inc(1, 0, 10), Inc(1, 0, 700), Inc(1, 0, 701), Inc(1, 0, 9), Inc(2, 1, 80), Inc(2, 1, 30), Inc(2, 0, 30), Unstake(2, 0)]);
        for r in 0..3 { v.extend([Vote(1, r, 250, 5), Vote(2, r, 100, 6), Unvote(1, r)]); }
        v.extend([Vote(1, 0, 1_001, 2), Vote(1, 1, 51, 0), Vote(1, 0, 77, 7), Vote(3, 0, 77, 1), Unvote(2, 0)]);
        v
    };
    let mut some = init.to_vec();
    some.extend([Stake(1, 300), Blocks(7), Fee(0, 500), Stake(2, 45)]);
    let mut voted = some.clone();
    voted.extend([Vote(1, 0, 222, 4), Vote(2, 0, 20, 1), Vote(2, 1, 45, 3), Blocks(60), Fee(0, 12_345), End(0, 1)]);
    let mut old = some.clone();
    old.extend([Vote(2, 1, 45, 3), Blocks(90), Fee(0, 1_000_003), Inc(1, 0, 100), Blocks(25)]);
    let starts = vec![begin("nothing", &[]), begin("no stake", &init), begin("two", &some), begin("votes, one referendum over", &voted), begin("long ago, locked rewards", &old)];
    World { name: "staking", depth: ck.pick(4, 6), events: false, actions: &acts, step: &|a: &Act, _: &mut ()| step(a), prepare: &|| {} }.explore(&ck, starts);
    ck.finish()
}
