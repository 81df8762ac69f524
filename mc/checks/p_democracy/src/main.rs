//! P31: democracy on the real pallet-democracy: tallies, locks, delegations, queues, deposits, enactment.
use codec::{Decode, Encode};
use frame_support::{parameter_types, storage::unhashed, traits::{schedule::{v3::{Named, TaskName}, DispatchTime, Period}, Bounded, EnsureOrigin, FetchResult, Hooks as _, LockableCurrency, QueryPreimage, ReservableCurrency, StorePreimage}};
use pallet_democracy::{traits::DemocracyHooks, *};
use sp_core::{H256, U256, U512};
use sp_runtime::{traits::BlakeTwo256, ArithmeticError, DispatchError, DispatchResult};
use std::collections::{BTreeMap, BTreeSet};
use world::*;
mod types;

frame_support::construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Democracy: pallet_democracy });
world::system!(Rt, pallet_balances::AccountData<u128>);
world::balances!(Rt, 1);
type Err = Error<Rt>;
type Ev = Event<Rt>;
pub const LOCK: [u8; 8] = *b"democrac";
fn num(k: &[u8]) -> u64 { unhashed::get(k).unwrap_or(0) }
parameter_types! {
    pub const Launch: u64 = 5;
    pub const Period5: u64 = 4;
    pub const Enact: u64 = 2;
    pub const LockPeriod: u64 = 3;
    pub const Cooloff: u64 = 2;
    pub const Fast: u64 = 2;
    pub const MinDeposit: u128 = 5;
    pub Instant: bool = num(b":instant") == 1;
}
pub struct Only<const N: u64>;
impl<const N: u64> EnsureOrigin<RuntimeOrigin> for Only<N> {
    type Success = u64;
    fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> { match o.clone().into() { Ok(frame_system::RawOrigin::Signed(w)) if w == N || N == 20 && w / 10 == 2 => Ok(w), _ => Err(o) } }
}
/// what is handed to the scheduler and the hooks, until the step reads it
fn told<T: Encode + Decode>(k: &[u8], x: T) { let mut v: Vec<T> = unhashed::get_or_default(k); v.push(x); unhashed::put(k, &v); }
fn heard<T: Decode + Encode>(k: &[u8]) -> Vec<T> { let v: Vec<T> = unhashed::get_or_default(k); unhashed::kill(k); v }
type Task = (Vec<u8>, u64, u8, bool, Vec<u8>);
pub struct Sched;
impl Named<u64, RuntimeCall, OriginCaller> for Sched {
    type Address = ();
    type Hasher = BlakeTwo256;
    fn schedule_named(id: TaskName, when: DispatchTime<u64>, p: Option<Period<u64>>, prio: u8, o: OriginCaller, c: Bounded<RuntimeCall, BlakeTwo256>) -> Result<(), DispatchError> {
        let at = match when { DispatchTime::At(x) => x, DispatchTime::After(_) => u64::MAX };
        let root = matches!(o, OriginCaller::system(frame_system::RawOrigin::Root)) && p.is_none();
        if num(b":busy") == 1 { return Err(DispatchError::Other("busy")) }
        told::<Task>(b":tasks", (id.to_vec(), at, prio, root, c.encode()));
        Ok(())
    }
    fn cancel_named(_: TaskName) -> DispatchResult { unreachable!() }
    fn reschedule_named(_: TaskName, _: DispatchTime<u64>) -> Result<(), DispatchError> { unreachable!() }
    fn next_dispatch_time(_: TaskName) -> Result<u64, DispatchError> { unreachable!() }
}
pub struct Pre;
impl QueryPreimage for Pre {
    type H = BlakeTwo256;
    fn len(h: &H256) -> Option<u32> { if h.0[0] < 100 { Some(7) } else { None } }
    fn fetch(_: &H256, _: Option<u32>) -> FetchResult { Err(DispatchError::Unavailable) }
    fn is_requested(_: &H256) -> bool { false }
    fn request(_: &H256) {}
    fn unrequest(_: &H256) {}
}
impl StorePreimage for Pre { const MAX_LENGTH: usize = 1000; fn note(_: std::borrow::Cow<[u8]>) -> Result<H256, DispatchError> { Err(DispatchError::Exhausted) } }
/// refuses votes of thirteen; keeps 21 of account 2 and 1 of account 4 locked after lost votes
pub struct Hk;
type Note = (u8, u64, u32, Vec<u8>);
impl DemocracyHooks<u64, u128> for Hk {
    fn on_vote(who: &u64, r: u32, vote: AccountVote<u128>) -> DispatchResult { told::<Note>(b":notes", (0, *who, r, vote.encode())); if vote.balance() == 13 { Err(DispatchError::Other("hook")) } else { Ok(()) } }
    fn on_remove_vote(who: &u64, r: u32, fin: Option<bool>) { told::<Note>(b":notes", (1, *who, r, fin.encode())) }
    fn remove_vote_locks_if_needed(who: &u64, _r: u32) -> Option<u128> { keeps(*who) }
}
fn keeps(w: u64) -> Option<u128> { match w { 2 => Some(21), 4 => Some(1), _ => None } }
impl Config for Rt {
    type WeightInfo = ();
    type RuntimeEvent = RuntimeEvent;
    type Scheduler = Sched;
    type Preimages = Pre;
    type Currency = Balances;
    type EnactmentPeriod = Enact;
    type LaunchPeriod = Launch;
    type VotingPeriod = Period5;
    type VoteLockingPeriod = LockPeriod;
    type MinimumDeposit = MinDeposit;
    type InstantAllowed = Instant;
    type FastTrackVotingPeriod = Fast;
    type CooloffPeriod = Cooloff;
    type MaxVotes = frame_support::traits::ConstU32<2>;
    type MaxProposals = frame_support::traits::ConstU32<3>;
    type MaxDeposits = frame_support::traits::ConstU32<3>;
    type MaxBlacklisted = frame_support::traits::ConstU32<2>;
    type ExternalOrigin = Only<11>;
    type ExternalMajorityOrigin = Only<12>;
    type ExternalDefaultOrigin = Only<13>;
    type SubmitOrigin = frame_system::EnsureSigned<u64>;
    type FastTrackOrigin = Only<14>;
    type InstantOrigin = Only<15>;
    type CancellationOrigin = Only<16>;
    type BlacklistOrigin = Only<17>;
    type CancelProposalOrigin = Only<18>;
    type VetoOrigin = Only<20>;
    type PalletsOrigin = OriginCaller;
    type Slash = ();
    type DemocracyHooks = Hk;
}

pub fn hash(c: u8) -> H256 { H256::repeat_byte(c + 1) }
fn prop(c: u8) -> Bounded<RuntimeCall, BlakeTwo256> { if c == 2 { Bounded::from_legacy_hash(hash(c)) } else { Bounded::unrequested(hash(c), 40 + c as u32) } }
fn thr(t: u8) -> VoteThreshold { [VoteThreshold::SuperMajorityApprove, VoteThreshold::SimpleMajority, VoteThreshold::SuperMajorityAgainst][t as usize] }
fn owner(o: (u8, u32)) -> MetadataOwner { match o.0 { 0 => MetadataOwner::External, 1 => MetadataOwner::Proposal(o.1), _ => MetadataOwner::Referendum(o.1) } }
/// votes a stake weighs, periods it is locked: 0.1, 1..6; 0, 1, 2, 4, 8, 16, 32
fn weighs(c: u8, x: u128) -> u128 { if c == 0 { x / 10 } else { x * c as u128 } }
fn locks(c: u8) -> u64 { if c == 0 { 0 } else { 1 << (c - 1) } }

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum V { Std(bool, u8, u128), Split(u128, u128) }
impl V {
    fn stake(self) -> u128 { match self { V::Std(_, _, x) => x, V::Split(a, b) => a.saturating_add(b) } }
    fn real(self) -> AccountVote<u128> { match self { V::Std(aye, c, balance) => AccountVote::Standard { vote: Vote { aye, conviction: Conviction::try_from(c).unwrap() }, balance }, V::Split(aye, nay) => AccountVote::Split { aye, nay } } }
}
#[derive(Clone, Debug)]
enum Act {
    Propose(u64, u8, u128), Second(u64, u32), Vote(u64, u32, V), Emergency(u64, u32), External(u64, u8, u8), FastTrack(u64, u8, u64, u64), Veto(u64, u8), CancelRef(u64, u32),
    Delegate(u64, u64, u8, u128), Undelegate(u64), Clear(u64), Unlock(u64, u64), Remove(u64, u32), RemoveOther(u64, u64, u32), Black(u64, u8, Option<u32>), CancelProp(u64, u32), Meta(u64, (u8, u32), Option<u8>),
    Block, Blocks(u64), Pay(u64, u64, u128), Busy(bool), Instant(bool),
}
#[derive(Clone, Debug, Hash, PartialEq)]
enum Ref { On { end: u64, call: u8, thr: u8, delay: u64 }, Done { end: u64, ok: bool } }
#[derive(Clone, Debug, Hash, Default, PartialEq)]
struct Voter { votes: BTreeMap<u32, V>, to: Option<(u64, u8, u128)>, prior: (u64, u128), there: bool }
#[derive(Clone, Debug, Hash, Default, PartialEq)]
struct Book {
    now: u64, props: Vec<(u32, u8, u64)>, next_prop: u32, deposits: BTreeMap<u32, (Vec<u64>, u128)>, refs: BTreeMap<u32, Ref>, next_ref: u32, lowest: u32, voters: BTreeMap<u64, Voter>,
    last_ext: bool, ext: Option<(u8, u8)>, black: BTreeMap<u8, (u64, Vec<u64>)>, cancelled: BTreeSet<u8>, meta: BTreeMap<(u8, u32), u8>,
    free: BTreeMap<u64, u128>, reserved: BTreeMap<u64, u128>, lock: BTreeMap<u64, u128>, busy: bool, instant: bool,
}
#[derive(Default)]
struct Said { events: Vec<Ev>, tasks: Vec<Task>, notes: Vec<Note> }
impl Book {
    fn issuance(&self) -> u128 { self.free.values().sum::<u128>() + self.reserved.values().sum::<u128>() }
    fn voter(&mut self, w: u64) -> &mut Voter { let v = self.voters.entry(w).or_default(); v.there = true; v }
    fn free(&self, w: u64) -> u128 { self.free.get(&w).copied().unwrap_or(0) }
    fn extend(&mut self, w: u64, x: u128) { if x > 0 { let l = self.lock.entry(w).or_insert(0); *l = (*l).max(x); } }
    /// (votes, stake) delegated to somebody: the sum over those who delegate to them
    fn delegated(&self, w: u64) -> (u128, u128) { self.voters.values().filter_map(|v| v.to).filter(|t| t.0 == w).fold((0, 0), |s, t| (s.0 + weighs(t.1, t.2), s.1 + t.2)) }
    /// (ayes, nays, turnout): the sum over those who have a vote in it
    fn tally(&self, r: u32) -> (u128, u128, u128) {
        let mut t = (0, 0, 0);
        for (w, v) in &self.voters { match v.votes.get(&r) {
            Some(V::Std(aye, c, x)) => { let d = self.delegated(*w); let n = weighs(*c, *x) + d.0; if *aye { t.0 += n } else { t.1 += n } t.2 += x + d.1; }
            Some(V::Split(a, b)) => { t.0 += a / 10; t.1 += b / 10; t.2 += a + b; }
            None => {}
        } }
        t
    }
    fn ongoing(&self, r: u32) -> Result<(u64, u8, u8, u64), DispatchError> { match self.refs.get(&r) { Some(Ref::On { end, call, thr, delay }) => Ok((*end, *call, *thr, *delay)), _ => Err(Err::ReferendumInvalid.into()) } }
    fn open(&mut self, end: u64, call: u8, t: u8, delay: u64, s: &mut Said) -> u32 { let i = self.next_ref; self.next_ref += 1; self.refs.insert(i, Ref::On { end, call, thr: t, delay }); s.events.push(Event::Started { ref_index: i, threshold: thr(t) }); i }
    fn drop_meta(&mut self, o: (u8, u32), s: &mut Said) { if let Some(h) = self.meta.remove(&o) { s.events.push(Event::MetadataCleared { owner: owner(o), hash: hash(h) }); } }
    fn move_meta(&mut self, o: (u8, u32), n: (u8, u32), s: &mut Said) { if let Some(h) = self.meta.remove(&o) { self.meta.insert(n, h); s.events.push(Event::MetadataTransferred { prev_owner: owner(o), owner: owner(n), hash: hash(h) }); } }
    fn cancel(&mut self, r: u32, s: &mut Said) { s.events.push(Event::Cancelled { ref_index: r }); self.refs.remove(&r); self.drop_meta((2, r), s); }
    fn slash(&mut self, p: u32) { if let Some((whos, x)) = self.deposits.remove(&p) { for w in whos { *self.reserved.get_mut(&w).unwrap() -= x; } } }
    fn refused_for_now(&self, c: u8) -> bool { self.black.get(&c).map_or(false, |b| self.now < b.0) }
    fn launch_external(&mut self, s: &mut Said) -> bool {
        let Some((c, t)) = self.ext.take() else { return false };
        self.last_ext = true;
        s.events.push(Event::ExternalTabled);
        let i = self.open(self.now + 4, c, t, 2, s);
        self.move_meta((0, 0), (2, i), s);
        true
    }
    fn launch_public(&mut self, s: &mut Said) -> bool {
        // the greatest deposits; of equal ones, the last in the list
        let Some((at, _)) = self.props.iter().enumerate().map(|(i, p)| (i, self.deposits.get(&p.0).map_or(0, |d| d.1 * d.0.len() as u128))).max_by_key(|x| (x.1, x.0)) else { return false };
        let (p, c, _) = self.props.swap_remove(at);
        let (whos, x) = self.deposits.remove(&p).expect("a deposit for each proposal");
        for w in whos { *self.reserved.get_mut(&w).unwrap() -= x; *self.free.get_mut(&w).unwrap() += x; }
        s.events.push(Event::Tabled { proposal_index: p, deposit: x });
        let i = self.open(self.now + 4, c, 0, 2, s);
        self.move_meta((1, p), (2, i), s);
        true
    }
    fn block(&mut self, s: &mut Said) {
        self.now += 1;
        let last = self.next_ref;
        if self.now % 5 == 0 { if std::mem::take(&mut self.last_ext) { let _ = self.launch_public(s) || self.launch_external(s); } else { let _ = self.launch_external(s) || self.launch_public(s); } }
        for r in self.refs.keys().copied().collect::<Vec<_>>() { if let Some(Ref::On { end, call, thr: t, delay }) = self.refs.get(&r).cloned() { if end == self.now && r < last {
            let ok = passes(t, self.tally(r), self.issuance());
            s.events.push(if ok { Event::Passed { ref_index: r } } else { Event::NotPassed { ref_index: r } });
            if ok && !self.busy { let mut id = (LOCK, r).encode(); id.resize(32, 0); s.tasks.push((id, self.now.saturating_add(delay.max(1)), 63, true, prop(call).encode())); }
            self.refs.insert(r, Ref::Done { end: self.now, ok });
        } } }
        while self.lowest < last && !matches!(self.refs.get(&self.lowest), Some(Ref::On { .. })) { self.lowest += 1 }
    }
    fn unvote(&mut self, w: u64, r: u32, any: bool, s: &mut Said) -> Result<(), DispatchError> {
        if self.voter(w).to.is_some() { return Ok(()) }
        let v = *self.voter(w).votes.get(&r).ok_or(Err::NotVoter)?;
        let fin = match self.refs.get(&r).cloned() {
            None => None,
            Some(Ref::On { .. }) => { if !any { return Err(Err::NoPermission.into()) } Some(false) }
            Some(Ref::Done { end, ok }) => {
                // those who won stay locked for their conviction; those who lost only as far as the hook wants
                if let V::Std(aye, c, x) = v { if let Some(x) = if aye == ok { Some(x) } else { keeps(w) } {
                    let until = end + 3 * locks(c);
                    if self.now < until { if !any { return Err(Err::NoPermission.into()) } let p = &mut self.voter(w).prior; *p = (p.0.max(until), p.1.max(x)); }
                } }
                Some(true)
            }
        };
        self.voter(w).votes.remove(&r);
        s.notes.push((1, w, r, fin.encode()));
        Ok(())
    }
}
/// nays / sqrt(turnout) < ayes / sqrt(electorate), or crosswise, or more ayes than nays; never without turnout
pub fn passes(t: u8, (ayes, nays, turnout): (u128, u128, u128), electorate: u128) -> bool {
    let (a, b) = (root2(turnout), root2(electorate));
    if a == 0 { return false }
    let (ayes, nays, a, b) = (U256::from(ayes), U256::from(nays), U256::from(a), U256::from(b));
    match t { 0 => nays * b < ayes * a, 1 => ayes > nays, _ => nays * a < ayes * b }
}
fn root2(x: u128) -> u128 { let (mut lo, mut hi) = (0u128, 1u128 << 64); while hi - lo > 1 { let m = (lo + hi) / 2; if U512::from(m) * U512::from(m) <= U512::from(x) { lo = m } else { hi = m } } lo }
fn org(w: u64) -> RuntimeOrigin { match w { 0 => root(), 99 => RuntimeOrigin::none(), w => signed(w) } }
fn me(w: u64) -> Result<u64, DispatchError> { if w == 0 || w == 99 { Err(DispatchError::BadOrigin) } else { Ok(w) } }
fn only(w: u64, n: u64) -> Result<(), DispatchError> { if w == n { Ok(()) } else { Err(DispatchError::BadOrigin) } }
fn may(x: bool, e: Err) -> Result<(), DispatchError> { if x { Ok(()) } else { Err(e.into()) } }
/// what the call must do
fn model(a: &Act, m: &mut Book, s: &mut Said) -> Result<(), DispatchError> {
    match *a {
        Act::Propose(w, c, x) => {
            me(w)?; may(x >= 5, Err::ValueLow)?; may(m.props.len() < 3, Err::TooMany)?; may(!m.refused_for_now(c), Err::ProposalBlacklisted)?;
            dry(|| Balances::reserve(&w, x))?;
            *m.free.get_mut(&w).unwrap() -= x; *m.reserved.entry(w).or_insert(0) += x;
            let i = m.next_prop; m.next_prop += 1; m.props.push((i, c, w)); m.deposits.insert(i, (vec![w], x));
            s.events.push(Event::Proposed { proposal_index: i, deposit: x });
        }
        Act::Second(w, p) => {
            me(w)?;
            let (whos, x) = m.deposits.get(&p).cloned().ok_or(Err::ProposalMissing)?;
            may(whos.len() < 3, Err::TooMany)?;
            dry(|| Balances::reserve(&w, x))?;
            *m.free.get_mut(&w).unwrap() -= x; *m.reserved.entry(w).or_insert(0) += x; m.deposits.get_mut(&p).unwrap().0.push(w);
            s.events.push(Event::Seconded { seconder: w, prop_index: p });
        }
        Act::Vote(w, r, v) => {
            me(w)?; m.ongoing(r)?; may(v.stake() <= m.free(w), Err::InsufficientFunds)?;
            may(m.voter(w).to.is_none(), Err::AlreadyDelegating)?;
            let n = m.voter(w).votes.len(); may(n < 2 || m.voter(w).votes.contains_key(&r), Err::MaxVotesReached)?;
            m.voter(w).votes.insert(r, v);
            m.extend(w, v.stake());
            s.events.push(Event::Voted { voter: w, ref_index: r, vote: v.real() }); s.notes.push((0, w, r, v.real().encode()));
            if v.stake() == 13 { return Err(DispatchError::Other("hook")) }
        }
        Act::Emergency(w, r) => { only(w, 16)?; let (_, c, ..) = m.ongoing(r)?; may(m.cancelled.insert(c), Err::AlreadyCanceled)?; m.cancel(r, s); }
        Act::External(w, t, c) => { only(w, 11 + t as u64)?; if t == 0 { may(m.ext.is_none(), Err::DuplicateProposal)?; may(!m.refused_for_now(c), Err::ProposalBlacklisted)?; } m.ext = Some((c, t)); }
        Act::FastTrack(w, c, period, delay) => {
            if period < 2 || w != 14 { only(w, 15)?; may(m.instant, Err::InstantNotAllowed)?; }
            may(period > 0, Err::VotingPeriodLow)?;
            let (x, t) = m.ext.ok_or(Err::ProposalMissing)?;
            may(t != 0, Err::NotSimpleMajority)?; may(x == c, Err::InvalidHash)?;
            m.ext = None;
            let i = m.open(m.now.saturating_add(period), c, t, delay, s); m.move_meta((0, 0), (2, i), s);
        }
        Act::Veto(w, c) => {
            if w / 10 != 2 { return Err(DispatchError::BadOrigin) }
            let (x, _) = m.ext.ok_or(Err::NoProposal)?; may(x == c, Err::ProposalMissing)?;
            let mut whos = m.black.get(&c).map(|b| b.1.clone()).unwrap_or_default();
            may(!whos.contains(&w), Err::AlreadyVetoed)?; may(whos.len() < 2, Err::TooMany)?;
            whos.push(w); whos.sort(); m.black.insert(c, (m.now + 2, whos)); m.ext = None;
            s.events.push(Event::Vetoed { who: w, proposal_hash: hash(c), until: m.now + 2 }); m.drop_meta((0, 0), s);
        }
        Act::CancelRef(w, r) => { only(w, 0)?; m.cancel(r, s); }
        Act::Delegate(w, to, c, x) => {
            me(w)?; may(w != to, Err::Nonsense)?; may(x <= m.free(w), Err::InsufficientFunds)?;
            let now = m.now; let v = m.voter(w);
            if let Some((_, c, x)) = v.to { v.prior = (v.prior.0.max(now + 3 * locks(c)), v.prior.1.max(x)); } else { may(v.votes.is_empty(), Err::VotesExist)?; }
            let old = v.to.replace((to, c, x)); if let Some((o, ..)) = old { m.voter(o); } m.voter(to); m.extend(w, x);
            s.events.push(Event::Delegated { who: w, target: to });
        }
        Act::Undelegate(w) => {
            me(w)?;
            let now = m.now; let v = m.voter(w);
            let (to, c, x) = v.to.take().ok_or(Err::NotDelegating)?; v.prior = (v.prior.0.max(now + 3 * locks(c)), v.prior.1.max(x)); m.voter(to);
            s.events.push(Event::Undelegated { account: w });
        }
        Act::Clear(w) => { only(w, 0)?; m.props.clear(); }
        Act::Unlock(w, t) => {
            me(w)?;
            let now = m.now; let v = m.voter(t);
            if now >= v.prior.0 { v.prior = (0, 0); }
            let need = v.votes.values().map(|v| v.stake()).chain(v.to.map(|t| t.2)).chain([v.prior.1]).max().unwrap();
            if need == 0 { m.lock.remove(&t); } else { m.lock.insert(t, need); }
        }
        Act::Remove(w, r) => { me(w)?; m.unvote(w, r, true, s)?; }
        Act::RemoveOther(w, t, r) => { me(w)?; m.unvote(t, r, w == t, s)?; }
        Act::Black(w, c, r) => {
            only(w, 17)?;
            m.black.insert(c, (u64::MAX, vec![]));
            if let Some(at) = m.props.iter().position(|p| p.1 == c) { let (p, ..) = m.props.remove(at); m.slash(p); m.drop_meta((1, p), s); }
            if m.ext.map_or(false, |e| e.0 == c) { m.ext = None; m.drop_meta((0, 0), s); }
            if let Some(r) = r { if m.ongoing(r).map_or(false, |x| x.1 == c) { m.cancel(r, s); } }
            s.events.push(Event::Blacklisted { proposal_hash: hash(c) });
        }
        Act::CancelProp(w, p) => { only(w, 18)?; m.props.retain(|x| x.0 != p); m.slash(p); s.events.push(Event::ProposalCanceled { prop_index: p }); m.drop_meta((1, p), s); }
        Act::Meta(w, o, h) => {
            match o.0 {
                0 => { let (_, t) = m.ext.ok_or(Err::NoProposal)?; only(w, 11 + t as u64)?; }
                1 => { me(w)?; let p = m.props.iter().find(|p| p.0 == o.1).ok_or(Err::ProposalMissing)?; may(p.2 == w, Err::NoPermission)?; }
                _ => { if w == 99 { return Err(DispatchError::BadOrigin) } may(w == 0 || h.is_none() && m.ongoing(o.1).is_err(), Err::NoPermission)?; }
            }
            if let Some(h) = h { may(h < 99, Err::PreimageNotExist)?; m.meta.insert(o, h); s.events.push(Event::MetadataSet { owner: owner(o), hash: hash(h) }); } else { m.drop_meta(o, s); }
        }
        Act::Block => m.block(s),
        Act::Blocks(n) => for _ in 0..n { m.block(s) },
        Act::Pay(f, t, x) => {
            // locked tokens stay
            if m.free(f).checked_sub(x).map_or(true, |l| l < m.lock.get(&f).copied().unwrap_or(0).max(1)) { return Err(DispatchError::Unavailable) }
            *m.free.get_mut(&f).unwrap() -= x; *m.free.entry(t).or_insert(0) += x;
        }
        Act::Busy(b) => m.busy = b,
        Act::Instant(b) => m.instant = b,
    }
    Ok(())
}
fn real(a: &Act) -> Result<(), DispatchError> {
    use Democracy as D;
    let unit = |r: frame_support::dispatch::DispatchResultWithPostInfo| r.map(|_| ()).map_err(|e| e.error);
    match a.clone() {
        Act::Propose(w, c, x) => D::propose(org(w), prop(c), x),
        Act::Second(w, p) => D::second(org(w), p),
        Act::Vote(w, r, v) => D::vote(org(w), r, v.real()),
        Act::Emergency(w, r) => D::emergency_cancel(org(w), r),
        Act::External(w, t, c) => match t { 0 => D::external_propose(org(w), prop(c)), 1 => D::external_propose_majority(org(w), prop(c)), _ => D::external_propose_default(org(w), prop(c)) },
        Act::FastTrack(w, c, p, d) => D::fast_track(org(w), hash(c), p, d),
        Act::Veto(w, c) => D::veto_external(org(w), hash(c)),
        Act::CancelRef(w, r) => D::cancel_referendum(org(w), r),
        Act::Delegate(w, t, c, x) => unit(D::delegate(org(w), t, Conviction::try_from(c).unwrap(), x)),
        Act::Undelegate(w) => unit(D::undelegate(org(w))),
        Act::Clear(w) => D::clear_public_proposals(org(w)),
        Act::Unlock(w, t) => D::unlock(org(w), t),
        Act::Remove(w, r) => D::remove_vote(org(w), r),
        Act::RemoveOther(w, t, r) => D::remove_other_vote(org(w), t, r),
        Act::Black(w, c, r) => D::blacklist(org(w), hash(c), r),
        Act::CancelProp(w, p) => D::cancel_proposal(org(w), p),
        Act::Meta(w, o, h) => D::set_metadata(org(w), owner(o), h.map(hash)),
        Act::Block | Act::Blocks(_) => { for _ in 0..if let Act::Blocks(n) = a { *n } else { 1 } { let n = System::block_number() + 1; System::set_block_number(n); let _ = D::on_initialize(n); } Ok(()) }
        Act::Pay(f, t, x) => <Balances as frame_support::traits::Currency<u64>>::transfer(&f, &t, x, frame_support::traits::ExistenceRequirement::KeepAlive),
        Act::Busy(b) => { unhashed::put(b":busy", &(b as u64)); Ok(()) }
        Act::Instant(b) => { unhashed::put(b":instant", &(b as u64)); Ok(()) }
    }
}
fn step(a: &Act, m: &mut Book) -> Result<bool, Wrong> {
    let old = sp_io::with_ext(|e| e.map.clone());
    let (mut n, mut s) = (m.clone(), Said::default());
    let want = model(a, &mut n, &mut s);
    let got = call(|| real(a));
    let same = match (a, &want) { (Act::Pay(..), _) | (_, Err(DispatchError::Arithmetic(_))) => want.is_ok() == got.is_ok(), _ => want == got };
    must!(same, "outcome", "{got:?}, not {want:?} with {m:?}");
    if got.is_err() { must!(sp_io::with_ext(|e| e.map.clone()) == old, "refused", "a refused call changed something"); return Ok(false) }
    let events: Vec<Ev> = System::events().into_iter().filter_map(|r| if let RuntimeEvent::Democracy(e) = r.event { Some(e) } else { None }).collect();
    System::reset_events();
    must!(events == s.events, "events", "events {events:?}, not {:?}", s.events);
    let tasks: Vec<Task> = heard(b":tasks");
    must!(tasks == s.tasks, "enactment", "scheduled {tasks:?}, not {:?}", s.tasks);
    let notes: Vec<Note> = heard(b":notes");
    must!(notes == s.notes, "hooks", "the hooks heard {notes:?}, not {:?}", s.notes);
    *m = n;
    look(m)?;
    Ok(true)
}
/// all of the pallet's storage, balances and locks
fn look(m: &Book) -> Result<(), Wrong> {
    let _ = ArithmeticError::Overflow;
    let mut n = 0; // entries
    macro_rules! eq { ($k:expr, $got:expr, $want:expr) => { { let (g, w) = ($got, $want); must!(g == w, $k, "{}: {g:?}, not {w:?}; {m:?}", $k); } } }
    eq!("block", System::block_number(), m.now);
    eq!("proposals", Democracy::public_props().into_inner(), m.props.iter().map(|p| (p.0, prop(p.1), p.2)).collect::<Vec<_>>());
    eq!("counts", (Democracy::public_prop_count(), Democracy::referendum_count(), Democracy::lowest_unbaked()), (m.next_prop, m.next_ref, m.lowest));
    for (p, d) in &m.deposits {
        eq!("deposit", Democracy::deposit_of(p).map(|d| (d.0.into_inner(), d.1)), Some(d.clone()));
        eq!("backing", Democracy::backing_for(*p), Some(d.0.len() as u128 * d.1));
        n += 1;
    }
    for i in 0..m.next_ref {
        let want = m.refs.get(&i).map(|r| match r {
            Ref::On { end, call, thr: t, delay } => { let (ayes, nays, turnout) = m.tally(i); ReferendumInfo::Ongoing(ReferendumStatus { end: *end, proposal: prop(*call), threshold: thr(*t), delay: *delay, tally: Tally { ayes, nays, turnout } }) }
            Ref::Done { end, ok } => ReferendumInfo::Finished { approved: *ok, end: *end },
        });
        n += want.is_some() as usize;
        eq!("referendum", Democracy::referendum_info(i), want);
    }
    let mut due: Vec<u32> = vec![];
    for (r, x) in &m.refs { if let Ref::On { end, .. } = x { if *end == m.now + 1 { due.push(*r) } } }
    eq!("maturing", Democracy::maturing_referenda_at(m.now + 1).iter().map(|x| x.0).collect::<Vec<_>>(), due);
    for (w, v) in &m.voters {
        let (votes, capital) = m.delegated(*w);
        let d = Delegations { votes, capital };
        let x = VotingOf::<Rt>::get(w);
        eq!("prior", x.prior().encode(), v.prior.encode());
        match x {
            Voting::Direct { votes, delegations, .. } => {
                eq!("votes", (votes.into_inner(), None), (v.votes.iter().map(|(r, v)| (*r, v.real())).collect::<Vec<_>>(), v.to));
                eq!("delegated", delegations, d);
            }
            Voting::Delegating { balance, target, conviction, delegations, .. } => { eq!("delegation", Some((target, u8::from(conviction), balance)), v.to); must!(v.votes.is_empty(), "votes", "a delegating voter has votes"); eq!("delegated", delegations, d); }
        }
        n += VotingOf::<Rt>::contains_key(w) as usize;
        // as long as a vote, a delegation or a period holds, so much stays locked
        let need = v.votes.values().map(|v| v.stake()).chain(v.to.map(|t| t.2)).chain(if m.now < v.prior.0 { Some(v.prior.1) } else { None }).max().unwrap_or(0);
        must!(m.lock.get(w).copied().unwrap_or(0) >= need, "too little locked", "{w} has {:?} locked, needs {need}", m.lock.get(w));
    }
    eq!("voters", VotingOf::<Rt>::iter().count(), m.voters.keys().filter(|w| VotingOf::<Rt>::contains_key(w)).count());
    eq!("external", NextExternal::<Rt>::get(), m.ext.map(|e| (prop(e.0), thr(e.1))));
    eq!("turn", LastTabledWasExternal::<Rt>::get(), m.last_ext);
    eq!("blacklist", (0..4).filter_map(|c| Blacklist::<Rt>::get(hash(c)).map(|b| (c, (b.0, b.1.into_inner())))).collect::<BTreeMap<_, _>>(), m.black.clone());
    eq!("cancelled", (0..4).filter(|c| Cancellations::<Rt>::get(hash(*c))).collect::<BTreeSet<_>>(), m.cancelled.clone());
    for (o, h) in &m.meta { eq!("metadata", MetadataOf::<Rt>::get(owner(*o)), Some(hash(*h))); }
    n += m.black.len() + m.cancelled.len() + m.meta.len();
    let values = [PublicPropCount::<Rt>::exists(), PublicProps::<Rt>::exists(), ReferendumCount::<Rt>::exists(), LowestUnbaked::<Rt>::exists(), NextExternal::<Rt>::exists(), LastTabledWasExternal::<Rt>::exists()].iter().filter(|x| **x).count();
    let p = sp_io::hashing::twox_128(b"Democracy");
    let all = sp_io::with_ext(|e| e.map.keys().filter(|k| k.starts_with(&p)).count());
    eq!("entries", all, n + values);
    for w in m.free.keys() {
        let a = System::account(*w).data;
        eq!("balance", (a.free, a.reserved), (m.free[w], m.reserved.get(w).copied().unwrap_or(0)));
        // deposits of proposals, and nothing else, are reserved
        eq!("reserved", a.reserved, m.deposits.values().map(|(whos, x)| x * whos.iter().filter(|y| *y == w).count() as u128).sum::<u128>());
        let l: Vec<_> = Balances::locks(*w).iter().map(|l| (l.id, l.amount)).collect();
        eq!("lock", l, m.lock.get(w).map(|x| (LOCK, *x)).into_iter().collect::<Vec<_>>());
    }
    eq!("issuance", <Balances as frame_support::traits::Currency<u64>>::total_issuance(), m.issuance());
    Ok(())
}
fn main() {
    let ck = kit::Check::new("P31");
    let _ = <Balances as LockableCurrency<u64>>::remove_lock;
    let begin = |name: &str, acts: &[Act]| start(name, || {
        System::set_block_number(1);
        let mut m = Book { now: 1, ..Default::default() };
        for (w, x) in [(1u64, 100u128), (2, 200), (3, 60), (4, 1000), (5, 4000)] { let _ = <Balances as frame_support::traits::Currency<u64>>::deposit_creating(&w, x); m.free.insert(w, x); }
        for a in acts { match step(a, &mut m) { Ok(true) => {} Ok(false) => panic!("{a:?} refused in the start {name}"), Err(w) => panic!("{a:?} in the start {name}: {} {}", w.0, w.1) } }
        m
    });
    use Act::*;
    let std = |a, c, x| V::Std(a, c, x);
    let two = || vec![External(12, 1, 0), FastTrack(14, 0, 3, 1), External(13, 2, 1), FastTrack(14, 1, 5, 0)];
    let with = |a: &[Act]| { let mut v = two(); v.extend_from_slice(a); v };
    // votes and delegations
    let votes = |_: &Book| {
        let mut v = vec![];
        for w in [1u64, 2, 3] { for r in [0, 1] {
            for x in [std(true, 1, 50), std(false, 6, 60), std(true, 0, 19), V::Split(30, 29)] { v.push(Vote(w, r, x)); }
            v.push(Remove(w, r));
            v.push(RemoveOther(if w == 1 { 2 } else { 1 }, w, r));
        } v.push(Undelegate(w)); v.push(Unlock(4, w)); }
        for (w, t) in [(1u64, 2u64), (2, 1), (3, 1), (3, 2)] { for (c, x) in [(1, 40), (0, 55), (5, 33)] { v.push(Delegate(w, t, c, x)); } }
        v.extend([Vote(1, 0, std(true, 3, 101)), Vote(1, 0, std(true, 3, 100)), Vote(1, 1, std(true, 2, 13)), Vote(1, 0, V::Split(u128::MAX, 2)), Vote(1, 7, std(true, 1, 1)), Vote(4, 0, std(false, 2, 500)), Vote(4, 0, std(true, 4, 5)), Vote(2, 2, std(true, 1, 9)), Vote(0, 0, std(true, 1, 9)), Vote(3, 0, std(true, 1, 0))]);
        v.extend([Delegate(1, 1, 1, 5), Delegate(1, 3, 1, 101), Delegate(1, 3, 2, 100), Delegate(4, 9, 6, 7), Delegate(99, 2, 1, 1), Delegate(3, 4, 1, 0), Undelegate(9), Remove(9, 0), RemoveOther(1, 1, 0), Unlock(99, 1), Unlock(1, 9), Remove(0, 0)]);
        v.extend([Block, Blocks(4), CancelRef(0, 0), CancelRef(1, 0), Emergency(16, 0), Pay(1, 9, 45), Pay(1, 9, 99), Pay(3, 9, 30), Propose(1, 2, 60), FastTrack(14, 0, 4, 3)]);
        v
    };
    let starts = vec![
        begin("two referenda", &two()),
        begin("voted", &with(&[Vote(1, 0, std(true, 1, 50)), Vote(1, 1, std(false, 6, 60)), Vote(2, 0, std(false, 2, 150)), Delegate(3, 1, 1, 40)])),
        begin("over", &with(&[Vote(1, 0, std(true, 2, 80)), Vote(2, 0, std(false, 3, 70)), Vote(2, 1, std(false, 1, 40)), Vote(3, 1, V::Split(20, 30)), Vote(4, 0, std(false, 4, 3)), Delegate(4, 1, 1, 2)].into_iter().filter(|a| !matches!(a, Delegate(..))).collect::<Vec<_>>()).into_iter().chain([Blocks(5)]).collect::<Vec<_>>()),
        begin("delegated", &with(&[Delegate(3, 1, 1, 40), Delegate(2, 1, 6, 150), Vote(1, 0, std(false, 1, 10)), Delegate(1, 4, 1, 1)].into_iter().filter(|a| !matches!(a, Delegate(1, ..))).collect::<Vec<_>>()).into_iter().chain([Delegate(4, 3, 2, 77)]).collect::<Vec<_>>()),
        begin("three referenda", &with(&[External(12, 1, 2), FastTrack(14, 2, 2, 0), Vote(2, 0, std(true, 1, 5)), Vote(2, 1, std(true, 6, 200)), Vote(1, 2, std(true, 0, 100))])),
    ];
    World { name: "votes", depth: ck.pick(3, 4), events: true, actions: &votes, step: &step, prepare: &|| {} }.explore(&ck, starts);
    // few voters, many steps
    let narrow = |_: &Book| vec![Vote(1, 0, std(true, 1, 50)), Vote(1, 0, V::Split(10, 20)), Vote(1, 1, std(false, 2, 70)), Remove(1, 0), RemoveOther(3, 1, 1), Remove(1, 1), Delegate(2, 1, 1, 40), Delegate(2, 3, 2, 30), Undelegate(2), Unlock(1, 1), Unlock(1, 2), Block, Blocks(3), Delegate(1, 2, 1, 5)];
    World { name: "long", depth: ck.pick(6, 8), events: true, actions: &narrow, step: &step, prepare: &|| {} }.explore(&ck, vec![begin("two referenda", &two())]);
    // proposals, queues, vetoes, cancellations
    let props = |_: &Book| {
        let mut v = vec![];
        for w in [1u64, 2] { for c in [0, 1] { for x in [5, 20] { v.push(Propose(w, c, x)); } } for p in [0, 1, 2] { v.push(Second(w, p)); } }
        for t in 0..3 { for w in [11, 12, 13] { v.push(External(w, t, 0)); } v.push(External(11 + t as u64, t, 2)); }
        for w in [14, 15, 1] { for p in [0, 1, 2, 4] { v.push(FastTrack(w, 0, p, 1)); } }
        v.extend([FastTrack(14, 2, 4, 0), FastTrack(14, 0, u64::MAX, u64::MAX), FastTrack(15, 0, 1, u64::MAX), Instant(true)]);
        for w in [21, 22, 23, 1] { v.push(Veto(w, 0)); } v.push(Veto(21, 2));
        for w in [16, 0, 1] { for r in [0, 1] { v.push(Emergency(w, r)); v.push(CancelRef(w, r)); } }
        for w in [17, 1] { for c in [0, 1, 2] { v.push(Black(w, c, None)); v.push(Black(w, c, Some(0))); } }
        for w in [18, 1] { for p in [0, 1] { v.push(CancelProp(w, p)); } } v.push(CancelProp(18, 9));
        for w in [0, 1, 2, 11, 12, 13] { for o in [(0, 0), (1, 0), (1, 1), (2, 0)] { v.push(Meta(w, o, Some(3))); v.push(Meta(w, o, None)); } } v.push(Meta(0, (2, 0), Some(120))); v.push(Meta(0, (2, 9), Some(4))); v.push(Meta(99, (2, 0), None));
        v.extend([Clear(0), Clear(1), Block, Blocks(4), Blocks(5), Propose(3, 0, 4), Propose(3, 2, 60), Propose(3, 2, 59), Propose(99, 0, 5), Second(3, 0), Second(0, 0), Vote(4, 0, std(true, 1, 900)), Vote(4, 1, std(false, 1, 900)), Busy(true)]);
        v
    };
    let starts = vec![
        begin("nothing", &[]),
        begin("three proposals", &[Propose(1, 0, 20), Propose(2, 1, 10), Propose(3, 2, 20), Second(4, 1), Meta(1, (1, 0), Some(5)), Meta(2, (1, 1), Some(6))]),
        begin("both queues", &[Propose(1, 0, 6), Second(1, 0), Second(2, 0), Propose(2, 0, 18), External(11, 0, 0), Meta(11, (0, 0), Some(1)), Meta(2, (1, 1), Some(9)), Blocks(3)]),
        begin("external last", &[External(12, 1, 0), Blocks(4), Propose(1, 1, 8), External(12, 1, 0), Meta(12, (0, 0), Some(2)), Meta(0, (2, 0), Some(8)), Vote(4, 0, std(true, 1, 30)), Blocks(2)]),
        begin("vetoed", &[External(13, 2, 0), Veto(22, 0), Propose(1, 1, 5), Black(17, 1, None), External(12, 1, 0), Meta(12, (0, 0), Some(1))]),
    ];
    World { name: "proposals", depth: ck.pick(3, 4), events: true, actions: &props, step: &step, prepare: &|| {} }.explore(&ck, starts);
    types::check(&ck);
    ck.finish()
}
