//! Exhaustive exploration of the repository's pallets, run on the stand-in runtime.
//!
//! A world is a runtime built with `construct_runtime!` from the pallets of /repo.  The explorer runs
//! every sequence of actions up to a depth from every initial state: depth first, each call on the real
//! pallet inside a storage layer that is rolled back afterwards, pruned on (state digest, model, remaining
//! depth).  `step` performs the action and decides the property: it returns what is wrong, or whether the call
//! went through.
use kit::{guarded, Check};
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub use kit;
pub type AccountId = u64;
pub type Balance = u128;
pub type AssetId = u32;
pub type DispatchResult = sp_runtime::DispatchResult;

/// What is wrong: a key naming the failing site for the findings file, and a description.
#[derive(Debug)]
pub struct Wrong(pub String, pub String);
pub fn wrong<T>(key: &str, text: impl Into<String>) -> Result<T, Wrong> { Err(Wrong(key.into(), text.into())) }
#[macro_export]
macro_rules! must {
    ($c:expr, $key:expr, $($t:tt)*) => { if !($c) { return $crate::wrong($key, format!($($t)*)); } };
}

/// Runs a call the way a block does: everything it wrote is undone if it fails.
pub fn call<E: Into<sp_runtime::DispatchError>, T>(f: impl FnOnce() -> Result<T, E>) -> Result<T, sp_runtime::DispatchError> {
    frame_support::storage::with_storage_layer(|| f().map_err(Into::into))
}
/// Runs `f` and undoes everything it wrote.
pub fn dry<T>(f: impl FnOnce() -> T) -> T {
    sp_io::storage::start_transaction();
    let d = sp_io::with_ext(|e| e.depth());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unwind(d - 1);
    match r { Ok(x) => x, Err(p) => std::panic::resume_unwind(p) }
}
fn unwind(to: usize) { sp_io::with_ext(|e| while e.depth() > to { e.rollback() }) }

/// A state to start from: its name, the chain state and the model's state.
pub struct Start<M> { pub name: String, pub map: sp_io::Map, pub model: M }
/// Builds a start state by running `f` on an empty chain.
pub fn start<M>(name: impl Into<String>, f: impl FnOnce() -> M) -> Start<M> {
    let old = sp_io::swap_ext(sp_io::Ext::default());
    let model = f();
    let e = sp_io::swap_ext(old);
    Start { name: name.into(), map: e.map, model }
}

pub struct World<'a, A, M> {
    pub name: &'a str,
    pub depth: usize,
    /// keep deposited events (some checks read them)
    pub events: bool,
    pub actions: &'a (dyn Fn(&M) -> Vec<A> + Sync),
    /// Ok(true): went through; Ok(false): refused
    pub step: &'a (dyn Fn(&A, &mut M) -> Result<bool, Wrong> + Sync),
    /// per-thread preparation (thread-local configuration)
    pub prepare: &'a (dyn Fn() + Sync),
}
struct Shared { seen: Vec<Mutex<HashMap<u128, u8>>>, trans: AtomicU64, states: AtomicU64, done: Mutex<BTreeMap<String, (u64, u64)>> }
thread_local! { static DONE: std::cell::RefCell<BTreeMap<String, (u64, u64)>> = Default::default(); }
fn flush(sh: &Shared) { let m = DONE.with(|d| std::mem::take(&mut *d.borrow_mut())); let mut g = sh.done.lock().unwrap(); for (k, v) in m { let e = g.entry(k).or_default(); e.0 += v.0; e.1 += v.1; } }
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(23) } }
}
fn hash128<M: Hash>(m: &M) -> u128 {
    let (mut a, mut b) = (H(0xcbf29ce484222325), H(0x9e3779b97f4a7c15));
    m.hash(&mut a); m.hash(&mut b);
    (a.0 as u128) << 64 | b.0 as u128
}
fn kind<A: Debug>(a: &A) -> String { format!("{a:?}").split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string() }

impl<'a, A: Debug + Clone + Send + Sync, M: Clone + Hash + Send + Sync> World<'a, A, M> {
    /// Explores from every start; returns (states, transitions).
    pub fn explore(&self, ck: &Check, starts: Vec<Start<M>>) -> (u64, u64) {
        let sh = Shared { seen: (0..256).map(|_| Mutex::new(HashMap::new())).collect(), trans: 0.into(), states: 0.into(), done: Default::default() };
        let t0 = ck.elapsed();
        let ns = starts.len();
        // frontier: enough subtrees to keep the cores busy
        type Node<M> = (String, sp_io::Map, M, Vec<String>, usize);
        let mut front: Vec<Node<M>> = starts.into_iter().map(|s| (s.name, s.map, s.model, vec![], self.depth)).collect();
        sh.states.fetch_add(front.len() as u64, Relaxed);
        while front.len() < 48 && front.iter().any(|n| n.4 > 1) {
            front = front.into_par_iter().flat_map_iter(|(name, map, m, path, rem)| {
                (self.prepare)();
                let mut next = vec![];
                if rem <= 1 { next.push((name, map, m, path, rem)); return next; }
                sp_io::swap_ext(self.ext(map));
                for a in (self.actions)(&m) {
                    if ck.stop() || ck.out_of_time() { break; }
                    if let Some((m2, fresh)) = self.one(ck, &sh, &name, &path, &a, &m, rem) {
                        if fresh {
                            let mut p = path.clone(); p.push(format!("{a:?}"));
                            next.push((name.clone(), sp_io::with_ext(|e| e.map.clone()), m2, p, rem - 1));
                        }
                    }
                    unwind(0);
                }
                flush(&sh);
                next
            }).collect();
            if front.is_empty() { break; }
        }
        front.into_par_iter().for_each(|(name, map, m, mut path, rem)| {
            (self.prepare)();
            sp_io::swap_ext(self.ext(map));
            self.dfs(ck, &sh, &name, &mut path, &m, rem);
            unwind(0);
            flush(&sh);
        });
        if ck.out_of_time() { ck.not_exhaustive(); }
        let (s, t) = (sh.states.load(Relaxed), sh.trans.load(Relaxed));
        ck.add_states(s); ck.add_transitions(t);
        ck.add_traces(t);
        let done = sh.done.into_inner().unwrap();
        ck.section(self.name, json!({ "start_states": ns, "depth": self.depth, "states": s, "transitions": t, "wall_s": ck.elapsed() - t0,
            "calls_through_and_refused": done.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>() }));
        (s, t)
    }
    fn ext(&self, map: sp_io::Map) -> sp_io::Ext { let mut e = sp_io::Ext::from_map(map); e.drop_events = !self.events; e }
    /// One transition; leaves its storage layer open.
    fn one(&self, ck: &Check, sh: &Shared, start: &str, path: &[String], a: &A, m: &M, rem: usize) -> Option<(M, bool)> {
        sp_io::with_ext(|e| { e.start(); e.events.clear(); });
        let d = sp_io::with_ext(|e| e.depth());
        let mut m2 = m.clone();
        let r = guarded(|| (self.step)(a, &mut m2));
        unwind(d);
        sh.trans.fetch_add(1, Relaxed);
        let bad = match r {
            Ok(Ok(ok)) => {
                DONE.with(|d| { let mut d = d.borrow_mut(); let e = d.entry(kind(a)).or_default(); if ok { e.0 += 1 } else { e.1 += 1 } });
                let key = sp_io::state_digest() ^ hash128(&m2);
                let left = (rem - 1) as u8;
                let mut g = sh.seen[(key >> 64) as usize & 255].lock().unwrap();
                let fresh = match g.get_mut(&key) {
                    None => { g.insert(key, left); sh.states.fetch_add(1, Relaxed); left > 0 }
                    Some(x) if *x < left => { *x = left; true }
                    _ => false,
                };
                return Some((m2, fresh));
            }
            Ok(Err(w)) => w,
            Err(p) => Wrong(format!("{}:panic", self.name), format!("the call panicked: {p}")),
        };
        let mut p = path.to_vec(); p.push(format!("{a:?}"));
        ck.violation(format!("{}:{}", self.name, bad.0), format!("[{}; start {start}; {}] {}", self.name, p.join(" -> "), bad.1), json!({ "world": self.name, "start": start, "actions": p }));
        None
    }
    fn dfs(&self, ck: &Check, sh: &Shared, start: &str, path: &mut Vec<String>, m: &M, rem: usize) {
        for a in (self.actions)(m) {
            if ck.stop() || ck.out_of_time() { return; }
            let d = sp_io::with_ext(|e| e.depth());
            if let Some((m2, fresh)) = self.one(ck, sh, start, path, &a, m, rem) {
                if fresh && rem > 1 {
                    path.push(format!("{a:?}"));
                    self.dfs(ck, sh, start, path, &m2, rem - 1);
                    path.pop();
                }
            }
            unwind(d);
        }
    }
}

/// `frame_system::Config` for a world's runtime `$rt` with u64 accounts; `$ad` is the account data.
#[macro_export]
macro_rules! system {
    ($rt:ident, $ad:ty) => { $crate::system!($rt, $ad, u64); };
    ($rt:ident, $ad:ty, $acc:ty) => { $crate::system!($rt, $ad, $acc, ()); };
    ($rt:ident, $ad:ty, $acc:ty, $db:ty) => {
        impl frame_system::Config for $rt {
            type BaseCallFilter = frame_support::traits::Everything;
            type BlockWeights = ();
            type BlockLength = ();
            type RuntimeOrigin = RuntimeOrigin;
            type RuntimeCall = RuntimeCall;
            type RuntimeTask = RuntimeTask;
            type Nonce = u64;
            type Block = frame_system::mocking::MockBlock<$rt>;
            type Hash = sp_core::H256;
            type Hashing = sp_runtime::traits::BlakeTwo256;
            type AccountId = $acc;
            type Lookup = sp_runtime::traits::IdentityLookup<$acc>;
            type RuntimeEvent = RuntimeEvent;
            type BlockHashCount = frame_support::traits::ConstU64<250>;
            type DbWeight = $db;
            type Version = ();
            type PalletInfo = PalletInfo;
            type AccountData = $ad;
            type OnNewAccount = ();
            type OnKilledAccount = ();
            type SystemWeightInfo = ();
            type SS58Prefix = ();
            type OnSetCode = ();
            type MaxConsumers = frame_support::traits::ConstU32<16>;
        }
    };
}
/// `orml_tokens::Config`: existential deposit of every asset `$ed`, dust stays with accounts in `$wl`.
#[macro_export]
macro_rules! tokens {
    ($rt:ident, $ed:ty, $wl:ty, $hooks:ty) => {
        impl orml_tokens::Config for $rt {
            type RuntimeEvent = RuntimeEvent;
            type Balance = u128;
            type Amount = i128;
            type CurrencyId = u32;
            type WeightInfo = ();
            type ExistentialDeposits = $ed;
            type MaxLocks = frame_support::traits::ConstU32<16>;
            type DustRemovalWhitelist = $wl;
            type ReserveIdentifier = [u8; 8];
            type MaxReserves = frame_support::traits::ConstU32<16>;
            type CurrencyHooks = $hooks;
        }
    };
}
#[macro_export]
macro_rules! balances {
    ($rt:ident, $ed:expr) => {
        impl pallet_balances::Config for $rt {
            type Balance = u128;
            type DustRemoval = ();
            type RuntimeEvent = RuntimeEvent;
            type ExistentialDeposit = frame_support::traits::ConstU128<$ed>;
            type AccountStore = System;
            type WeightInfo = ();
            type MaxLocks = frame_support::traits::ConstU32<16>;
            type MaxReserves = frame_support::traits::ConstU32<16>;
            type ReserveIdentifier = [u8; 8];
            type FreezeIdentifier = ();
            type MaxFreezes = ();
            type RuntimeHoldReason = ();
            type RuntimeFreezeReason = ();
        }
    };
}
pub fn signed<O: From<frame_system::RawOrigin<u64>>>(who: u64) -> O { frame_system::RawOrigin::Signed(who).into() }
/// an origin of a world whose accounts are not u64
pub fn signed_by<A, O: From<frame_system::RawOrigin<A>>>(who: A) -> O { frame_system::RawOrigin::Signed(who).into() }
pub fn root<O: From<frame_system::RawOrigin<u64>>>() -> O { frame_system::RawOrigin::Root.into() }
