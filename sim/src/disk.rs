//! The simulated disk: the storage the trees run on. It implements the
//! library's storage traits, and decides at every single call whether it fails,
//! whether the process dies, what is durable, and (in concurrent runs) which
//! actor goes next.

use crate::baton::Baton;
use crate::plan::{Fault, FK};
use crate::rng::{mix, Rng};
use fuel_merkle::common::StorageMap;
use fuel_merkle::storage::{StorageInspectInfallible, StorageMutateInfallible};
use fuel_storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hash;
use std::sync::{Arc, Mutex};

/// The storage error. Its Debug text carries the number of the injected fault.
#[derive(Clone)]
pub struct SimError {
    pub id: u64,
}

impl SimError {
    pub fn mark(id: u64) -> String {
        format!("SimError<{}>", id)
    }
}

impl std::fmt::Debug for SimError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", SimError::mark(self.id))
    }
}

impl std::fmt::Display for SimError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", SimError::mark(self.id))
    }
}

impl std::error::Error for SimError {}

/// Panic payloads by which the simulator unwinds an API call.
pub struct CrashToken;
pub struct LimitToken;

/// What survives a crash.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Durability {
    /// Every write is durable at once.
    Through,
    /// Writes since the last sync survive as a prefix of their order.
    Prefix,
    /// Any subset of the writes since the last sync survives.
    Subset,
    /// Writes are a transaction: all those since the last commit are undone.
    Txn,
}

impl Durability {
    pub fn from(x: u64) -> Durability {
        match x {
            0 => Durability::Through,
            1 => Durability::Prefix,
            2 => Durability::Subset,
            _ => Durability::Txn,
        }
    }
}

pub trait KeyBits {
    fn bits(&self) -> u64;
}
impl KeyBits for u64 {
    fn bits(&self) -> u64 {
        *self
    }
}
impl KeyBits for [u8; 32] {
    fn bits(&self) -> u64 {
        u64::from_be_bytes(self[..8].try_into().unwrap())
    }
}

/// Probabilities (in 10,000) of the faults at each storage call.
#[derive(Clone, Debug, Default)]
pub struct Rates {
    pub rerr: u32,
    pub werr: u32,
    pub wafter: u32,
    pub full: u32,
    pub crash: u32,
    pub lost: u32,
    pub tag: u32,
    /// Faults come only at a call after this number since the last fault.
    pub gap: u32,
}

thread_local! {
    static NEST: std::cell::Cell<Option<&'static dyn Fn()>> = const { std::cell::Cell::new(None) };
    /// The scheduler that disks made by this thread obey.
    pub static GATE: std::cell::RefCell<Option<(Arc<Baton>, usize)>> =
        const { std::cell::RefCell::new(None) };
}

/// Where a disk on the library's own map reports that the map is not one.
pub type MapLog = Arc<Mutex<Option<String>>>;

thread_local! {
    /// Disks made by this thread check the library's map against another one.
    pub static MAPLOG: std::cell::RefCell<Option<MapLog>> = const { std::cell::RefCell::new(None) };
}

pub struct Shared<T: Mappable>
where
    T::Key: Ord + Clone,
    T::GetValue: Clone,
{
    bt: BTreeMap<T::Key, T::GetValue>,
    real: StorageMap<T>,
    pub use_real: bool,
    pub mode: Durability,
    pending: Vec<(T::Key, Option<T::GetValue>, Option<T::GetValue>)>,
    base: Option<Box<dyn Fn(&T::Key) -> Option<T::GetValue> + Send>>,
    same: Option<fn(&T::GetValue, &T::GetValue) -> bool>,
    corrupt: Option<fn(&T::GetValue, u64) -> T::GetValue>,
    hidden: BTreeSet<T::Key>,
    tagged: BTreeMap<T::Key, u64>,
    full_left: u64,
    next_err: u64,
    /// Changes of the stored contents so far (rewrites of the same value apart).
    pub mutations: u64,
    /// The changes since they were last asked for: key, before, after.
    log: Option<Changes<T>>,
    /// Every answer of the library's map is compared with `bt`.
    map_log: Option<MapLog>,
    map_calls: std::cell::Cell<u64>,
    /// Nothing is ever removed.
    archive: bool,
}

type Changes<T> = Vec<(
    <T as Mappable>::Key,
    Option<<T as Mappable>::GetValue>,
    Option<<T as Mappable>::GetValue>,
)>;

pub trait Table:
    Mappable<
    Key = <Self as Table>::K,
    SetValue = <Self as Table>::V,
    GetValue = <Self as Table>::V,
>
{
    type K: Ord + Clone + Eq + Hash + KeyBits;
    type V: Clone;
}

impl<T> Table for T
where
    T: Mappable<SetValue = <T as Mappable>::GetValue>,
    T::Key: Ord + Clone + Eq + Hash + KeyBits,
    T::GetValue: Clone,
{
    type K = T::Key;
    type V = T::GetValue;
}

impl<T: Table> Shared<T> {
    fn map_says(&self, what: &str, k: &T::K, got: &Option<T::V>, has: Option<bool>) {
        let log = match &self.map_log {
            None => return,
            Some(l) => l,
        };
        let want = self.bt.get(k);
        let ok = match (got, want) {
            (None, None) => true,
            (Some(a), Some(b)) => self.same.map(|f| f(a, b)).unwrap_or(true),
            _ => false,
        } && has.map(|h| h == want.is_some()).unwrap_or(true);
        if !ok {
            let mut l = log.lock().unwrap();
            if l.is_none() {
                *l = Some(format!(
                    "{} of key {:016x}: {} although {}{}",
                    what,
                    k.bits(),
                    if got.is_some() { "a value" } else { "nothing" },
                    match (want.is_some(), got.is_some()) {
                        (true, true) => "another one was inserted last",
                        (true, false) => "one was inserted",
                        _ => "nothing was inserted, or it was removed",
                    },
                    if has.is_some() { " (or contains_key is wrong)" } else { "" },
                ));
            }
        }
    }

    fn map_get(&self, k: &T::K) -> Option<T::V> {
        if self.map_log.is_none() {
            return StorageInspect::get(&self.real, k).unwrap().map(|c| c.into_owned());
        }
        let n = self.map_calls.get();
        self.map_calls.set(n + 1);
        let has;
        let v = match n % 3 {
            0 => {
                has = StorageInspect::contains_key(&self.real, k).unwrap();
                StorageInspect::get(&self.real, k).unwrap().map(|c| c.into_owned())
            }
            1 => {
                has = StorageInspectInfallible::contains_key(&self.real, k);
                StorageInspectInfallible::get(&self.real, k).map(|c| c.into_owned())
            }
            _ => {
                let r = &&self.real;
                has = StorageInspectInfallible::contains_key(r, k);
                StorageInspect::get(r, k).unwrap().map(|c| c.into_owned())
            }
        };
        self.map_says("get", k, &v, Some(has));
        v
    }

    fn map_put(&mut self, k: &T::K, v: Option<T::V>) {
        let n = self.map_calls.get();
        self.map_calls.set(n + 1);
        let old = match (&v, n % 3) {
            (Some(v), 0) => StorageMutate::insert(&mut self.real, k, v).unwrap(),
            (Some(v), 1) => StorageMutateInfallible::insert(&mut self.real, k, v),
            (Some(v), _) => StorageMutate::insert(&mut &mut self.real, k, v).unwrap(),
            (None, 0) => StorageMutate::remove(&mut self.real, k).unwrap(),
            (None, 1) => StorageMutateInfallible::remove(&mut self.real, k),
            (None, _) => StorageMutate::remove(&mut &mut self.real, k).unwrap(),
        };
        if self.map_log.is_some() {
            self.map_says(if v.is_some() { "insert" } else { "remove" }, k, &old, None);
            match v {
                Some(v) => {
                    self.bt.insert(k.clone(), v);
                }
                None => {
                    self.bt.remove(k);
                }
            }
            self.map_get(k);
        }
    }

    fn raw(&self, k: &T::K) -> Option<T::V> {
        let v = if self.use_real {
            self.map_get(k)
        } else {
            self.bt.get(k).cloned()
        };
        v.or_else(|| self.base.as_ref().and_then(|b| b(k)))
    }

    fn put(&mut self, k: &T::K, v: Option<T::V>) {
        match (v, self.use_real) {
            (v, true) => self.map_put(k, v),
            (Some(v), false) => {
                self.bt.insert(k.clone(), v);
            }
            (None, false) => {
                self.bt.remove(k);
            }
        }
    }

    fn write(&mut self, k: &T::K, v: Option<T::V>) -> Option<T::V> {
        let old = self.raw(k);
        let same = match (&old, &v) {
            (None, None) => true,
            (Some(x), Some(y)) => self.same.map(|f| f(x, y)).unwrap_or(false),
            _ => false,
        };
        if !same || self.hidden.contains(k) || self.tagged.contains_key(k) {
            self.mutations += 1;
            if let Some(log) = &mut self.log {
                log.push((k.clone(), old.clone(), v.clone()));
            }
        }
        self.hidden.remove(k);
        self.tagged.remove(k);
        if self.mode != Durability::Through {
            self.pending.push((k.clone(), old.clone(), v.clone()));
        }
        self.put(k, v);
        old
    }

    fn sync(&mut self) {
        self.pending.clear();
    }

    /// Loses what the crash loses. Returns the number of writes undone.
    fn crash(&mut self, arg: u64) -> u64 {
        let p = std::mem::take(&mut self.pending);
        let n = p.len();
        let mut lost = 0;
        let keep: Vec<bool> = match self.mode {
            Durability::Through => vec![true; n],
            Durability::Prefix => {
                let k = arg % (n as u64 + 1);
                (0..n).map(|i| (i as u64) < k).collect()
            }
            Durability::Subset => {
                let mut r = Rng::new(arg);
                let odds = r.below(5);
                (0..n).map(|_| r.below(4) < odds).collect()
            }
            Durability::Txn => vec![false; n],
        };
        for (k, old, _) in p.iter().rev() {
            self.put(k, old.clone());
        }
        for ((k, _, new), keep) in p.into_iter().zip(keep) {
            if keep {
                self.put(&k, new);
            } else {
                lost += 1;
            }
        }
        self.full_left = 0;
        lost
    }
}

/// What one handle saw since `begin`.
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub calls: u32,
    pub reads: u32,
    pub writes: u32,
    pub errs: Vec<u64>,
    pub fired: Vec<Fault>,
    pub crash_arg: Option<u64>,
    /// Number of the write (within the calls of this report) that failed.
    pub failed_write: Option<u32>,
}

/// What one API call met.
#[derive(Clone, Debug, Default)]
pub struct Delta {
    pub calls: u32,
    pub errs: Vec<u64>,
    pub fired: usize,
    pub crash_arg: u64,
    pub writes: u32,
    pub failed_write: Option<u32>,
    /// The most bytes the library had taken at once during the call.
    pub peak: i64,
}

/// Storage calls after which one API call counts as not terminating.
const LIMIT: u32 = 60_000;

pub struct Ctl {
    rep: Report,
    planned: Vec<Fault>,
    online: Option<(Rates, Rng)>,
    since: u32,
    pub armed: bool,
    limit_at: u32,
    pub trace: u64,
    pub total_calls: u64,
}

pub struct Disk<T: Table> {
    pub shared: Arc<Mutex<Shared<T>>>,
    pub ctl: Arc<Mutex<Ctl>>,
    pub gate: Option<(Arc<Baton>, usize)>,
    /// The tree on this disk has several callers: faults and scheduling are
    /// those of the calling thread (see `act_as`).
    pub routed: bool,
}

type Acting = (Arc<Mutex<Ctl>>, Option<(Arc<Baton>, usize)>);

thread_local! {
    static ACTING: std::cell::RefCell<Option<Acting>> = const { std::cell::RefCell::new(None) };
}

impl<T: Table> Clone for Disk<T> {
    fn clone(&self) -> Self {
        Disk {
            shared: self.shared.clone(),
            ctl: self.ctl.clone(),
            gate: self.gate.clone(),
            routed: self.routed,
        }
    }
}

impl<T: Table> std::fmt::Debug for Disk<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Disk")
    }
}

fn new_ctl(online: Option<(Rates, Rng)>) -> Arc<Mutex<Ctl>> {
    Arc::new(Mutex::new(Ctl {
        rep: Report::default(),
        planned: vec![],
        online,
        since: 1000,
        armed: false,
        limit_at: LIMIT,
        trace: 0,
        total_calls: 0,
    }))
}

impl<T: Table> Disk<T> {
    pub fn new(mode: Durability, use_real: bool, online: Option<(Rates, Rng)>) -> Self {
        Disk {
            shared: Arc::new(Mutex::new(Shared {
                bt: BTreeMap::new(),
                real: StorageMap::new(),
                use_real,
                mode,
                pending: vec![],
                base: None,
                same: None,
                corrupt: None,
                hidden: BTreeSet::new(),
                tagged: BTreeMap::new(),
                full_left: 0,
                next_err: 1,
                mutations: 0,
                log: None,
                map_log: MAPLOG.with(|m| m.borrow().clone()),
                map_calls: std::cell::Cell::new(0),
                archive: false,
            })),
            ctl: new_ctl(online),
            gate: GATE.with(|g| g.borrow().clone()),
            routed: false,
        }
    }

    /// From now on this thread's accesses to routed disks are this handle's.
    pub fn act_as(&self) {
        ACTING.with(|a| *a.borrow_mut() = Some((self.ctl.clone(), self.gate.clone())));
    }

    /// From now on removed entries stay.
    pub fn archive(&self) {
        self.shared.lock().unwrap().archive = true;
    }

    /// From now on all changes are logged.
    pub fn watch(&self) {
        self.shared.lock().unwrap().log = Some(vec![]);
    }

    /// The net changes since the last call: key, before, after.
    pub fn changes(&self) -> Changes<T> {
        let mut s = self.shared.lock().unwrap();
        let same = s.same;
        let log = match &mut s.log {
            Some(l) => std::mem::take(l),
            None => return vec![],
        };
        let mut net: BTreeMap<T::K, (Option<T::V>, Option<T::V>)> = BTreeMap::new();
        for (k, old, new) in log {
            match net.get_mut(&k) {
                Some(e) => e.1 = new,
                None => {
                    net.insert(k, (old, new));
                }
            }
        }
        net.into_iter()
            .filter(|(_, (a, b))| match (a, b) {
                (None, None) => false,
                (Some(a), Some(b)) => !same.map(|f| f(a, b)).unwrap_or(false),
                _ => true,
            })
            .map(|(k, (a, b))| (k, a, b))
            .collect()
    }

    pub fn with_base(self, f: impl Fn(&T::K) -> Option<T::V> + Send + 'static) -> Self {
        self.shared.lock().unwrap().base = Some(Box::new(f));
        self
    }
    pub fn with_same(self, f: fn(&T::V, &T::V) -> bool) -> Self {
        self.shared.lock().unwrap().same = Some(f);
        self
    }
    pub fn set_same(&self, f: fn(&T::V, &T::V) -> bool) {
        self.shared.lock().unwrap().same = Some(f);
    }
    pub fn with_corrupt(self, f: fn(&T::V, u64) -> T::V) -> Self {
        self.shared.lock().unwrap().corrupt = Some(f);
        self
    }

    /// Another actor's handle to the same storage, with faults of its own.
    pub fn handle(&self, online: Option<(Rates, Rng)>, gate: Option<(Arc<Baton>, usize)>) -> Self {
        Disk {
            shared: self.shared.clone(),
            ctl: new_ctl(online),
            gate,
            routed: self.routed,
        }
    }

    /// A new process on the same disk.
    pub fn restarted(&self) -> Self {
        self.clone()
    }

    pub fn begin(&self, planned: &[Fault], calm: bool) {
        let mut c = self.ctl.lock().unwrap();
        c.rep = Report::default();
        c.planned = planned.to_vec();
        c.armed = !calm;
        if calm {
            self.shared.lock().unwrap().full_left = 0;
        }
    }

    /// Runs one API call of the library under the simulator.
    pub fn call<R>(&self, f: impl FnOnce() -> R) -> (Out<R>, Delta) {
        let (calls, errs, fired) = {
            let mut c = self.ctl.lock().unwrap();
            c.limit_at = c.rep.calls + LIMIT;
            c.rep.crash_arg = None;
            c.rep.writes = 0;
            c.rep.failed_write = None;
            (c.rep.calls, c.rep.errs.len(), c.rep.fired.len())
        };
        crate::mem::peak();
        let held = crate::mem::live();
        let out = {
            let _o = crate::mem::library();
            guard(f)
        };
        let peak = crate::mem::peak() - held;
        let c = self.ctl.lock().unwrap();
        let d = Delta {
            calls: c.rep.calls - calls,
            errs: c.rep.errs[errs..].to_vec(),
            fired: c.rep.fired.len() - fired,
            crash_arg: c.rep.crash_arg.unwrap_or(0),
            writes: c.rep.writes,
            failed_write: c.rep.failed_write,
            peak,
        };
        (out, d)
    }

    pub fn report(&self) -> Report {
        self.ctl.lock().unwrap().rep.clone()
    }

    /// Stops faults (for oracle reads through the API).
    pub fn arm(&self, on: bool) {
        self.ctl.lock().unwrap().armed = on;
    }

    pub fn sync(&self) {
        self.shared.lock().unwrap().sync();
    }

    pub fn crash(&self, arg: u64) -> u64 {
        self.shared.lock().unwrap().crash(arg)
    }

    /// The stored value as it is, without faults, counting or scheduling.
    pub fn peek(&self, k: &T::K) -> Option<T::V> {
        self.shared.lock().unwrap().raw(k)
    }

    pub fn is_hidden(&self, k: &T::K) -> bool {
        let s = self.shared.lock().unwrap();
        s.hidden.contains(k) || s.tagged.contains_key(k)
    }

    /// Would a read of `k` find nothing?
    pub fn absent(&self, k: &T::K) -> bool {
        let s = self.shared.lock().unwrap();
        s.hidden.contains(k) || s.raw(k).is_none()
    }

    /// The stored value as a read returns it.
    pub fn seen(&self, k: &T::K) -> Option<T::V> {
        let s = self.shared.lock().unwrap();
        if s.hidden.contains(k) {
            return None;
        }
        match (s.raw(k), s.tagged.get(k), s.corrupt) {
            (Some(v), Some(arg), Some(f)) => Some(f(&v, *arg)),
            (v, _, _) => v,
        }
    }

    pub fn damaged(&self) -> usize {
        let s = self.shared.lock().unwrap();
        s.hidden.len() + s.tagged.len()
    }

    pub fn hide(&self, k: &T::K) -> bool {
        let mut s = self.shared.lock().unwrap();
        if s.raw(k).is_some() {
            s.hidden.insert(k.clone());
            true
        } else {
            false
        }
    }

    /// Only these entries stay; what is pending becomes durable.
    pub fn retain(&self, keys: &BTreeSet<T::K>) -> u64 {
        let mut s = self.shared.lock().unwrap();
        s.sync();
        let kept: Vec<(T::K, T::V)> =
            keys.iter().filter_map(|k| s.raw(k).map(|v| (k.clone(), v))).collect();
        s.bt.clear();
        s.real = StorageMap::new();
        s.base = None;
        s.hidden.retain(|k| keys.contains(k));
        s.tagged.retain(|k, _| keys.contains(k));
        let n = kept.len() as u64;
        for (k, v) in kept {
            s.put(&k, Some(v));
        }
        n
    }

    /// The storage was filled by somebody else: it holds these entries, and no
    /// others (but a virtual base).
    pub fn replace(&self, entries: Vec<(T::K, T::V)>) {
        let mut s = self.shared.lock().unwrap();
        s.sync();
        s.bt.clear();
        s.real = StorageMap::new();
        s.hidden.clear();
        s.tagged.clear();
        for (k, v) in entries {
            s.put(&k, Some(v));
        }
        if let Some(log) = &mut s.log {
            log.clear();
        }
    }

    /// An entry comes from elsewhere; a crash may lose it like any other write.
    pub fn supply(&self, k: &T::K, v: T::V) {
        self.shared.lock().unwrap().write(k, Some(v));
    }

    /// An entry that can be had elsewhere is dropped; what is pending becomes
    /// durable.
    pub fn evict(&self, k: &T::K) {
        let mut s = self.shared.lock().unwrap();
        s.sync();
        s.put(k, None);
    }

    /// Puts lost and damaged entries back.
    pub fn heal(&self) {
        let mut s = self.shared.lock().unwrap();
        s.hidden.clear();
        s.tagged.clear();
    }

    pub fn mutations(&self) -> u64 {
        self.shared.lock().unwrap().mutations
    }

    pub fn note(&self, x: u64) {
        let mut c = self.ctl.lock().unwrap();
        c.trace = mix(c.trace, x);
    }

    pub fn trace(&self) -> u64 {
        self.ctl.lock().unwrap().trace
    }

    pub fn total_calls(&self) -> u64 {
        self.ctl.lock().unwrap().total_calls
    }

    fn access(&self, k: &T::K, op: Op<T>) -> Result<Option<T::V>, SimError> {
        let _o = crate::mem::simulator();
        let acting = if self.routed {
            ACTING.with(|a| a.borrow().clone())
        } else {
            None
        };
        let (ctl, gate) = match &acting {
            Some((c, g)) => (c, g),
            None => (&self.ctl, &self.gate),
        };
        if let Some((b, me)) = gate {
            b.yield_now(*me);
        }
        if let Some(f) = NEST.with(|n| n.get()) {
            f();
        }
        let mut guard = ctl.lock().unwrap();
        let c = &mut *guard;
        let idx = c.rep.calls;
        c.rep.calls += 1;
        c.total_calls += 1;
        let write = matches!(op, Op::Insert(_) | Op::Remove);
        if write {
            c.rep.writes += 1;
        } else {
            c.rep.reads += 1;
        }
        if idx > c.limit_at {
            drop(guard);
            std::panic::panic_any(LimitToken);
        }
        let mut sh = self.shared.lock().unwrap();
        // Which fault, if any
        let mut fault: Option<Fault> = None;
        if c.armed {
            if let Some(f) = c.planned.iter().find(|f| f.call == idx) {
                fault = Some(*f);
            } else if let Some((rates, rng)) = &mut c.online {
                c.since += 1;
                if c.since > rates.gap {
                    let kind = draw(rates, rng, &op);
                    if let Some(kind) = kind {
                        let arg = match kind {
                            FK::Full => rng.below(12),
                            FK::Tag => rng.next(),
                            FK::Crash | FK::CrashAfter => rng.next() >> 20,
                            _ => 0,
                        };
                        fault = Some(Fault {
                            call: idx,
                            kind,
                            arg,
                        });
                        c.since = 0;
                    }
                }
            }
        }
        let code = match op {
            Op::Get => 1,
            Op::Has => 2,
            Op::Insert(_) => 3,
            Op::Remove => 4,
        };
        c.trace = mix(c.trace, mix(k.bits(), code));
        let mut fails = false;
        if let Op::Insert(_) = op {
            if sh.full_left > 0 && c.armed {
                sh.full_left -= 1;
                fails = true;
            }
        }
        let mut after = false;
        let mut crash = None;
        if let Some(f) = fault {
            let mut fired = true;
            match f.kind {
                FK::Err => fails = true,
                FK::ErrAfter => {
                    fails = true;
                    after = write;
                }
                FK::Full => {
                    if let Op::Insert(_) = op {
                        sh.full_left = f.arg;
                        fails = true;
                    } else {
                        fired = false;
                    }
                }
                FK::Crash | FK::CrashAfter => {
                    crash = Some(f);
                    after = f.kind == FK::CrashAfter;
                }
                FK::Lost => {
                    if !write && sh.raw(k).is_some() {
                        sh.hidden.insert(k.clone());
                    } else {
                        fired = false;
                    }
                }
                FK::Tag => {
                    if !write && sh.raw(k).is_some() && sh.corrupt.is_some() {
                        sh.tagged.insert(k.clone(), f.arg);
                    } else {
                        fired = false;
                    }
                }
            }
            if fired {
                c.trace = mix(c.trace, 100 + f.kind as u64);
                c.rep.fired.push(f);
            }
        }
        let do_it = (!fails && crash.is_none()) || after;
        let mut out = None;
        if do_it {
            out = match op {
                Op::Get | Op::Has => {
                    if sh.hidden.contains(k) {
                        None
                    } else {
                        let v = sh.raw(k);
                        match (v, sh.tagged.get(k), sh.corrupt) {
                            (Some(v), Some(arg), Some(f)) => Some(f(&v, *arg)),
                            (v, _, _) => v,
                        }
                    }
                }
                Op::Insert(v) => {
                    let hid = sh.hidden.contains(k);
                    let old = sh.write(k, Some(v.clone()));
                    old.filter(|_| !hid)
                }
                Op::Remove => {
                    let hid = sh.hidden.contains(k);
                    let old = if sh.archive {
                        sh.raw(k)
                    } else {
                        sh.write(k, None)
                    };
                    old.filter(|_| !hid)
                }
            };
        }
        if let Some(f) = crash {
            c.rep.crash_arg = Some(f.arg);
            drop(sh);
            drop(guard);
            std::panic::panic_any(CrashToken);
        }
        if fails {
            let id = sh.next_err;
            sh.next_err += 1;
            c.rep.errs.push(id);
            if write && c.rep.failed_write.is_none() {
                c.rep.failed_write = Some(c.rep.writes);
            }
            return Err(SimError { id });
        }
        Ok(out)
    }
}

enum Op<'a, T: Table> {
    Get,
    Has,
    Insert(&'a T::V),
    Remove,
}

fn draw<T: Table>(r: &Rates, rng: &mut Rng, op: &Op<T>) -> Option<FK> {
    let x = rng.below(10_000) as u32;
    let mut acc = 0;
    let list: [(u32, FK); 6] = match op {
        Op::Get | Op::Has => [
            (r.rerr, FK::Err),
            (r.lost, FK::Lost),
            (r.tag, FK::Tag),
            (r.crash, FK::Crash),
            (0, FK::Err),
            (0, FK::Err),
        ],
        _ => [
            (r.werr, FK::Err),
            (r.wafter, FK::ErrAfter),
            (
                if matches!(op, Op::Insert(_)) {
                    r.full
                } else {
                    0
                },
                FK::Full,
            ),
            (r.crash / 2, FK::Crash),
            (r.crash - r.crash / 2, FK::CrashAfter),
            (0, FK::Err),
        ],
    };
    for (p, k) in list {
        acc += p;
        if x < acc {
            return Some(k);
        }
    }
    None
}

impl<T: Table> StorageInspect<T> for Disk<T> {
    type Error = SimError;

    fn get(&self, key: &T::Key) -> Result<Option<Cow<T::GetValue>>, SimError> {
        Ok(self.access(key, Op::Get)?.map(Cow::Owned))
    }

    fn contains_key(&self, key: &T::Key) -> Result<bool, SimError> {
        Ok(self.access(key, Op::Has)?.is_some())
    }
}

impl<T: Table> StorageMutate<T> for Disk<T> {
    fn insert(
        &mut self,
        key: &T::Key,
        value: &T::SetValue,
    ) -> Result<Option<T::GetValue>, SimError> {
        self.access(key, Op::Insert(value))
    }

    fn remove(&mut self, key: &T::Key) -> Result<Option<T::GetValue>, SimError> {
        self.access(key, Op::Remove)
    }
}

// ---------------------------------------------------------------------------

pub enum Out<R> {
    Ret(R),
    Crash,
    Panic(String),
    Limit,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<CrashToken>() || p.is::<LimitToken>() {
            return;
        }
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|c| *c.borrow_mut() = format!("panicked at {}: {}", l, m));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

/// While `f` runs, every storage call of this thread calls `inner` first.
pub fn nest<R>(inner: &dyn Fn(), f: impl FnOnce() -> R) -> R {
    struct Clear;
    impl Drop for Clear {
        fn drop(&mut self) {
            NEST.with(|n| n.set(None));
        }
    }
    let _c = Clear;
    // Sound: it is taken away before `inner` ends.
    let inner: &'static dyn Fn() = unsafe { std::mem::transmute(inner) };
    NEST.with(|n| n.set(Some(inner)));
    f()
}

/// Runs one call into the library, catching simulated crashes and panics.
pub fn guard<R>(f: impl FnOnce() -> R) -> Out<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Out::Ret(r),
        Err(p) if p.is::<CrashToken>() => Out::Crash,
        Err(p) if p.is::<LimitToken>() => Out::Limit,
        Err(_) => Out::Panic(last_panic()),
    }
}
