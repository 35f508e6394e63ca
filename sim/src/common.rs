//! What all scenarios share: violations, statistics, property-specific oracles.

use crate::disk::{Delta, SimError};
use crate::plan::Plan;
use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub step: usize,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn bad<T>(step: usize, class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Violation {
        class: class.into(),
        msg: msg.into(),
        step,
    })
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
    /// Distinct (scenario, logical state) pairs reached.
    pub states: HashSet<u64>,
    /// Distinct executions (hash of every storage call, fault and result).
    pub traces: HashSet<u64>,
    /// Distinct schedules of concurrent runs.
    pub schedules: HashSet<u64>,
    /// Of the distinct executions, those that are non-trivial.
    pub nontrivial: HashSet<u64>,
    pub runs: u64,
    pub verbose: bool,
}

impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.n.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_insert(0) += v;
    }
    /// (`merge` adds; maxima are kept apart.)
    pub fn most(&mut self, k: &'static str, v: u64) {
        let e = self.max.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn state(&mut self, a: u64, b: u64) {
        if self.states.len() < 2_000_000 {
            self.states.insert(mix(a, b));
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            *self.n.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.max {
            self.most(k, v);
        }
        self.states.extend(o.states);
        self.traces.extend(o.traces);
        self.schedules.extend(o.schedules);
        self.nontrivial.extend(o.nontrivial);
        self.runs += o.runs;
    }
}

/// Oracles beyond the ones every check applies.
#[derive(Clone, Copy, Default)]
pub struct Masks {
    /// A failed storage call may not be hidden behind a success.
    pub surface: bool,
    /// Bounds on the number of storage calls.
    pub bounds: bool,
    /// A call that has nothing to do may not change the stored nodes.
    pub noop: bool,
    /// Which nodes are stored, where, and that nothing else changes.
    pub layout: bool,
    /// Entries that the tree does not need are removed, and any that is missing
    /// is excused only where it is needed.
    pub pruned: bool,
    /// An error names what really was the matter.
    pub causes: bool,
    /// Bounds on the memory the library takes and keeps.
    pub memory: bool,
    /// A storage call that does not return has not brought the process down: it
    /// unwound, and the trees live on.
    pub unwinds: bool,
}

impl Masks {
    pub fn of(p: &Plan) -> Masks {
        Masks {
            surface: p.property == "C17",
            bounds: p.property == "C18",
            noop: p.property == "C08",
            layout: ["C24", "C25", "C33"].contains(&p.property.as_str()),
            memory: p.property == "C34",
            causes: p.property == "C32",
            unwinds: p.get("unwind") == 1,
            pruned: p.steps.iter().any(|s| s.op == "prune"),
        }
    }
}

/// What the trees of an engine keep in memory between calls.
#[derive(Default)]
pub struct Held {
    before: i64,
    most_levels: u32,
}

impl Held {
    pub fn new() -> Held {
        Held { before: crate::mem::live(), most_levels: 0 }
    }

    /// `trees` that were never of more than `levels` levels.
    pub fn check(&mut self, trees: usize, levels: u32, m: Masks, step: usize, st: &mut Stats) -> Res {
        if !m.memory {
            return Ok(());
        }
        self.most_levels = self.most_levels.max(levels);
        let held = crate::mem::live() - self.before;
        let may = 1024 + trees as i64 * (1024 + 256 * self.most_levels as i64);
        st.hit("held_memory_checked");
        st.most("held_bytes_in_percent_of_bound", (held.max(0) * 100 / may) as u64);
        if held > may {
            return bad(
                step,
                "memory-kept",
                format!(
                    "{} trees of up to {} levels keep {} bytes between calls",
                    trees, self.most_levels, held
                ),
            );
        }
        Ok(())
    }
}

/// The memory that one call took at once.
pub fn memory(d: &Delta, levels: u32, len: usize, m: Masks, step: usize, what: &str, st: &mut Stats) -> Res {
    if !m.memory {
        return Ok(());
    }
    let may = 65536 + 4096 * levels as i64 + 8 * len as i64;
    st.hit("call_memory_checked");
    st.most("call_bytes_in_percent_of_bound", (d.peak.max(0) * 100 / may) as u64);
    if d.peak > may {
        return bad(
            step,
            "memory-taken",
            format!("{} of {} levels took {} bytes at once", what, levels, d.peak),
        );
    }
    Ok(())
}

/// Is the error the one that was injected?
pub fn names_fault(e: &impl std::fmt::Debug, d: &Delta) -> bool {
    let s = format!("{:?}", e);
    d.errs.iter().any(|id| s.contains(&SimError::mark(*id)))
}

/// A number for the text of an error.
pub fn err_note(e: &impl std::fmt::Debug) -> u64 {
    format!("{:?}", e)
        .bytes()
        .fold(7, |a, b| mix(a, b as u64))
}

/// A history that is run step by step.
pub trait Part {
    fn step(&mut self, plan: &mut Plan, i: usize) -> Res;
    /// After the last step; returns the hash of the execution.
    fn finish(&mut self, plan: &Plan) -> Res<u64>;
}

pub fn run_part(mut p: Box<dyn Part + '_>, plan: &mut Plan) -> Res<u64> {
    for i in 0..plan.steps.len() {
        p.step(plan, i)?;
    }
    p.finish(plan)
}

pub fn low(h: &[u8; 32]) -> u64 {
    u64::from_be_bytes(h[..8].try_into().unwrap())
}

/// log2 bound on the levels of a list of n leaves.
pub fn levels(n: u64) -> u32 {
    64 - n.leading_zeros()
}

macro_rules! vlog {
    ($st:expr, $($a:tt)*) => { if $st.verbose { eprintln!($($a)*); } };
}
pub(crate) use vlog;

/// How rarely a soak step reopens its tree: every 64th call, every 1024th, or
/// never.
pub fn reload_mask(seed: u64) -> u64 {
    match seed >> 40 & 3 {
        0 => u64::MAX,
        1 => 1023,
        _ => 63,
    }
}
