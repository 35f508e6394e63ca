//! A plan is everything a run depends on: configuration, operations, the
//! faults that fire, the schedule. Running a plan twice gives the same
//! execution. A replay file is a plan.

use crate::json::J;
use crate::model::{hex, H};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum FK {
    /// The call fails and has no effect.
    Err,
    /// The write takes effect, but the call reports an error (lost reply).
    ErrAfter,
    /// The disk is full: this and the next `arg` inserts fail.
    Full,
    /// The process dies before the call takes effect.
    Crash,
    /// The process dies after the call took effect.
    CrashAfter,
    /// The entry being read is lost from now on.
    Lost,
    /// The entry being read has its type tag damaged from now on.
    Tag,
}

pub const FKS: [FK; 7] = [
    FK::Err,
    FK::ErrAfter,
    FK::Full,
    FK::Crash,
    FK::CrashAfter,
    FK::Lost,
    FK::Tag,
];

impl FK {
    pub fn name(self) -> &'static str {
        match self {
            FK::Err => "error",
            FK::ErrAfter => "error_after_effect",
            FK::Full => "disk_full",
            FK::Crash => "crash_before",
            FK::CrashAfter => "crash_after",
            FK::Lost => "lost_entry",
            FK::Tag => "damaged_tag",
        }
    }
    pub fn parse(s: &str) -> Option<FK> {
        FKS.iter().copied().find(|k| k.name() == s)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub call: u32,
    pub kind: FK,
    pub arg: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Step {
    pub actor: u32,
    pub op: String,
    pub a: u64,
    pub b: u64,
    /// No faults from here on: the injected faults have stopped.
    pub calm: bool,
    pub faults: Vec<Fault>,
}

/// What the network does to one message (by its number in order of sending).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fate {
    pub msg: u32,
    pub kind: NK,
    pub arg: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum NK {
    Drop,
    Dup,
    Delay,
    Corrupt,
}

pub const NKS: [NK; 4] = [NK::Drop, NK::Dup, NK::Delay, NK::Corrupt];

impl NK {
    pub fn name(self) -> &'static str {
        match self {
            NK::Drop => "message_lost",
            NK::Dup => "message_duplicated",
            NK::Delay => "message_delayed",
            NK::Corrupt => "message_damaged",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub variant: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, u64>,
    pub keys: Vec<H>,
    pub steps: Vec<Step>,
    pub fates: Vec<Fate>,
    pub sched: Vec<u32>,
    /// Trees that run together, each with a history of its own.
    pub parts: Vec<Plan>,
    /// Their fault rates, while the faults are still to be drawn.
    pub part_rates: Vec<crate::disk::Rates>,
}

impl Plan {
    pub fn get(&self, k: &str) -> u64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.cfg.insert(k.to_string(), v);
    }

    pub fn json(&self) -> J {
        let mut o = vec![
            ("property", J::s(&self.property)),
            ("scenario", J::s(&self.scenario)),
            ("variant", J::s(&self.variant)),
            ("seed", J::U(self.seed)),
            ("cfg", J::map(&self.cfg)),
            (
                "keys",
                J::A(self.keys.iter().map(|k| J::s(hex(k))).collect()),
            ),
            ("steps", J::A(self.steps.iter().map(step_json).collect())),
        ];
        if !self.fates.is_empty() {
            let v = self
                .fates
                .iter()
                .map(|f| J::A(vec![J::U(f.msg as u64), J::s(f.kind.name()), J::U(f.arg)]))
                .collect();
            o.push(("messages", J::A(v)));
        }
        if !self.sched.is_empty() {
            let v = self.sched.iter().map(|s| J::U(*s as u64)).collect();
            o.push(("schedule", J::A(v)));
        }
        if !self.parts.is_empty() {
            o.push(("parts", J::A(self.parts.iter().map(|p| p.json()).collect())));
        }
        J::obj(o)
    }

    pub fn from_json(j: &J) -> Result<Plan, String> {
        let mut p = Plan {
            property: j.get("property").ok_or("property")?.str().into(),
            scenario: j.get("scenario").ok_or("scenario")?.str().into(),
            variant: j.get("variant").map(|v| v.str()).unwrap_or("").into(),
            seed: j.get("seed").map(|v| v.u()).unwrap_or(0),
            ..Default::default()
        };
        if let Some(J::O(xs)) = j.get("cfg") {
            for (k, v) in xs {
                p.cfg.insert(k.clone(), v.u());
            }
        }
        for k in j.get("keys").map(|k| k.arr()).unwrap_or(&[]) {
            let s = k.str();
            let mut h = [0u8; 32];
            for (i, b) in h.iter_mut().enumerate() {
                *b = s
                    .get(2 * i..2 * i + 2)
                    .and_then(|t| u8::from_str_radix(t, 16).ok())
                    .ok_or("bad key")?;
            }
            p.keys.push(h);
        }
        for s in j.get("steps").ok_or("steps")?.arr() {
            let mut st = Step {
                op: s.get("op").ok_or("op")?.str().into(),
                actor: s.get("actor").map(|v| v.u()).unwrap_or(0) as u32,
                a: s.get("a").map(|v| v.u()).unwrap_or(0),
                b: s.get("b").map(|v| v.u()).unwrap_or(0),
                calm: s.get("calm") == Some(&J::Bool(true)),
                faults: vec![],
            };
            for f in s.get("faults").map(|f| f.arr()).unwrap_or(&[]) {
                let f = f.arr();
                st.faults.push(Fault {
                    call: f[0].u() as u32,
                    kind: FK::parse(f[1].str()).ok_or("fault kind")?,
                    arg: f[2].u(),
                });
            }
            p.steps.push(st);
        }
        for f in j.get("messages").map(|f| f.arr()).unwrap_or(&[]) {
            let f = f.arr();
            p.fates.push(Fate {
                msg: f[0].u() as u32,
                kind: NKS
                    .iter()
                    .copied()
                    .find(|k| k.name() == f[1].str())
                    .ok_or("message fate")?,
                arg: f[2].u(),
            });
        }
        for s in j.get("schedule").map(|s| s.arr()).unwrap_or(&[]) {
            p.sched.push(s.u() as u32);
        }
        for q in j.get("parts").map(|s| s.arr()).unwrap_or(&[]) {
            p.parts.push(Plan::from_json(q)?);
        }
        Ok(p)
    }
}

fn step_json(s: &Step) -> J {
    let mut o = vec![("op", J::s(&s.op)), ("a", J::U(s.a)), ("b", J::U(s.b))];
    if s.actor != 0 {
        o.push(("actor", J::U(s.actor as u64)));
    }
    if s.calm {
        o.push(("calm", J::Bool(true)));
    }
    if !s.faults.is_empty() {
        let v = s
            .faults
            .iter()
            .map(|f| J::A(vec![J::U(f.call as u64), J::s(f.kind.name()), J::U(f.arg)]))
            .collect();
        o.push(("faults", J::A(v)));
    }
    J::obj(o)
}
