//! Minimises a failing plan: fewer steps, faults, messages, switches, smaller
//! arguments, as long as the run fails in the same way.

use crate::common::Violation;
use crate::plan::*;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    pub test: &'a dyn Fn(&Plan) -> Option<Violation>,
    pub class: String,
    pub until: Instant,
    pub tries: u64,
    pub best: Plan,
    pub viol: Violation,
}

impl Shrinker<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.until
    }

    fn attempt(&mut self, p: Plan) -> bool {
        if self.over() {
            return false;
        }
        self.tries += 1;
        match (self.test)(&p) {
            Some(v) if v.class == self.class => {
                self.best = p;
                self.viol = v;
                true
            }
            _ => false,
        }
    }

    /// Removes chunks of a list.
    fn ddmin(&mut self, len: fn(&Plan) -> usize, cut: fn(&mut Plan, usize, usize)) -> bool {
        let mut any = false;
        let mut chunk = len(&self.best).max(1);
        while chunk >= 1 && !self.over() {
            let mut i = 0;
            while i < len(&self.best) && !self.over() {
                let mut p = self.best.clone();
                let j = (i + chunk).min(len(&self.best));
                cut(&mut p, i, j);
                if self.attempt(p) {
                    any = true;
                } else {
                    i = j;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        any
    }

    pub fn run(&mut self) {
        let mut round = 0;
        loop {
            let before = self.best.json().pretty();
            let k = self.viol.step;
            if k + 1 < self.best.steps.len() {
                let mut p = self.best.clone();
                p.steps.truncate(k + 1);
                self.attempt(p);
            }
            self.ddmin(
                |p| p.steps.len(),
                |p, a, b| {
                    p.steps.drain(a..b);
                },
            );
            // Trees of their own
            self.ddmin(
                |p| p.parts.len(),
                |p, a, b| {
                    p.parts.drain(a..b);
                },
            );
            self.ddmin(
                |p| p.parts.iter().map(|q| q.steps.len()).sum(),
                |p, a, b| {
                    let mut n = 0;
                    for q in &mut p.parts {
                        q.steps.retain(|_| {
                            n += 1;
                            n <= a || n > b
                        });
                    }
                },
            );
            self.ddmin(
                |p| p.parts.iter().flat_map(|q| &q.steps).map(|s| s.faults.len()).sum(),
                |p, a, b| {
                    let mut n = 0;
                    for s in p.parts.iter_mut().flat_map(|q| &mut q.steps) {
                        s.faults.retain(|_| {
                            n += 1;
                            n <= a || n > b
                        });
                    }
                },
            );
            // Faults
            self.ddmin(
                |p| p.steps.iter().map(|s| s.faults.len()).sum(),
                |p, a, b| {
                    let mut n = 0;
                    for s in &mut p.steps {
                        s.faults.retain(|_| {
                            n += 1;
                            n <= a || n > b
                        });
                    }
                },
            );
            self.ddmin(
                |p| p.fates.len(),
                |p, a, b| {
                    p.fates.drain(a..b);
                },
            );
            self.ddmin(
                |p| p.sched.len(),
                |p, a, b| {
                    p.sched.drain(a..b);
                },
            );
            for (k, v) in [
                ("base", 0),
                ("mem", 0),
                ("real", 0),
                ("drain", 0),
                ("mode", 0),
                ("sync", 1),
                ("abort", 0),
                ("initial", 0),
                ("audit", 1),
            ] {
                if self.best.get(k) != v && self.best.cfg.contains_key(k) {
                    let mut p = self.best.clone();
                    p.set(k, v);
                    self.attempt(p);
                }
            }
            let n = self.best.get("actors");
            if n > 2 {
                let mut p = self.best.clone();
                p.set("actors", n - 1);
                self.attempt(p);
            }
            for i in 0..self.best.steps.len() {
                for f in 0..2 {
                    let get = |p: &Plan| if f == 0 { p.steps[i].a } else { p.steps[i].b };
                    let set = |p: &mut Plan, v: u64| {
                        if f == 0 {
                            p.steps[i].a = v
                        } else {
                            p.steps[i].b = v
                        }
                    };
                    for v in [0, 1, 2] {
                        if get(&self.best) > v {
                            let mut p = self.best.clone();
                            set(&mut p, v);
                            if self.attempt(p) {
                                break;
                            }
                        }
                    }
                    let mut by = get(&self.best) / 2;
                    while by > 0 && get(&self.best) > 2 && !self.over() {
                        let mut p = self.best.clone();
                        let v = get(&p) - by.min(get(&p));
                        set(&mut p, v);
                        if !self.attempt(p) {
                            by /= 2;
                        }
                    }
                }
                let nf = self.best.steps[i].faults.len();
                for j in 0..nf {
                    let f = self.best.steps[i].faults[j];
                    for kind in [FK::Err, FK::Crash] {
                        if f.kind != kind {
                            let mut p = self.best.clone();
                            p.steps[i].faults[j] = Fault { kind, arg: 0, ..f };
                            if self.attempt(p) {
                                break;
                            }
                        }
                    }
                    if self.best.steps[i].faults[j].arg != 0 {
                        let mut p = self.best.clone();
                        p.steps[i].faults[j].arg = 0;
                        self.attempt(p);
                    }
                }
            }
            self.keys();
            round += 1;
            if self.over() || round > 6 || self.best.json().pretty() == before {
                break;
            }
        }
    }

    /// Drops keys, and clears their bytes.
    fn keys(&mut self) {
        let mut i = 0;
        while i < self.best.keys.len() && self.best.keys.len() > 1 && !self.over() {
            let mut p = self.best.clone();
            p.keys.remove(i);
            for s in &mut p.steps {
                if ["update", "delete", "empty", "deletetwice", "put"].contains(&s.op.as_str())
                    && s.a > i as u64
                {
                    s.a -= 1;
                }
            }
            if !self.attempt(p) {
                i += 1;
            }
        }
        for i in 0..self.best.keys.len() {
            for b in (0..32).rev() {
                if self.best.keys[i][b] != 0 {
                    let mut p = self.best.clone();
                    p.keys[i][b] = 0;
                    self.attempt(p);
                }
            }
        }
    }
}

pub fn shrink(
    plan: Plan,
    viol: Violation,
    budget: Duration,
    test: &dyn Fn(&Plan) -> Option<Violation>,
) -> (Plan, Violation, u64) {
    let mut s = Shrinker {
        test,
        class: viol.class.clone(),
        until: Instant::now() + budget,
        tries: 0,
        best: plan,
        viol,
    };
    s.run();
    (s.best, s.viol, s.tries)
}
