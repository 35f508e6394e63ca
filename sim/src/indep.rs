//! Several trees of all kinds, each on storage of its own, used together: by
//! threads that are switched at storage calls, or by one thread that goes from
//! one to the other between calls. Each is judged as if it were alone. Sum trees
//! may also share one storage: theirs is addressed by content. For C26 each
//! history is also executed once more, alone, and must be the same execution.

use crate::baton::Baton;
use crate::common::*;
use crate::disk::{guard, nest, Out, Rates, GATE, MAPLOG};
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::{bin_eng, sp_eng, sum_eng};
use std::cell::{Cell, RefCell};
use std::sync::Arc;

fn open<'a>(
    p: &Plan,
    shared: Option<sum_eng::Opener>,
    online: Option<(Rates, Rng)>,
    st: &'a mut Stats,
) -> Box<dyn Part + 'a> {
    if let Some(o) = shared {
        return o(p, online, st);
    }
    match p.scenario.as_str() {
        "bin" => bin_eng::part(p, online, st),
        "sp" => sp_eng::part(p, online, st),
        "sum" => sum_eng::part(p, online, st),
        s => panic!("unknown part {}", s),
    }
}

fn contained<T>(step: usize, f: impl FnOnce() -> Res<T>) -> Res<T> {
    match guard(f) {
        Out::Ret(r) => r,
        Out::Panic(p) => bad(step, "outside-panic", p),
        _ => bad(step, "outside-panic", "unexpected unwinding"),
    }
}

pub fn run(plan: &mut Plan, online: Option<(Rates, Rng)>, st: &mut Stats) -> Res<u64> {
    let n = plan.parts.len();
    if n == 0 {
        return Ok(0);
    }
    let mut seeds: Vec<Option<(Rates, Rng)>> = (0..n)
        .map(|i| {
            online.as_ref().map(|(_, rng)| {
                let mut g = rng.clone();
                let r = plan.part_rates.get(i).cloned().unwrap_or_default();
                (r, Rng::new(g.next() ^ mix(i as u64, 6)))
            })
        })
        .collect();
    let mut shared: Vec<Option<sum_eng::Opener>> = if plan.get("shared") == 1 {
        if plan.parts.iter().any(|p| p.scenario != "sum") {
            return Ok(0);
        }
        sum_eng::openers(n, 0, plan.get("real") == 1).into_iter().map(Some).collect()
    } else {
        (0..n).map(|_| None).collect()
    };
    let map_log = MAPLOG.with(|m| m.borrow().clone());
    let verbose = st.verbose;
    let new_stats = || Stats {
        verbose,
        ..Default::default()
    };
    let mut tr = 0;
    let mut together: Vec<u64> = vec![];
    let mut worst: Option<(usize, Violation)> = None;
    let (plan_seed, nesting) = (plan.seed, plan.get("nest"));
    let mut nested_steps = 0;
    if plan.get("threads") == 1 {
        let replay = if online.is_some() {
            None
        } else {
            Some(plan.sched.clone())
        };
        let baton = Arc::new(Baton::new(
            n,
            mix(plan.seed, 97),
            plan.get("switch") as u32,
            replay,
        ));
        let mut ends = vec![];
        std::thread::scope(|sc| {
            let mut js = vec![];
            for (me, ((p, o), sh)) in
                plan.parts.iter_mut().zip(seeds.drain(..)).zip(shared.drain(..)).enumerate()
            {
                let baton = baton.clone();
                let map_log = map_log.clone();
                let mut mine = new_stats();
                js.push(sc.spawn(move || {
                    baton.enter(me);
                    GATE.with(|g| *g.borrow_mut() = Some((baton.clone(), me)));
                    MAPLOG.with(|m| *m.borrow_mut() = map_log);
                    let last = p.steps.len();
                    let r = contained(last, || {
                        let t = open(p, sh, o, &mut mine);
                        run_part(t, p)
                    });
                    GATE.with(|g| *g.borrow_mut() = None);
                    baton.leave(me);
                    (r, mine)
                }));
            }
            for j in js {
                ends.push(j.join().expect("actor"));
            }
        });
        let (rec, switches) = baton.result();
        for r in &rec {
            tr = mix(tr, *r as u64);
        }
        st.schedules.insert(tr);
        st.add("context_switches", switches);
        for (i, (r, mine)) in ends.into_iter().enumerate() {
            st.merge(mine);
            match r {
                Ok(t) => {
                    together.push(t);
                    tr = mix(tr, t)
                }
                Err(v) => {
                    if worst.is_none() {
                        worst = Some((i, v));
                    }
                }
            }
        }
        if online.is_some() {
            plan.sched = rec;
        }
    } else {
        let mut stats: Vec<Stats> = (0..n).map(|_| new_stats()).collect();
        let order: Vec<usize> = plan.sched.iter().map(|x| *x as usize % n).collect();
        {
            let mut trees: Vec<Box<dyn Part + '_>> = vec![];
            for (((p, o), s), sh) in
                plan.parts.iter().zip(seeds.drain(..)).zip(&mut stats).zip(shared.drain(..))
            {
                trees.push(open(p, sh, o, s));
            }
            let trees: Vec<RefCell<Box<dyn Part + '_>>> = trees.into_iter().map(RefCell::new).collect();
            let parts: Vec<RefCell<&mut Plan>> = plan.parts.iter_mut().map(RefCell::new).collect();
            let at = RefCell::new(vec![0usize; n]);
            let failed: RefCell<Option<(usize, Violation)>> = RefCell::new(None);
            let mut last = usize::MAX;
            let mut switches = 0;
            // Does the next step of a tree, unless it is in one already.
            let step = |k: usize| -> bool {
                let (mut p, mut t) = match (parts[k].try_borrow_mut(), trees[k].try_borrow_mut()) {
                    (Ok(p), Ok(t)) => (p, t),
                    _ => return false,
                };
                let i = at.borrow()[k];
                if i >= p.steps.len() {
                    return false;
                }
                at.borrow_mut()[k] += 1;
                if let Err(v) = contained(i, || t.step(&mut p, i)) {
                    let mut f = failed.borrow_mut();
                    if f.is_none() {
                        *f = Some((k, v));
                    }
                }
                true
            };
            // A storage that makes use of other trees while it serves one.
            let (calls, nested) = (Cell::new(0u64), Cell::new(0u64));
            let inner = || {
                let c = calls.get();
                calls.set(c + 1);
                let x = mix(plan_seed, c ^ 0x6e65_7374);
                if nesting > 0 && x % 10_000 < nesting && step((x >> 32) as usize % n) {
                    nested.set(nested.get() + 1);
                }
            };
            nest(&inner, || {
                for k in order {
                    if last != usize::MAX && k != last {
                        switches += 1;
                    }
                    last = k;
                    step(k);
                    if failed.borrow().is_some() {
                        break;
                    }
                }
                // What the order does not name happens at the end, in turns.
                while failed.borrow().is_none() && (0..n).any(|k| at.borrow()[k] < parts[k].borrow().steps.len()) {
                    for k in 0..n {
                        if failed.borrow().is_none() {
                            step(k);
                        }
                    }
                }
            });
            worst = failed.into_inner();
            let mut trees: Vec<Box<dyn Part + '_>> = trees.into_iter().map(|t| t.into_inner()).collect();
            drop(parts);
            if nested.get() > 0 {
                nested_steps = nested.get();
            }
            for (k, t) in trees.iter_mut().enumerate() {
                if worst.is_some() {
                    break;
                }
                let p = &plan.parts[k];
                match contained(p.steps.len(), || t.finish(p)) {
                    Ok(t) => {
                        together.push(t);
                        tr = mix(tr, t)
                    }
                    Err(v) => worst = Some((k, v)),
                }
            }
            st.add("context_switches", switches);
            st.add("steps_within_a_storage_call", nested_steps);
        }
        for s in stats {
            st.merge(s);
        }
    }
    if plan.property == "C26" && worst.is_none() {
        for (k, p) in plan.parts.iter_mut().enumerate() {
            let last = p.steps.len();
            let mut mine = new_stats();
            let r = contained(last, || {
                let t = open(p, None, None, &mut mine);
                run_part(t, p)
            });
            match r {
                Ok(t) if t == together[k] => st.hit("alone_as_together"),
                Ok(_) => {
                    let m = "the same history is another execution when the tree is alone".to_string();
                    worst = Some((k, bad::<()>(last, "influenced", m).unwrap_err()));
                }
                Err(mut v) => {
                    v.msg = format!("alone, but not among others: {}", v.msg);
                    worst = Some((k, v));
                }
            }
            if worst.is_some() {
                break;
            }
        }
    }
    for p in &plan.parts {
        st.hit(match p.scenario.as_str() {
            "bin" => "part_binary",
            "sp" => "part_sparse",
            _ => "part_sum",
        });
    }
    match worst {
        None => Ok(tr),
        Some((i, mut v)) => {
            v.msg = format!("tree {} ({}): {}", i, plan.parts[i].scenario, v.msg);
            Err(v)
        }
    }
}
