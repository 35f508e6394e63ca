//! Deterministic simulation of fuel-merkle with fault injection.
//!
//!   sim batch PROP VARIANT SEED FROM COUNT SECONDS THREADS DIR   runs cases
//!   sim replay FILE [-v]                                         replays one
//!   sim shrink FILE OUT SECONDS                                  minimises one
//!   sim one PROP VARIANT SEED BATCHINDEX [-v]                    runs one case
//!   sim trace PROP SEED FROM COUNT THREADS                       execution hashes
//!
//! Exit codes: 0 held, 1 violation, 2 error of the simulator itself.

mod baton;
mod bin_eng;
mod common;
mod conc;
mod disk;
mod fetch;
mod gen;
mod helper;
mod indep;
mod json;
mod map_eng;
mod mem;
mod model;
mod net;
mod plan;
mod rng;
mod shrink;
mod sp_eng;
mod sum_eng;

use common::*;
use disk::{guard, install_panic_hook, Out, Rates};
use json::J;
use net::NetRates;
use plan::Plan;
use rng::{mix, Rng};
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn dispatch(plan: &mut Plan, online: Option<(Rates, NetRates, Rng)>, st: &mut Stats) -> Res<u64> {
    let (o, n) = match online {
        Some((r, n, g)) => (Some((r, g)), n),
        None => (None, NetRates::default()),
    };
    match plan.scenario.clone().as_str() {
        "bin" => bin_eng::run(plan, o, st),
        "sp" => sp_eng::run(plan, o, st),
        "sum" => sum_eng::run(plan, o, st),
        "indep" => indep::run(plan, o, st),
        "map" => map_eng::run(plan, st),
        "conc_bin" => conc::run_bin(plan, o, st),
        "shared_bin" => conc::run_shared(plan, o, st),
        "conc_sp" => conc::run_sp(plan, o, st),
        "net_sp" => net::run_sp(plan, o, n, st),
        "net_bin" => net::run_bin(plan, o, n, st),
        "fetch_bin" => fetch::run::<fetch::Bin>(plan, o, n, st),
        "fetch_sp" => fetch::run::<fetch::Sp>(plan, o, n, st),
        s => panic!("unknown scenario {}", s),
    }
}

/// Runs a plan; a panic outside the simulated calls is a violation if it comes
/// from the library, and an error of the simulator otherwise.
fn execute(plan: &mut Plan, online: Option<(Rates, NetRates, Rng)>, st: &mut Stats) -> Res<u64> {
    let last = plan.steps.len();
    // C23: the library's map is checked at every call the disk makes on it.
    let log: Option<disk::MapLog> = if plan.property == "C23" {
        Some(Default::default())
    } else {
        None
    };
    disk::MAPLOG.with(|m| *m.borrow_mut() = log.clone());
    let r = match guard(|| dispatch(plan, online, st)) {
        Out::Ret(r) => r,
        Out::Panic(p) => bad(last, "outside-panic", p),
        _ => bad(last, "outside-panic", "unexpected unwinding"),
    };
    disk::MAPLOG.with(|m| *m.borrow_mut() = None);
    match log.and_then(|l| l.lock().ok().and_then(|l| l.clone())) {
        Some(w) => bad(r.err().map(|v| v.step).unwrap_or(last), "map", w),
        None => r,
    }
}

fn harness_error(v: &Violation) -> bool {
    v.class == "outside-panic" && !v.msg.contains("panicked at /repo")
}

fn offline(plan: &Plan) -> Res<u64> {
    let mut p = plan.clone();
    execute(&mut p, None, &mut Stats::default())
}

fn seed_of(prop: &str, seed: u64, index: u64) -> u64 {
    let mut h = mix(seed, 0x5eed);
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, index)
}

fn nontrivial(s: &Stats) -> bool {
    s.get("storage_calls") >= 4
        && s.n.iter().any(|(k, v)| {
            *v > 0
                && (k.starts_with("fault_")
                    || k.starts_with("message_")
                    || ["crash", "reload", "partition", "context_switches", "snapshot_opened"].contains(k))
        })
}

fn violation_json(p: &Plan, v: &Violation) -> J {
    let mut j = p.json();
    if let J::O(xs) = &mut j {
        xs.insert(
            0,
            (
                "violation".into(),
                J::obj(vec![
                    ("class", J::s(&v.class)),
                    ("message", J::s(&v.msg)),
                    ("step", J::U(v.step as u64)),
                ]),
            ),
        );
    }
    j
}

/// What an execution came to, as one number.
fn digest(r: &Res<u64>) -> u64 {
    match r {
        Ok(t) => mix(*t, 1),
        Err(v) => v.msg.bytes().chain(v.class.bytes()).fold(v.step as u64, |h, b| mix(h, b as u64)),
    }
    .max(1)
}

fn differ(a: &Res<u64>, b: &Res<u64>) -> String {
    let f = |r: &Res<u64>| match r {
        Ok(t) => format!("execution {:016x}", t),
        Err(v) => format!("{} ({})", v.class, v.msg),
    };
    format!("the same history gives {} and then {}", f(a), f(b))
}

/// Writes the recorded plan of a generated case.
fn record(prop: &str, variant: &str, seed: u64, index: u64, out: &str) -> i32 {
    let c = gen::case(prop, variant, seed_of(prop, seed, index));
    let mut p = c.plan;
    let r = execute(&mut p, Some((c.rates, c.net, c.rng)), &mut Stats::default());
    std::fs::write(out, p.json().pretty()).expect("write");
    report(r, &p)
}

/// Runs cases one after another in this process, up to the first violation.
fn chain(prop: &str, variant: &str, seed: u64, from: u64, to: u64) -> i32 {
    for i in from..to {
        let c = gen::case(prop, variant, seed_of(prop, seed, i));
        let mut p = c.plan;
        let r = execute(&mut p, Some((c.rates, c.net, c.rng)), &mut Stats::default());
        if let Err(v) = &r {
            if harness_error(v) {
                continue;
            }
            println!("after {} runs in the same process, case {}:", i - from, i);
            return report(r, &p);
        }
    }
    println!("held: property={} cases {} to {}", prop, from, to);
    0
}

struct Found {
    index: u64,
    plan: Plan,
    v: Violation,
}

/// The processor time, in seconds, that a thread has used.
fn cpu_of(file: Option<&String>) -> f64 {
    file.and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|s| s.split(' ').next().and_then(|x| x.parse::<f64>().ok()))
        .map_or(0.0, |ns| ns / 1e9)
}

#[allow(clippy::too_many_arguments)]
fn batch(
    prop: &str,
    variant: &str,
    seed: u64,
    from: u64,
    count: u64,
    secs: u64,
    threads: usize,
    dir: &str,
) -> i32 {
    let t0 = Instant::now();
    let next = AtomicU64::new(from);
    let best = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let samples: Mutex<Vec<(u64, J)>> = Mutex::new(vec![]);
    // C27 compares executions between builds: one number per case.
    let across = prop == "C27";
    let digests: Vec<AtomicU64> = (0..if across { count } else { 0 }).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let task: Vec<std::sync::OnceLock<String>> = (0..threads).map(|_| Default::default()).collect();
    let progress = std::fs::File::create(format!("{}/progress", dir)).expect("progress file");
    std::thread::scope(|sc| {
        let mut js = vec![];
        for t in 0..threads {
            let (next, best, found, total, samples, beat, progress, errors, digests, task) =
                (&next, &best, &found, &total, &samples, &beat, &progress, &errors, &digests, &task);
            js.push(sc.spawn(move || {
                if let Ok(p) = std::fs::read_link("/proc/thread-self") {
                    task[t].set(format!("/proc/{}/schedstat", p.display())).ok();
                }
                let mut mine = Stats::default();
                loop {
                    if secs > 0 && t0.elapsed() > Duration::from_secs(secs) {
                        mine.hit("stopped_by_time");
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= from + count || i > best.load(Ordering::SeqCst) {
                        break;
                    }
                    beat[t].fetch_add(1, Ordering::SeqCst);
                    progress.write_at(&(i + 1).to_le_bytes(), 8 * t as u64).ok();
                    let s = seed_of(prop, seed, i);
                    let c = gen::case(prop, variant, s);
                    let mut plan = c.plan;
                    let mut st = Stats::default();
                    let r = execute(&mut plan, Some((c.rates, c.net, c.rng)), &mut st);
                    st.runs = 1;
                    let r = if across && !matches!(&r, Err(v) if harness_error(v)) {
                        let again = offline(&plan);
                        digests[(i - from) as usize].store(digest(&r), Ordering::SeqCst);
                        if digest(&again) == digest(&r) {
                            st.hit("repeated_alike");
                            Ok(digest(&r))
                        } else {
                            bad(0, "repeat", differ(&r, &again))
                        }
                    } else {
                        r
                    };
                    match r {
                        Ok(tr) => {
                            st.traces.insert(tr);
                            if nontrivial(&st) {
                                st.nontrivial.insert(tr);
                            }
                            // Every so often the recorded plan is replayed: it
                            // must give the same execution.
                            if i % 41 == 0 && !across {
                                st.hit("replayed_for_determinism");
                                if offline(&plan).ok() != Some(tr) {
                                    st.hit("replay_differed");
                                }
                            }
                            if i % (count / 3).max(1) == 0 {
                                let mut j = plan.json();
                                if let J::O(xs) = &mut j {
                                    xs.push((
                                        "outcome".into(),
                                        J::s(format!("held; execution {:016x}", tr)),
                                    ));
                                }
                                samples.lock().unwrap().push((i, j));
                            }
                        }
                        Err(v) if harness_error(&v) => {
                            errors
                                .lock()
                                .unwrap()
                                .push(format!("case {} seed {}: {}", i, s, v.msg));
                            best.fetch_min(i, Ordering::SeqCst);
                        }
                        Err(v) => {
                            best.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push(Found { index: i, plan, v });
                        }
                    }
                    mine.merge(st);
                }
                progress.write_at(&0u64.to_le_bytes(), 8 * t as u64).ok();
                beat[t].store(u64::MAX, Ordering::SeqCst);
                total.lock().unwrap().merge(mine);
            }));
        }
        // The watchdog: a run that uses much processor time and does not end,
        // or that does nothing for a long time. Neither is measured by a
        // clock, which runs on while the machine is stopped or busy.
        let (beat, done, task) = (&beat, &done, &task);
        let w = sc.spawn(move || {
            let mut seen: Vec<(u64, u64, f64)> = vec![(0, 0, 0.0); threads];
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for t in 0..threads {
                    let b = beat[t].load(Ordering::SeqCst);
                    if b == u64::MAX || b == 0 {
                        continue;
                    }
                    if b != seen[t].0 {
                        seen[t] = (b, 0, 0.0);
                    }
                    seen[t].1 += 1;
                    if seen[t].1 % 20 != 0 {
                        continue;
                    }
                    let used = cpu_of(task[t].get());
                    if seen[t].1 == 20 {
                        seen[t].2 = used;
                    }
                    if used - seen[t].2 > 30.0 || seen[t].1 > 20 * 120 {
                        eprintln!("sim: a run does not end");
                        std::process::exit(3);
                    }
                }
            }
        });
        for j in js {
            if j.join().is_err() {
                eprintln!("sim: a worker died");
                std::process::exit(2);
            }
        }
        done.store(true, Ordering::SeqCst);
        w.join().ok();
    });
    if across {
        let mut v = vec![];
        for d in &digests {
            v.extend_from_slice(&d.load(Ordering::SeqCst).to_le_bytes());
        }
        std::fs::write(format!("{}/digest.{}", dir, variant), v).expect("write");
    }
    let st = total.into_inner().unwrap();
    let mut samples = samples.into_inner().unwrap();
    samples.sort_by_key(|s| s.0);
    samples.truncate(3);
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.index);
    let errors = errors.into_inner().unwrap();
    for (name, set) in [
        ("nontrivial", &st.nontrivial),
        ("traces", &st.traces),
        ("states", &st.states),
        ("schedules", &st.schedules),
    ] {
        dump(&format!("{}/{}.{}", dir, name, variant), set);
    }
    let mut o = vec![
        ("variant", J::s(variant)),
        ("runs", J::U(st.runs)),
        ("wall_ms", J::U(t0.elapsed().as_millis() as u64)),
        (
            "counters",
            J::O(st.n.iter().map(|(k, v)| (k.to_string(), J::U(*v))).collect()),
        ),
        (
            "maxima",
            J::O(st.max.iter().map(|(k, v)| (k.to_string(), J::U(*v))).collect()),
        ),
        ("samples", J::A(samples.into_iter().map(|s| s.1).collect())),
        ("errors", J::A(errors.iter().map(J::s).collect())),
    ];
    if let Some(f) = found.first() {
        let file = format!("{}/found.{}.json", dir, variant);
        std::fs::write(&file, violation_json(&f.plan, &f.v).pretty()).expect("write");
        o.push(("found", J::s(file)));
        o.push(("found_index", J::U(f.index)));
    }
    std::fs::write(
        format!("{}/result.{}.json", dir, variant),
        J::obj(o).pretty(),
    )
    .expect("write");
    if !errors.is_empty() {
        eprintln!("sim: {}", errors[0]);
    }
    if !found.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}

fn dump(file: &str, set: &HashSet<u64>) {
    let mut v = Vec::with_capacity(set.len() * 8);
    for x in set {
        v.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(file, v).expect("write");
}

fn read_plan(file: &str) -> (Plan, J) {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("sim: {}: {}", file, e);
            std::process::exit(2)
        }
    };
    let j = match J::parse(&text) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("sim: {}: {:?}", file, e);
            std::process::exit(2)
        }
    };
    // A file that names only the seed stands for the generated case.
    if j.get("steps").is_none() {
        let p = Plan {
            property: j.get("property").map(|x| x.str().to_string()).unwrap_or_default(),
            variant: j.get("variant").map(|x| x.str().to_string()).unwrap_or_default(),
            seed: j.get("seed").map(|x| x.u()).unwrap_or(0),
            ..Default::default()
        };
        return (p, j);
    }
    match Plan::from_json(&j) {
        Ok(p) => (p, j),
        Err(e) => {
            eprintln!("sim: {}: {}", file, e);
            std::process::exit(2)
        }
    }
}

fn report(r: Res<u64>, plan: &Plan) -> i32 {
    match r {
        Ok(t) => {
            println!("held: property={} execution={:016x}", plan.property, t);
            0
        }
        Err(v) => {
            println!(
                "violation: property={} class={} step={}: {}",
                plan.property, v.class, v.step, v.msg
            );
            if harness_error(&v) {
                2
            } else {
                1
            }
        }
    }
}

fn replay(file: &str, verbose: bool) -> i32 {
    let (mut p, j) = read_plan(file);
    let mut st = Stats { verbose, ..Default::default() };
    if let Some(c) = j.get("chain") {
        let n = |k| c.get(k).map(|x| x.u()).unwrap_or(0);
        return chain(&p.property, &p.variant, n("seed"), n("from"), n("to"));
    }
    let twice = p.property == "C27";
    let r = if p.steps.is_empty() && p.scenario.is_empty() {
        let c = gen::case(&p.property.clone(), &p.variant.clone(), p.seed);
        p = c.plan;
        execute(&mut p, Some((c.rates, c.net, c.rng)), &mut st)
    } else {
        execute(&mut p, None, &mut st)
    };
    if twice {
        let again = offline(&p);
        if digest(&again) != digest(&r) {
            return report(bad(0, "repeat", differ(&r, &again)), &p);
        }
    }
    report(r, &p)
}

fn do_shrink(file: &str, out: &str, secs: u64) -> i32 {
    let (p, _) = read_plan(file);
    let twice = p.property == "C27";
    let offline = |p: &Plan| {
        let r = offline(p);
        if twice {
            let again = offline(p);
            if digest(&again) != digest(&r) {
                return bad(0, "repeat", differ(&r, &again));
            }
            return Ok(digest(&r));
        }
        r
    };
    let v = match offline(&p) {
        Err(v) => v,
        Ok(_) => {
            eprintln!("sim: the recorded plan does not fail");
            return 0;
        }
    };
    let n = p.steps.len();
    let (q, v, tries) = shrink::shrink(p, v, Duration::from_secs(secs), &|p| offline(p).err());
    let mut j = violation_json(&q, &v);
    if let J::O(xs) = &mut j {
        xs.insert(
            1,
            (
                "minimised".into(),
                J::s(format!("from {} to {} steps in {} runs", n, q.steps.len(), tries)),
            ),
        );
    }
    std::fs::write(out, j.pretty()).expect("write");
    1
}

fn traces(prop: &str, seed: u64, from: u64, count: u64, threads: usize) -> i32 {
    let next = AtomicU64::new(from);
    let out: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= from + count {
                    break;
                }
                let c = gen::case(prop, "", seed_of(prop, seed, i));
                let mut plan = c.plan;
                let r = execute(&mut plan, Some((c.rates, c.net, c.rng)), &mut Stats::default());
                let again = offline(&plan);
                let mut h = 0;
                for b in plan.json().pretty().bytes() {
                    h = mix(h, b as u64);
                }
                let line = format!(
                    "{} {:016x} {:?} {:?}",
                    i,
                    h,
                    r.map_err(|v| v.msg),
                    again.map_err(|v| v.msg)
                );
                out.lock().unwrap().push((i, line));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    for (_, l) in v {
        println!("{}", l);
    }
    0
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| -> u64 {
        s(i).parse().unwrap_or_else(|_| {
            eprintln!("sim: argument {} must be a number", i);
            std::process::exit(2)
        })
    };
    let verbose = a.iter().any(|x| x == "-v");
    let code = match s(1) {
        "batch" => batch(s(2), s(3), n(4), n(5), n(6), n(7), n(8) as usize, s(9)),
        "record" => record(s(2), s(3), n(4), n(5), s(6)),
        "chain" => chain(s(2), s(3), n(4), n(5), n(6)),
        "replay" => replay(s(2), verbose),
        "shrink" => do_shrink(s(2), s(3), n(4)),
        "one" => {
            let c = gen::case(s(2), s(3), seed_of(s(2), n(4), n(5)));
            let mut p = c.plan;
            let mut st = Stats { verbose, ..Default::default() };
            if verbose {
                eprintln!("{}", p.json().pretty());
            }
            let r = execute(&mut p, Some((c.rates, c.net, c.rng)), &mut st);
            report(r, &p)
        }
        "trace" => traces(s(2), n(3), n(4), n(5), n(6) as usize),
        "seed" => {
            println!("{}", seed_of(s(2), n(3), n(4)));
            0
        }
        "props" => {
            println!("{}", gen::PROPS.join(" "));
            0
        }
        _ => {
            eprintln!("usage: sim batch|replay|shrink|one|trace ...");
            2
        }
    };
    std::process::exit(code);
}
