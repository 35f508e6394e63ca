//! Concurrent scenarios: several trees on one shared storage, used by actors
//! whose storage calls interleave as the scheduler decides.

use crate::baton::Baton;
use crate::bin_eng::{self, BinT, BinTree};
use crate::common::*;
use crate::disk::*;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::sp_eng::{self, Applied, SpTree};
use std::sync::{Arc, Mutex};

struct ActorEnd {
    res: Res,
    faults: Vec<(usize, Vec<Fault>)>,
    stats: Stats,
    trace: u64,
    calls: u64,
}

fn fresh(verbose: bool) -> ActorEnd {
    ActorEnd {
        res: Ok(()),
        faults: vec![],
        stats: Stats { verbose, ..Default::default() },
        trace: 0,
        calls: 0,
    }
}

fn actor_steps(plan: &Plan, me: usize) -> Vec<(usize, Step)> {
    plan.steps
        .iter()
        .enumerate()
        .filter(|(_, s)| s.actor as usize == me)
        .map(|(i, s)| (i, s.clone()))
        .collect()
}

fn handles<T: Table>(
    disk: &Disk<T>,
    n: usize,
    baton: &Arc<Baton>,
    online: &Option<(Rates, Rng)>,
) -> Vec<Disk<T>> {
    (0..n)
        .map(|i| {
            let o = online.as_ref().map(|(r, rng)| {
                let mut r = r.clone();
                if i > 0 {
                    // Only the writer is ever killed.
                    r.crash = 0;
                }
                let mut g = rng.clone();
                (r, Rng::new(g.next() ^ mix(i as u64, 5)))
            });
            disk.handle(o, Some((baton.clone(), i)))
        })
        .collect()
}

/// A panic outside an API call must not leave the other actors waiting.
fn contain(step: usize, f: impl FnOnce() -> Res) -> Res {
    match guard(f) {
        Out::Ret(r) => r,
        Out::Panic(p) => bad(step, "outside-panic", p),
        _ => bad(step, "outside-panic", "unexpected unwinding"),
    }
}

fn finish(
    plan: &mut Plan,
    is_online: bool,
    st: &mut Stats,
    baton: &Baton,
    ends: Vec<ActorEnd>,
) -> Res<u64> {
    let (rec, switches) = baton.result();
    wind_up(plan, is_online, st, rec, switches, ends)
}

fn wind_up(
    plan: &mut Plan,
    is_online: bool,
    st: &mut Stats,
    rec: Vec<u32>,
    switches: u64,
    ends: Vec<ActorEnd>,
) -> Res<u64> {
    let mut tr = 0;
    for r in &rec {
        tr = mix(tr, *r as u64);
    }
    st.schedules.insert(tr);
    st.add("context_switches", switches);
    let mut worst: Option<Violation> = None;
    for e in ends {
        tr = mix(tr, e.trace);
        st.add("storage_calls", e.calls);
        st.merge(e.stats);
        if is_online {
            for (i, f) in e.faults {
                plan.steps[i].faults = f;
            }
        }
        if let Err(v) = e.res {
            if worst.as_ref().map(|w| v.step < w.step).unwrap_or(true) {
                worst = Some(v);
            }
        }
    }
    if is_online {
        plan.sched = rec;
    }
    match worst {
        Some(v) => Err(v),
        None => Ok(tr),
    }
}

// ---------------------------------------------------------------------------
// Binary: one writer appends, readers use snapshots at earlier counts.

struct BinShared {
    model: Mth<H>,
}

fn writer(
    disk: &crate::bin_eng::BinDisk,
    sh: &Arc<Mutex<BinShared>>,
    s: &Step,
    step: usize,
    tree: &mut Option<BinTree>,
    m: Masks,
    st: &mut Stats,
) -> Res {
    let n = sh.lock().unwrap().model.count();
    if tree.is_none() {
        match bin_eng_load(disk, sh, n, step, m, st)? {
            Some(t) => *tree = Some(t),
            None => return Ok(()),
        }
    }
    let times = if s.op == "pushn" { s.a } else { 1 };
    for i in 0..times {
        let n = sh.lock().unwrap().model.count();
        let data = content(s.a ^ mix(s.b, i), s.b % 70);
        let t = tree.as_mut().unwrap();
        let (out, d) = disk.call(|| t.push(&data));
        st.hit("call_push");
        match out {
            Out::Panic(p) => return bad(step, "panic", format!("push {}", p)),
            Out::Limit => return bad(step, "no-progress", "push does not stop"),
            Out::Crash => {
                st.hit("crash");
                *tree = None;
                return Ok(());
            }
            Out::Ret(Err(e)) => {
                bin_eng::judge_err(&e, &d, disk, step, "push", st)?;
                break;
            }
            Out::Ret(Ok(())) => sh.lock().unwrap().model.push(leaf_hash(&data)),
        }
        let mut g = sh.lock().unwrap();
        let want = bin_eng::root_of(&mut g.model, n + 1);
        let r = bin_eng::check_root(disk, t, &want, n + 1, step)?;
        st.state(low(&r), n);
    }
    Ok(())
}

/// `check_load` without holding the shared model across the scheduling points.
fn bin_eng_load(
    disk: &crate::bin_eng::BinDisk,
    sh: &Arc<Mutex<BinShared>>,
    n: u64,
    step: usize,
    m: Masks,
    st: &mut Stats,
) -> Res<Option<BinTree>> {
    let mut view = view_of(sh, n);
    match bin_eng::check_load(disk, &mut view, n, step, m, st)? {
        Ok(t) => Ok(t),
        Err(_) => {
            st.hit("crash");
            Ok(None)
        }
    }
}

/// A model of the first n leaves.
fn view_of(sh: &Arc<Mutex<BinShared>>, n: u64) -> Mth<H> {
    let g = sh.lock().unwrap();
    let leaf = if g.model.base > 0 {
        Some(bin_eng::base_leaf())
    } else {
        None
    };
    let mut v = Mth::new(g.model.base, leaf, node_hash);
    v.leaves = g.model.leaves[..(n.max(g.model.base) - g.model.base) as usize].to_vec();
    v
}

fn reader(
    disk: &crate::bin_eng::BinDisk,
    sh: &Arc<Mutex<BinShared>>,
    s: &Step,
    step: usize,
    open: &mut Option<(BinTree, u64)>,
    m: Masks,
    st: &mut Stats,
) -> Res {
    let n = sh.lock().unwrap().model.count();
    match s.op.as_str() {
        "open" => {
            let c = match s.a {
                0 => n,
                1 => n.saturating_sub(1 + s.b % 3),
                _ => s.b % (n + 1),
            };
            *open = bin_eng_load(disk, sh, c, step, m, st)?.map(|t| (t, c));
            if open.is_some() {
                st.hit("snapshot_opened");
            }
        }
        _ => {
            if let Some((t, c)) = open.take() {
                let mut v = view_of(sh, c);
                let want = bin_eng::root_of(&mut v, c);
                bin_eng::check_root(disk, &t, &want, c, step)?;
                let idx = bin_eng::pick_index(c, s.a, s.b);
                let before = sh.lock().unwrap().model.count();
                bin_eng::check_prove(disk, &t, &mut v, c, idx, step, m, st)?;
                if sh.lock().unwrap().model.count() != before {
                    st.hit("leaf_pushed_during_proof");
                }
                if c < before {
                    st.hit("old_snapshot_used");
                }
                *open = Some((t, c));
            }
        }
    }
    Ok(())
}

pub fn run_bin(plan: &mut Plan, online: Option<(Rates, Rng)>, st: &mut Stats) -> Res<u64> {
    let is_online = online.is_some();
    let n = plan.get("actors") as usize;
    let disk = bin_eng::bin_disk(plan, None);
    let mut model = bin_eng::bin_model(plan);
    if model.base == 0 {
        let mut t = BinTree::new(disk.clone());
        for i in 0..plan.get("initial") {
            let d = content(i + 2, i % 9);
            let (out, _) = disk.call(|| t.push(&d));
            match out {
                Out::Ret(Ok(())) => (),
                Out::Panic(p) => return bad(0, "panic", p),
                _ => return bad(0, "spurious-error", "push fails without a fault"),
            }
            model.push(leaf_hash(&d));
        }
    }
    let sh = Arc::new(Mutex::new(BinShared { model }));
    let replay = if is_online {
        None
    } else {
        Some(plan.sched.clone())
    };
    let baton = Arc::new(Baton::new(
        n,
        mix(plan.seed, 99),
        plan.get("switch") as u32,
        replay,
    ));
    let m = Masks::of(plan);
    let hs = handles::<BinT>(&disk, n, &baton, &online);
    let verbose = st.verbose;
    let mut ends = vec![];
    std::thread::scope(|sc| {
        let mut js = vec![];
        for (me, h) in hs.into_iter().enumerate() {
            let steps = actor_steps(plan, me);
            let (sh, baton) = (sh.clone(), baton.clone());
            js.push(sc.spawn(move || {
                baton.enter(me);
                let mut e = fresh(verbose);
                let mut tree = None;
                let mut open = None;
                for (i, s) in steps {
                    h.begin(&s.faults, s.calm);
                    let r = contain(i, || {
                        if me == 0 {
                            writer(&h, &sh, &s, i, &mut tree, m, &mut e.stats)
                        } else {
                            reader(&h, &sh, &s, i, &mut open, m, &mut e.stats)
                        }
                    });
                    let rep = h.report();
                    bin_eng::note_faults(&mut e.stats, &rep);
                    vlog!(
                        e.stats,
                        "actor {} step {} {}: {} storage calls, faults {:?}",
                        me,
                        i,
                        s.op,
                        rep.calls,
                        rep.fired
                    );
                    e.faults.push((i, rep.fired));
                    if let Err(v) = r {
                        e.res = Err(v);
                        break;
                    }
                }
                e.trace = h.trace();
                e.calls = h.total_calls();
                baton.leave(me);
                e
            }));
        }
        for j in js {
            ends.push(j.join().expect("actor"));
        }
    });
    let r = finish(plan, is_online, st, &baton, ends)?;
    // Afterwards everything is there.
    let step = plan.steps.len();
    let n = sh.lock().unwrap().model.count();
    let t = match bin_eng_load(&disk, &sh, n, step, m, st)? {
        Some(t) => t,
        None => return bad(step, "spurious-error", "load fails without a fault"),
    };
    for i in 0..n.min(6) {
        let mut v = view_of(&sh, n);
        bin_eng::check_prove(&disk, &t, &mut v, n, mix(n, i) % n, step, m, st)?;
    }
    Ok(r)
}

// ---------------------------------------------------------------------------
// Binary: one tree object, read by several callers at once, written by one.

/// The tree is handed to threads of which one runs at a time; the scheduler's
/// lock orders them.
struct Handed(Option<BinTree>);
struct HandedRef<'a>(&'a Handed);
struct HandedMut<'a>(&'a mut Handed);
unsafe impl Send for HandedRef<'_> {}
unsafe impl Send for HandedMut<'_> {}

/// Ends a phase in the recorded schedule.
const PHASE: u32 = 1_000_000;

fn shared_read(
    disk: &crate::bin_eng::BinDisk,
    tree: &BinTree,
    sh: &Arc<Mutex<BinShared>>,
    s: &Step,
    step: usize,
    m: Masks,
    st: &mut Stats,
) -> Res {
    let n = sh.lock().unwrap().model.count();
    let mut v = view_of(sh, n);
    match s.op.as_str() {
        "root" => {
            let want = bin_eng::root_of(&mut v, n);
            let r = bin_eng::check_root(disk, tree, &want, n, step)?;
            st.hit("root_read_together");
            st.state(low(&r), n);
        }
        _ => {
            let idx = bin_eng::pick_index(n, s.a, s.b);
            // A caller that dies in its storage takes nothing with it.
            if bin_eng::check_prove(disk, tree, &mut v, n, idx, step, m, st)?.is_some() {
                st.hit("caller_died_in_a_read");
            }
        }
    }
    Ok(())
}

pub fn run_shared(plan: &mut Plan, online: Option<(Rates, Rng)>, st: &mut Stats) -> Res<u64> {
    let is_online = online.is_some();
    let n = plan.get("actors") as usize;
    let mut disk = bin_eng::bin_disk(plan, None);
    disk.routed = true;
    let mut model = bin_eng::bin_model(plan);
    let m = Masks::of(plan);
    let mut tree = Handed(None);
    if model.base == 0 {
        disk.act_as();
        let mut t = BinTree::new(disk.clone());
        for i in 0..plan.get("initial") {
            let d = content(i + 2, i % 9);
            match disk.call(|| t.push(&d)).0 {
                Out::Ret(Ok(())) => (),
                Out::Panic(p) => return bad(0, "panic", p),
                _ => return bad(0, "spurious-error", "push fails without a fault"),
            }
            model.push(leaf_hash(&d));
        }
        tree.0 = Some(t);
    }
    let sh = Arc::new(Mutex::new(BinShared { model }));
    // Steps of actor 0 need the tree for themselves; those of the others
    // between two of them run together.
    let mut phases: Vec<Vec<usize>> = vec![];
    for (i, s) in plan.steps.iter().enumerate() {
        let alone = s.actor == 0;
        match phases.last_mut() {
            Some(p) if !alone && plan.steps[p[0]].actor != 0 => p.push(i),
            _ => phases.push(vec![i]),
        }
    }
    let mut recorded = plan.sched.split(|x| *x == PHASE).map(|x| x.to_vec());
    let mut sched = vec![];
    let mut all = vec![];
    let mut switches = 0;
    let verbose = st.verbose;
    for (number, phase) in phases.iter().enumerate() {
        let replay = if is_online {
            None
        } else {
            Some(recorded.next().unwrap_or_default())
        };
        if plan.steps[phase[0]].actor == 0 || tree.0.is_none() {
            // Some thread has the tree for itself.
            let i = phase[0];
            let mut s = plan.steps[i].clone();
            if s.actor != 0 {
                s.op = "reopen".into();
            }
            let o = online.as_ref().map(|(r, g)| {
                let mut g = g.clone();
                (r.clone(), Rng::new(g.next() ^ mix(number as u64, 17)))
            });
            let h = disk.handle(o, None);
            let t = HandedMut(&mut tree);
            let sh = &sh;
            let work = move || {
                let t = t;
                let mut e = fresh(verbose);
                h.act_as();
                h.begin(&s.faults, s.calm);
                let t = &mut *t.0;
                e.res = contain(i, || match s.op.as_str() {
                    "reopen" => {
                        let n = sh.lock().unwrap().model.count();
                        t.0 = None;
                        t.0 = bin_eng_load(&h, sh, n, i, m, &mut e.stats)?;
                        e.stats.hit("tree_loaded");
                        Ok(())
                    }
                    _ => writer(&h, sh, &s, i, &mut t.0, m, &mut e.stats),
                });
                let rep = h.report();
                bin_eng::note_faults(&mut e.stats, &rep);
                e.faults.push((i, rep.fired));
                e.trace = h.trace();
                e.calls = h.total_calls();
                e
            };
            // Now and then it is this very thread.
            let e = if mix(plan.seed, number as u64) % 3 == 0 {
                work()
            } else {
                std::thread::scope(|sc| sc.spawn(work).join().expect("actor"))
            };
            sched.push(PHASE);
            let failed = e.res.is_err();
            all.push(e);
            if failed {
                break;
            }
            continue;
        }
        // The readers, together.
        let baton = Arc::new(Baton::new(
            n - 1,
            mix(plan.seed, mix(97, number as u64)),
            plan.get("switch") as u32,
            replay,
        ));
        let mut ends = vec![];
        std::thread::scope(|sc| {
            let mut js = vec![];
            for me in 0..n - 1 {
                let steps: Vec<(usize, Step)> = phase
                    .iter()
                    .filter(|i| plan.steps[**i].actor as usize == me + 1)
                    .map(|i| (*i, plan.steps[*i].clone()))
                    .collect();
                let o = online.as_ref().map(|(r, g)| {
                    let (r, mut g) = (r.clone(), g.clone());
                    (r, Rng::new(g.next() ^ mix(number as u64, me as u64)))
                });
                let h = disk.handle(o, Some((baton.clone(), me)));
                let (sh, baton) = (sh.clone(), baton.clone());
                let t = HandedRef(&tree);
                js.push(sc.spawn(move || {
                    let t = t;
                    h.act_as();
                    baton.enter(me);
                    let mut e = fresh(verbose);
                    let tree = t.0 .0.as_ref().expect("tree");
                    for (i, s) in steps {
                        baton.yield_now(me);
                        h.begin(&s.faults, s.calm);
                        let r = contain(i, || shared_read(&h, tree, &sh, &s, i, m, &mut e.stats));
                        let rep = h.report();
                        bin_eng::note_faults(&mut e.stats, &rep);
                        vlog!(
                            e.stats,
                            "phase {} reader {} step {} {} {} {}: {} storage calls, faults {:?}",
                            number,
                            me,
                            i,
                            s.op,
                            s.a,
                            s.b,
                            rep.calls,
                            rep.fired
                        );
                        e.faults.push((i, rep.fired));
                        if let Err(v) = r {
                            e.res = Err(v);
                            break;
                        }
                    }
                    e.trace = h.trace();
                    e.calls = h.total_calls();
                    baton.leave(me);
                    e
                }));
            }
            for j in js {
                ends.push(j.join().expect("actor"));
            }
        });
        let (rec, sw) = baton.result();
        if sw > n as u64 {
            st.hit("reads_interleaved");
        }
        switches += sw;
        sched.extend(rec);
        sched.push(PHASE);
        let failed = ends.iter().any(|e| e.res.is_err());
        all.extend(ends);
        if failed {
            break;
        }
    }
    wind_up(plan, is_online, st, sched, switches, all)
}

// ---------------------------------------------------------------------------
// Sparse: forks that only ever update share one store.

fn fork_actor(
    disk: &sp_eng::SpDisk,
    published: &Arc<Mutex<Vec<sp_eng::Model>>>,
    keys: &[H],
    s: &Step,
    step: usize,
    me: &mut (Option<SpTree>, sp_eng::Model),
    m: Masks,
    st: &mut Stats,
) -> Res {
    let (tree, model) = me;
    if tree.is_none() || s.op == "reopen" {
        *tree = None;
        let root = model.root();
        match sp_eng::check_load(disk, &root, step, m, st)? {
            Ok(Some(t)) => *tree = Some(t),
            Ok(None) => return Ok(()),
            Err(_) => {
                st.hit("crash");
                return Ok(());
            }
        }
    }
    match s.op.as_str() {
        "update" | "delete" => {
            let mut k = keys[s.a as usize % keys.len()];
            let mut d = content(s.b >> 16, (s.b & 0xff).max(1));
            let gone = s.op == "delete";
            if gone {
                let n = model.map.len();
                if n > 0 && s.a & 3 != 0 {
                    k = *model.map.keys().nth(s.a as usize % n).unwrap();
                }
                d.clear();
            }
            let a = sp_eng::apply(
                disk,
                tree.as_mut().unwrap(),
                model,
                &k,
                &d,
                gone && s.b & 0x10000 == 0,
                step,
                m,
                st,
            )?;
            let r = model.root();
            st.state(low(&r), model.map.len() as u64);
            match a {
                Applied::Crash(_) => {
                    st.hit("crash");
                    *tree = None;
                }
                Applied::Yes => published.lock().unwrap().push(model.clone()),
                Applied::Failed(_) => (),
            }
            if let Some(w) = sp_eng::audit(disk, &model.root(), &model.map) {
                return bad(step, "storage", w);
            }
        }
        // Look at a state some actor reported, and sometimes go on from it.
        "visit" => {
            let h = {
                let p = published.lock().unwrap();
                if p.is_empty() {
                    return Ok(());
                }
                p[s.a as usize % p.len()].clone()
            };
            match sp_eng::check_load(disk, &h.root(), step, m, st)? {
                Ok(Some(t)) => {
                    st.hit("earlier_root_checked");
                    if let Some(w) = sp_eng::audit(disk, &h.root(), &h.map) {
                        return bad(step, "earlier-root", w);
                    }
                    if s.b & 1 == 0 {
                        st.hit("went_on_from_earlier_root");
                        *tree = Some(t);
                        *model = h;
                    }
                }
                Ok(None) => (),
                Err(_) => {
                    st.hit("crash");
                    *tree = None;
                }
            }
        }
        _ => (),
    }
    Ok(())
}

pub fn run_sp(plan: &mut Plan, online: Option<(Rates, Rng)>, st: &mut Stats) -> Res<u64> {
    let is_online = online.is_some();
    let n = plan.get("actors") as usize;
    let disk = sp_eng::sp_disk(plan, None);
    let mut model = sp_eng::Model::default();
    let m = Masks::of(plan);
    {
        let mut t = SpTree::new(disk.clone());
        for i in 0..plan.get("initial") as usize {
            let k = plan.keys[i % plan.keys.len()];
            let d = content(i as u64 + 2, 5);
            disk.begin(&[], true);
            sp_eng::apply(&disk, &mut t, &mut model, &k, &d, false, 0, m, st)?;
        }
    }
    let replay = if is_online {
        None
    } else {
        Some(plan.sched.clone())
    };
    let baton = Arc::new(Baton::new(
        n,
        mix(plan.seed, 98),
        plan.get("switch") as u32,
        replay,
    ));
    let published = Arc::new(Mutex::new(vec![model.clone()]));
    let hs = handles(&disk, n, &baton, &online);
    let verbose = st.verbose;
    let keys = plan.keys.clone();
    let mut ends = vec![];
    std::thread::scope(|sc| {
        let mut js = vec![];
        for (me, h) in hs.into_iter().enumerate() {
            let steps = actor_steps(plan, me);
            let (published, baton) = (published.clone(), baton.clone());
            let (keys, model) = (&keys, model.clone());
            js.push(sc.spawn(move || {
                baton.enter(me);
                let mut e = fresh(verbose);
                let mut mine = (None, model);
                for (i, s) in steps {
                    h.begin(&s.faults, s.calm);
                    let r = contain(i, || {
                        fork_actor(
                            &h,
                            &published,
                            keys,
                            &s,
                            i,
                            &mut mine,
                            m,
                            &mut e.stats,
                        )
                    });
                    let rep = h.report();
                    bin_eng::note_faults(&mut e.stats, &rep);
                    vlog!(
                        e.stats,
                        "actor {} step {} {}: {} storage calls, faults {:?}",
                        me,
                        i,
                        s.op,
                        rep.calls,
                        rep.fired
                    );
                    e.faults.push((i, rep.fired));
                    if let Err(v) = r {
                        e.res = Err(v);
                        break;
                    }
                }
                e.trace = h.trace();
                e.calls = h.total_calls();
                baton.leave(me);
                e
            }));
        }
        for j in js {
            ends.push(j.join().expect("actor"));
        }
    });
    let r = finish(plan, is_online, st, &baton, ends)?;
    // Every root ever reported is still a complete tree.
    let all = published.lock().unwrap().clone();
    for h in &all {
        if let Some(w) = sp_eng::audit(&disk, &h.root(), &h.map) {
            return bad(plan.steps.len(), "earlier-root", w);
        }
    }
    Ok(r)
}
