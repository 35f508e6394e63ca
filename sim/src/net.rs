//! Replication over a simulated network: discrete events in virtual time,
//! messages lost, duplicated, delayed, damaged, partitions, replicas that crash
//! and restart on what their disk kept.

use crate::bin_eng::{self, BinDisk, BinTree};
use crate::common::*;
use crate::disk::*;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::sp_eng::{self, Applied, SpDisk, SpTree};
use fuel_merkle::{binary, sparse};
use std::collections::{BTreeMap, BinaryHeap};

/// Milliseconds of virtual time between two steps of the plan.
pub const DT: u64 = 20;
/// Virtual time within which everything must be in sync once faults stopped.
const SETTLE: u64 = 12_000;

#[derive(Clone, Default)]
pub struct NetRates {
    pub drop: u32,
    pub dup: u32,
    pub delay: u32,
    pub corrupt: u32,
}

pub struct Ev<M> {
    pub at: u64,
    seq: u64,
    pub what: What<M>,
}

pub enum What<M> {
    Step(usize),
    Deliver(usize, usize, M, bool),
    Timer(usize),
    Restart(usize),
}

impl<M> PartialEq for Ev<M> {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl<M> Eq for Ev<M> {}
impl<M> PartialOrd for Ev<M> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<M> Ord for Ev<M> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub struct Net<M> {
    pub now: u64,
    seq: u64,
    pub q: BinaryHeap<Ev<M>>,
    msgs: u32,
    online: Option<(NetRates, Rng)>,
    pub fates: Vec<Fate>,
    planned: BTreeMap<u32, Fate>,
    /// Groups that cannot talk to each other until the given time.
    pub part: (u64, u64),
    pub calm: bool,
    pub trace: u64,
    pub n: BTreeMap<&'static str, u64>,
}

impl<M: Clone> Net<M> {
    pub fn new(plan: &Plan, online: Option<(NetRates, Rng)>) -> Self {
        Net {
            now: 0,
            seq: 0,
            q: BinaryHeap::new(),
            msgs: 0,
            online,
            fates: vec![],
            planned: plan.fates.iter().map(|f| (f.msg, *f)).collect(),
            part: (0, 0),
            calm: false,
            trace: 0,
            n: BTreeMap::new(),
        }
    }

    pub fn at(&mut self, at: u64, what: What<M>) {
        self.seq += 1;
        self.q.push(Ev {
            at,
            seq: self.seq,
            what,
        });
    }

    pub fn hit(&mut self, k: &'static str) {
        *self.n.entry(k).or_insert(0) += 1;
    }

    pub fn cut(&self, a: usize, b: usize) -> bool {
        !self.calm && self.now < self.part.1 && (self.part.0 >> a & 1) != (self.part.0 >> b & 1)
    }

    pub fn send(&mut self, from: usize, to: usize, m: M) {
        self.msgs += 1;
        let no = self.msgs;
        self.hit("messages_sent");
        if self.cut(from, to) {
            self.hit("message_cut_by_partition");
            return;
        }
        let mut delay = 3 + mix(no as u64, 1) % 9;
        let mut fate = None;
        if !self.calm {
            if let Some(f) = self.planned.get(&no) {
                fate = Some(*f);
            } else if let Some((r, g)) = &mut self.online {
                let x = g.below(10_000) as u32;
                let arg = g.next() >> 40;
                let mut acc = 0;
                for (p, k) in [
                    (r.drop, NK::Drop),
                    (r.dup, NK::Dup),
                    (r.delay, NK::Delay),
                    (r.corrupt, NK::Corrupt),
                ] {
                    acc += p;
                    if x < acc {
                        fate = Some(Fate {
                            msg: no,
                            kind: k,
                            arg,
                        });
                        break;
                    }
                }
            }
        }
        let mut corrupt = false;
        if let Some(f) = fate {
            self.fates.push(f);
            self.trace = mix(self.trace, f.kind as u64 + 10);
            self.hit(match f.kind {
                NK::Drop => "message_lost",
                NK::Dup => "message_duplicated",
                NK::Delay => "message_delayed",
                NK::Corrupt => "message_damaged",
            });
            match f.kind {
                NK::Drop => return,
                NK::Dup => {
                    let at = self.now + delay + f.arg % 200;
                    self.at(at, What::Deliver(from, to, m.clone(), false));
                }
                NK::Delay => delay += f.arg % 400,
                NK::Corrupt => corrupt = true,
            }
        }
        let at = self.now + delay;
        self.at(at, What::Deliver(from, to, m, corrupt));
    }
}

pub fn record(plan: &mut Plan, is_online: bool, st: &mut Stats, n: BTreeMap<&'static str, u64>, fates: Vec<Fate>, now: u64) {
    if is_online {
        plan.fates = fates;
    }
    for (k, v) in n {
        st.add(k, v);
    }
    st.add("virtual_ms", now);
}

// ---------------------------------------------------------------------------
// Sparse: replicas of a last-writer-wins key-value map. They compare the roots
// of their trees to find out whether they differ.

type Versions = BTreeMap<H, (u64, Vec<u8>)>;

#[derive(Clone)]
enum KvMsg {
    Put(H, u64, Vec<u8>),
    Root(H),
    Full(Versions),
}

enum KvTree {
    Disk(Option<SpTree>),
    Mem(sparse::in_memory::MerkleTree),
}

struct KvNode {
    disk: SpDisk,
    tree: KvTree,
    /// Versions known, volatile and durable. The contents of the tree.
    vers: Versions,
    model: sp_eng::Model,
    durable: (Versions, sp_eng::Model),
    up: bool,
}

impl KvNode {
    fn root(&self, step: usize) -> Res<Option<H>> {
        match &self.tree {
            KvTree::Disk(None) => Ok(None),
            KvTree::Disk(Some(t)) => Ok(Some(sp_eng::get_root(t, step)?)),
            KvTree::Mem(t) => match guard(|| t.root()) {
                Out::Ret(r) => Ok(Some(r)),
                _ => bad(step, "panic", last_panic()),
            },
        }
    }
}

/// One simulated crash: what was not committed is gone.
fn kv_crash(n: &mut KvNode, st: &mut Stats) {
    st.hit("crash");
    n.up = false;
    match &n.tree {
        KvTree::Disk(_) => {
            st.add("crash_lost_writes", n.disk.crash(0));
            n.tree = KvTree::Disk(None);
            n.vers = n.durable.0.clone();
            n.model = n.durable.1.clone();
        }
        KvTree::Mem(_) => {
            n.tree = KvTree::Mem(sparse::in_memory::MerkleTree::new());
            n.vers.clear();
            n.model = Default::default();
        }
    }
}

/// Returns false if the replica crashed.
fn kv_apply(
    n: &mut KvNode,
    k: &H,
    v: u64,
    data: &[u8],
    abort: bool,
    step: usize,
    m: Masks,
    st: &mut Stats,
) -> Res<bool> {
    if n.vers.get(k).map(|x| x.0 >= v).unwrap_or(false) {
        st.hit("stale_message_ignored");
        return Ok(true);
    }
    if let KvTree::Disk(t @ None) = &mut n.tree {
        match sp_eng::check_load(&n.disk, &n.model.root(), step, m, st)? {
            Ok(Some(x)) => {
                st.hit("reload");
                *t = Some(x)
            }
            Ok(None) => return Ok(true),
            Err(_) => return Ok(false),
        }
    }
    let done = match &mut n.tree {
        KvTree::Mem(t) => {
            n.model.put(k, data);
            match guard(|| {
                t.update(k, data);
                t.root()
            }) {
                Out::Ret(r) if r == n.model.root() => true,
                Out::Ret(_) => return bad(step, "memory-root", "in-memory root is wrong"),
                _ => return bad(step, "panic", last_panic()),
            }
        }
        KvTree::Disk(t) => {
            let tree = t.as_mut().unwrap();
            match sp_eng::apply(
                &n.disk,
                tree,
                &mut n.model,
                k,
                data,
                data.is_empty() && v & 1 == 0,
                step,
                m,
                st,
            )? {
                Applied::Crash(_) => return Ok(false),
                Applied::Yes => true,
                Applied::Failed(x) => {
                    if abort {
                        // The transaction is rolled back, the tree reloaded.
                        st.hit("transaction_rolled_back");
                        n.disk.crash(0);
                        *t = None;
                        n.model = n.durable.1.clone();
                        false
                    } else {
                        x
                    }
                }
            }
        }
    };
    if done {
        n.vers.insert(*k, (v, data.to_vec()));
        if let KvTree::Disk(_) = n.tree {
            n.disk.sync();
            n.durable = (n.vers.clone(), n.model.clone());
        }
    }
    Ok(true)
}

pub fn run_sp(
    plan: &mut Plan,
    online: Option<(Rates, Rng)>,
    rates: NetRates,
    st: &mut Stats,
) -> Res<u64> {
    let is_online = online.is_some();
    let count = plan.get("actors") as usize;
    let m = Masks::of(plan);
    let mut net: Net<KvMsg> = Net::new(
        plan,
        online
            .as_ref()
            .map(|(_, r)| (rates, Rng::new(r.clone().next() ^ 3))),
    );
    let mut nodes = vec![];
    for i in 0..count {
        // The first `count` steps carry the storage faults of the replicas.
        let o = online
            .as_ref()
            .map(|(r, g)| (r.clone(), Rng::new(g.clone().next() ^ mix(i as u64, 9))));
        let disk = sp_eng::sp_disk(plan, o);
        let f = plan
            .steps
            .iter()
            .filter(|s| s.op == "node" && s.actor as usize == i)
            .flat_map(|s| s.faults.clone())
            .collect::<Vec<_>>();
        disk.begin(&f, false);
        let mem = i + 1 == count && plan.get("mem") == 1;
        nodes.push(KvNode {
            tree: if mem {
                KvTree::Mem(sparse::in_memory::MerkleTree::new())
            } else {
                KvTree::Disk(Some(SpTree::new(disk.clone())))
            },
            disk,
            vers: Versions::new(),
            model: Default::default(),
            durable: Default::default(),
            up: true,
        });
        net.at(7 + 5 * i as u64, What::Timer(i));
    }
    let last = plan.steps.len();
    for i in 0..last {
        net.at(DT * (i as u64 + 1), What::Step(i));
    }
    let faults_end = DT * (last as u64 + 2);
    let end = faults_end + SETTLE;
    let abort = plan.get("abort") == 1;
    let mut trace = 0u64;
    let mut step = 0usize;
    let r = (|| -> Res {
        loop {
            let ev = match net.q.pop() {
                None => break,
                Some(e) => e,
            };
            if ev.at > end {
                break;
            }
            net.now = ev.at;
            if ev.at > faults_end && !net.calm {
                net.calm = true;
                for n in &nodes {
                    n.disk.arm(false);
                }
            }
            let who = match ev.what {
                What::Step(i) => {
                    step = i;
                    let s = plan.steps[i].clone();
                    let to = s.actor as usize % count;
                    match s.op.as_str() {
                        "put" => {
                            let k = plan.keys[s.a as usize % plan.keys.len()];
                            let d = content(s.b >> 16, s.b & 0xff);
                            let v = (i as u64) * 2 + (s.b >> 8 & 1);
                            vlog!(st, "t={} put {} v{} len {} at {}", net.now, short(&k), v, d.len(), to);
                            // A client hands the write to one replica, which
                            // passes it on once to all others.
                            if nodes[to].up
                                && !kv_apply(&mut nodes[to], &k, v, &d, abort, step, m, st)?
                            {
                                kv_crash(&mut nodes[to], st);
                                let at = net.now + 50 + mix(i as u64, 2) % 300;
                                net.at(at, What::Restart(to));
                            }
                            if nodes[to].up {
                                for p in 0..count {
                                    if p != to {
                                        net.send(to, p, KvMsg::Put(k, v, d.clone()));
                                    }
                                }
                            }
                        }
                        "crash" => {
                            if nodes[to].up {
                                vlog!(st, "t={} crash {}", net.now, to);
                                kv_crash(&mut nodes[to], st);
                                let at = net.now + 30 + s.b % 500;
                                net.at(at, What::Restart(to));
                            }
                        }
                        "part" => {
                            net.part = (s.a, net.now + 100 + s.b % 900);
                            net.hit("partition");
                        }
                        _ => (),
                    }
                    to
                }
                What::Restart(i) => {
                    vlog!(st, "t={} restart {}", net.now, i);
                    nodes[i].up = true;
                    st.hit("restart");
                    i
                }
                What::Timer(i) => {
                    let at = net.now + 90 + mix(net.now, i as u64) % 40;
                    net.at(at, What::Timer(i));
                    if nodes[i].up {
                        if let KvTree::Disk(t @ None) = &mut nodes[i].tree {
                            let _ = t;
                            let root = nodes[i].model.root();
                            match sp_eng::check_load(&nodes[i].disk, &root, step, m, st)? {
                                Ok(Some(t)) => {
                                    st.hit("reload");
                                    nodes[i].tree = KvTree::Disk(Some(t))
                                }
                                Ok(None) => (),
                                Err(_) => {
                                    kv_crash(&mut nodes[i], st);
                                    let at = net.now + 80;
                                    net.at(at, What::Restart(i));
                                }
                            }
                        }
                        if let Some(r) = nodes[i].root(step)? {
                            let p = (i + 1 + (mix(net.now, 4) as usize) % (count - 1)) % count;
                            net.send(i, p, KvMsg::Root(r));
                        }
                    }
                    i
                }
                What::Deliver(from, to, msg, _) => {
                    if !nodes[to].up {
                        net.hit("message_to_dead_node");
                    } else if net.cut(from, to) {
                        net.hit("message_cut_by_partition");
                    } else {
                        net.hit("message_delivered");
                        let mut puts = vec![];
                        match msg {
                            KvMsg::Put(k, v, d) => puts.push((k, v, d)),
                            KvMsg::Root(r) => {
                                if let Some(mine) = nodes[to].root(step)? {
                                    if r != mine {
                                        st.hit("roots_differed");
                                        let f = nodes[to].vers.clone();
                                        net.send(to, from, KvMsg::Full(f));
                                    } else {
                                        st.hit("roots_agreed");
                                    }
                                }
                            }
                            KvMsg::Full(f) => {
                                for (k, (v, d)) in f {
                                    puts.push((k, v, d));
                                }
                            }
                        }
                        for (k, v, d) in puts {
                            if nodes[to].up
                                && !kv_apply(&mut nodes[to], &k, v, &d, abort, step, m, st)?
                            {
                                kv_crash(&mut nodes[to], st);
                                let at = net.now + 50 + mix(net.now, 2) % 300;
                                net.at(at, What::Restart(to));
                            }
                        }
                    }
                    to
                }
            };
            // Invariant after every event: the root of the replica that moved
            // is the root of what it holds.
            if let Some(r) = nodes[who].root(step)? {
                trace = mix(trace, mix(net.now, low(&r)));
                st.state(low(&r), nodes[who].vers.len() as u64);
                if r != nodes[who].model.root() {
                    return bad(
                        step,
                        "replica-root",
                        format!("t={}: root of replica {} is not that of its contents", net.now, who),
                    );
                }
            }
            // Two replicas with the same contents have the same root, others
            // have not: compare the one that moved with the rest.
            for o in 0..count {
                if o == who {
                    continue;
                }
                if let (Some(a), Some(b)) = (nodes[who].root(step)?, nodes[o].root(step)?) {
                    if (a == b) != (nodes[who].model.map == nodes[o].model.map) {
                        return bad(
                            step,
                            "replica-diverged",
                            format!(
                                "t={}: replicas {} and {}: equal roots {}, equal contents {}",
                                net.now,
                                who,
                                o,
                                a == b,
                                nodes[who].model.map == nodes[o].model.map
                            ),
                        );
                    }
                }
            }
        }
        // The settling time is over.
        let all: Versions = {
            let mut all = Versions::new();
            for n in &nodes {
                for (k, v) in &n.vers {
                    let e = all.entry(*k).or_insert_with(|| v.clone());
                    if v.0 > e.0 {
                        *e = v.clone();
                    }
                }
            }
            all
        };
        let mut want = sp_eng::Model::default();
        for (k, (_, d)) in &all {
            want.put(k, d);
        }
        for (i, n) in nodes.iter().enumerate() {
            let r = n.root(last)?;
            if r != Some(want.root()) {
                return bad(
                    last,
                    "no-convergence",
                    format!(
                        "replica {} has not converged {} ms after the faults stopped",
                        i, SETTLE
                    ),
                );
            }
            if let KvTree::Disk(Some(_)) = n.tree {
                if let Some(w) = sp_eng::audit(&n.disk, &want.root(), &want.map) {
                    return bad(last, "storage", w);
                }
            }
        }
        st.hit("replicas_converged");
        Ok(())
    })();
    for (i, n) in nodes.iter().enumerate() {
        let rep = n.disk.report();
        bin_eng::note_faults(st, &rep);
        st.add("storage_calls", n.disk.total_calls());
        if is_online {
            if let Some(s) = plan
                .steps
                .iter_mut()
                .find(|s| s.op == "node" && s.actor as usize == i)
            {
                s.faults = rep.fired.clone();
            }
        }
        trace = mix(trace, n.disk.trace());
    }
    let t = mix(trace, net.trace);
    record(plan, is_online, st, net.n, net.fates, net.now);
    r.map(|_| t)
}

// ---------------------------------------------------------------------------
// Binary: a leader replicates an append-only log; a light client asks any
// replica for proofs and verifies them against the root another one reports.

#[derive(Clone)]
enum LogMsg {
    Append(u64, Vec<Vec<u8>>),
    Ack(u64),
    /// Ask for a proof at (index, count), to be verified against this root.
    Ask(u64, u64),
    Proof {
        idx: u64,
        n: u64,
        root: H,
        proof: Vec<H>,
    },
    RootAsk,
    Root(u64, H),
}

enum LogTree {
    Disk(Option<BinTree>),
    Mem(Box<binary::in_memory::MerkleTree>),
}

struct LogNode {
    disk: BinDisk,
    tree: LogTree,
    count: u64,
    durable: u64,
    up: bool,
}

fn log_crash(n: &mut LogNode, arg: u64, st: &mut Stats) {
    st.hit("crash");
    n.up = false;
    match &n.tree {
        LogTree::Disk(_) => {
            st.add("crash_lost_writes", n.disk.crash(arg));
            n.tree = LogTree::Disk(None);
            n.count = n.durable;
        }
        LogTree::Mem(_) => {
            n.tree = LogTree::Mem(Box::default());
            n.count = 0;
        }
    }
}

#[cfg(feature = "helpers")]
fn shipped_verify(root: &H, proof: &[H], idx: u64, n: u64) -> Option<bool> {
    let p = proof.to_vec();
    match guard(|| fuel_merkle_test_helpers::binary::verify(root, &p, idx, n)) {
        Out::Ret(b) => Some(b),
        _ => None,
    }
}
#[cfg(not(feature = "helpers"))]
fn shipped_verify(root: &H, proof: &[H], idx: u64, n: u64) -> Option<bool> {
    Some(verify_path(root, proof, idx, n))
}

/// Brings the replica's tree up. `Ok(false)`: it crashed.
fn log_ensure(n: &mut LogNode, model: &mut Mth<H>, step: usize, m: Masks, st: &mut Stats) -> Res<bool> {
    if let LogTree::Disk(t @ None) = &mut n.tree {
        match bin_eng::check_load(&n.disk, model, n.count, step, m, st)? {
            Ok(x) => {
                if x.is_some() {
                    st.hit("reload");
                }
                *t = x;
            }
            Err(_) => return Ok(false),
        }
    }
    Ok(true)
}

fn log_append(
    n: &mut LogNode,
    data: &[u8],
    model: &mut Mth<H>,
    sync_every: u64,
    step: usize,
    st: &mut Stats,
) -> Res<Result<bool, u64>> {
    let ok = match &mut n.tree {
        LogTree::Mem(t) => match guard(|| t.push(data)) {
            Out::Ret(()) => true,
            _ => return bad(step, "panic", last_panic()),
        },
        LogTree::Disk(None) => false,
        LogTree::Disk(Some(t)) => {
            let (out, d) = n.disk.call(|| t.push(data));
            st.hit("call_push");
            match out {
                Out::Panic(p) => return bad(step, "panic", p),
                Out::Limit => return bad(step, "no-progress", "push does not stop"),
                Out::Crash => return Ok(Err(d.crash_arg)),
                Out::Ret(Ok(())) => true,
                Out::Ret(Err(e)) => {
                    bin_eng::judge_err(&e, &d, &n.disk, step, "push", st)?;
                    false
                }
            }
        }
    };
    if ok {
        n.count += 1;
        if n.count - n.durable.min(n.count) >= sync_every {
            n.disk.sync();
            n.durable = n.count;
        }
        let want = bin_eng::root_of(model, n.count);
        log_root_check(n, &want, step)?;
    }
    Ok(Ok(ok))
}

fn log_root_check(n: &mut LogNode, want: &H, step: usize) -> Res {
    let r = match &mut n.tree {
        LogTree::Disk(None) => return Ok(()),
        LogTree::Disk(Some(t)) => guard(|| t.root()),
        LogTree::Mem(t) => guard(|| t.root()),
    };
    match r {
        Out::Ret(r) if r == *want => Ok(()),
        Out::Ret(r) => bad(
            step,
            "replica-root",
            format!("root at {} leaves is {} instead of {}", n.count, short(&r), short(want)),
        ),
        _ => bad(step, "panic", last_panic()),
    }
}

pub fn run_bin(
    plan: &mut Plan,
    online: Option<(Rates, Rng)>,
    rates: NetRates,
    st: &mut Stats,
) -> Res<u64> {
    let is_online = online.is_some();
    let count = plan.get("actors") as usize;
    let client = count; // the light client's address
    let m = Masks::of(plan);
    let sync_every = plan.get("sync").max(1);
    let mut net: Net<LogMsg> = Net::new(
        plan,
        online
            .as_ref()
            .map(|(_, r)| (rates, Rng::new(r.clone().next() ^ 4))),
    );
    let mut nodes = vec![];
    for i in 0..count {
        let o = online
            .as_ref()
            .map(|(r, g)| (r.clone(), Rng::new(g.clone().next() ^ mix(i as u64, 8))));
        let disk = bin_eng::bin_disk(plan, o);
        let f = plan
            .steps
            .iter()
            .filter(|s| s.op == "node" && s.actor as usize == i)
            .flat_map(|s| s.faults.clone())
            .collect::<Vec<_>>();
        disk.begin(&f, false);
        let mem = i > 0 && i + 1 == count && plan.get("mem") == 1;
        nodes.push(LogNode {
            tree: if mem {
                LogTree::Mem(Box::default())
            } else {
                LogTree::Disk(Some(BinTree::new(disk.clone())))
            },
            disk,
            count: 0,
            durable: 0,
            up: true,
        });
        net.at(7 + 5 * i as u64, What::Timer(i));
    }
    // The leader's log: contents accepted from clients (durable at once).
    let mut log: Vec<Vec<u8>> = vec![];
    let mut model: Mth<H> = Mth::new(0, None, node_hash);
    let mut acked = vec![0u64; count];
    // Trusted roots of the light client, by count, and proofs it verified.
    let mut trusted: BTreeMap<u64, H> = BTreeMap::new();
    let last = plan.steps.len();
    for i in 0..last {
        net.at(DT * (i as u64 + 1), What::Step(i));
    }
    let faults_end = DT * (last as u64 + 2);
    let end = faults_end + SETTLE;
    let mut trace = 0u64;
    let mut step = 0usize;
    let r = (|| -> Res {
        while let Some(ev) = net.q.pop() {
            if ev.at > end {
                break;
            }
            net.now = ev.at;
            if ev.at > faults_end && !net.calm {
                net.calm = true;
                for n in &nodes {
                    n.disk.arm(false);
                }
            }
            let mut died: Option<(usize, u64)> = None;
            match ev.what {
                What::Step(i) => {
                    step = i;
                    let s = plan.steps[i].clone();
                    match s.op.as_str() {
                        "append" => {
                            for j in 0..(s.b >> 8) % 256 + 1 {
                                let d = content(s.a.wrapping_add(j), s.b & 0xff);
                                model.push(leaf_hash(&d));
                                log.push(d);
                            }
                        }
                        "ask" => {
                            // The client asks one replica about a root it
                            // learnt from another.
                            let to = s.actor as usize % count;
                            if let Some((n, _)) = trusted
                                .iter()
                                .nth(s.b as usize % trusted.len().max(1))
                                .map(|(a, b)| (*a, *b))
                            {
                                let idx = if n == 0 { 0 } else { s.a % n };
                                net.send(client, to, LogMsg::Ask(idx, n));
                            }
                            net.send(client, (to + 1) % count, LogMsg::RootAsk);
                        }
                        "crash" => {
                            let to = s.actor as usize % count;
                            if nodes[to].up {
                                died = Some((to, s.b));
                            }
                        }
                        "part" => {
                            net.part = (s.a, net.now + 100 + s.b % 900);
                            net.hit("partition");
                        }
                        _ => (),
                    }
                }
                What::Restart(i) => {
                    nodes[i].up = true;
                    st.hit("restart");
                }
                What::Timer(i) => {
                    let at = net.now + 60 + mix(net.now, i as u64) % 40;
                    net.at(at, What::Timer(i));
                    if nodes[i].up {
                        if !log_ensure(&mut nodes[i], &mut model, step, m, st)? {
                            died = Some((i, net.now));
                        } else if i == 0 {
                            // The leader applies its own log and sends each
                            // follower what it has not acknowledged.
                            while nodes[0].count < log.len() as u64 {
                                let d = log[nodes[0].count as usize].clone();
                                match log_append(
                                    &mut nodes[0],
                                    &d,
                                    &mut model,
                                    sync_every,
                                    step,
                                    st,
                                )? {
                                    Ok(true) => (),
                                    Ok(false) => break,
                                    Err(arg) => {
                                        died = Some((0, arg));
                                        break;
                                    }
                                }
                            }
                            if died.is_none() {
                                for p in 1..count {
                                    let (from, to) = (acked[p], log.len() as u64);
                                    if to.saturating_sub(from) > 24 {
                                        // Who is far behind is sent many at once.
                                        let b = &log[from as usize..to.min(from + 50) as usize];
                                        net.send(0, p, LogMsg::Append(from, b.to_vec()));
                                        continue;
                                    }
                                    for j in from..(from + 6).min(to) {
                                        let d = log[j as usize].clone();
                                        net.send(0, p, LogMsg::Append(j, vec![d]));
                                    }
                                }
                            }
                        } else {
                            let c = nodes[i].count;
                            net.send(i, 0, LogMsg::Ack(c));
                        }
                    }
                }
                What::Deliver(from, to, msg, corrupt) => {
                    if net.cut(from, to) {
                        net.hit("message_cut_by_partition");
                    } else if to == client {
                        match msg {
                            LogMsg::Root(n, r) if !corrupt => {
                                if let Some(x) = trusted.get(&n) {
                                    if *x != r {
                                        return bad(
                                            step,
                                            "replica-diverged",
                                            format!("two replicas report different roots at {} leaves", n),
                                        );
                                    }
                                }
                                trusted.insert(n, r);
                            }
                            LogMsg::Proof {
                                idx,
                                n,
                                root,
                                proof,
                            } => {
                                let mut root = root;
                                let mut proof = proof;
                                let mut what = "";
                                if corrupt && !proof.is_empty() {
                                    // One bit of the proof or the root is
                                    // damaged in transit.
                                    let x = mix(net.now, n);
                                    let i = x as usize % (proof.len() + 1);
                                    let (b, bit) = ((x >> 20) as usize % 32, (x >> 30) % 8);
                                    if i == proof.len() {
                                        root[b] ^= 1 << bit;
                                        what = "root";
                                    } else {
                                        proof[i][b] ^= 1 << bit;
                                        what = "proof";
                                    }
                                }
                                let want = trusted[&n];
                                let a = verify_path(&want, &proof, idx, n) && root == want;
                                let b = match shipped_verify(&root, &proof, idx, n) {
                                    Some(b) => b && root == want,
                                    None => return bad(step, "panic", format!("verify {}", last_panic())),
                                };
                                if what.is_empty() {
                                    if !a || !b || proof[0] != model.leaf(idx) {
                                        return bad(
                                            step,
                                            "proof",
                                            format!(
                                                "proof of leaf {} from replica {} does not verify against the root at {} leaves (ours {}, shipped {})",
                                                idx, from, n, a, b
                                            ),
                                        );
                                    }
                                    st.hit("proof_verified");
                                } else {
                                    if a || b {
                                        return bad(
                                            step,
                                            "proof-damaged",
                                            format!("a proof with a damaged {} verifies (ours {}, shipped {})", what, a, b),
                                        );
                                    }
                                    st.hit("damaged_proof_rejected");
                                }
                            }
                            _ => (),
                        }
                    } else if corrupt {
                        // Damaged requests fail their checksum.
                        net.hit("damaged_message_discarded");
                    } else if !nodes[to].up {
                        net.hit("message_to_dead_node");
                    } else if !log_ensure(&mut nodes[to], &mut model, step, m, st)? {
                        died = Some((to, net.now));
                    } else {
                        net.hit("message_delivered");
                        match msg {
                            LogMsg::Append(j, ds) => {
                                if ds.len() > 1 {
                                    net.hit("many_leaves_sent_at_once");
                                }
                                let mut ack = false;
                                for (j, d) in (j..).zip(&ds) {
                                    if j < nodes[to].count && ds.len() > 1 {
                                        continue;
                                    }
                                    if j != nodes[to].count {
                                        break;
                                    }
                                    match log_append(
                                        &mut nodes[to],
                                        d,
                                        &mut model,
                                        sync_every,
                                        step,
                                        st,
                                    )? {
                                        Ok(done) => {
                                            ack = true;
                                            if !done {
                                                break;
                                            }
                                        }
                                        Err(arg) => {
                                            died = Some((to, arg));
                                            ack = false;
                                            break;
                                        }
                                    }
                                }
                                if ack {
                                    let c = nodes[to].count;
                                    net.send(to, 0, LogMsg::Ack(c));
                                }
                            }
                            LogMsg::Ack(c) => acked[from] = c,
                            LogMsg::RootAsk => {
                                let n = nodes[to].count;
                                let r = match &mut nodes[to].tree {
                                    LogTree::Disk(None) => None,
                                    LogTree::Disk(Some(t)) => Some(guard(|| t.root())),
                                    LogTree::Mem(t) => Some(guard(|| t.root())),
                                };
                                match r {
                                    None => (),
                                    Some(Out::Ret(r)) => net.send(to, client, LogMsg::Root(n, r)),
                                    Some(_) => return bad(step, "panic", last_panic()),
                                }
                            }
                            LogMsg::Ask(idx, n) => {
                                let have = nodes[to].count;
                                let node = &mut nodes[to];
                                let ans = match &mut node.tree {
                                    LogTree::Disk(Some(t)) if n == have => {
                                        let (out, d) = node.disk.call(|| t.prove(idx));
                                        st.hit("call_prove");
                                        match out {
                                            Out::Ret(Ok(x)) => Some(x),
                                            Out::Ret(Err(binary::MerkleTreeError::InvalidProofIndex(_))) if n == 0 => None,
                                            Out::Ret(Err(e)) => {
                                                bin_eng::judge_err(&e, &d, &node.disk, step, "prove", st)?;
                                                None
                                            }
                                            Out::Crash => {
                                                died = Some((to, d.crash_arg));
                                                None
                                            }
                                            Out::Panic(p) => return bad(step, "panic", p),
                                            Out::Limit => return bad(step, "no-progress", "prove does not stop"),
                                        }
                                    }
                                    LogTree::Disk(_) if n < have => {
                                        // An earlier count: answered from a
                                        // snapshot of the same storage.
                                        st.hit("proof_from_snapshot");
                                        match bin_eng::check_load(&node.disk, &mut model, n, step, m, st)? {
                                            Ok(Some(t)) => {
                                                let (out, d) = node.disk.call(|| t.prove(idx));
                                                match out {
                                                    Out::Ret(Ok(x)) => Some(x),
                                                    Out::Ret(Err(binary::MerkleTreeError::InvalidProofIndex(_))) if n == 0 => None,
                                                    Out::Ret(Err(e)) => {
                                                        bin_eng::judge_err(&e, &d, &node.disk, step, "prove", st)?;
                                                        None
                                                    }
                                                    Out::Crash => {
                                                        died = Some((to, d.crash_arg));
                                                        None
                                                    }
                                                    Out::Panic(p) => return bad(step, "panic", p),
                                                    Out::Limit => return bad(step, "no-progress", "prove does not stop"),
                                                }
                                            }
                                            Ok(None) => None,
                                            Err(arg) => {
                                                died = Some((to, arg));
                                                None
                                            }
                                        }
                                    }
                                    LogTree::Mem(t) if n == have => match guard(|| t.prove(idx)) {
                                        Out::Ret(x) => {
                                            if x.is_none() && idx < n {
                                                return bad(step, "memory-proof", "in-memory prove finds no proof");
                                            }
                                            x
                                        }
                                        _ => return bad(step, "panic", last_panic()),
                                    },
                                    _ => None,
                                };
                                if let Some((root, proof)) = ans {
                                    net.send(
                                        to,
                                        client,
                                        LogMsg::Proof {
                                            idx,
                                            n,
                                            root,
                                            proof,
                                        },
                                    );
                                }
                            }
                            _ => (),
                        }
                    }
                }
            }
            if let Some((i, arg)) = died {
                vlog!(st, "t={} crash {}", net.now, i);
                log_crash(&mut nodes[i], arg, st);
                if i > 0 {
                    // Followers that lost acknowledged leaves say so by their
                    // next acknowledgement.
                }
                let at = net.now + 40 + mix(net.now, 6) % 300;
                net.at(at, What::Restart(i));
            }
            for n in &nodes {
                trace = mix(trace, n.count);
            }
            trace = mix(trace, net.now);
        }
        for (i, n) in nodes.iter_mut().enumerate() {
            if n.count != log.len() as u64 {
                return bad(
                    last,
                    "no-convergence",
                    format!(
                        "replica {} has {} of {} leaves {} ms after the faults stopped",
                        i,
                        n.count,
                        log.len(),
                        SETTLE
                    ),
                );
            }
            let want = bin_eng::root_of(&mut model, n.count);
            st.state(low(&want), n.count);
            log_root_check(n, &want, last)?;
        }
        st.hit("replicas_converged");
        Ok(())
    })();
    for (i, n) in nodes.iter().enumerate() {
        let rep = n.disk.report();
        bin_eng::note_faults(st, &rep);
        st.add("storage_calls", n.disk.total_calls());
        if is_online {
            if let Some(s) = plan
                .steps
                .iter_mut()
                .find(|s| s.op == "node" && s.actor as usize == i)
            {
                s.faults = rep.fired.clone();
            }
        }
        trace = mix(trace, n.disk.trace());
    }
    let t = mix(trace, net.trace);
    record(plan, is_online, st, net.n, net.fates, net.now);
    r.map(|_| t)
}
