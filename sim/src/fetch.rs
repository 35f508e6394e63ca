//! Trees on partial storage that fetch what they lack: a server has all nodes
//! of a growing tree; clients know a leaf count or a root only, start with
//! nothing stored, and get each node that an error of the library names over a
//! network that loses, repeats and delays messages, on disks that fail, through
//! crashes. They also drop nodes that the server has, and write on their own.

use crate::bin_eng::{self, BinDisk, BinTree};
use crate::common::*;
use crate::disk::*;
use crate::model::*;
use crate::net::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::sp_eng::{self, SpDisk, SpErr, SpTree};
use fuel_merkle::{binary, sparse};
use std::collections::{BTreeSet, VecDeque};
use std::fmt::Debug;

#[derive(Clone, Debug)]
pub enum Job {
    /// Go over to the newest state that the server announced.
    Follow,
    Prove(u64),
    Push(Vec<u8>),
    Put(H, Vec<u8>, bool),
}

pub trait Kind {
    type T: Table;
    type Tree;
    type Model: Clone;
    type Err: Debug;
    const SCENARIO_TXN: bool;

    fn disk(plan: &Plan, online: Option<(Rates, Rng)>, server: bool) -> Disk<Self::T>;
    fn model(plan: &Plan) -> Self::Model;
    fn load(d: &Disk<Self::T>, m: &Self::Model) -> Result<Self::Tree, Self::Err>;
    fn root(t: &Self::Tree) -> H;
    fn want(m: &mut Self::Model) -> H;
    /// A random job of the server, or of a client.
    fn job(plan: &Plan, a: u64, b: u64, server: bool) -> Job;
    /// Runs the job; says what is wrong with an answer.
    fn exec(t: &mut Self::Tree, m: &Self::Model, j: &Job) -> Result<Option<(H, Vec<H>)>, Self::Err>;
    fn judge(m: &mut Self::Model, j: &Job, ret: Option<(H, Vec<H>)>) -> Option<String>;
    fn apply(m: &mut Self::Model, j: &Job);
    fn missing(e: &Self::Err) -> Option<<Self::T as Table>::K>;
    /// How many nodes the job, or a load, may need.
    fn most(m: &Self::Model, j: Option<&Job>) -> u64;
    /// Must the client forget what it stored when it goes over to another state?
    fn clear(own_writes: bool) -> bool;
    fn low(k: &<Self::T as Table>::K) -> u64;
}

pub struct Bin;
impl Kind for Bin {
    type T = bin_eng::BinT;
    type Tree = BinTree;
    type Model = Mth<H>;
    type Err = binary::MerkleTreeError<SimError>;
    const SCENARIO_TXN: bool = false;

    fn disk(plan: &Plan, online: Option<(Rates, Rng)>, server: bool) -> BinDisk {
        if server {
            bin_eng::bin_disk(plan, online)
        } else {
            Disk::new(Durability::from(plan.get("mode")), plan.get("real") == 1, online)
                .with_same(|a: &binary::Primitive, b: &binary::Primitive| a == b)
        }
    }
    fn model(plan: &Plan) -> Mth<H> {
        bin_eng::bin_model(plan)
    }
    fn load(d: &BinDisk, m: &Mth<H>) -> Result<BinTree, Self::Err> {
        BinTree::load(d.clone(), m.count())
    }
    fn root(t: &BinTree) -> H {
        t.root()
    }
    fn want(m: &mut Mth<H>) -> H {
        let n = m.count();
        bin_eng::root_of(m, n)
    }
    fn job(_: &Plan, a: u64, b: u64, server: bool) -> Job {
        if server || b & 3 == 0 {
            Job::Push(content(a, b >> 2 & 63))
        } else {
            Job::Prove(a)
        }
    }
    fn exec(t: &mut BinTree, m: &Mth<H>, j: &Job) -> Result<Option<(H, Vec<H>)>, Self::Err> {
        match j {
            Job::Push(d) => t.push(d).map(|_| None),
            Job::Prove(a) if m.count() > 0 => t.prove(a % m.count()).map(Some),
            _ => Ok(None),
        }
    }
    fn judge(m: &mut Mth<H>, j: &Job, ret: Option<(H, Vec<H>)>) -> Option<String> {
        let (Job::Prove(a), Some((root, proof))) = (j, ret) else {
            return None;
        };
        let n = m.count();
        let i = a % n;
        let want = Self::want(m);
        if root != want || proof.first() != Some(&m.leaf(i)) || !verify_path(&want, &proof, i, n) {
            return Some(format!("the proof of leaf {} of {} does not verify", i, n));
        }
        None
    }
    fn apply(m: &mut Mth<H>, j: &Job) {
        if let Job::Push(d) = j {
            m.push(leaf_hash(d));
        }
    }
    fn missing(e: &Self::Err) -> Option<u64> {
        match e {
            binary::MerkleTreeError::LoadError(k) => Some(*k),
            _ => None,
        }
    }
    fn most(m: &Mth<H>, j: Option<&Job>) -> u64 {
        match j {
            // The complete subtrees.
            None => m.count().count_ones() as u64,
            Some(Job::Prove(_)) => levels(m.count()) as u64 + 1,
            _ => 0,
        }
    }
    fn clear(own_writes: bool) -> bool {
        own_writes
    }
    fn low(k: &u64) -> u64 {
        *k
    }
}

pub struct Sp;
impl Kind for Sp {
    type T = sp_eng::SpT;
    type Tree = SpTree;
    type Model = sp_eng::Model;
    type Err = SpErr;
    const SCENARIO_TXN: bool = true;

    fn disk(plan: &Plan, online: Option<(Rates, Rng)>, _: bool) -> SpDisk {
        sp_eng::sp_disk(plan, online)
    }
    fn model(_: &Plan) -> sp_eng::Model {
        Default::default()
    }
    fn load(d: &SpDisk, m: &sp_eng::Model) -> Result<SpTree, SpErr> {
        SpTree::load(d.clone(), &m.root())
    }
    fn root(t: &SpTree) -> H {
        t.root()
    }
    fn want(m: &mut sp_eng::Model) -> H {
        m.root()
    }
    fn job(plan: &Plan, a: u64, b: u64, server: bool) -> Job {
        let k = if b & 7 == 7 {
            sha(&[&a.to_be_bytes()])
        } else {
            plan.keys[a as usize % plan.keys.len()]
        };
        // The server never deletes, so that every state it had stays complete.
        if server || b >> 3 & 3 != 0 {
            Job::Put(k, content(a >> 20, 1 + (b >> 6 & 31)), false)
        } else {
            Job::Put(k, vec![], b >> 5 & 1 == 0)
        }
    }
    fn exec(t: &mut SpTree, _: &sp_eng::Model, j: &Job) -> Result<Option<(H, Vec<H>)>, SpErr> {
        match j {
            Job::Put(k, _, true) => t.delete(k)?,
            Job::Put(k, d, false) => t.update(k, d)?,
            _ => (),
        }
        Ok(None)
    }
    fn judge(_: &mut sp_eng::Model, _: &Job, _: Option<(H, Vec<H>)>) -> Option<String> {
        None
    }
    fn apply(m: &mut sp_eng::Model, j: &Job) {
        if let Job::Put(k, d, _) = j {
            m.put(k, d);
        }
    }
    fn missing(e: &SpErr) -> Option<H> {
        match e {
            sparse::MerkleTreeError::LoadError(s) => {
                let b: Option<Vec<u8>> = (0..s.len() / 2)
                    .map(|i| s.get(2 * i..2 * i + 2).and_then(|x| u8::from_str_radix(x, 16).ok()))
                    .collect();
                b.and_then(|b| b.try_into().ok())
            }
            e => {
                let t = format!("{:?}", e);
                let i = t.find("ChildNotFound([")? + 15;
                let j = i + t[i..].find(']')?;
                let b: Option<Vec<u8>> = t[i..j].split(',').map(|x| x.trim().parse().ok()).collect();
                b.and_then(|b| b.try_into().ok())
            }
        }
    }
    fn most(m: &sp_eng::Model, j: Option<&Job>) -> u64 {
        match j {
            None => 1,
            // A node and its side node on each level.
            Some(Job::Put(k, _, _)) => 2 * (smt_depth(&m.map, k) as u64 + 1),
            _ => 0,
        }
    }
    fn clear(_: bool) -> bool {
        false
    }
    fn low(k: &H) -> u64 {
        low(k)
    }
}

type K<S> = <<S as Kind>::T as Table>::K;
type V<S> = <<S as Kind>::T as Table>::V;

#[derive(Clone)]
enum Msg<K, V> {
    /// The newest state of the server.
    Head(usize),
    Want(K),
    Node(K, V),
}

struct Server<S: Kind> {
    disk: Disk<S::T>,
    tree: Option<S::Tree>,
    model: S::Model,
    up: bool,
    queue: VecDeque<Job>,
    /// Every state that was made durable.
    heads: Vec<S::Model>,
}

struct Client<S: Kind> {
    disk: Disk<S::T>,
    tree: Option<S::Tree>,
    model: S::Model,
    own_writes: bool,
    /// The newest state it has heard of.
    known: usize,
    up: bool,
    queue: VecDeque<Job>,
    asked: Option<K<S>>,
    /// What it has from the server.
    supplied: BTreeSet<K<S>>,
    /// What it fetched for the current call.
    fetched: BTreeSet<K<S>>,
    loading: bool,
}

impl<S: Kind> Client<S> {
    /// Works until a node is missing, storage fails or all is done.
    /// `Ok(false)`: it crashed.
    fn work(&mut self, srv: &Server<S>, step: usize, st: &mut Stats) -> Res<bool> {
        self.asked = None;
        loop {
            if let Some(Job::Follow) = self.queue.front() {
                self.queue.pop_front();
                self.model = srv.heads[self.known].clone();
                self.tree = None;
                self.fetched.clear();
                if S::clear(self.own_writes) {
                    self.disk.replace(vec![]);
                    self.supplied.clear();
                    st.hit("fetch_cleared");
                }
                self.own_writes = false;
                // Which state it is at is written down.
                self.disk.sync();
                st.hit("fetch_followed");
                continue;
            }
            if self.tree.is_none() {
                if !self.loading {
                    self.fetched.clear();
                    self.loading = true;
                }
                let (disk, model) = (&self.disk, &self.model);
                let (out, d) = disk.call(|| S::load(disk, model));
                st.hit("call_load");
                match out {
                    Out::Panic(p) => return bad(step, "panic", p),
                    Out::Limit => return bad(step, "no-progress", "load does not stop"),
                    Out::Crash => return Ok(false),
                    Out::Ret(Err(e)) => return self.failed(&e, &d, srv, None, step, st),
                    Out::Ret(Ok(t)) => {
                        self.tree = Some(t);
                        self.loading = false;
                        self.fetched.clear();
                        self.check(step, "load")?;
                        st.hit("fetch_loaded");
                    }
                }
                continue;
            }
            let Some(job) = self.queue.front().cloned() else {
                return Ok(true);
            };
            if matches!(job, Job::Push(_) | Job::Put(..)) {
                self.own_writes = true;
            }
            let (t, model) = (self.tree.as_mut().unwrap(), &self.model);
            let (out, d) = self.disk.call(|| S::exec(t, model, &job));
            st.hit("call_fetching");
            match out {
                Out::Panic(p) => return bad(step, "panic", p),
                Out::Limit => return bad(step, "no-progress", "a call does not stop"),
                Out::Crash => return Ok(false),
                Out::Ret(Err(e)) => {
                    // A sparse tree may have got to its new root.
                    let r = self.get_root(step)?;
                    let mut next = self.model.clone();
                    S::apply(&mut next, &job);
                    if r == S::want(&mut self.model) {
                        return self.failed(&e, &d, srv, Some(&job), step, st);
                    }
                    if r != S::want(&mut next) || !S::SCENARIO_TXN {
                        return bad(step, "root", "after an error the tree has neither its old nor its new root");
                    }
                    if !names_fault(&e, &d) {
                        return bad(step, "spurious-error", format!("{:?} fails with {:?} at its new root", job, e));
                    }
                    st.hit("fetch_done_with_error");
                    self.finish(&job, step, st)?;
                }
                Out::Ret(Ok(x)) => {
                    if let Some(w) = S::judge(&mut self.model, &job, x) {
                        return bad(step, "proof", w);
                    }
                    self.finish(&job, step, st)?;
                }
            }
        }
    }

    fn finish(&mut self, job: &Job, step: usize, st: &mut Stats) -> Res {
        self.queue.pop_front();
        S::apply(&mut self.model, job);
        self.disk.sync();
        st.hit("fetch_call_completed");
        st.add("fetched_for_calls", self.fetched.len() as u64);
        st.most("most_fetched_for_a_call", self.fetched.len() as u64);
        self.fetched.clear();
        self.check(step, "call")
    }

    fn get_root(&self, step: usize) -> Res<H> {
        let t = self.tree.as_ref().unwrap();
        match guard(|| S::root(t)) {
            Out::Ret(r) => Ok(r),
            _ => bad(step, "panic", last_panic()),
        }
    }

    fn check(&mut self, step: usize, what: &str) -> Res {
        let r = self.get_root(step)?;
        let want = S::want(&mut self.model);
        if r != want {
            return bad(
                step,
                "root",
                format!("after a {} the root is {} instead of {}", what, short(&r), short(&want)),
            );
        }
        Ok(())
    }

    fn failed(
        &mut self,
        e: &S::Err,
        d: &Delta,
        srv: &Server<S>,
        job: Option<&Job>,
        step: usize,
        st: &mut Stats,
    ) -> Res<bool> {
        if names_fault(e, d) {
            st.hit("storage_error_surfaced");
            return Ok(true);
        }
        let Some(k) = S::missing(e) else {
            return bad(step, "spurious-error", format!("a call fails with {:?}", e));
        };
        if !self.disk.absent(&k) {
            return bad(step, "fetch-again", format!("a call asks for a node that is there: {:?}", e));
        }
        if srv.disk.absent(&k) {
            return bad(step, "fetch-unknown", format!("a call asks for a node that nobody has: {:?}", e));
        }
        let most = S::most(&self.model, job);
        if self.fetched.len() as u64 >= most {
            return bad(
                step,
                "fetch-many",
                format!("a call asks for more than the {} nodes that it may need", most),
            );
        }
        st.hit("fetch_asked");
        self.asked = Some(k);
        Ok(true)
    }

    fn crash(&mut self, arg: u64, st: &mut Stats) {
        st.hit("crash");
        self.up = false;
        st.add("crash_lost_writes", self.disk.crash(arg));
        self.tree = None;
        self.asked = None;
        self.loading = false;
        self.fetched.clear();
    }
}

impl<S: Kind> Server<S> {
    /// `Ok(Err(arg))`: it crashed.
    fn work(&mut self, step: usize, st: &mut Stats) -> Res<Result<(), u64>> {
        if self.tree.is_none() {
            let (disk, model) = (&self.disk, &self.model);
            let (out, d) = disk.call(|| S::load(disk, model));
            match out {
                Out::Ret(Ok(t)) => self.tree = Some(t),
                Out::Ret(Err(e)) if names_fault(&e, &d) => return Ok(Ok(())),
                Out::Ret(Err(e)) => return bad(step, "spurious-error", format!("load fails with {:?}", e)),
                Out::Crash => return Ok(Err(d.crash_arg)),
                Out::Panic(p) => return bad(step, "panic", p),
                Out::Limit => return bad(step, "no-progress", "load does not stop"),
            }
        }
        while let Some(job) = self.queue.front().cloned() {
            let (t, model) = (self.tree.as_mut().unwrap(), &self.model);
            let (out, d) = self.disk.call(|| S::exec(t, model, &job));
            st.hit("call_server");
            let ok = match out {
                Out::Panic(p) => return bad(step, "panic", p),
                Out::Limit => return bad(step, "no-progress", "a call does not stop"),
                Out::Crash => return Ok(Err(d.crash_arg)),
                Out::Ret(Ok(_)) => true,
                Out::Ret(Err(e)) if names_fault(&e, &d) => false,
                Out::Ret(Err(e)) => return bad(step, "spurious-error", format!("{:?} fails with {:?}", job, e)),
            };
            let t = self.tree.as_ref().unwrap();
            let Out::Ret(r) = guard(|| S::root(t)) else {
                return bad(step, "panic", last_panic());
            };
            let mut next = self.model.clone();
            S::apply(&mut next, &job);
            if r == S::want(&mut next) {
                self.model = next;
                self.queue.pop_front();
                self.disk.sync();
                self.heads.push(self.model.clone());
                st.hit("server_writes");
            } else if ok || r != S::want(&mut self.model) {
                return bad(step, "root", "the root of the server is not that of its contents");
            }
            if !ok {
                break;
            }
        }
        Ok(Ok(()))
    }
}

pub fn run<S: Kind>(
    plan: &mut Plan,
    online: Option<(Rates, Rng)>,
    rates: NetRates,
    st: &mut Stats,
) -> Res<u64>
where
    V<S>: PartialEq,
{
    let is_online = online.is_some();
    let count = plan.get("actors") as usize; // the server is 0
    let mut net: Net<Msg<K<S>, V<S>>> = Net::new(
        plan,
        online
            .as_ref()
            .map(|(_, r)| (rates, Rng::new(r.clone().next() ^ 5))),
    );
    let disks: Vec<Disk<S::T>> = (0..count)
        .map(|i| {
            let o = online
                .as_ref()
                .map(|(r, g)| (r.clone(), Rng::new(g.clone().next() ^ mix(i as u64, 7))));
            let disk = S::disk(plan, o, i == 0);
            let f = plan
                .steps
                .iter()
                .filter(|s| s.op == "node" && s.actor as usize == i)
                .flat_map(|s| s.faults.clone())
                .collect::<Vec<_>>();
            disk.begin(&f, false);
            disk
        })
        .collect();
    let mut srv: Server<S> = Server {
        disk: disks[0].clone(),
        tree: None,
        model: S::model(plan),
        up: true,
        queue: VecDeque::new(),
        heads: vec![S::model(plan)],
    };
    let mut clients: Vec<Client<S>> = disks[1..]
        .iter()
        .map(|d| Client {
            disk: d.clone(),
            tree: None,
            model: S::model(plan),
            own_writes: false,
            known: 0,
            up: true,
            queue: VecDeque::new(),
            asked: None,
            supplied: BTreeSet::new(),
            fetched: BTreeSet::new(),
            loading: false,
        })
        .collect();
    for i in 0..count {
        net.at(7 + 5 * i as u64, What::Timer(i));
    }
    let last = plan.steps.len();
    for i in 0..last {
        net.at(DT * (i as u64 + 1), What::Step(i));
    }
    let faults_end = DT * (last as u64 + 2);
    // Once faults stopped, each call that is left may fetch all it needs.
    let mut end = u64::MAX;
    let mut trace = 0u64;
    let mut step = 0usize;
    let r = (|| -> Res {
        while let Some(ev) = net.q.pop() {
            if ev.at > end {
                break;
            }
            net.now = ev.at;
            if ev.at > faults_end && !net.calm {
                net.calm = true;
                for d in &disks {
                    d.arm(false);
                }
                let left: usize = clients.iter().map(|c| c.queue.len() + 2).sum();
                end = faults_end + 3000 + left as u64 * 600 * 40;
            }
            if net.calm
                && srv.up
                && srv.queue.is_empty()
                && clients.iter().all(|c| c.up && c.tree.is_some() && c.queue.is_empty())
            {
                break;
            }
            let mut died: Option<(usize, u64)> = None;
            // The client whose turn it is to work.
            let mut turn: Option<usize> = None;
            match ev.what {
                What::Step(i) => {
                    step = i;
                    let s = plan.steps[i].clone();
                    let to = s.actor as usize % count;
                    match s.op.as_str() {
                        "write" => {
                            for j in 0..1 + (s.b >> 40) {
                                let (a, b) = (mix(s.a, j), mix(s.b, j));
                                srv.queue.push_back(S::job(plan, a, b, true));
                            }
                        }
                        "do" if to > 0 => {
                            clients[to - 1].queue.push_back(S::job(plan, s.a, s.b, false));
                            turn = Some(to);
                        }
                        "follow" if to > 0 => {
                            clients[to - 1].queue.push_back(Job::Follow);
                            turn = Some(to);
                        }
                        // Something else goes first.
                        "switch" if to > 0 => {
                            let c = &mut clients[to - 1];
                            if c.queue.len() > 1 {
                                c.queue.rotate_left(1);
                                c.fetched.clear();
                                st.hit("fetch_switched");
                                turn = Some(to);
                            }
                        }
                        // What the server has need not be kept.
                        "evict" if to > 0 => {
                            let c = &mut clients[to - 1];
                            let all: Vec<_> = c
                                .supplied
                                .iter()
                                .filter(|k| mix(S::low(k), s.b) % 4 < s.a % 5)
                                .cloned()
                                .collect();
                            for k in &all {
                                c.supplied.remove(k);
                                if c.disk.peek(k) == srv.disk.peek(k) {
                                    c.disk.evict(k);
                                    st.hit("fetch_evicted");
                                }
                            }
                            c.fetched.clear();
                        }
                        "reload" if to > 0 => {
                            clients[to - 1].tree = None;
                            clients[to - 1].loading = false;
                        }
                        "crash" if to > 0 => {
                            if clients[to - 1].up {
                                died = Some((to, s.b));
                            }
                        }
                        "crash" => {
                            if srv.up {
                                died = Some((0, s.b));
                            }
                        }
                        "part" => {
                            net.part = (s.a, net.now + 100 + s.b % 900);
                            net.hit("partition");
                        }
                        _ => (),
                    }
                }
                What::Restart(0) => {
                    srv.up = true;
                    st.hit("restart");
                }
                What::Restart(i) => {
                    clients[i - 1].up = true;
                    st.hit("restart");
                }
                What::Timer(i) => {
                    let at = net.now + 60 + mix(net.now, i as u64) % 40;
                    net.at(at, What::Timer(i));
                    if i > 0 {
                        turn = Some(i);
                    } else if srv.up {
                        if let Err(arg) = srv.work(step, st)? {
                            died = Some((0, arg));
                        } else {
                            for p in 1..count {
                                net.send(0, p, Msg::Head(srv.heads.len() - 1));
                            }
                        }
                    }
                }
                What::Deliver(from, to, msg, corrupt) => {
                    if net.cut(from, to) {
                        net.hit("message_cut_by_partition");
                    } else if corrupt {
                        net.hit("damaged_message_discarded");
                    } else if to == 0 {
                        if !srv.up {
                            net.hit("message_to_dead_node");
                        } else if let Msg::Want(k) = msg {
                            net.hit("message_delivered");
                            if let Some(v) = srv.disk.peek(&k) {
                                net.send(0, from, Msg::Node(k, v));
                            }
                        }
                    } else if !clients[to - 1].up {
                        net.hit("message_to_dead_node");
                    } else {
                        net.hit("message_delivered");
                        let c = &mut clients[to - 1];
                        match msg {
                            Msg::Head(h) => c.known = c.known.max(h),
                            Msg::Node(k, v) => {
                                // Only what it still waits for.
                                if c.asked.as_ref() == Some(&k) {
                                    st.hit("fetched");
                                    trace = mix(trace, S::low(&k));
                                    c.disk.supply(&k, v);
                                    c.supplied.insert(k.clone());
                                    c.fetched.insert(k);
                                    turn = Some(to);
                                }
                            }
                            Msg::Want(_) => (),
                        }
                    }
                }
            }
            if let Some(i) = turn {
                let c = &mut clients[i - 1];
                if c.up {
                    if !c.work(&srv, step, st)? {
                        died = Some((i, mix(net.now, 3)));
                    } else if let Some(k) = c.asked.clone() {
                        net.send(i, 0, Msg::Want(k));
                    }
                }
                if let Some(t) = &clients[i - 1].tree {
                    if let Out::Ret(r) = guard(|| S::root(t)) {
                        st.state(low(&r), disks[i].trace());
                        trace = mix(trace, low(&r));
                    }
                }
            }
            if let Some((i, arg)) = died {
                vlog!(st, "t={} crash {}", net.now, i);
                if i == 0 {
                    st.hit("crash");
                    srv.up = false;
                    st.add("crash_lost_writes", srv.disk.crash(arg));
                    srv.tree = None;
                } else {
                    clients[i - 1].crash(arg, st);
                }
                let at = net.now + 40 + mix(net.now, 6) % 300;
                net.at(at, What::Restart(i));
            }
            trace = mix(trace, net.now);
        }
        for (i, c) in clients.iter_mut().enumerate() {
            if c.tree.is_none() || !c.queue.is_empty() {
                return bad(
                    last,
                    "no-progress",
                    format!("client {} has {} calls left long after the faults stopped", i + 1, c.queue.len()),
                );
            }
            c.check(last, "run")?;
        }
        st.hit("fetch_clients_done");
        Ok(())
    })();
    for (i, d) in disks.iter().enumerate() {
        let rep = d.report();
        bin_eng::note_faults(st, &rep);
        st.add("storage_calls", d.total_calls());
        if is_online {
            if let Some(s) = plan
                .steps
                .iter_mut()
                .find(|s| s.op == "node" && s.actor as usize == i)
            {
                s.faults = rep.fired.clone();
            }
        }
        trace = mix(trace, d.trace());
    }
    let t = mix(trace, net.trace);
    record(plan, is_online, st, net.n, net.fates, net.now);
    r.map(|_| t)
}
