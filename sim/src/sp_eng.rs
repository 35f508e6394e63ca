//! Histories of one sparse Merkle tree: updates, deletes, reloads, crashes,
//! forks from earlier roots.

use crate::bin_eng::note_faults;
use crate::common::*;
use crate::disk::*;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use fuel_merkle::sparse::{self, MerkleTreeError, Primitive};
use fuel_storage::Mappable;
use std::collections::BTreeMap;

#[derive(Debug)]
pub struct SpT;

impl Mappable for SpT {
    type Key = [u8; 32];
    type SetValue = Primitive;
    type GetValue = Primitive;
}

pub type SpDisk = Disk<SpT>;
pub type SpTree = sparse::MerkleTree<SpT, SpDisk>;
pub type SpErr = MerkleTreeError<SimError>;

/// Contents: key -> data (for rebuilding), and key -> hash of the data.
#[derive(Clone, Default)]
pub struct Model {
    pub data: BTreeMap<H, Vec<u8>>,
    pub map: Map,
}

impl Model {
    pub fn put(&mut self, k: &H, d: &[u8]) {
        if d.is_empty() {
            self.data.remove(k);
            self.map.remove(k);
        } else {
            self.data.insert(*k, d.to_vec());
            self.map.insert(*k, sha(&[d]));
        }
    }
    pub fn root(&self) -> H {
        smt_root(&self.map)
    }
}

pub fn damage(v: &Primitive, arg: u64) -> Primitive {
    (v.0, 2 + (arg % 254) as u8, v.2, v.3)
}

pub fn sp_disk(plan: &Plan, online: Option<(Rates, Rng)>) -> SpDisk {
    let disk = Disk::new(
        Durability::from(plan.get("mode")),
        plan.get("real") == 1,
        online,
    )
    .with_same(|a: &Primitive, b: &Primitive| a == b)
    .with_corrupt(damage);
    if plan.get("archive") == 1 {
        disk.archive();
    }
    disk
}

/// Walks the stored nodes from `root`. `Ok(None)` if the tree is complete and
/// holds exactly `want`, else what is wrong with it.
pub fn audit(disk: &SpDisk, root: &H, want: &Map) -> Option<String> {
    let mut got = Map::new();
    let mut todo = vec![*root];
    while let Some(h) = todo.pop() {
        if h == ZERO {
            continue;
        }
        let v = match disk.peek(&h) {
            None => return Some(format!("node {} is not stored", short(&h))),
            Some(v) => v,
        };
        if sha(&[&[v.1], &v.2, &v.3]) != h {
            return Some(format!("node {} is stored with other contents", short(&h)));
        }
        if v.1 == 0 {
            got.insert(v.2, v.3);
        } else {
            todo.push(v.2);
            todo.push(v.3);
        }
        if got.len() > want.len() {
            return Some("the stored tree holds more leaves than it should".into());
        }
    }
    if got != *want {
        return Some("the stored tree holds other leaves than it should".into());
    }
    None
}

/// Walks the stored nodes from `root`: is each stored in the form that any
/// other reader expects, with its own height?
pub fn form(disk: &SpDisk, root: &H) -> Option<String> {
    let mut todo = vec![(*root, 256)];
    while let Some((h, height)) = todo.pop() {
        if h == ZERO {
            continue;
        }
        let v = match disk.peek(&h) {
            None => return Some(format!("node {} is not stored", short(&h))),
            Some(v) => v,
        };
        if v.1 > 1 || sha(&[&[v.1], &v.2, &v.3]) != h {
            return Some(format!("node {} is stored with other contents", short(&h)));
        }
        if v.0 != if v.1 == 0 { 0 } else { height } {
            return Some(format!("node {} is stored with height {}", short(&h), v.0));
        }
        if v.1 == 1 {
            todo.push((v.2, height - 1));
            todo.push((v.3, height - 1));
        }
    }
    None
}

/// An error of a sparse tree call: the injected one, or a node that is missing
/// or damaged.
pub fn judge_err(
    e: &SpErr,
    d: &Delta,
    disk: &SpDisk,
    step: usize,
    what: &str,
    st: &mut Stats,
) -> Res {
    if names_fault(e, d) {
        st.hit("storage_error_surfaced");
        return Ok(());
    }
    if !d.errs.is_empty() && disk.damaged() == 0 {
        return bad(
            step,
            "wrong-error",
            format!("{} fails with {:?} instead of error {:?}", what, e, d.errs),
        );
    }
    let missing = !matches!(e, MerkleTreeError::StorageError(_)) && disk.damaged() > 0;
    if missing {
        st.hit(match e {
            MerkleTreeError::LoadError(_) => "load_error_for_lost_node",
            MerkleTreeError::DeserializeError(_) => "deserialize_error_for_damaged_tag",
            _ => "child_error_for_lost_or_damaged_node",
        });
        return Ok(());
    }
    bad(
        step,
        "spurious-error",
        format!("{} fails with {:?} (injected: {:?})", what, e, d.errs),
    )
}

/// The nodes a call may read.
enum Near<'a> {
    Root(&'a H),
    /// Those on the way to a key, and their siblings.
    Path(&'a Map, &'a H),
}

impl Near<'_> {
    fn nodes(&self) -> Vec<H> {
        match self {
            Near::Root(r) => vec![**r],
            Near::Path(m, key) => {
                let all: Vec<(&H, &H)> = m.iter().collect();
                let mut xs = &all[..];
                let mut v = vec![smt(xs, 0)];
                let mut d = 0;
                while xs.len() > 1 {
                    let i = xs.partition_point(|(k, _)| !bit(k, d));
                    v.push(smt(&xs[..i], d + 1));
                    v.push(smt(&xs[i..], d + 1));
                    xs = if bit(key, d) { &xs[i..] } else { &xs[..i] };
                    d += 1;
                }
                v
            }
        }
    }
}

/// The error is the injected one, or names a node that the call reads and that
/// is not in storage, or the invalid kind of a node that the call reads.
fn cause(
    e: &SpErr,
    d: &Delta,
    disk: &SpDisk,
    near: Near,
    step: usize,
    what: &str,
    st: &mut Stats,
) -> Res {
    if names_fault(e, d) {
        st.hit("error_is_the_injected_one");
        return Ok(());
    }
    let text = format!("{:?}", e);
    let nodes = near.nodes();
    let load = matches!(near, Near::Root(_));
    let told = match e {
        MerkleTreeError::LoadError(s) => {
            nodes.iter().any(|h| text_of(h) == s.to_lowercase() && disk.absent(h))
        }
        MerkleTreeError::StorageError(_) => false,
        _ => {
            let missing = |h: &H| text.contains(&format!("ChildNotFound({:?})", h)) && disk.absent(h);
            let odd = |h: &H| match disk.seen(h) {
                Some(v) => v.1 > 1 && text.contains(&format!("InvalidPrefix({})", v.1)),
                None => false,
            };
            match e {
                MerkleTreeError::DeserializeError(_) => nodes.iter().any(odd),
                _ => !load && nodes.iter().any(|h| missing(h) || odd(h)),
            }
        }
    };
    if !told {
        return bad(
            step,
            "cause",
            format!("{} fails with {}, which names no node it needs that is missing or damaged", what, text),
        );
    }
    st.hit(if text.contains("InvalidPrefix") {
        "error_names_a_damaged_node"
    } else {
        "error_names_a_missing_node"
    });
    Ok(())
}

fn text_of(h: &H) -> String {
    h.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn bound(d: &Delta, depth: usize, m: Masks, step: usize, what: &str) -> Res {
    if m.bounds && d.fired == 0 && d.calls as usize > 8 * (depth + 1) + 16 {
        return bad(
            step,
            "too-many-accesses",
            format!(
                "{} at depth {} made {} storage calls",
                what, depth, d.calls
            ),
        );
    }
    Ok(())
}

pub fn check_load(
    disk: &SpDisk,
    root: &H,
    step: usize,
    m: Masks,
    st: &mut Stats,
) -> Res<Result<Option<SpTree>, u64>> {
    let (out, d) = disk.call(|| SpTree::load(disk.clone(), root));
    st.hit("call_load");
    if m.layout {
        if let Some((k, _, _)) = disk.changes().first() {
            return bad(
                step,
                "layout",
                format!("load changes the stored node {}", short(k)),
            );
        }
    }
    match out {
        Out::Panic(p) => bad(step, "panic", format!("load({}) {}", short(root), p)),
        Out::Limit => bad(step, "no-progress", "load does not stop"),
        Out::Crash => Ok(Err(d.crash_arg)),
        Out::Ret(Err(e)) => {
            disk.note(err_note(&e));
            if m.causes {
                cause(&e, &d, disk, Near::Root(root), step, "load", st)?;
            }
            judge_err(&e, &d, disk, step, &format!("load({})", short(root)), st)?;
            Ok(Ok(None))
        }
        Out::Ret(Ok(t)) => {
            if m.surface && !d.errs.is_empty() {
                return bad(step, "hidden-error", "load succeeded although a read failed");
            }
            bound(&d, 0, m, step, "load")?;
            let r = get_root(&t, step)?;
            if r != *root {
                return bad(
                    step,
                    "load-root",
                    format!("load({}) has root {}", short(root), short(&r)),
                );
            }
            Ok(Ok(Some(t)))
        }
    }
}

pub fn get_root(t: &SpTree, step: usize) -> Res<H> {
    match guard(|| t.root()) {
        Out::Ret(r) => Ok(r),
        Out::Panic(p) => bad(step, "panic", format!("root {}", p)),
        _ => bad(step, "no-progress", "root does not stop"),
    }
}

/// The nodes on the path of `key` in the tree of `m`, as they are stored, from
/// the leaf up.
pub fn smt_path(m: &Map, key: &H) -> Vec<(H, Primitive)> {
    fn go(xs: &[(&H, &H)], key: &H, d: usize, v: &mut Vec<(H, Primitive)>) -> H {
        match xs.len() {
            0 => ZERO,
            1 => {
                let h = smt_leaf(xs[0].0, xs[0].1);
                v.push((h, (0, 0, *xs[0].0, *xs[0].1)));
                h
            }
            _ => {
                let i = xs.partition_point(|(k, _)| !bit(k, d));
                let (l, r) = if bit(key, d) {
                    let l = smt(&xs[..i], d + 1);
                    (l, go(&xs[i..], key, d + 1, v))
                } else {
                    let l = go(&xs[..i], key, d + 1, v);
                    (l, smt(&xs[i..], d + 1))
                };
                let h = node_hash(&l, &r);
                v.push((h, (256 - d as u32, 1, l, r)));
                h
            }
        }
    }
    let xs: Vec<(&H, &H)> = m.iter().collect();
    let mut v = vec![];
    go(&xs, key, 0, &mut v);
    v
}

/// A write adds only nodes of the new path, all of them if it succeeded, and a
/// delete removes only nodes of the old path, all of them if it succeeded.
#[allow(clippy::too_many_arguments)]
fn layout(
    disk: &SpDisk,
    changes: Vec<(H, Option<Primitive>, Option<Primitive>)>,
    old: &Map,
    new: &Map,
    key: &H,
    done: bool,
    step: usize,
    what: &str,
) -> Res {
    let fail = |k: &H, w: &str| {
        bad(
            step,
            "layout",
            format!("{} of {}: node {} {}", what, short(key), short(k), w),
        )
    };
    let path = smt_path(new, key);
    let stale = if new.len() < old.len() {
        smt_path(old, key)
    } else {
        vec![]
    };
    for (k, _, v) in changes {
        match v {
            Some(v) => match path.iter().find(|p| p.0 == k) {
                Some(p) if p.1 == v => (),
                Some(_) => return fail(&k, "is stored with other contents than it should"),
                None => return fail(&k, "is stored but is not on the path of the key"),
            },
            None => {
                if !stale.iter().any(|p| p.0 == k) {
                    return fail(&k, "is removed but was not on the path of a deleted key");
                }
            }
        }
    }
    if done {
        for p in &path {
            match disk.peek(&p.0) {
                Some(v) if v == p.1 => (),
                Some(_) => return fail(&p.0, "is stored with other contents than it should"),
                None => return fail(&p.0, "is not stored"),
            }
        }
        if let Some(p) = stale.iter().find(|p| disk.peek(&p.0).is_some()) {
            return fail(&p.0, "of the deleted key's path is still stored");
        }
    }
    Ok(())
}

/// The nodes below `root` with their heights: the leaves lie where their keys
/// lead, and every inner node's height is that of its level.
pub fn heights(disk: &SpDisk, root: &H) -> Option<String> {
    let mut todo = vec![(*root, 0usize, ZERO)];
    while let Some((h, d, prefix)) = todo.pop() {
        if h == ZERO {
            continue;
        }
        let v = match disk.peek(&h) {
            Some(v) => v,
            None => return Some(format!("node {} is not stored", short(&h))),
        };
        if v.1 == 0 {
            if v.0 != 0 {
                return Some(format!("leaf {} is stored with height {}", short(&h), v.0));
            }
            if common_prefix(&v.2, &prefix) < d {
                return Some(format!("leaf {} lies on another key's path", short(&h)));
            }
        } else {
            if v.0 as usize != 256 - d {
                return Some(format!(
                    "node {} at depth {} is stored with height {}",
                    short(&h),
                    d,
                    v.0
                ));
            }
            let mut right = prefix;
            right[d / 8] |= 1 << (7 - d % 8);
            todo.push((v.2, d + 1, prefix));
            todo.push((v.3, d + 1, right));
        }
    }
    None
}

pub enum Applied {
    /// The call succeeded.
    Yes,
    /// The call failed; whether it applied is told by the root.
    Failed(bool),
    Crash(u64),
}

/// Applies one update or delete to `tree` and judges the result. On return the
/// model is what the tree holds (unless the process crashed).
#[allow(clippy::too_many_arguments)]
pub fn apply(
    disk: &SpDisk,
    tree: &mut SpTree,
    model: &mut Model,
    key: &H,
    data: &[u8],
    via_delete: bool,
    step: usize,
    m: Masks,
    st: &mut Stats,
) -> Res<Applied> {
    let old_root = model.root();
    let present = model.map.contains_key(key);
    let mut next = model.clone();
    next.put(key, data);
    let new_root = next.root();
    let absent = data.is_empty() && !present;
    let what = if via_delete {
        "delete"
    } else if data.is_empty() {
        "empty update"
    } else {
        "update"
    };
    let before = disk.mutations();
    let depth = smt_depth(&model.map, key);
    let (out, d) = disk.call(|| {
        if via_delete {
            tree.delete(key)
        } else {
            tree.update(key, data)
        }
    });
    let deep = depth.max(smt_depth(&next.map, key)) as u32;
    memory(&d, deep, data.len(), m, step, what, st)?;
    st.hit(if data.is_empty() {
        if absent {
            "call_delete_absent"
        } else {
            "call_delete"
        }
    } else if present {
        "call_overwrite"
    } else {
        "call_insert"
    });
    if m.layout {
        let changes = disk.changes();
        if let Out::Ret(r) = &out {
            layout(disk, changes, &model.map, &next.map, key, r.is_ok(), step, what)?;
            st.hit("write_layout_checked");
        }
    }
    match out {
        Out::Panic(p) => bad(
            step,
            "panic",
            format!("{} of {} {}", what, short(key), p),
        ),
        Out::Limit => bad(step, "no-progress", format!("{} does not stop", what)),
        Out::Crash if !m.unwinds => Ok(Applied::Crash(d.crash_arg)),
        Out::Crash => {
            st.hit("outlived_a_panic_in_storage");
            let root = get_root(tree, step)?;
            disk.note(low(&root));
            old_or_new(&root, &old_root, &new_root, model, next, step, what, st)
        }
        Out::Ret(r) => {
            if m.noop && absent && disk.mutations() != before {
                return bad(
                    step,
                    "noop-writes",
                    format!(
                        "{} of absent key {} changes the stored nodes",
                        what,
                        short(key)
                    ),
                );
            }
            let root = get_root(tree, step)?;
            disk.note(low(&root));
            match r {
                Ok(()) => {
                    if m.surface && !d.errs.is_empty() {
                        return bad(
                            step,
                            "hidden-error",
                            format!("{} succeeded although a storage call failed", what),
                        );
                    }
                    bound(&d, depth, m, step, what)?;
                    if root != new_root {
                        return bad(
                            step,
                            "root",
                            format!(
                                "root is {} instead of {} after {} of {} ({} leaves)",
                                short(&root),
                                short(&new_root),
                                what,
                                short(key),
                                next.map.len()
                            ),
                        );
                    }
                    *model = next;
                    Ok(Applied::Yes)
                }
                Err(e) => {
                    disk.note(err_note(&e));
                    if m.causes {
                        cause(&e, &d, disk, Near::Path(&model.map, key), step, what, st)?;
                    }
                    judge_err(&e, &d, disk, step, what, st)?;
                    old_or_new(&root, &old_root, &new_root, model, next, step, what, st)
                }
            }
        }
    }
}

/// What a failed call did is told by the root.
#[allow(clippy::too_many_arguments)]
fn old_or_new(
    root: &H,
    old_root: &H,
    new_root: &H,
    model: &mut Model,
    next: Model,
    step: usize,
    what: &str,
    st: &mut Stats,
) -> Res<Applied> {
    if root == new_root {
        *model = next;
        st.hit("failed_call_had_applied");
        Ok(Applied::Failed(true))
    } else if root == old_root {
        st.hit("failed_call_had_not_applied");
        Ok(Applied::Failed(false))
    } else {
        bad(
            step,
            "root-after-error",
            format!(
                "root is {} after a failed {}, neither {} (before) nor {} (after)",
                short(root),
                what,
                short(old_root),
                short(new_root)
            ),
        )
    }
}

struct Eng<'a> {
    disk: SpDisk,
    tree: Option<SpTree>,
    model: Model,
    mem: Option<sparse::in_memory::MerkleTree>,
    /// State at the last sync, then every state since.
    states: Vec<Model>,
    unsynced: u64,
    sync_every: u64,
    mode: Durability,
    /// Earlier states (only while nothing was deleted, or on an archive).
    history: Vec<Model>,
    deletes: bool,
    archive: bool,
    /// A delete was begun on storage that removes.
    removes: bool,
    /// So many of the earlier states are durable.
    durable: usize,
    m: Masks,
    st: &'a mut Stats,
    step: usize,
    audit_every: u64,
    keys: Vec<H>,
    prev_root: H,
    is_online: bool,
    held: Held,
    /// The write that failed last.
    again: Option<(H, Vec<u8>, bool)>,
    deepest: u32,
}

impl Eng<'_> {
    fn key(&mut self, sel: u64) -> H {
        let n = self.keys.len() as u64;
        if sel < n {
            return self.keys[sel as usize];
        }
        let x = sel - n;
        let root = self.model.root();
        self.st.hit("special_key");
        match x % 8 {
            0 => root,
            1 => self.prev_root,
            2 | 3 => {
                // The hash of a stored leaf
                let i = (x / 8) as usize;
                match self.model.map.iter().nth(i % self.model.map.len().max(1)) {
                    Some((k, v)) => smt_leaf(k, v),
                    None => ZERO,
                }
            }
            4 => {
                // The hash of some data
                let i = (x / 8) as usize;
                match self.model.map.iter().nth(i % self.model.map.len().max(1)) {
                    Some((_, v)) => *v,
                    None => [0xff; 32],
                }
            }
            5 | 6 => {
                // The hash of an inner node
                let mut h = root;
                for j in 0..(x / 8) % 16 {
                    match self.disk.peek(&h) {
                        Some(v) if v.1 == 1 => {
                            let c = if mix(x, j) & 1 == 0 { v.2 } else { v.3 };
                            if c == ZERO {
                                break;
                            }
                            h = c;
                        }
                        _ => break,
                    }
                }
                h
            }
            _ => ZERO,
        }
    }

    fn reset_mem(&mut self) {
        if self.mem.is_some() {
            // Another history with the same contents: from the last key to the
            // first.
            let mut t = sparse::in_memory::MerkleTree::new();
            for (k, d) in self.model.data.iter().rev() {
                t.update(k, d);
            }
            self.mem = Some(t);
        }
    }

    fn remember(&mut self, m: Model) {
        if self.history.len() < 24 {
            self.history.push(m);
        } else if self.archive {
            let i = mix(self.step as u64, low(&m.root())) as usize % 24;
            self.history[i] = m;
            self.durable = self.durable.min(i);
        }
    }

    fn kept(&mut self) -> Res {
        let (trees, l) = (self.tree.is_some() as usize, self.deepest);
        self.held.check(trees, l, self.m, self.step, self.st)
    }

    fn sync(&mut self) {
        self.disk.sync();
        self.states = vec![self.model.clone()];
        self.unsynced = 0;
        self.durable = self.history.len();
    }

    fn crash(&mut self, arg: u64, next: Option<Model>) -> Res {
        if self.m.unwinds {
            return Ok(());
        }
        let lost = self.disk.crash(arg);
        self.st.hit("crash");
        self.st.add("crash_lost_writes", lost);
        self.tree = None;
        let mut cands: Vec<Model> = match self.mode {
            Durability::Subset | Durability::Txn => vec![self.states[0].clone()],
            Durability::Through => vec![self.model.clone()],
            Durability::Prefix => self.states.clone(),
        };
        if let (Some(n), Durability::Through | Durability::Prefix) = (next, self.mode) {
            cands.push(n);
        }
        let mut why = String::new();
        let n = cands.len();
        for (i, c) in cands.into_iter().enumerate().rev() {
            match audit(&self.disk, &c.root(), &c.map) {
                None => {
                    if n > 1 {
                        self.st.hit(if i == n - 1 {
                            "crash_kept_newest"
                        } else if i == 0 {
                            "crash_fell_back_to_oldest"
                        } else {
                            "crash_fell_back_to_middle"
                        });
                    }
                    self.model = c;
                    if !self.removes {
                        for h in self.history.iter().take(self.durable) {
                            if let Some(w) = audit(&self.disk, &h.root(), &h.map) {
                                return bad(self.step, "earlier-root", format!("after the crash {}", w));
                            }
                            self.st.hit("durable_earlier_root_outlives_crash");
                        }
                    }
                    self.history.retain(|h| audit(&self.disk, &h.root(), &h.map).is_none());
                    self.sync();
                    self.reset_mem();
                    return Ok(());
                }
                Some(w) => why = w,
            }
        }
        bad(
            self.step,
            "torn",
            format!(
                "after the crash the storage holds no complete tree, neither old nor new: {}",
                why
            ),
        )
    }

    fn ensure(&mut self) -> Res<bool> {
        if self.tree.is_some() {
            return Ok(true);
        }
        let root = self.model.root();
        match check_load(&self.disk, &root, self.step, self.m, self.st)? {
            Ok(Some(t)) => {
                self.tree = Some(t);
                self.st.hit("reload");
                Ok(true)
            }
            Ok(None) => Ok(false),
            Err(arg) => {
                self.crash(arg, None)?;
                Ok(false)
            }
        }
    }

    /// What failed last is done again, through the same handle, when storage is
    /// whole again.
    fn apply_again(&mut self) -> Res {
        if let Some((key, data, via_delete)) = self.again.take() {
            if self.tree.is_some() {
                self.st.hit("write_done_again");
                self.apply(key, &data, via_delete)?;
            }
        }
        Ok(())
    }

    fn apply(&mut self, key: H, data: &[u8], via_delete: bool) -> Res<bool> {
        if !self.ensure()? {
            return Ok(false);
        }
        let mut next = self.model.clone();
        next.put(&key, data);
        let old = self.model.clone();
        if data.is_empty() && !self.archive {
            self.removes = true;
        }
        let a = apply(
            &self.disk,
            self.tree.as_mut().unwrap(),
            &mut self.model,
            &key,
            data,
            via_delete,
            self.step,
            self.m,
            self.st,
        )?;
        if self.m.memory {
            self.deepest = self.deepest.max(smt_depth(&next.map, &key) as u32);
        }
        let changed = match a {
            Applied::Crash(arg) => {
                self.crash(arg, Some(next))?;
                return Ok(false);
            }
            Applied::Yes => true,
            Applied::Failed(x) => {
                self.again = Some((key, data.to_vec(), via_delete));
                x
            }
        };
        let r = self.model.root();
        self.st.state(low(&r), self.model.map.len() as u64);
        if changed {
            self.prev_root = old.root();
            if data.is_empty() && old.map.len() != self.model.map.len() && !self.archive {
                self.deletes = true;
                self.history.clear();
                self.durable = 0;
            }
            if !self.deletes {
                self.remember(old);
            }
            self.states.push(self.model.clone());
            if self.states.len() > 64 {
                self.sync();
            }
            if let Some(mem) = &mut self.mem {
                let out = guard(|| {
                    if via_delete {
                        mem.delete(&key)
                    } else {
                        mem.update(&key, data)
                    }
                    mem.root()
                });
                match out {
                    Out::Ret(x) if x == r => (),
                    Out::Ret(x) => {
                        return bad(
                            self.step,
                            "memory-root",
                            format!("in-memory root is {} instead of {}", short(&x), short(&r)),
                        )
                    }
                    _ => return bad(self.step, "panic", format!("in-memory {}", last_panic())),
                }
            }
        }
        if let Applied::Yes = a {
            self.unsynced += 1;
            if self.unsynced >= self.sync_every || self.mode == Durability::Through {
                self.sync();
            }
        }
        if mix(self.step as u64, 77) % self.audit_every == 0 {
            self.audit_now()?;
        }
        Ok(true)
    }

    /// `n` calls that go round between few states, without faults.
    fn soak(&mut self, n: u64, seed: u64) -> Res {
        let grow = seed & 1 == 1;
        let keys: Vec<H> = (0..1 + (seed >> 1) % 3)
            .map(|i| {
                let x = mix(seed, i);
                if x & 3 == 0 || self.keys.is_empty() {
                    sha(&[&x.to_be_bytes()])
                } else {
                    self.keys[(x >> 2) as usize % self.keys.len()]
                }
            })
            .collect();
        let values = [vec![], content(seed >> 8, 1 + seed % 9), content(seed >> 9, 40)];
        let mut known: BTreeMap<Vec<usize>, H> = BTreeMap::new();
        let before = self.model.clone();
        let mut at: Vec<usize> = vec![9; keys.len()];
        let rare = reload_mask(seed);
        let mut spent = 0;
        for j in 0..n {
            // (deep trees cost more)
            if spent > 1_500_000 {
                break;
            }
            let x = mix(seed, j + 10);
            let k = x as usize % keys.len();
            let v = if grow { 1 + (x >> 8) as usize % 2 } else { (x >> 8) as usize % 3 };
            if keys.iter().position(|y| *y == keys[k]) != Some(k) {
                continue;
            }
            at[k] = v;
            let want = match known.get(&at) {
                Some(r) => *r,
                None => {
                    let mut m = before.clone();
                    for (k, v) in at.iter().enumerate() {
                        if *v < 9 && keys.iter().position(|y| *y == keys[k]) == Some(k) {
                            m.put(&keys[k], &values[*v]);
                        }
                    }
                    let r = m.root();
                    known.insert(at.clone(), r);
                    r
                }
            };
            self.model.put(&keys[k], &values[v]);
            if x >> 20 & rare == rare {
                self.prev_root = get_root(self.tree.as_ref().unwrap(), self.step)?;
                let r = self.prev_root;
                self.tree = None;
                match check_load(&self.disk, &r, self.step, self.m, self.st)? {
                    Ok(Some(t)) => self.tree = Some(t),
                    _ => return bad(self.step, "spurious-error", "load fails without a fault"),
                }
            }
            let tree = self.tree.as_mut().unwrap();
            let via = v == 0 && x >> 30 & 1 == 0;
            let (out, rep) = self.disk.call(|| {
                if via {
                    tree.delete(&keys[k])
                } else {
                    tree.update(&keys[k], &values[v])
                }
            });
            self.disk.changes();
            self.disk.sync();
            spent += rep.calls as u64;
            match out {
                Out::Ret(Ok(())) => (),
                Out::Panic(p) => return bad(self.step, "panic", p),
                _ => return bad(self.step, "spurious-error", format!("call {} of many fails", j)),
            }
            let r = get_root(tree, self.step)?;
            if r != want {
                return bad(
                    self.step,
                    "root",
                    format!("root is {} instead of {} after {} calls", short(&r), short(&want), j),
                );
            }
            if let Some(mem) = &mut self.mem {
                let out = guard(|| {
                    mem.update(&keys[k], &values[v]);
                    mem.root()
                });
                match out {
                    Out::Ret(x) if x == r => (),
                    Out::Ret(_) => return bad(self.step, "memory-root", "in-memory root is another"),
                    _ => return bad(self.step, "panic", format!("in-memory {}", last_panic())),
                }
            }
        }
        if !grow && !self.archive {
            self.deletes = true;
            self.removes = true;
            self.history.clear();
        }
        let mut most = before.clone();
        keys.iter().for_each(|k| most.put(k, &values[1]));
        for k in &keys {
            self.deepest = self.deepest.max(smt_depth(&most.map, k) as u32);
        }
        self.sync();
        self.st.hit("soaked");
        self.st.add("soak_calls", n);
        self.audit_now()
    }

    /// The stored tree must be complete (lost and damaged nodes apart: those
    /// the auditor sees as they were).
    fn audit_now(&mut self) -> Res {
        self.st.hit("audit");
        let root = self.model.root();
        if let Some(w) = audit(&self.disk, &root, &self.model.map) {
            return bad(self.step, "storage", w);
        }
        if self.m.layout {
            if let Some(w) = heights(&self.disk, &root) {
                return bad(self.step, "layout", w);
            }
        }
        Ok(())
    }

    fn exec(&mut self, s: &Step) -> Res {
        match s.op.as_str() {
            "update" => {
                let k = self.key(s.a);
                let d = content(s.b >> 16, len_of(s.b & 0xffff));
                self.apply(k, &d, false)?;
            }
            "delete" => {
                let k = self.key(s.a);
                self.apply(k, &[], true)?;
            }
            "empty" => {
                let k = self.key(s.a);
                self.apply(k, &[], false)?;
            }
            // A leaf whose bytes are those of an inner node: the key is its left
            // child, and the value hashes to its right child.
            "forge" => {
                let sel = self.keys.len() as u64 + (s.a & 0x3ff) * 8 + 5;
                let h = self.key(sel);
                let v = match self.disk.peek(&h) {
                    Some(v) if v.1 == 1 => v,
                    _ => return Ok(()),
                };
                let pre = |h: &H| {
                    self.disk
                        .peek(h)
                        .map(|v| [&[v.1][..], &v.2[..], &v.3[..]].concat())
                        .unwrap_or_else(|| vec![7])
                };
                let (k, d) = match s.b % 7 {
                    0 => (v.2, [&v.2[..], &v.3[..]].concat()),
                    1 => (v.2, [&[1][..], &v.2[..], &v.3[..]].concat()),
                    2 => (v.3, pre(&v.2)),
                    3 => (h, pre(&h)),
                    _ => (v.2, pre(&v.3)),
                };
                self.st.hit("forged_leaf");
                if self.apply(k, &d, false)? && s.b & 8 != 0 {
                    self.apply(k, &[], true)?;
                }
            }
            // Delete something that is (probably) there.
            "deletelive" => {
                let n = self.model.map.len();
                if n > 0 {
                    let k = *self.model.map.keys().nth(s.a as usize % n).unwrap();
                    self.apply(k, &[], s.b & 1 == 0)?;
                }
            }
            // Delete the same key twice.
            "deletetwice" => {
                let k = self.key(s.a);
                if self.apply(k, &[], true)? {
                    self.apply(k, &[], s.b & 1 == 0)?;
                }
            }
            // Rewrite a present key with the data it has.
            "rewrite" => {
                let n = self.model.data.len();
                if n > 0 {
                    let (k, d) = self.model.data.iter().nth(s.a as usize % n).unwrap();
                    let (k, d) = (*k, d.clone());
                    self.apply(k, &d, false)?;
                }
            }
            "reopen" => {
                self.sync();
                self.tree = None;
                self.ensure()?;
            }
            // The same few keys, again and again.
            "soak" => {
                if self.disk.damaged() > 0 || !self.ensure()? {
                    return Ok(());
                }
                self.soak(s.a, s.b)?;
            }
            "sync" => self.sync(),
            "crash" => self.crash(s.b, None)?,
            "audit" => self.audit_now()?,
            // An earlier root is still a whole tree: load it, check it, and
            // sometimes go on from it (a fork); the store stays shared.
            "oldroot" => {
                if !self.history.is_empty() {
                    let i = s.a as usize % self.history.len();
                    let h = self.history[i].clone();
                    self.st.hit("earlier_root_checked");
                    if let Some(w) = audit(&self.disk, &h.root(), &h.map) {
                        return bad(self.step, "earlier-root", w);
                    }
                    match check_load(&self.disk, &h.root(), self.step, self.m, self.st)? {
                        Err(arg) => self.crash(arg, None)?,
                        Ok(None) => (),
                        Ok(Some(mut t)) => {
                            let mut hm = h.clone();
                            let mut k = self.key(s.b % (self.keys.len() as u64 + 8));
                            let mut d = content(s.b >> 8, 1 + s.b % 40);
                            let n = hm.map.len();
                            if self.archive && s.b >> 44 & 1 == 0 && n > 0 {
                                k = *hm.map.keys().nth(s.b as usize % n).unwrap();
                                d.clear();
                                self.st.hit("deleted_from_earlier_root");
                            }
                            let a = apply(
                                &self.disk, &mut t, &mut hm, &k, &d, false, self.step, self.m,
                                self.st,
                            )?;
                            match a {
                                Applied::Crash(arg) => self.crash(arg, None)?,
                                _ => {
                                    self.remember(hm.clone());
                                    if s.b >> 40 & 3 == 0 {
                                        self.st.hit("went_on_from_earlier_root");
                                        self.model = hm;
                                        self.tree = Some(t);
                                        self.sync();
                                        self.reset_mem();
                                    }
                                }
                            }
                        }
                    }
                }
            }
            // A node of the tree disappears, or its tag is damaged, at rest.
            "lose" => {
                let x = s.a * 8 + 5 + self.keys.len() as u64;
                let k = if s.a % 5 == 0 {
                    self.model.root()
                } else if s.a % 5 == 1 {
                    let y = s.a * 8 + 2 + self.keys.len() as u64;
                    self.key(y)
                } else {
                    self.key(x)
                };
                if self.disk.hide(&k) {
                    self.st.hit("node_lost_at_rest");
                    if s.b % 3 == 0 {
                        self.sync();
                        self.tree = None;
                    }
                }
            }
            "heal" => {
                self.disk.heal();
                self.apply_again()?;
            }
            // Another implementation wrote the nodes: of these contents, or of
            // others.
            "import" => {
                let i = self.step;
                // What the library has stored is what others read.
                if let Some(t) = &self.tree {
                    if let Some(w) = form(&self.disk, &t.root()) {
                        return bad(i, "form", w);
                    }
                    self.st.hit("exported");
                }
                if s.a & 1 == 1 {
                    let n = match (s.a >> 1) % 16 {
                        0..=3 => s.b % 4,
                        4..=12 => s.b % 40,
                        13 | 14 => s.b % 130,
                        _ if i < 6 => s.b % 700,
                        _ => s.b % 130,
                    };
                    let mut next = Model::default();
                    for i in 0..n {
                        let x = mix(s.b, i);
                        let k = if i < self.keys.len() as u64 && x & 3 != 0 {
                            self.keys[i as usize]
                        } else {
                            sha(&[&x.to_be_bytes()])
                        };
                        next.put(&k, &content(x, 1 + x % 40));
                    }
                    self.model = next;
                    self.st.hit("imported_other_contents");
                }
                let xs: Vec<(&H, &H)> = self.model.map.iter().collect();
                let mut all = vec![];
                smt_nodes(&xs, 0, &mut all);
                if s.b & 1 == 1 {
                    all.reverse();
                }
                self.disk.replace(all);
                self.st.hit("imported");
                self.tree = None;
                self.deletes = false;
                self.removes = false;
                self.history = vec![Model::default()];
                self.sync();
                self.reset_mem();
                self.ensure()?;
                self.audit_now()?;
                // As if it had always been so.
                for j in 0..s.b >> 1 & 3 {
                    let x = mix(s.b, j);
                    let n = self.model.map.len();
                    if x & 1 == 0 && n > 0 {
                        let k = *self.model.map.keys().nth(x as usize / 2 % n).unwrap();
                        if !self.apply(k, &[], x & 2 == 0)? {
                            break;
                        }
                    } else if !self.apply(sha(&[&x.to_be_bytes()]), &[1, 2], false)? {
                        break;
                    }
                }
            }
            // All nodes are removed but those below the current root, and below
            // some of the earlier ones.
            "prune" => {
                self.sync();
                let x = s.a;
                let mut i = 0;
                self.history.retain(|_| {
                    i += 1;
                    x & 1 == 0 && mix(x, i) & 1 == 0
                });
                let mut keep = std::collections::BTreeSet::new();
                let mut todo = vec![self.model.root()];
                todo.extend(self.history.iter().map(|h| h.root()));
                while let Some(h) = todo.pop() {
                    if h == ZERO || !keep.insert(h) {
                        continue;
                    }
                    if let Some(v) = self.disk.peek(&h) {
                        if v.1 == 1 {
                            todo.push(v.2);
                            todo.push(v.3);
                        }
                    }
                }
                self.disk.retain(&keep);
                self.durable = self.history.len();
                self.st.hit("pruned");
                if s.b & 1 == 0 {
                    self.tree = None;
                    self.ensure()?;
                }
                self.audit_now()?;
            }
            o => panic!("unknown op {}", o),
        }
        Ok(())
    }
}

pub fn part<'a>(
    plan: &Plan,
    online: Option<(Rates, Rng)>,
    st: &'a mut Stats,
) -> Box<dyn Part + 'a> {
    let is_online = online.is_some();
    let disk = sp_disk(plan, online);
    let e = Eng {
        tree: Some(SpTree::new(disk.clone())),
        disk,
        model: Model::default(),
        mem: if plan.get("mem") == 1 {
            Some(sparse::in_memory::MerkleTree::new())
        } else {
            None
        },
        states: vec![Model::default()],
        unsynced: 0,
        sync_every: plan.get("sync").max(1),
        mode: Durability::from(plan.get("mode")),
        history: vec![Model::default()],
        deletes: false,
        archive: plan.get("archive") == 1,
        removes: false,
        durable: 0,
        m: Masks::of(plan),
        st,
        step: 0,
        audit_every: plan.get("audit").max(1),
        keys: plan.keys.clone(),
        prev_root: ZERO,
        is_online,
        held: Held::new(),
        again: None,
        deepest: 0,
    };
    if e.m.layout {
        e.disk.watch();
    }
    Box::new(e)
}

pub fn run(plan: &mut Plan, online: Option<(Rates, Rng)>, st: &mut Stats) -> Res<u64> {
    let p = part(plan, online, st);
    run_part(p, plan)
}

impl Part for Eng<'_> {
    fn step(&mut self, plan: &mut Plan, i: usize) -> Res {
        let e = self;
        e.step = i;
        let s = plan.steps[i].clone();
        e.disk.begin(&s.faults, s.calm);
        let mut r = e.exec(&s);
        if r.is_ok() {
            r = e.kept();
        }
        let rep = e.disk.report();
        if e.is_online {
            plan.steps[i].faults = rep.fired.clone();
        }
        note_faults(e.st, &rep);
        vlog!(
            e.st,
            "step {} {} a={} b={}: {} leaves, root {}, {} storage calls, faults {:?}",
            i,
            s.op,
            s.a,
            s.b,
            e.model.map.len(),
            short(&e.model.root()),
            rep.calls,
            rep.fired
        );
        r
    }

    fn finish(&mut self, plan: &Plan) -> Res<u64> {
        let e = self;
        e.step = plan.steps.len();
        e.disk.begin(&[], true);
        e.disk.heal();
        e.ensure()?;
        e.audit_now()?;
        e.apply_again()?;
        e.audit_now()?;
        e.sync();
        e.tree = None;
        e.ensure()?;
        let hist = std::mem::take(&mut e.history);
        for h in &hist {
            if !e.deletes {
                if let Some(w) = audit(&e.disk, &h.root(), &h.map) {
                    return bad(e.step, "earlier-root", w);
                }
            }
        }
        // Faults have stopped: a write goes through, and the tree can be taken
        // apart leaf by leaf down to the empty root.
        let k = e.keys.first().copied().unwrap_or([3; 32]);
        if !e.apply(k, b"last", false)? {
            return bad(e.step, "no-progress", "update fails after the faults stopped");
        }
        if plan.get("drain") == 1 {
            let mut ks: Vec<H> = e.model.map.keys().copied().collect();
            let seed = plan.seed;
            ks.sort_by_key(|k| mix(low(k) ^ seed, u64::from_be_bytes(k[24..].try_into().unwrap())));
            for k in ks {
                if !e.apply(k, &[], true)? {
                    return bad(e.step, "no-progress", "delete fails after the faults stopped");
                }
            }
            e.st.hit("drained");
            if get_root(e.tree.as_ref().unwrap(), e.step)? != ZERO {
                return bad(e.step, "root", "the emptied tree has another root than zero");
            }
        }
        e.kept()?;
        e.tree = None;
        e.kept()?;
        let tr = e.disk.trace();
        let calls = e.disk.total_calls();
        e.st.add("storage_calls", calls);
        Ok(tr)
    }
}
