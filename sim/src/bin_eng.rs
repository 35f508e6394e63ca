//! Histories of one binary Merkle tree: pushes, roots, proofs, reloads,
//! snapshots at earlier counts, crashes.

use crate::common::*;
use crate::disk::*;
use crate::model::*;
use crate::plan::*;
use crate::rng::mix;
use fuel_merkle::binary::{self, MerkleTreeError, Primitive};
use fuel_merkle::common::{AsPathIterator, Position};
use fuel_storage::{Mappable, StorageInspect};

#[derive(Debug)]
pub struct BinT;

impl Mappable for BinT {
    type Key = u64;
    type SetValue = Primitive;
    type GetValue = Primitive;
}

pub type BinDisk = Disk<BinT>;
pub type BinTree = binary::MerkleTree<BinT, BinDisk>;

/// The leaf content shared by all leaves of a virtual base.
pub fn base_leaf() -> H {
    leaf_hash(b"base")
}

pub fn bin_disk(plan: &Plan, online: Option<(Rates, crate::rng::Rng)>) -> BinDisk {
    let base = plan.get("base");
    let d = Disk::new(
        Durability::from(plan.get("mode")),
        plan.get("real") == 1,
        online,
    )
    .with_same(|a: &Primitive, b: &Primitive| a == b);
    if base == 0 {
        return d;
    }
    let mut u = vec![base_leaf()];
    for _ in 0..62 {
        let x = *u.last().unwrap();
        u.push(node_hash(&x, &x));
    }
    d.with_base(move |k| {
        let (start, h) = span_of_key(*k);
        if start + (1u64 << h) <= base {
            Some((*k, u[h as usize]))
        } else {
            None
        }
    })
}

pub fn bin_model(plan: &Plan) -> Mth<H> {
    let base = plan.get("base");
    let leaf = if base > 0 { Some(base_leaf()) } else { None };
    Mth::new(base, leaf, node_hash)
}

pub fn root_of(m: &mut Mth<H>, n: u64) -> H {
    m.root_at(n).unwrap_or_else(empty)
}

pub fn mem_tree(data: &[Vec<u8>]) -> binary::in_memory::MerkleTree {
    let mut t = binary::in_memory::MerkleTree::new();
    for d in data {
        t.push(d);
    }
    t
}

/// Picks a leaf index (valid or not) for a tree of n leaves.
pub fn pick_index(n: u64, a: u64, b: u64) -> u64 {
    match a {
        0 => {
            if n == 0 {
                b
            } else {
                b % n
            }
        }
        1 => n,
        2 => u64::MAX,
        3 => n.saturating_add(b % 100),
        4 => n.saturating_sub(1),
        5 => 0,
        6 => b,
        7 => u64::MAX - b % 3,
        // Around the boundary of the two greatest complete subtrees.
        8 => {
            let k = if n < 2 { 0 } else { 1u64 << (63 - n.leading_zeros()) };
            (k + b % 3).saturating_sub(1)
        }
        _ => n / 2,
    }
}

/// Calls `prove` and judges the answer against the model of the first n leaves.
/// Returns `true` when a crash was simulated.
#[allow(clippy::too_many_arguments)]
pub fn check_prove(
    disk: &BinDisk,
    tree: &BinTree,
    model: &mut Mth<H>,
    n: u64,
    idx: u64,
    step: usize,
    m: Masks,
    st: &mut Stats,
) -> Res<Option<u64>> {
    let (out, d) = disk.call(|| tree.prove(idx));
    st.hit("call_prove");
    memory(&d, levels(n), 0, m, step, "prove", st)?;
    unchanged(disk, m, step, "prove")?;
    match out {
        Out::Panic(p) => bad(step, "panic", format!("prove({}) of {} leaves {}", idx, n, p)),
        Out::Limit => bad(step, "no-progress", "prove does not stop reading storage"),
        Out::Crash => Ok(Some(d.crash_arg)),
        Out::Ret(Ok((root, proof))) => {
            disk.note(low(&root));
            if m.surface && !d.errs.is_empty() {
                return bad(step, "hidden-error", "prove succeeded although a read failed");
            }
            if idx >= n {
                return bad(
                    step,
                    "proof-index",
                    format!("prove({}) succeeded with {} leaves", idx, n),
                );
            }
            bound(&d, levels(n), m, step, "prove")?;
            let want = root_of(model, n);
            if root != want {
                return bad(
                    step,
                    "proof-root",
                    format!(
                        "prove({}) of {} leaves returns root {} instead of {}",
                        idx,
                        n,
                        short(&root),
                        short(&want)
                    ),
                );
            }
            if proof != model.path_at(idx, n) || !verify_path(&want, &proof, idx, n) {
                return bad(
                    step,
                    "proof",
                    format!("prove({}) of {} leaves: the proof does not verify", idx, n),
                );
            }
            st.hit("proof_verified");
            if !d.errs.is_empty() || d.fired > 0 {
                st.hit("proof_right_under_fault");
            }
            Ok(None)
        }
        Out::Ret(Err(e)) => {
            disk.note(err_note(&e));
            if idx >= n {
                match e {
                    MerkleTreeError::InvalidProofIndex(i) if i == idx => {
                        st.hit("proof_index_rejected");
                        return Ok(None);
                    }
                    _ if names_fault(&e, &d) => return Ok(None),
                    _ => {
                        return bad(
                            step,
                            "proof-index",
                            format!("prove({}) of {} leaves fails with {:?}", idx, n, e),
                        )
                    }
                }
            }
            if m.pruned && !names_fault(&e, &d) && excused(&e, disk, &needs(idx, n)) {
                st.hit("proof_refused_for_pruned_nodes");
                return Ok(None);
            }
            if m.causes {
                cause(&e, &d, disk, &needs(idx, n), step, "prove", st)?;
            }
            judge_err(&e, &d, disk, step, "prove", st)?;
            Ok(None)
        }
    }
}

/// The error of a read-only call is the injected one, or names a node that the
/// call needs and that is not in storage.
fn cause(
    e: &MerkleTreeError<SimError>,
    d: &Delta,
    disk: &BinDisk,
    needs: &[u64],
    step: usize,
    what: &str,
    st: &mut Stats,
) -> Res {
    #[cfg(feature = "std")]
    {
        // Its text tells it, too.
        let text = e.to_string();
        let told = match e {
            MerkleTreeError::InvalidProofIndex(k) | MerkleTreeError::LoadError(k) => text
                .split(|c: char| !c.is_ascii_digit())
                .any(|w| w == k.to_string()),
            MerkleTreeError::StorageError(e) => text.contains(&e.to_string()),
        };
        if !told {
            return bad(step, "cause", format!("the text of {:?} is {:?}", e, text));
        }
    }
    if names_fault(e, d) {
        st.hit("error_is_the_injected_one");
        return Ok(());
    }
    match e {
        MerkleTreeError::LoadError(k) if needs.contains(k) && disk.absent(k) => {
            st.hit("error_names_a_missing_node");
            Ok(())
        }
        MerkleTreeError::LoadError(k) => bad(
            step,
            "cause",
            format!(
                "{} fails for node {}, which it {} and which is {}stored",
                what,
                k,
                if needs.contains(k) { "needs" } else { "does not need" },
                if disk.absent(k) { "not " } else { "" }
            ),
        ),
        _ => bad(step, "cause", format!("{} fails with {:?}", what, e)),
    }
}

/// An error of a call that should succeed: it must be the injected one, or come
/// from an entry that is missing.
pub fn judge_err(
    e: &MerkleTreeError<SimError>,
    d: &Delta,
    disk: &BinDisk,
    step: usize,
    what: &str,
    st: &mut Stats,
) -> Res {
    match e {
        _ if names_fault(e, d) => {
            st.hit("storage_error_surfaced");
            Ok(())
        }
        _ if !d.errs.is_empty() && disk.damaged() == 0 => bad(
            step,
            "wrong-error",
            format!("{} fails with {:?} instead of error {:?}", what, e, d.errs),
        ),
        MerkleTreeError::LoadError(_) if disk.damaged() > 0 => {
            st.hit("load_error_for_lost_node");
            Ok(())
        }
        _ => bad(
            step,
            "spurious-error",
            format!("{} fails with {:?} (injected: {:?})", what, e, d.errs),
        ),
    }
}

pub fn bound(d: &Delta, levels: u32, m: Masks, step: usize, what: &str) -> Res {
    if m.bounds && d.fired == 0 && d.calls > 8 * levels + 16 {
        return bad(
            step,
            "too-many-accesses",
            format!("{} of {} levels made {} storage calls", what, levels, d.calls),
        );
    }
    Ok(())
}

fn unchanged(disk: &BinDisk, m: Masks, step: usize, what: &str) -> Res {
    if m.layout {
        if let Some((k, _, _)) = disk.changes().first() {
            return bad(
                step,
                "layout",
                format!("{} changes the stored node {}", what, k),
            );
        }
    }
    Ok(())
}

/// The complete subtrees whose last leaf is number `i`: in-order index, height,
/// and number among those of that height.
fn completed_by(i: u64) -> Vec<(u64, u32, u64)> {
    (0..=(i + 1).trailing_zeros())
        .map(|h| {
            let j = ((i + 1) >> h) - 1;
            (2 * (j << h) + (1u64 << h) - 1, h, j)
        })
        .collect()
}

/// Loads the tree at count `n` and judges the outcome. `model` is consulted for
/// the counts it knows.
pub fn check_load(
    disk: &BinDisk,
    model: &mut Mth<H>,
    n: u64,
    step: usize,
    m: Masks,
    st: &mut Stats,
) -> Res<Result<Option<BinTree>, u64>> {
    let (out, d) = disk.call(|| BinTree::load(disk.clone(), n));
    st.hit("call_load");
    memory(&d, levels(n), 0, m, step, "load", st)?;
    unchanged(disk, m, step, "load")?;
    let known = n <= model.count();
    match out {
        Out::Panic(p) => bad(step, "panic", format!("load({}) {}", n, p)),
        Out::Limit => bad(step, "no-progress", "load does not stop reading storage"),
        Out::Crash => Ok(Err(d.crash_arg)),
        Out::Ret(Err(e)) => {
            disk.note(err_note(&e));
            if m.causes {
                cause(&e, &d, disk, &peak_keys(n), step, &format!("load({})", n), st)?;
            }
            if !known {
                if let MerkleTreeError::LoadError(_) = e {
                    st.hit("load_beyond_count_rejected");
                    return Ok(Ok(None));
                }
            }
            if m.pruned && !names_fault(&e, &d) && excused(&e, disk, &peak_keys(n)) {
                st.hit("load_refused_for_pruned_nodes");
                return Ok(Ok(None));
            }
            judge_err(&e, &d, disk, step, &format!("load({})", n), st)?;
            Ok(Ok(None))
        }
        Out::Ret(Ok(tree)) => {
            if m.surface && !d.errs.is_empty() {
                return bad(step, "hidden-error", "load succeeded although a read failed");
            }
            bound(&d, levels(n), m, step, "load")?;
            let want = if known {
                root_of(model, n)
            } else {
                // More leaves than were ever acknowledged: acceptable only if
                // all the nodes for that count are there.
                let mut acc: Option<H> = None;
                for k in peak_keys(n).iter().rev() {
                    let v = match disk.peek(k) {
                        Some(v) if !disk.is_hidden(k) => v,
                        _ => {
                            return bad(
                                step,
                                "load-missing",
                                format!("load({}) succeeds without node {}", n, k),
                            )
                        }
                    };
                    acc = Some(match acc {
                        None => v.1,
                        Some(r) => node_hash(&v.1, &r),
                    });
                }
                acc.unwrap_or_else(empty)
            };
            let root = check_root(disk, &tree, &want, n, step)?;
            disk.note(low(&root));
            Ok(Ok(Some(tree)))
        }
    }
}

pub fn check_root(disk: &BinDisk, tree: &BinTree, want: &H, n: u64, step: usize) -> Res<H> {
    let root = match guard(|| tree.root()) {
        Out::Ret(r) => r,
        Out::Panic(p) => return bad(step, "panic", format!("root of {} leaves {}", n, p)),
        _ => return bad(step, "no-progress", "root does not stop"),
    };
    if root != *want {
        return bad(
            step,
            "root",
            format!(
                "root of {} leaves is {} instead of {}",
                n,
                short(&root),
                short(want)
            ),
        );
    }
    let _ = disk;
    Ok(root)
}

/// The position of the node over leaves `a..b`, `a` aligned to the split.
fn key_of_range(a: u64, b: u64) -> u64 {
    let h = 64 - (b - a - 1).leading_zeros();
    2 * a + (1u64 << h) - 1
}

/// The nodes from the root to leaf `idx` of `n`, each with its sibling, and the
/// two ranges of leaves below them.
#[allow(clippy::type_complexity)]
fn ranges(idx: u64, n: u64) -> Vec<((u64, u64), (u64, u64))> {
    let (mut a, mut b) = (0, n);
    let mut v = vec![((a, b), (a, b))];
    while b - a > 1 {
        let m = b - a;
        let k = if m.is_power_of_two() { m / 2 } else { 1u64 << (63 - m.leading_zeros()) };
        if idx < a + k {
            v.push(((a, a + k), (a + k, b)));
            b = a + k;
        } else {
            v.push(((a + k, b), (a, a + k)));
            a += k;
        }
    }
    v
}

/// The stored nodes that a proof for leaf `idx` of `n` takes: the leaf, and the
/// siblings of its path, or the complete subtrees that they consist of.
fn needs(idx: u64, n: u64) -> Vec<u64> {
    let mut v = vec![2 * idx];
    for (_, (a, b)) in &ranges(idx, n)[1..] {
        let mut a = *a;
        while a < *b {
            let h = 63 - (b - a).leading_zeros();
            v.push(2 * a + (1u64 << h) - 1);
            a += 1 << h;
        }
    }
    v
}

/// Is it a missing node that a call fails for, which needs all these?
fn excused(e: &MerkleTreeError<SimError>, disk: &BinDisk, needs: &[u64]) -> bool {
    matches!(e, MerkleTreeError::LoadError(_)) && needs.iter().any(|k| disk.peek(k).is_none())
}

/// A process that knows storage and the number of leaves only, and finds its way
/// with the library's position arithmetic.
struct Walker<'a> {
    disk: &'a BinDisk,
    n: u64,
    gave_up: bool,
}

impl Walker<'_> {
    fn last_leaf(p: Position) -> u64 {
        let mut p = p;
        while p.is_node() {
            p = p.right_child();
        }
        p.leaf_index()
    }

    fn first_leaf(p: Position) -> u64 {
        let mut p = p;
        while !p.is_leaf() {
            p = p.left_child();
        }
        p.leaf_index()
    }

    /// The hash of the node at `p`: read, or joined from its children if the
    /// subtree is not complete.
    fn hash(&mut self, p: Position) -> Option<H> {
        let last = Self::last_leaf(p);
        if last < self.n {
            for _ in 0..4 {
                match StorageInspect::get(self.disk, &p.in_order_index()) {
                    Ok(v) => {
                        let v = v.map(|v| v.1);
                        self.gave_up |= v.is_none() && self.disk.is_hidden(&p.in_order_index());
                        return v;
                    }
                    Err(_) => continue,
                }
            }
            self.gave_up = true;
            return None;
        }
        let (l, mut r) = (p.left_child(), p.right_child());
        while Self::first_leaf(r) >= self.n {
            return self.hash(l);
        }
        while r.height() > 0 && Self::first_leaf(r.right_child()) >= self.n && Self::last_leaf(r) >= self.n {
            r = r.left_child();
        }
        let l = self.hash(l)?;
        let r = self.hash(r)?;
        Some(node_hash(&l, &r))
    }

    /// Root, and what is wrong, if anything is.
    fn walk(&mut self, idx: u64) -> Result<Option<(H, H)>, String> {
        let n = self.n;
        let leaf = Position::from_leaf_index(idx);
        if leaf.leaf_index() != idx || leaf.in_order_index() != 2 * idx || !leaf.is_leaf() {
            return Err(format!("position {:?} of leaf {}", leaf, idx));
        }
        // Up from the leaf, until all leaves are below.
        let mut root = leaf;
        let mut up = vec![];
        while Self::first_leaf(root) > 0 || Self::last_leaf(root) + 1 < n {
            let (parent, sibling) = (root.parent(), root.sibling());
            let (start, h) = span_of_key(root.in_order_index());
            let w = 1u64 << h;
            let left = start >> h & 1 == 0;
            let other = if left { start + w } else { start - w };
            let kp = 2 * start.min(other) + 2 * w - 1;
            let ks = 2 * other + w - 1;
            if parent.in_order_index() != kp || sibling.in_order_index() != ks {
                return Err(format!("{:?} has parent {:?} and sibling {:?}", root, parent, sibling));
            }
            let kids = (parent.left_child(), parent.right_child());
            if kids != if left { (root, sibling) } else { (sibling, root) } {
                return Err(format!("{:?} has children {:?}", parent, kids));
            }
            if parent.height() != h + 1 || root.height() != h || sibling.sibling() != root || parent.is_leaf() {
                return Err(format!("height, sibling or kind of {:?} or {:?}", root, parent));
            }
            if root.uncle() != parent.sibling() || Position::from_in_order_index(kp) != parent {
                return Err(format!("uncle of {:?}", root));
            }
            up.push(root.in_order_index());
            if up.len() > 64 {
                return Err(format!("leaf {} has no ancestor over {} leaves", idx, n));
            }
            root = parent;
        }
        up.push(root.in_order_index());
        // Down again, along all positions, and along those of the tree.
        let down: Vec<u64> = root
            .as_path_iter(&leaf)
            .take(70)
            .map(|(p, _)| p.map(|p| p.in_order_index()).unwrap_or(u64::MAX))
            .collect();
        if down.iter().rev().ne(up.iter()) {
            return Err(format!("the path down to leaf {} is {:?}, up {:?}", idx, down, up));
        }
        let path: Vec<(u64, u64)> = root
            .path(&leaf, n)
            .iter()
            .take(70)
            .map(|(p, s)| (p.in_order_index(), s.in_order_index()))
            .collect();
        let want: Vec<(u64, u64)> = ranges(idx, n)
            .iter()
            .map(|(p, s)| (key_of_range(p.0, p.1), key_of_range(s.0, s.1)))
            .collect();
        if path != want {
            return Err(format!("the path to leaf {} of {} is {:?} instead of {:?}", idx, n, path, want));
        }
        // The root from the leaf and the siblings.
        let mut acc = match self.hash(leaf) {
            Some(h) => h,
            None if self.gave_up => return Ok(None),
            None => return Err(format!("leaf {} is not in storage", idx)),
        };
        let first = acc;
        for (p, s) in path[1..].iter().rev() {
            let h = match self.hash(Position::from_in_order_index(*s)) {
                Some(h) => h,
                None if self.gave_up => return Ok(None),
                None => return Err(format!("node {} or one below is not in storage", s)),
            };
            acc = if p < s { node_hash(&acc, &h) } else { node_hash(&h, &acc) };
        }
        Ok(Some((first, acc)))
    }
}

struct Eng<'a> {
    disk: BinDisk,
    tree: Option<BinTree>,
    model: Mth<H>,
    /// Contents of the leaves, when an in-memory tree runs alongside.
    data: Vec<Vec<u8>>,
    mem: Option<binary::in_memory::MerkleTree>,
    durable: u64,
    unsynced: u64,
    sync_every: u64,
    mode: Durability,
    streams: crate::helper::Streams,
    snaps: Vec<(BinTree, u64)>,
    m: Masks,
    st: &'a mut Stats,
    step: usize,
    failed_at: Option<u64>,
    is_online: bool,
    held: Held,
    /// The leaves proved last: asked for again, through the same handle, when
    /// storage is whole again.
    again: Vec<u64>,
}

impl Eng<'_> {
    fn count(&self) -> u64 {
        self.model.count()
    }

    fn crash(&mut self, arg: u64) {
        if self.m.unwinds {
            self.failed_at = Some(self.count());
            return self.st.hit("outlived_a_panic_in_storage");
        }
        let lost = self.disk.crash(arg);
        self.st.hit("crash");
        self.st.add("crash_lost_writes", lost);
        self.tree = None;
        self.snaps.clear();
        let keep = if self.mode == Durability::Through {
            self.count()
        } else {
            self.durable
        };
        if keep < self.count() {
            self.st.hit("crash_rolled_back_acks");
        }
        self.model.truncate(keep);
        self.durable = keep;
        self.unsynced = 0;
        self.failed_at = None;
        if self.mem.is_some() {
            self.data.truncate(keep as usize);
            self.mem = Some(mem_tree(&self.data));
        }
    }

    fn ensure(&mut self) -> Res<bool> {
        if self.tree.is_some() {
            return Ok(true);
        }
        let n = self.count();
        match check_load(&self.disk, &mut self.model, n, self.step, self.m, self.st)? {
            Ok(Some(t)) => {
                self.st.hit("reload");
                self.tree = Some(t);
                Ok(true)
            }
            Ok(None) => Ok(false),
            Err(arg) => {
                self.crash(arg);
                Ok(false)
            }
        }
    }

    /// Returns false when the push was not acknowledged.
    fn push(&mut self, data: &[u8]) -> Res<bool> {
        if !self.ensure()? {
            return Ok(false);
        }
        let tree = self.tree.as_mut().unwrap();
        let n = self.model.count();
        let (out, d) = self.disk.call(|| tree.push(data));
        self.st.hit("call_push");
        memory(&d, levels(n + 1), data.len(), self.m, self.step, "push", self.st)?;
        if self.m.layout {
            self.layout_of_push(n, data, matches!(out, Out::Ret(Ok(()))))?;
        }
        match out {
            Out::Panic(p) => bad(self.step, "panic", format!("push onto {} leaves {}", n, p)),
            Out::Limit => bad(self.step, "no-progress", "push does not stop"),
            Out::Crash => {
                if d.writes > 1 {
                    self.st.hit("crash_in_join");
                }
                self.crash(d.crash_arg);
                Ok(false)
            }
            Out::Ret(Err(e)) => {
                self.disk.note(err_note(&e));
                judge_err(&e, &d, &self.disk, self.step, "push", self.st)?;
                if d.failed_write == Some(1) {
                    self.st.hit("push_failed_at_leaf");
                } else {
                    self.st.hit("push_failed_at_join");
                }
                self.failed_at = Some(n);
                Ok(false)
            }
            Out::Ret(Ok(())) => {
                if self.m.surface && !d.errs.is_empty() {
                    return bad(
                        self.step,
                        "hidden-error",
                        "push succeeded although a storage call failed",
                    );
                }
                bound(&d, levels(n + 1), self.m, self.step, "push")?;
                if self.failed_at == Some(n) {
                    self.st.hit("push_over_residue");
                }
                self.failed_at = None;
                self.model.push(leaf_hash(data));
                if let Some(mem) = &mut self.mem {
                    mem.push(data);
                    self.data.push(data.to_vec());
                }
                self.unsynced += 1;
                if self.unsynced >= self.sync_every {
                    self.sync();
                }
                Ok(true)
            }
        }
    }

    /// A push changes only the nodes it completes, and stores all of them.
    fn layout_of_push(&mut self, n: u64, data: &[u8], done: bool) -> Res {
        self.model.push(leaf_hash(data));
        let mut want = vec![];
        for (k, h, j) in completed_by(n) {
            want.push((k, self.model.aligned(h, j)));
        }
        self.model.truncate(n);
        for (k, _, new) in self.disk.changes() {
            let w = want.iter().find(|w| w.0 == k);
            if w.is_none() || new != w.copied() {
                return bad(
                    self.step,
                    "layout",
                    format!(
                        "the push of leaf {} stores {:?} under {}, expected {:?}",
                        n,
                        new.map(|v| (v.0, short(&v.1))),
                        k,
                        w.map(|v| (v.0, short(&v.1)))
                    ),
                );
            }
        }
        if done {
            for w in want {
                self.layout_at(w)?;
            }
            self.st.hit("push_layout_checked");
        }
        Ok(())
    }

    fn layout_at(&self, w: (u64, H)) -> Res {
        let v = self.disk.peek(&w.0);
        if v != Some(w) {
            return bad(
                self.step,
                "layout",
                format!(
                    "node {} is stored as {:?} instead of {}",
                    w.0,
                    v.map(|v| (v.0, short(&v.1))),
                    short(&w.1)
                ),
            );
        }
        Ok(())
    }

    /// All complete subtrees of the acknowledged leaves are where they belong.
    fn layout(&mut self, most: u64) -> Res {
        if !self.m.layout {
            return Ok(());
        }
        let n = self.count();
        for i in self.model.base.max(n.saturating_sub(most))..n {
            for (k, h, j) in completed_by(i) {
                let w = (k, self.model.aligned(h, j));
                self.layout_at(w)?;
            }
        }
        self.st.hit("layout_walked");
        Ok(())
    }

    fn kept(&mut self) -> Res {
        let trees = self.tree.is_some() as usize + self.snaps.len();
        let l = levels(self.model.count());
        self.held.check(trees, l, self.m, self.step, self.st)
    }

    fn sync(&mut self) {
        self.disk.sync();
        self.durable = self.count();
        self.unsynced = 0;
    }

    fn root(&mut self) -> Res {
        let n = self.count();
        if let Some(t) = &self.tree {
            let want = root_of(&mut self.model, n);
            let r = check_root(&self.disk, t, &want, n, self.step)?;
            self.disk.note(low(&r));
            self.st.state(low(&r), n);
            if let Some(mem) = &mut self.mem {
                match guard(|| mem.root()) {
                    Out::Ret(r) if r == want => (),
                    Out::Ret(r) => {
                        return bad(
                            self.step,
                            "memory-root",
                            format!("in-memory root of {} leaves is {}", n, short(&r)),
                        )
                    }
                    _ => return bad(self.step, "panic", format!("in-memory {}", last_panic())),
                }
            }
        }
        Ok(())
    }

    fn prove(&mut self, idx: u64) -> Res<bool> {
        if !self.ensure()? {
            return Ok(false);
        }
        let n = self.count();
        if self.again.len() >= 4 {
            self.again.remove(0);
        }
        self.again.push(idx);
        let t = self.tree.as_ref().unwrap();
        let c = check_prove(
            &self.disk,
            t,
            &mut self.model,
            n,
            idx,
            self.step,
            self.m,
            self.st,
        )?;
        if let Some(arg) = c {
            self.crash(arg);
            return Ok(false);
        }
        if let Some(mem) = &mut self.mem {
            match guard(|| mem.prove(idx)) {
                Out::Ret(None) if idx >= n => (),
                Out::Ret(Some((r, p)))
                    if idx < n
                        && p == self.model.path_at(idx, n)
                        && r == root_of(&mut self.model, n) => {}
                Out::Ret(_) => {
                    return bad(
                        self.step,
                        "memory-proof",
                        format!("in-memory prove({}) of {} leaves is wrong", idx, n),
                    )
                }
                _ => return bad(self.step, "panic", format!("in-memory {}", last_panic())),
            }
        }
        Ok(true)
    }

    fn prove_again(&mut self) -> Res {
        let idxs = std::mem::take(&mut self.again);
        if self.tree.is_some() {
            for i in idxs {
                self.st.hit("proof_asked_for_again");
                self.prove(i)?;
            }
        }
        Ok(())
    }

    fn walk(&mut self, n: u64, idx: u64) -> Res {
        let disk = self.disk.clone();
        let (out, d) = self.disk.call(|| {
            let mut w = Walker { disk: &disk, n, gave_up: false };
            w.walk(idx)
        });
        match out {
            Out::Panic(p) => bad(self.step, "panic", format!("walking to leaf {} of {} {}", idx, n, p)),
            Out::Limit => bad(self.step, "no-progress", "the walk does not end"),
            Out::Crash => {
                self.crash(d.crash_arg);
                Ok(())
            }
            Out::Ret(Err(w)) => bad(self.step, "walk", w),
            Out::Ret(Ok(None)) => {
                self.st.hit("walk_given_up");
                Ok(())
            }
            Out::Ret(Ok(Some((leaf, root)))) => {
                self.disk.note(low(&root));
                if leaf != self.model.leaf(idx) || root != root_of(&mut self.model, n) {
                    return bad(
                        self.step,
                        "walk",
                        format!("walking from leaf {} of {} gives root {}", idx, n, short(&root)),
                    );
                }
                self.st.hit("walked_to_the_root");
                Ok(())
            }
        }
    }

    fn content(&mut self, a: u64, b: u64) -> Vec<u8> {
        match a {
            // The concatenation of two node hashes, with and without a prefix
            // byte: a leaf that looks like an inner node.
            2 | 3 if self.count() >= 2 && self.model.base == 0 => {
                let mut v = vec![];
                if a == 3 {
                    v.push(1);
                }
                v.extend_from_slice(&self.model.leaf(0));
                v.extend_from_slice(&self.model.leaf(1));
                v
            }
            _ => content(a, len_of(b)),
        }
    }

    fn exec(&mut self, s: &Step) -> Res {
        match s.op.as_str() {
            "push" => {
                let data = self.content(s.a, s.b);
                self.push(&data)?;
                self.root()?;
            }
            "pushn" => {
                for i in 0..s.a {
                    let data = content(mix(s.b, i), s.b % 40);
                    if !self.push(&data)? {
                        break;
                    }
                    if i % 64 == 0 {
                        self.root()?;
                    }
                }
                self.root()?;
            }
            "root" => {
                if self.ensure()? {
                    self.root()?;
                    self.root()?;
                }
            }
            "prove" => {
                let idx = pick_index(self.count(), s.a, s.b);
                self.prove(idx)?;
                self.root()?;
            }
            "proveall" => {
                let n = self.count();
                let lo = n.saturating_sub(40);
                let lo2 = self.model.base.saturating_sub(2).max(lo);
                for i in (0..n.min(3)).chain(lo2.max(3)..n) {
                    if !self.prove(i)? {
                        break;
                    }
                }
            }
            // Very many leaves.
            "soak" if s.b & 6 == 6 => {
                for i in 0..s.a {
                    let data = content(mix(s.b, i), s.b >> 8 & 7);
                    if !self.push(&data)? {
                        break;
                    }
                    if i & 1023 == 5 {
                        self.root()?;
                        let n = self.count();
                        self.prove(mix(s.b, !i) % n)?;
                    }
                }
                self.st.hit("soaked_pushes");
                self.st.add("soak_calls", s.a);
                self.root()?;
            }
            // A few proofs, asked for again and again.
            "soak" => {
                let n = self.count();
                if self.disk.damaged() > 0 || n == 0 || !self.ensure()? {
                    return Ok(());
                }
                let mut idxs: Vec<u64> = (0..1 + s.b % 5).map(|j| mix(s.b, j) % n).collect();
                for i in &idxs {
                    if !self.prove(*i)? {
                        return Ok(());
                    }
                }
                // (what is pruned has no proof)
                if let Some(t) = &self.tree {
                    let disk = &self.disk;
                    idxs.retain(|i| matches!(disk.call(|| t.prove(*i)).0, Out::Ret(Ok(_))));
                }
                if idxs.is_empty() {
                    return Ok(());
                }
                let root = root_of(&mut self.model, n);
                let want: Vec<Vec<H>> = idxs.iter().map(|i| self.model.path_at(*i, n)).collect();
                let rare = reload_mask(s.b);
                for j in 0..s.a {
                    let x = mix(s.b, j) as usize;
                    let i = x % idxs.len();
                    if x as u64 >> 20 & rare == rare {
                        self.tree = None;
                        self.ensure()?;
                    }
                    let tree = match &self.tree {
                        Some(t) => t,
                        None => return bad(self.step, "spurious-error", "load fails without a fault"),
                    };
                    let idx = if x >> 30 & 31 == 0 { n + j } else { idxs[i] };
                    let (out, _) = self.disk.call(|| tree.prove(idx));
                    let fine = match out {
                        Out::Ret(Ok((r, p))) => {
                            idx < n && r == root && p == want[i]
                        }
                        Out::Ret(Err(_)) => idx >= n,
                        Out::Panic(p) => return bad(self.step, "panic", p),
                        _ => false,
                    };
                    if !fine {
                        return bad(
                            self.step,
                            "proof",
                            format!("prove({}) of {} leaves is wrong the {}th time", idx, n, j),
                        );
                    }
                }
                self.st.hit("soaked");
                self.st.add("soak_calls", s.a);
                self.root()?;
            }
            "reopen" => {
                self.sync();
                self.tree = None;
                self.ensure()?;
                self.root()?;
                self.layout(40)?;
            }
            "sync" => self.sync(),
            "crash" => {
                self.crash(s.b);
                self.layout(40)?;
            }
            "snap" => {
                let n = self.count();
                let c = match s.a {
                    0 => s.b % (n + 1),
                    1 => n.saturating_sub(1),
                    2 => n,
                    3 => n / 2,
                    4 => {
                        if n == 0 {
                            0
                        } else {
                            1 << (63 - n.leading_zeros())
                        }
                    }
                    _ => n.saturating_sub(s.b % 8),
                };
                match check_load(&self.disk, &mut self.model, c, self.step, self.m, self.st)? {
                    Err(arg) => self.crash(arg),
                    Ok(None) => (),
                    Ok(Some(t)) => {
                        self.st.hit("snapshot_opened");
                        if self.snaps.len() >= 4 {
                            self.snaps.remove(0);
                        }
                        self.snaps.push((t, c));
                    }
                }
            }
            "snapuse" => {
                if !self.snaps.is_empty() {
                    let i = s.a as usize % self.snaps.len();
                    let (t, n) = self.snaps.swap_remove(i);
                    let want = root_of(&mut self.model, n);
                    check_root(&self.disk, &t, &want, n, self.step)?;
                    let idx = pick_index(n, (s.b >> 8) % 10, s.b >> 16);
                    let c = check_prove(
                        &self.disk,
                        &t,
                        &mut self.model,
                        n,
                        idx,
                        self.step,
                        self.m,
                        self.st,
                    )?;
                    if n < self.count() {
                        self.st.hit("old_snapshot_used");
                    }
                    if let Some(arg) = c {
                        self.crash(arg);
                    } else {
                        self.snaps.push((t, n));
                    }
                }
            }
            "loadbig" => {
                let n = self.count();
                let c = match s.a {
                    0 => n + 1 + s.b % 4,
                    1 => n.next_power_of_two() + s.b % 2,
                    2 => n * 2 + s.b % 3,
                    3 => s.b >> (3 + s.b % 50),
                    4 => (1u64 << (s.b % 61)) - (s.b >> 8) % 2,
                    5 => (n | (1 << (s.b % 60))).max(n + 1),
                    _ => n + s.b % 1000,
                };
                let c = c.min((1 << 61) - 1);
                if c > n {
                    if let Err(arg) =
                        check_load(&self.disk, &mut self.model, c, self.step, self.m, self.st)?
                    {
                        self.crash(arg);
                    }
                }
            }
            // A node of the tree disappears from the disk.
            "lose" => {
                let n = self.count();
                let k = match s.a {
                    0 => {
                        let p = peak_keys(n);
                        if p.is_empty() {
                            return Ok(());
                        }
                        p[s.b as usize % p.len()]
                    }
                    1 => 2 * (s.b % n.max(1)),
                    2 => 2 * n.saturating_sub(1 + s.b % 4),
                    _ => {
                        // An ancestor of a late leaf
                        let mut k = 2 * n.saturating_sub(1 + s.b % 8);
                        for _ in 0..(s.b >> 8) % 6 {
                            let (st, h) = span_of_key(k);
                            let st = st >> (h + 1) << (h + 1);
                            k = 2 * st + (2u64 << h) - 1;
                        }
                        k
                    }
                };
                if self.disk.hide(&k) {
                    self.st.hit("node_lost_at_rest");
                    if s.b % 3 == 0 {
                        self.tree = None;
                        self.sync();
                    } else if s.b % 3 == 1 {
                        self.prove(span_of_key(k).0)?;
                    }
                }
            }
            "heal" => {
                self.disk.heal();
                self.prove_again()?;
            }
            // The tree goes back to an earlier count, and on with other leaves;
            // what the abandoned ones left in storage stays there.
            "rollback" => {
                let n = self.count();
                let least = self.model.base;
                let c = match s.a % 8 {
                    0 => n.saturating_sub(1),
                    1 => n.saturating_sub(2),
                    2 => least,
                    3 if n > 0 => 1 << (63 - n.leading_zeros()),
                    4 if n > 1 => 1 << (63 - (n - 1).leading_zeros()),
                    5 => n,
                    6 => n.saturating_sub((s.a >> 3) % 12),
                    _ => least + (s.a >> 3) % (n - least + 1),
                }
                .max(least);
                // (not to a count that was pruned away)
                let c = if peak_keys(c).iter().all(|k| self.disk.peek(k).is_some()) { c } else { n };
                if c < n {
                    self.st.hit("rolled_back");
                }
                self.sync();
                self.tree = None;
                self.snaps.retain(|x| x.1 <= c);
                self.model.truncate(c);
                self.durable = c;
                self.failed_at = None;
                if self.mem.is_some() {
                    self.data.truncate(c as usize);
                    self.mem = Some(mem_tree(&self.data));
                }
                self.ensure()?;
                self.root()?;
                if s.b & 1 == 0 && c > 0 {
                    self.prove(pick_index(c, (s.b >> 1) % 10, s.b >> 8) % c)?;
                }
            }
            // Another implementation wrote the nodes: of these leaves, or of others.
            "import" => {
                // What the library has stored is what others read.
                if self.tree.is_some() && self.disk.damaged() == 0 {
                    for i in self.model.base..self.count() {
                        for (k, h, j) in completed_by(i) {
                            let want = Some((k, self.model.aligned(h, j)));
                            let v = self.disk.peek(&k);
                            if v != want {
                                return bad(
                                    self.step,
                                    "form",
                                    format!("the node with key {} is stored as {:?}", k, v.map(|v| (v.0, short(&v.1)))),
                                );
                            }
                        }
                    }
                    self.st.hit("exported");
                }
                if s.a & 1 == 1 {
                    let n = match (s.a >> 1) % 4 {
                        0 => s.b % 4,
                        1 => s.b % 70,
                        2 => s.b % 700,
                        _ => 1 << (s.b % 9),
                    };
                    self.model.truncate(self.model.base);
                    self.data.clear();
                    for i in 0..n {
                        let d = content(mix(s.b, i), i % 50);
                        self.model.push(leaf_hash(&d));
                        self.data.push(d);
                    }
                    self.st.hit("imported_other_leaves");
                }
                let n = self.count();
                let mut all = vec![];
                for i in self.model.base..n {
                    for (k, h, j) in completed_by(i) {
                        all.push((k, (k, self.model.aligned(h, j))));
                    }
                }
                if s.b & 1 == 1 {
                    all.reverse();
                }
                self.disk.replace(all);
                self.st.hit("imported");
                self.tree = None;
                self.snaps.clear();
                self.durable = n;
                self.unsynced = 0;
                self.failed_at = None;
                if self.mem.is_some() {
                    self.mem = Some(mem_tree(&self.data));
                }
                self.ensure()?;
                self.root()?;
                if n > 0 && s.b & 2 == 0 {
                    self.prove(mix(s.a, s.b) % n)?;
                }
            }
            // All nodes are removed but those the tree needs to go on, and those
            // that some proofs need.
            "prune" => {
                let n = self.count();
                let mut keep: std::collections::BTreeSet<u64> = peak_keys(n).into_iter().collect();
                if n > 0 {
                    for i in 0..s.a % 4 {
                        keep.extend(needs(mix(s.b, i) % n, n));
                    }
                    if s.a % 4 == 3 {
                        keep.extend(needs(n - 1, n));
                    }
                }
                self.sync();
                self.disk.retain(&keep);
                self.st.hit("pruned");
                if s.b & 1 == 0 {
                    self.tree = None;
                    self.ensure()?;
                }
                self.root()?;
                for i in 0..s.a % 4 {
                    if n > 0 && !self.prove(mix(s.b, i) % n)? {
                        break;
                    }
                }
            }
            // The provers and the verifier of the test helpers.
            "stream" | "take" | "verify" => {
                let data = self.mem.is_some().then_some(&self.data[..]);
                let t = self.streams.exec(s, &mut self.model, data, self.step, self.st)?;
                self.disk.note(t);
            }
            // Another process walks over the stored nodes.
            "walk" => {
                let n = self.count();
                let c = match s.a % 4 {
                    0 => n.saturating_sub((s.a >> 2) % 9),
                    1 => (s.a >> 2) % (n + 1),
                    _ => n,
                };
                if c > 0 {
                    self.walk(c, pick_index(c, s.b % 10, s.b >> 8) % c)?;
                }
            }
            // A leaf whose contents are those of an inner node.
            "forge" => {
                let n = self.count();
                if n >= 2 {
                    let h = (1 + (s.b >> 8) % 4).min(63 - n.leading_zeros() as u64) as u32;
                    let j = (s.b >> 16) % (n >> h);
                    let l = self.model.aligned(h - 1, 2 * j);
                    let r = self.model.aligned(h - 1, 2 * j + 1);
                    let inner = self.model.aligned(h, j);
                    let d: Vec<u8> = match s.a % 9 {
                        0 => [&l[..], &r[..]].concat(),
                        1 => [&[1][..], &l[..], &r[..]].concat(),
                        2 => [&[0][..], &l[..], &r[..]].concat(),
                        3 => [&r[..], &l[..]].concat(),
                        4 => inner.to_vec(),
                        5 => l.to_vec(),
                        6 => [&[0, 1][..], &l[..], &r[..]].concat(),
                        7 => [&l[1..], &r[..]].concat(),
                        _ => [&[1][..], &l[..]].concat(),
                    };
                    self.st.hit("forged_leaf");
                    self.push(&d)?;
                    self.root()?;
                    let idx = self.count().saturating_sub(1);
                    self.prove(idx)?;
                }
            }
            // A shorter list of leaves that look like this tree's inner nodes:
            // it must not have this tree's root.
            "collapse" => {
                let n = self.count();
                if (2..=200).contains(&n) && self.model.base == 0 {
                    let h = (1 + s.a % 5).min(63 - n.leading_zeros() as u64) as u32;
                    let mut data = vec![];
                    let mut a = 0;
                    while a < n {
                        let b = (a + (1 << h)).min(n);
                        let mut m = bin_model(&Plan::default());
                        for i in a..b {
                            m.push(self.model.leaf(i));
                        }
                        let k = if b - a > 1 { 1u64 << (63 - (b - a - 1).leading_zeros()) } else { 0 };
                        let d: Vec<u8> = if k == 0 {
                            m.leaf(0).to_vec()
                        } else {
                            let mut r = bin_model(&Plan::default());
                            for i in a + k..b {
                                r.push(self.model.leaf(i));
                            }
                            let (l, r) = (root_of(&mut m, k), root_of(&mut r, b - a - k));
                            let mut d = if s.b & 1 == 0 { vec![] } else { vec![1] };
                            d.extend_from_slice(&l);
                            d.extend_from_slice(&r);
                            d
                        };
                        data.push(d);
                        a = b;
                    }
                    let want = root_of(&mut self.model, n);
                    let mut m = bin_model(&Plan::default());
                    for d in &data {
                        m.push(leaf_hash(d));
                    }
                    let forged = root_of(&mut m, data.len() as u64);
                    match guard(|| mem_tree(&data).root()) {
                        Out::Ret(r) if r == want => {
                            return bad(
                                self.step,
                                "forged-root",
                                format!("{} leaves have the root of the {} leaves they stand for", data.len(), n),
                            )
                        }
                        Out::Ret(r) if r == forged => self.st.hit("forged_list"),
                        Out::Ret(r) => {
                            return bad(
                                self.step,
                                "memory-root",
                                format!("root of {} forged leaves is {}", data.len(), short(&r)),
                            )
                        }
                        _ => return bad(self.step, "panic", format!("in-memory {}", last_panic())),
                    }
                }
            }
            o => panic!("unknown op {}", o),
        }
        Ok(())
    }
}

pub fn part<'a>(
    plan: &Plan,
    online: Option<(Rates, crate::rng::Rng)>,
    st: &'a mut Stats,
) -> Box<dyn Part + 'a> {
    let is_online = online.is_some();
    let disk = bin_disk(plan, online);
    let base = plan.get("base");
    let mut e = Eng {
        tree: None,
        model: bin_model(plan),
        data: vec![],
        mem: if plan.get("mem") == 1 && base == 0 {
            Some(mem_tree(&[]))
        } else {
            None
        },
        durable: base,
        unsynced: 0,
        sync_every: plan.get("sync").max(1),
        mode: Durability::from(plan.get("mode")),
        snaps: vec![],
        streams: Default::default(),
        m: Masks::of(plan),
        st,
        step: 0,
        failed_at: None,
        disk,
        is_online,
        held: Held::new(),
        again: Vec::new(),
    };
    if e.m.layout {
        e.disk.watch();
    }
    if base == 0 {
        e.tree = Some(BinTree::new(e.disk.clone()));
    }
    Box::new(e)
}

pub fn run(plan: &mut Plan, online: Option<(Rates, crate::rng::Rng)>, st: &mut Stats) -> Res<u64> {
    let p = part(plan, online, st);
    run_part(p, plan)
}

impl Part for Eng<'_> {
    fn step(&mut self, plan: &mut Plan, i: usize) -> Res {
        let e = self;
        e.step = i;
        let s = plan.steps[i].clone();
        e.disk.begin(&s.faults, s.calm);
        let mut r = e.exec(&s);
        if r.is_ok() {
            r = e.kept();
        }
        let rep = e.disk.report();
        if e.is_online {
            plan.steps[i].faults = rep.fired.clone();
        }
        note_faults(e.st, &rep);
        vlog!(
            e.st,
            "step {} {} a={} b={}: {} leaves, {} storage calls, faults {:?}",
            i,
            s.op,
            s.a,
            s.b,
            e.count(),
            rep.calls,
            rep.fired
        );
        r
    }

    /// Faults have stopped: everything must be there.
    fn finish(&mut self, plan: &Plan) -> Res<u64> {
        let e = self;
        e.step = plan.steps.len();
        e.disk.begin(&[], true);
        e.disk.heal();
        e.ensure()?;
        e.root()?;
        e.prove_again()?;
        e.sync();
        e.tree = None;
        e.ensure()?;
        e.root()?;
        e.layout(u64::MAX)?;
        let n = e.count();
        let mut idx: Vec<u64> = vec![0, n / 2, n.wrapping_sub(1), n, u64::MAX];
        if n <= 24 {
            idx.extend(0..n);
        } else {
            idx.extend((0..6).map(|i| mix(n, i) % n));
        }
        for i in idx {
            e.prove(i)?;
        }
        for c in [n / 2, n.saturating_sub(1), n.saturating_sub(3)] {
            check_load(&e.disk, &mut e.model, c, e.step, e.m, e.st)?.ok();
        }
        if plan.property == "C21" && n > 0 {
            for i in 0..4 {
                e.walk(n, mix(n, i) % n)?;
            }
            e.walk(n, n - 1)?;
            e.walk(n, 0)?;
        }
        // The tree goes on working.
        for i in 0..2 {
            if !e.push(&[i])? {
                return bad(e.step, "no-progress", "push fails after the faults stopped");
            }
            e.root()?;
        }
        let n = e.count();
        e.prove(n - 1)?;
        e.kept()?;
        e.tree = None;
        e.snaps.clear();
        e.kept()?;
        let tr = e.disk.trace();
        let calls = e.disk.total_calls();
        e.st.add("storage_calls", calls);
        Ok(tr)
    }
}

pub fn note_faults(st: &mut Stats, rep: &Report) {
    for f in &rep.fired {
        st.hit(match f.kind {
            FK::Err => "fault_error",
            FK::ErrAfter => "fault_error_after_effect",
            FK::Full => "fault_disk_full",
            FK::Crash => "fault_crash_before",
            FK::CrashAfter => "fault_crash_after",
            FK::Lost => "fault_lost_entry",
            FK::Tag => "fault_damaged_tag",
        });
    }
}
