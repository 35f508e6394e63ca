//! Histories of one binary Merkle sum tree.

use crate::bin_eng::note_faults;
use crate::common::*;
use crate::disk::*;
use crate::model::*;
use crate::plan::*;
use crate::rng::Rng;
use fuel_merkle::sum;
use fuel_storage::Mappable;
use std::marker::PhantomData;

/// The value type of the sum tree's storage is not nameable from outside; it is
/// inferred.
pub struct SumT<N>(PhantomData<fn() -> N>);

impl<N: Clone> Mappable for SumT<N> {
    type Key = [u8; 32];
    type SetValue = N;
    type GetValue = N;
}

pub struct View {
    fee: u64,
    hash: H,
    children: Option<(H, H)>,
    height: u32,
    leaf: bool,
    node: bool,
}

/// Walks the stored nodes below `root`: fees add up, hashes fit, and the leaves
/// are `leaves` in order.
fn audit<N: Clone>(
    disk: &Disk<SumT<N>>,
    view: &dyn Fn(&N) -> View,
    root: &(u64, H),
    leaves: &[(u64, H)],
) -> Option<String> {
    let mut got = vec![];
    let mut todo = vec![*root];
    while let Some((fee, h)) = todo.pop() {
        let n = match disk.peek(&h) {
            None => return Some(format!("node {} is not stored", short(&h))),
            Some(n) => view(&n),
        };
        if n.hash != h {
            return Some(format!("node {} is stored with another digest", short(&h)));
        }
        if n.fee != fee {
            return Some(format!(
                "node {} is stored with fee {} but counts as {}",
                short(&h),
                n.fee,
                fee
            ));
        }
        match n.children {
            None => got.push((n.fee, h)),
            Some((l, r)) => {
                let (a, b) = match (disk.peek(&l), disk.peek(&r)) {
                    (Some(a), Some(b)) => (view(&a).fee, view(&b).fee),
                    _ => return Some(format!("a child of node {} is not stored", short(&h))),
                };
                if a.checked_add(b) != Some(n.fee) {
                    return Some(format!(
                        "fee {} of node {} is not the sum of {} and {}",
                        n.fee,
                        short(&h),
                        a,
                        b
                    ));
                }
                if sum_join(&(a, l), &(b, r)).1 != h {
                    return Some(format!("digest of node {} does not fit", short(&h)));
                }
                todo.push((b, r));
                todo.push((a, l));
            }
        }
        if got.len() > leaves.len() {
            return Some("the stored tree holds too many leaves".into());
        }
    }
    if got != leaves {
        return Some("the stored tree holds other leaves than were pushed".into());
    }
    None
}

fn fits(e: &SimError, d: &Delta, step: usize, what: &str) -> Res {
    if names_fault(e, d) {
        Ok(())
    } else {
        bad(
            step,
            "spurious-error",
            format!("{} fails with {:?}, injected {:?}", what, e, d.errs),
        )
    }
}


struct Eng<'a, N: Clone, Tr, P, R, V, M> {
    disk: Disk<SumT<N>>,
    tree: Tr,
    mk: M,
    push: P,
    root: R,
    view: V,
    model: Mth<(u64, H)>,
    total: u64,
    /// Roots that `root` returned, with the number of leaves, since which the
    /// nodes below them must stay on the disk; synced or not.
    roots: Vec<((u64, H), Vec<(u64, H)>, bool)>,
    unsynced: u64,
    sync_every: u64,
    m: Masks,
    st: &'a mut Stats,
    step: usize,
    pushed: Vec<(u64, Vec<u8>)>,
    is_online: bool,
    /// What was stored was removed: the roots to come are not complete.
    pruned: bool,
    held: Held,
    /// The nodes of all trees that this one may have been so far: fee, height,
    /// children.
    legit: std::collections::BTreeMap<H, (u64, u32, Option<(H, H)>)>,
}

impl<N, Tr, P, R, V, M> Eng<'_, N, Tr, P, R, V, M>
where
    N: Clone,
    M: Fn() -> Tr,
    P: Fn(&mut Tr, u64, &[u8]) -> Result<(), SimError>,
    R: Fn(&mut Tr) -> Result<(u64, H), SimError>,
    V: Fn(&N) -> View,
{
    fn want(&mut self) -> (u64, H) {
        let n = self.model.count();
        self.model.root_at(n).unwrap_or_else(|| (0, empty()))
    }

    /// The process dies: the tree is gone, the disk stays. A new tree starts on
    /// the dirty storage.
    fn crash(&mut self, arg: u64) -> Res {
        if self.m.unwinds {
            self.st.hit("outlived_a_panic_in_storage");
            return Ok(());
        }
        let lost = self.disk.crash(arg);
        self.st.hit("crash");
        self.st.add("crash_lost_writes", lost);
        self.tree = (self.mk)();
        self.pruned = false;
        self.model = Mth::new(0, None, sum_join);
        self.total = 0;
        self.pushed.clear();
        self.unsynced = 0;
        self.roots.retain(|r| r.2);
        self.audit_roots()
    }

    fn sync(&mut self) {
        self.disk.sync();
        for r in &mut self.roots {
            r.2 = true;
        }
        self.unsynced = 0;
    }

    fn audit_roots(&mut self) -> Res {
        for (r, leaves, _) in &self.roots {
            if let Some(w) = audit(&self.disk, &self.view, r, leaves) {
                return bad(
                    self.step,
                    "storage",
                    format!("below root {} of {} leaves: {}", short(&r.1), leaves.len(), w),
                );
            }
        }
        self.st.hit("audit");
        Ok(())
    }

    /// Adds the nodes of the tree of `n` leaves that are above its last leaf.
    fn allow(&mut self, n: u64) {
        if n == 0 {
            return;
        }
        let last = self.model.leaf(n - 1);
        self.legit.entry(last.1).or_insert((last.0, 0, None));
        let mut join = |l: (u64, H), r: (u64, H), hl: u32| {
            let x = sum_join(&l, &r);
            self.legit.entry(x.1).or_insert((x.0, hl + 1, Some((l.1, r.1))));
            x
        };
        // The complete subtrees that end at the last leaf.
        let mut peak = (last, 0);
        while n >> peak.1 & 1 == 0 {
            let h = peak.1;
            let left = self.model.aligned(h, (n >> h) - 2);
            peak = (join(left, peak.0, h), h + 1);
        }
        // And their joins with those before.
        let mut acc = peak.0;
        for h in peak.1 + 1..64 {
            if n >> h & 1 == 1 {
                let left = self.model.aligned(h, (n >> h) - 1);
                acc = join(left, acc, h);
            }
        }
    }

    /// What a call changed in storage is that it added nodes of its own tree.
    fn layout(&mut self, pushed: Option<(u64, &[u8])>, what: &str) -> Res {
        let n = self.model.count();
        if let Some((fee, data)) = pushed {
            self.model.push(sum_leaf(fee, data));
            self.allow(n + 1);
            self.model.truncate(n);
        }
        for (k, old, new) in self.disk.changes() {
            let fail = |w: String| {
                bad(
                    self.step,
                    "layout",
                    format!("{} with {} leaves: node {} {}", what, n, short(&k), w),
                )
            };
            if old.is_some() {
                return fail("was there and is changed or removed".into());
            }
            let Some(v) = new.as_ref().map(&self.view) else {
                continue;
            };
            match self.legit.get(&k) {
                None => return fail("is added, but is none of the tree's".into()),
                Some((fee, height, kids)) => {
                    if (v.hash, v.fee, v.height, v.children) != (k, *fee, *height, *kids) {
                        return fail(format!(
                            "is stored as {} with fee {} and height {}, expected fee {} and height {}",
                            short(&v.hash),
                            v.fee,
                            v.height,
                            fee,
                            height
                        ));
                    }
                    if v.leaf != kids.is_none() || v.node != kids.is_some() {
                        return fail("says wrongly whether it is a leaf".into());
                    }
                    self.st.hit("stored_node_checked");
                }
            }
        }
        Ok(())
    }

    fn do_push(&mut self, fee: u64, data: &[u8]) -> Res<bool> {
        let fee = fee.min(u64::MAX - self.total);
        let n = self.model.count();
        let (tree, push) = (&mut self.tree, &self.push);
        let (out, d) = self.disk.call(|| push(tree, fee, data));
        self.st.hit("call_push");
        memory(&d, levels(n + 1), data.len(), self.m, self.step, "push", self.st)?;
        if self.m.layout {
            self.layout(Some((fee, data)), "push")?;
        }
        match out {
            Out::Panic(p) => bad(self.step, "panic", format!("push onto {} leaves {}", n, p)),
            Out::Limit => bad(self.step, "no-progress", "push does not stop"),
            Out::Crash => {
                self.crash(d.crash_arg)?;
                Ok(false)
            }
            Out::Ret(Err(e)) => {
                self.disk.note(err_note(&e));
                fits(&e, &d, self.step, "push")?;
                self.st.hit(if d.failed_write == Some(1) {
                    "push_failed_at_leaf"
                } else {
                    "push_failed_at_join"
                });
                self.st.hit("storage_error_surfaced");
                Ok(false)
            }
            Out::Ret(Ok(())) => {
                if self.m.surface && !d.errs.is_empty() {
                    return bad(
                        self.step,
                        "hidden-error",
                        "push succeeded although a storage call failed",
                    );
                }
                crate::bin_eng::bound(&d, levels(n + 1), self.m, self.step, "push")?;
                self.model.push(sum_leaf(fee, data));
                self.pushed.push((fee, data.to_vec()));
                self.total += fee;
                if self.total == u64::MAX {
                    self.st.hit("total_fee_is_maximal");
                }
                self.unsynced += 1;
                if self.unsynced >= self.sync_every {
                    self.sync();
                }
                Ok(true)
            }
        }
    }

    fn do_root(&mut self) -> Res<bool> {
        let want = self.want();
        let n = self.model.count();
        let (tree, root) = (&mut self.tree, &self.root);
        let (out, d) = self.disk.call(|| root(tree));
        self.st.hit("call_root");
        memory(&d, levels(n), 0, self.m, self.step, "root", self.st)?;
        if self.m.layout {
            self.layout(None, "root")?;
        }
        match out {
            Out::Panic(p) => bad(self.step, "panic", format!("root of {} leaves {}", n, p)),
            Out::Limit => bad(self.step, "no-progress", "root does not stop"),
            Out::Crash => {
                self.crash(d.crash_arg)?;
                Ok(false)
            }
            Out::Ret(Err(e)) => {
                self.disk.note(err_note(&e));
                fits(&e, &d, self.step, "root")?;
                self.st.hit("root_failed");
                self.st.hit("storage_error_surfaced");
                Ok(false)
            }
            Out::Ret(Ok(r)) => {
                if self.m.surface && !d.errs.is_empty() {
                    return bad(
                        self.step,
                        "hidden-error",
                        "root succeeded although a storage call failed",
                    );
                }
                crate::bin_eng::bound(&d, levels(n), self.m, self.step, "root")?;
                self.disk.note(low(&r.1));
                self.st.state(low(&r.1), n);
                if r.0 != want.0 {
                    return bad(
                        self.step,
                        "total-fee",
                        format!("total fee of {} leaves is {} instead of {}", n, r.0, want.0),
                    );
                }
                if r != want {
                    return bad(
                        self.step,
                        "root",
                        format!(
                            "root of {} leaves is {} instead of {}",
                            n,
                            short(&r.1),
                            short(&want.1)
                        ),
                    );
                }
                if n > 0 && !self.pruned {
                    let leaves = self.model.leaves.clone();
                    if let Some(w) = audit(&self.disk, &self.view, &r, &leaves) {
                        return bad(
                            self.step,
                            "storage",
                            format!("below the root of {} leaves: {}", n, w),
                        );
                    }
                    self.st.hit("root_audited");
                    if self.roots.len() < 8 && self.roots.last().map(|x| x.0) != Some(r) {
                        self.roots.push((r, leaves, false));
                    }
                }
                Ok(true)
            }
        }
    }

    fn exec(&mut self, s: &Step) -> Res {
        match s.op.as_str() {
            "push" => {
                // a = fee, b = contents
                let data = content(s.b >> 16, len_of(s.b & 0xffff));
                self.do_push(s.a, &data)?;
            }
            "pushroot" => {
                let data = content(s.b >> 16, len_of(s.b & 0xffff));
                self.do_push(s.a, &data)?;
                self.do_root()?;
            }
            "pushn" => {
                for i in 0..s.a {
                    let data = content(crate::rng::mix(s.b, i), s.b % 40);
                    let fee = if s.b & 64 == 0 { s.b % 1000 } else { crate::rng::mix(s.b, !i) % 5 };
                    if !self.do_push(fee, &data)? {
                        break;
                    }
                }
                self.do_root()?;
            }
            "root" => {
                self.do_root()?;
            }
            // Very many leaves.
            "soak" if s.b & 1 == 1 => {
                for i in 0..s.a.min(20_000) {
                    let data = content(crate::rng::mix(s.b, i), s.b >> 8 & 7);
                    if !self.do_push(s.b >> 16 & 3, &data)? {
                        break;
                    }
                    if i & 4095 == 4095 {
                        self.do_root()?;
                    }
                }
                self.st.hit("soaked_pushes");
                self.st.add("soak_calls", s.a.min(20_000));
                self.do_root()?;
            }
            // The root, asked for again and again.
            "soak" => {
                let want = self.want();
                for j in 0..s.a {
                    let (tree, root) = (&mut self.tree, &self.root);
                    let (out, _) = self.disk.call(|| root(tree));
                    self.disk.changes();
                    match out {
                        Out::Ret(Ok(r)) if r == want => (),
                        Out::Panic(p) => return bad(self.step, "panic", p),
                        _ => {
                            return bad(self.step, "root", format!("root is wrong the {}th time", j))
                        }
                    }
                }
                self.st.hit("soaked");
                self.st.add("soak_calls", s.a);
                self.do_root()?;
            }
            "root2" => {
                self.do_root()?;
                self.do_root()?;
            }
            "sync" => self.sync(),
            "crash" => self.crash(s.b)?,
            // Start over on the dirty storage and push the same leaves again.
            "again" => {
                let p = std::mem::take(&mut self.pushed);
                self.tree = (self.mk)();
                self.pruned = false;
                self.model = Mth::new(0, None, sum_join);
                self.total = 0;
                for (f, d) in p {
                    if !self.do_push(f, &d)? {
                        break;
                    }
                }
                self.st.hit("rebuilt_on_dirty_storage");
                self.do_root()?;
            }
            "audit" => self.audit_roots()?,
            // Nothing that is stored is needed to go on.
            "prune" => {
                self.sync();
                self.disk.retain(&Default::default());
                self.roots.clear();
                self.pruned = true;
                self.st.hit("pruned");
            }
            // A leaf whose contents are those of an inner node.
            "forge" => {
                let n = self.model.count();
                if n >= 2 {
                    let h = (1 + (s.b >> 8) % 4).min(63 - n.leading_zeros() as u64) as u32;
                    let j = (s.b >> 16) % (n >> h);
                    let l = self.model.aligned(h - 1, 2 * j);
                    let r = self.model.aligned(h - 1, 2 * j + 1);
                    let (lf, rf) = (l.0.to_be_bytes(), r.0.to_be_bytes());
                    let (fee, d): (u64, Vec<u8>) = match s.a % 6 {
                        0 => (l.0.wrapping_add(r.0), [&lf[..], &l.1[..], &rf[..], &r.1[..]].concat()),
                        1 => (l.0, [&[1][..], &l.1[..], &rf[..], &r.1[..]].concat()),
                        2 => (l.0, [&[1][..], &lf[..], &l.1[..], &rf[..], &r.1[..]].concat()),
                        3 => (l.0, [&l.1[..], &r.1[..]].concat()),
                        _ => (l.0, [&l.1[..], &rf[..], &r.1[..]].concat()),
                    };
                    self.st.hit("forged_leaf");
                    self.do_push(fee, &d)?;
                    self.do_root()?;
                }
            }
            o => panic!("unknown op {}", o),
        }
        Ok(())
    }
}

impl<N, Tr, P, R, V, M> Part for Eng<'_, N, Tr, P, R, V, M>
where
    N: Clone,
    M: Fn() -> Tr,
    P: Fn(&mut Tr, u64, &[u8]) -> Result<(), SimError>,
    R: Fn(&mut Tr) -> Result<(u64, H), SimError>,
    V: Fn(&N) -> View,
{
    fn step(&mut self, plan: &mut Plan, i: usize) -> Res {
        let e = self;
        e.step = i;
        let s = plan.steps[i].clone();
        e.disk.begin(&s.faults, s.calm);
        let mut r = e.exec(&s);
        if r.is_ok() {
            let l = levels(e.model.count());
            r = e.held.check(1, l, e.m, i, e.st);
        }
        let rep = e.disk.report();
        if e.is_online {
            plan.steps[i].faults = rep.fired.clone();
        }
        note_faults(e.st, &rep);
        vlog!(
            e.st,
            "step {} {} a={} b={}: {} leaves, total fee {}, {} storage calls, faults {:?}",
            i,
            s.op,
            s.a,
            s.b,
            e.model.count(),
            e.total,
            rep.calls,
            rep.fired
        );
        r
    }

    fn finish(&mut self, plan: &Plan) -> Res<u64> {
        let e = self;
        e.step = plan.steps.len();
        e.disk.begin(&[], true);
        if !e.do_root()? || !e.do_push(1, b"last")? || !e.do_root()? || !e.do_root()? {
            return bad(e.step, "no-progress", "a call fails after the faults stopped");
        }
        e.audit_roots()?;
        let l = levels(e.model.count());
        e.held.check(1, l, e.m, e.step, e.st)?;
        let tr = e.disk.trace();
        let calls = e.disk.total_calls();
        e.st.add("storage_calls", calls);
        Ok(tr)
    }
}

#[allow(clippy::too_many_arguments)]
fn engine<'a, N, Tr, P, R, V, M>(
    plan: &Plan,
    is_online: bool,
    st: &'a mut Stats,
    disk: Disk<SumT<N>>,
    mk: M,
    push: P,
    root: R,
    view: V,
) -> Box<dyn Part + 'a>
where
    N: Clone + 'a,
    Tr: 'a,
    M: Fn() -> Tr + 'a,
    P: Fn(&mut Tr, u64, &[u8]) -> Result<(), SimError> + 'a,
    R: Fn(&mut Tr) -> Result<(u64, H), SimError> + 'a,
    V: Fn(&N) -> View + 'a,
{
    if Masks::of(plan).layout {
        disk.watch();
    }
    Box::new(Eng {
        tree: mk(),
        disk,
        mk,
        push,
        root,
        view,
        model: Mth::new(0, None, sum_join),
        total: 0,
        roots: vec![],
        unsynced: 0,
        sync_every: plan.get("sync").max(1),
        m: Masks::of(plan),
        st,
        step: 0,
        pushed: vec![],
        is_online,
        pruned: false,
        held: Held::new(),
        legit: Default::default(),
    })
}

pub type Opener = Box<
    dyn for<'a> FnOnce(&Plan, Option<(Rates, Rng)>, &'a mut Stats) -> Box<dyn Part + 'a> + Send,
>;

fn opener<F>(f: F) -> Opener
where
    F: for<'a> FnOnce(&Plan, Option<(Rates, Rng)>, &'a mut Stats) -> Box<dyn Part + 'a>
        + Send
        + 'static,
{
    Box::new(f)
}

/// Ways to open trees that share one disk.
pub fn openers(n: usize, mode: u64, real: bool) -> Vec<Opener> {
    let disk = Disk::<SumT<_>>::new(Durability::from(mode), real, None);
    let new = |d: &Disk<SumT<_>>| sum::MerkleTree::<SumT<_>, Disk<SumT<_>>>::new(d.clone());
    drop(new(&disk));
    disk.set_same(|a, b| {
        a.fee() == b.fee()
            && a.hash() == b.hash()
            && a.height() == b.height()
            && a.left_child_key() == b.left_child_key()
            && a.right_child_key() == b.right_child_key()
    });
    (0..n)
        .map(|_| {
            let disk = disk.clone();
            opener(
                move |plan: &Plan, online: Option<(Rates, Rng)>, st: &mut Stats| {
                    let is_online = online.is_some();
                    let h = disk.handle(online, GATE.with(|g| g.borrow().clone()));
                    let d = h.clone();
                    engine(
                        plan,
                        is_online,
                        st,
                        h,
                        move || sum::MerkleTree::<SumT<_>, Disk<SumT<_>>>::new(d.clone()),
                        |t, fee, data| t.push(fee, data),
                        |t| t.root(),
                        |n| View {
                            fee: n.fee(),
                            hash: *n.hash(),
                            children: n.left_child_key().zip(n.right_child_key()),
                            height: n.height(),
                            leaf: n.is_leaf(),
                            node: n.is_node(),
                        },
                    )
                },
            )
        })
        .collect()
}

pub fn part<'a>(
    plan: &Plan,
    online: Option<(Rates, Rng)>,
    st: &'a mut Stats,
) -> Box<dyn Part + 'a> {
    let o = openers(1, plan.get("mode"), plan.get("real") == 1).pop().unwrap();
    o(plan, online, st)
}

pub fn run(plan: &mut Plan, online: Option<(Rates, Rng)>, st: &mut Stats) -> Res<u64> {
    let p = part(plan, online, st);
    run_part(p, plan)
}
