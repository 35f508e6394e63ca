//! From a seed to a case: configuration, operations, fault rates. Every run
//! draws its own mix (swarm style), so that no two batches look alike.

use crate::disk::Rates;
use crate::model::H;
use crate::net::NetRates;
use crate::plan::*;
use crate::rng::{mix, Rng};

pub struct Case {
    pub plan: Plan,
    pub rates: Rates,
    pub net: NetRates,
    pub rng: Rng,
}

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25",
    "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38",
    "C39",
    "C40",
];

/// Which kinds of faults a property is about: how likely each is switched on,
/// in percent.
#[derive(Clone, Copy, Default)]
struct Mix {
    none: u32,
    rerr: u32,
    werr: u32,
    wafter: u32,
    full: u32,
    crash: u32,
    lost: u32,
    tag: u32,
}

fn rates(g: &mut Rng, m: Mix) -> Rates {
    if g.pct(m.none * 100) {
        return Rates::default();
    }
    let mut r = Rates::default();
    let lvl = |g: &mut Rng, on: u32| {
        if g.pct(on * 100) {
            *g.pick(&[20u32, 60, 150, 400, 1000, 2500])
        } else {
            0
        }
    };
    r.rerr = lvl(g, m.rerr);
    r.werr = lvl(g, m.werr);
    r.wafter = lvl(g, m.wafter);
    r.full = lvl(g, m.full);
    r.crash = lvl(g, m.crash).min(1000);
    r.lost = lvl(g, m.lost).min(400);
    r.tag = lvl(g, m.tag).min(400);
    r.gap = *g.pick(&[0u32, 0, 2, 6, 20, 80]);
    r
}

fn weights(g: &mut Rng, base: &[(&'static str, u32)]) -> Vec<(&'static str, u32)> {
    base.iter()
        .map(|(n, w)| {
            // Each operation is switched off, rare, normal or frequent.
            let f = [0u32, 1, 2, 2, 4, 8][g.below(6) as usize];
            (*n, w * f)
        })
        .collect()
}

fn pick_op(g: &mut Rng, ws: &[(&'static str, u32)]) -> &'static str {
    let v: Vec<u32> = ws.iter().map(|w| w.1).collect();
    if v.iter().all(|w| *w == 0) {
        return ws[0].0;
    }
    ws[g.weighted(&v)].0
}

fn length(g: &mut Rng) -> u64 {
    match g.below(10) {
        0 => *g.pick(&[0u64, 1, 2, 31, 32, 33]),
        1 => *g.pick(&[45u64, 46, 47, 48, 54, 55, 56, 57, 62, 63, 64, 65, 66]),
        2 => *g.pick(&[118u64, 119, 120, 127, 128, 129, 183, 191, 192, 255, 256, 257]),
        3 if g.one_in(60) => {
            let n = *g.pick(&[16, 16, 16, 240]);
            if g.one_in(20) {
                0xfff8 + g.below(8)
            } else {
                0xff00 + g.below(n)
            }
        }
        3 => g.below(3000),
        4 => *g.pick(&[1000u64, 4096, 8192, 20000]),
        _ => g.below(40),
    }
}

/// Many calls in one step, without faults.
fn soak(g: &mut Rng) -> Step {
    Step {
        op: "soak".into(),
        a: match g.below(10) {
            0 => g.range(65_500, 66_500),
            1 | 2 => g.range(4_000, 9_000),
            3..=5 => g.range(1_000, 2_000),
            _ => g.range(200, 600),
        },
        b: g.next() >> 1,
        calm: true,
        ..Default::default()
    }
}

/// How many steps: mostly short, sometimes long.
fn size(g: &mut Rng) -> usize {
    match g.below(20) {
        0..=7 => g.range(1, 8) as usize,
        8..=15 => g.range(6, 30) as usize,
        16..=18 => g.range(20, 80) as usize,
        _ if g.one_in(8) => g.range(160, 700) as usize,
        _ => g.range(60, 160) as usize,
    }
}

fn calm_tail(g: &mut Rng, steps: &mut [Step]) {
    if g.one_in(4) {
        let n = steps.len();
        let from = g.below(n as u64 + 1) as usize;
        for s in &mut steps[from..] {
            s.calm = true;
        }
    }
}

fn durability(g: &mut Rng, plan: &mut Plan, modes: &[u64]) {
    let m = *g.pick(modes);
    plan.set("mode", m);
    let sync = match g.below(4) {
        0 => 1,
        1 => g.range(2, 4),
        2 => g.range(3, 12),
        _ => g.range(10, 60),
    };
    plan.set("sync", if g.one_in(3) { 1 } else { sync });
    plan.set("real", g.one_in(3) as u64);
}

/// The number of leaves a tree has from the start, all alike and not stored.
fn base(g: &mut Rng) -> u64 {
    let k = g.range(1, 60);
    match g.below(5) {
        0 => 1 << k,
        1 => (1u64 << k) - 1,
        2 => ((1u64 << k) - 1).saturating_sub(g.below(70)).max(1),
        3 => (1u64 << k) + g.below(70),
        _ => (g.next() >> (64 - k)) | 1 << (k - 1),
    }
    .min(1 << 60)
}

// ---------------------------------------------------------------------------

fn bin(p: &str, g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "bin".into();
    let m = match p {
        "C01" => Mix { none: 35, rerr: 40, werr: 50, wafter: 40, full: 25, crash: 30, ..Default::default() },
        "C02" => Mix { none: 35, rerr: 60, werr: 40, wafter: 30, full: 15, crash: 25, ..Default::default() },
        "C03" => Mix { none: 4, rerr: 20, werr: 80, wafter: 60, full: 50, crash: 10, ..Default::default() },
        "C04" => Mix { none: 6, rerr: 25, werr: 30, wafter: 30, full: 15, crash: 90, ..Default::default() },
        "C40" => Mix { none: 8, rerr: 15, werr: 25, wafter: 20, full: 15, crash: 90, ..Default::default() },
        "C24" => Mix { none: 25, rerr: 30, werr: 60, wafter: 50, full: 30, crash: 40, ..Default::default() },
        "C05" => Mix { none: 30, rerr: 40, werr: 50, wafter: 40, full: 20, crash: 20, ..Default::default() },
        "C21" => Mix { none: 30, rerr: 60, werr: 40, wafter: 30, full: 20, crash: 40, lost: 10, ..Default::default() },
        "C22" | "C23" => Mix { none: 40, rerr: 30, werr: 40, wafter: 30, full: 20, crash: 25, ..Default::default() },
        "C28" | "C37" => Mix { none: 30, rerr: 30, werr: 60, wafter: 50, full: 20, crash: 25, ..Default::default() },
        "C30" => Mix { none: 30, rerr: 40, werr: 50, wafter: 40, full: 20, crash: 40, ..Default::default() },
        "C31" | "C35" => Mix { none: 40, rerr: 40, werr: 50, wafter: 40, full: 20, crash: 30, ..Default::default() },
        "C32" => Mix { none: 10, rerr: 50, werr: 30, wafter: 20, full: 10, crash: 15, lost: 60, ..Default::default() },
        "C06" => Mix { none: 15, rerr: 20, werr: 20, wafter: 10, full: 5, crash: 20, lost: 75, ..Default::default() },
        _ => Mix { none: 10, rerr: 60, werr: 60, wafter: 50, full: 40, crash: 20, lost: 10, ..Default::default() },
    };
    let r = rates(g, m);
    let modes: &[u64] = match p {
        "C04" | "C30" => &[0, 1, 2, 3, 1, 2],
        "C01" | "C02" | "C06" => &[0, 0, 1, 2, 3],
        _ => &[0, 0, 0, 1, 2, 3],
    };
    durability(g, plan, modes);
    let giant = g.pct(4000) && p != "C28";
    if giant {
        let b = base(g);
        plan.set("base", b);
    } else {
        plan.set("mem", (p == "C28" || p == "C37" || g.one_in(3)) as u64);
    }
    if p == "C23" {
        plan.set("real", 1);
    }
    let ws = match p {
        "C01" => vec![("push", 12), ("pushn", 3), ("root", 3), ("reopen", 2), ("crash", 1), ("sync", 1), ("prove", 1)],
        "C02" => vec![("push", 8), ("pushn", 2), ("prove", 10), ("proveall", 1), ("reopen", 2), ("crash", 1)],
        "C03" => vec![("push", 14), ("pushn", 3), ("prove", 4), ("reopen", 2), ("root", 1), ("sync", 1)],
        "C04" => vec![("push", 12), ("pushn", 3), ("crash", 3), ("sync", 2), ("prove", 3), ("reopen", 2), ("snap", 1)],
        "C05" => vec![("push", 10), ("pushn", 2), ("snap", 5), ("snapuse", 8), ("crash", 1), ("reopen", 1)],
        "C32" => vec![("push", 8), ("pushn", 3), ("prove", 10), ("proveall", 1), ("reopen", 3), ("lose", 5), ("loadbig", 4), ("heal", 1), ("crash", 1), ("snap", 2), ("snapuse", 2)],
        "C06" => vec![("push", 8), ("pushn", 2), ("prove", 6), ("reopen", 3), ("lose", 4), ("loadbig", 4), ("heal", 1), ("crash", 1), ("snap", 2), ("snapuse", 2)],
        "C24" => vec![("push", 12), ("pushn", 4), ("prove", 3), ("reopen", 2), ("crash", 2), ("snap", 2), ("snapuse", 1), ("sync", 1), ("loadbig", 1)],
        "C21" => vec![("push", 8), ("pushn", 4), ("walk", 14), ("reopen", 1), ("crash", 2), ("sync", 1)],
        "C22" => vec![("push", 8), ("pushn", 3), ("forge", 10), ("collapse", 4), ("prove", 2), ("reopen", 1), ("crash", 1)],
        "C28" => vec![("push", 12), ("pushn", 3), ("prove", 8), ("proveall", 2), ("root", 2), ("reopen", 1), ("crash", 1), ("forge", 1)],
        "C37" => vec![("push", 8), ("pushn", 6), ("stream", 8), ("take", 8), ("verify", 8), ("rollback", 1), ("import", 1), ("prove", 2), ("reopen", 1), ("crash", 1)],
        "C34" => vec![("push", 8), ("pushn", 8), ("prove", 6), ("root", 3), ("reopen", 2), ("snap", 2), ("snapuse", 2), ("rollback", 1), ("crash", 1), ("lose", 1), ("heal", 1)],
        "C35" => vec![("push", 10), ("pushn", 3), ("import", 8), ("prove", 6), ("snap", 2), ("snapuse", 2), ("rollback", 2), ("reopen", 1), ("crash", 1), ("sync", 1)],
        "C30" => vec![("push", 10), ("pushn", 4), ("rollback", 8), ("prove", 6), ("snap", 2), ("snapuse", 3), ("reopen", 1), ("crash", 1), ("sync", 1), ("loadbig", 1)],
        "C31" => vec![("push", 10), ("pushn", 4), ("prune", 4), ("prove", 8), ("reopen", 3), ("snap", 1), ("snapuse", 1), ("crash", 1), ("rollback", 1)],
        "C40" => vec![("push", 12), ("pushn", 3), ("prove", 6), ("reopen", 3), ("snap", 2), ("snapuse", 3), ("rollback", 1), ("root", 1)],
        "C17" | "C18" => vec![("push", 10), ("pushn", 1), ("prove", 8), ("reopen", 4), ("snap", 3), ("snapuse", 2), ("crash", 1)],
        _ => vec![("push", 10), ("prove", 4), ("reopen", 2)],
    };
    let mut ws = weights(g, &ws);
    ws[0].1 = ws[0].1.max(6);
    let n = size(g);
    let alphabet = g.range(1, 4);
    let small = g.one_in(3);
    let mut steps = vec![];
    let mut total = 0;
    for _ in 0..n {
        let op = pick_op(g, &ws);
        let mut s = Step { op: op.into(), ..Default::default() };
        match op {
            "push" => {
                s.a = if small { g.below(alphabet) } else { g.below(1 << 32) + 4 };
                if g.one_in(12) {
                    s.a = g.range(2, 3);
                }
                s.b = if small { g.below(2) } else { length(g) };
            }
            "pushn" => {
                s.a = match g.below(8) {
                    0 => *g.pick(&[1u64, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65]),
                    1 if !giant => g.range(60, 300),
                    _ => g.range(2, 24),
                };
                if total > 600 {
                    s.a = 2;
                }
                total += s.a;
                s.b = g.next() >> 8;
            }
            "prove" => {
                s.a = if g.pct(6500) { 0 } else { g.below(10) };
                s.b = match g.below(3) {
                    0 => g.below(200),
                    1 => {
                        let k = g.below(64);
                        g.next() >> k
                    }
                    _ => g.next(),
                };
                if giant && g.one_in(3) {
                    // Near the boundary of what is stored.
                    s.a = 4 + 4 * g.below(2);
                }
            }
            "forge" | "walk" | "collapse" | "rollback" | "prune" | "import" | "stream" | "take" | "verify" => {
                s.a = g.next() >> 1;
                s.b = g.next() >> 1;
            }
            "snap" => {
                s.a = g.below(6);
                s.b = g.next() >> 1;
            }
            "snapuse" => {
                s.a = g.next() >> 1;
                s.b = g.next() >> 1;
                if g.one_in(2) {
                    s.b &= !0xff00;
                }
            }
            "loadbig" => {
                s.a = g.below(7);
                s.b = g.next() >> 1;
            }
            "lose" => {
                s.a = g.below(4);
                s.b = g.next() >> 1;
            }
            "crash" => s.b = g.next() >> 20,
            _ => (),
        }
        steps.push(s);
    }
    // Once in a while one big tree.
    if !giant && g.one_in(if p == "C34" { 8 } else { 60 }) {
        let at = g.below(steps.len() as u64 + 1) as usize;
        steps.insert(
            at,
            Step {
                op: "pushn".into(),
                a: if g.one_in(50) { g.range(65_000, 70_000) } else { g.range(500, 3000) },
                b: g.next() >> 8,
                ..Default::default()
            },
        );
    }
    if g.one_in(if p == "C34" { 20 } else { 200 }) {
        let soak = soak(g);
        steps.push(soak);
    }
    calm_tail(g, &mut steps);
    plan.steps = steps;
    r
}

fn conc_bin(p: &str, g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "conc_bin".into();
    let r = rates(
        g,
        Mix { none: 40, rerr: 40, werr: 50, wafter: 40, full: 15, crash: 25, ..Default::default() },
    );
    let _ = p;
    let actors = g.range(2, 4);
    plan.set("actors", actors);
    plan.set("mode", 0);
    plan.set("real", g.one_in(3) as u64);
    plan.set("switch", *g.pick(&[500u64, 2000, 5000, 9000]));
    if g.one_in(4) {
        let b = base(g);
        plan.set("base", b);
    } else {
        plan.set("initial", g.below(20));
    }
    let n = g.range(4, 40);
    for _ in 0..n {
        let actor = if g.one_in(3) { 0 } else { g.below(actors) } as u32;
        let mut s = Step { actor, ..Default::default() };
        if actor == 0 {
            s.op = if g.one_in(6) { "pushn" } else { "push" }.into();
            s.a = if s.op == "pushn" { g.range(2, 9) } else { g.next() >> 8 };
            s.b = g.next() >> 8;
        } else {
            s.op = if g.one_in(3) { "open" } else { "use" }.into();
            s.a = if s.op == "open" { g.below(3) } else if g.one_in(3) { g.below(10) } else { 0 };
            s.b = g.next() >> 1;
        }
        plan.steps.push(s);
    }
    r
}

fn shared_bin(g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "shared_bin".into();
    let r = rates(
        g,
        Mix { none: 50, rerr: 60, werr: 40, wafter: 30, full: 10, crash: 15, ..Default::default() },
    );
    let actors = g.range(3, 5);
    plan.set("actors", actors);
    plan.set("mode", 0);
    plan.set("real", g.one_in(3) as u64);
    plan.set("switch", *g.pick(&[1000u64, 3000, 6000, 9000]));
    if g.one_in(3) {
        let b = base(g);
        plan.set("base", b);
        plan.steps.push(Step { op: "reopen".into(), ..Default::default() });
    } else {
        plan.set("initial", g.below(40));
    }
    for _ in 0..g.range(1, 4) {
        for _ in 0..g.below(3) {
            let op = *g.pick(&["push", "push", "pushn", "reopen"]);
            plan.steps.push(Step {
                op: op.into(),
                a: if op == "pushn" { g.range(2, 9) } else { g.next() >> 8 },
                b: g.next() >> 8,
                ..Default::default()
            });
        }
        // Often the callers ask for the same or for neighbouring leaves.
        let near = g.one_in(2);
        let at = g.next() >> 1;
        for _ in 0..g.range(2, 12) {
            let op = if g.one_in(5) { "root" } else { "prove" };
            plan.steps.push(Step {
                actor: g.range(1, actors - 1) as u32,
                op: op.into(),
                a: if g.one_in(3) { g.below(10) } else { 0 },
                b: if near { at.wrapping_add(g.below(4)) } else { g.next() >> 1 },
                ..Default::default()
            });
        }
    }
    r
}

// ---------------------------------------------------------------------------

fn flip(k: &mut H, i: usize) {
    k[i / 8] ^= 1 << (7 - i % 8);
}

/// Keeps the first n bits of `k` and randomises the rest.
fn tail(g: &mut Rng, k: &H, n: usize) -> H {
    let mut x = g.bytes32();
    for i in 0..n {
        let b = k[i / 8] >> (7 - i % 8) & 1;
        let c = x[i / 8] >> (7 - i % 8) & 1;
        if b != c {
            flip(&mut x, i);
        }
    }
    x
}

fn depth(g: &mut Rng) -> usize {
    match g.below(4) {
        0 => g.below(256) as usize,
        1 => *g.pick(&[0usize, 1, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 129, 192, 247, 248, 249, 254, 255]),
        2 => g.below(12) as usize,
        _ => 255 - g.below(12) as usize,
    }
}

fn universe(g: &mut Rng) -> Vec<H> {
    let n = match g.below(12) {
        0..=2 => g.range(1, 3),
        3..=7 => g.range(3, 8),
        8..=10 => g.range(6, 20),
        _ => g.range(20, 48),
    } as usize;
    let root = match g.below(8) {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => g.bytes32(),
    };
    let style = g.below(6);
    let mut ks: Vec<H> = vec![];
    while ks.len() < n {
        let k = match style {
            // Scattered
            0 => g.bytes32(),
            // Off one key at some depths
            1 => {
                let d = depth(g);
                let mut k = tail(g, &root, d);
                if g.one_in(2) {
                    k = root;
                    flip(&mut k, d);
                }
                k
            }
            // Neighbours in the last bits
            2 => {
                let mut k = root;
                let w = g.range(1, 16);
                let x = g.below(1 << w);
                k[31] ^= x as u8;
                k[30] ^= (x >> 8) as u8;
                k
            }
            // Off any earlier key
            3 | 4 => {
                let b = if ks.is_empty() { root } else { *g.pick(&ks) };
                let d = depth(g);
                let mut k = b;
                flip(&mut k, d);
                if g.one_in(2) {
                    k = tail(g, &k, d + 1);
                }
                k
            }
            _ => {
                let mut k = [0u8; 32];
                match g.below(6) {
                    0 => (),
                    1 => k = [0xff; 32],
                    2 => { let b = g.below(256) as usize; flip(&mut k, b) },
                    3 => {
                        k = [0xff; 32];
                        { let b = g.below(256) as usize; flip(&mut k, b) };
                    }
                    4 => k = [*g.pick(&[0x55u8, 0xaa, 0x80, 1, 0x7f]); 32],
                    _ => k[31] = g.below(8) as u8,
                }
                k
            }
        };
        ks.push(k);
    }
    ks
}

fn sp(p: &str, g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "sp".into();
    let m = match p {
        "C07" => Mix { none: 40, rerr: 40, werr: 50, wafter: 40, full: 20, crash: 20, ..Default::default() },
        "C08" => Mix { none: 40, rerr: 40, werr: 40, wafter: 30, full: 15, crash: 15, ..Default::default() },
        "C09" => Mix { none: 4, rerr: 50, werr: 80, wafter: 60, full: 40, crash: 5, ..Default::default() },
        "C10" => Mix { none: 6, rerr: 20, werr: 30, wafter: 30, full: 15, crash: 90, ..Default::default() },
        "C11" => Mix { none: 35, rerr: 50, werr: 40, wafter: 30, full: 15, crash: 30, ..Default::default() },
        "C25" => Mix { none: 25, rerr: 40, werr: 60, wafter: 50, full: 25, crash: 25, ..Default::default() },
        "C40" => Mix { none: 8, rerr: 15, werr: 25, wafter: 20, full: 15, crash: 90, ..Default::default() },
        "C12" | "C39" => Mix { none: 30, rerr: 40, werr: 50, wafter: 40, full: 20, crash: 25, ..Default::default() },
        "C22" | "C23" => Mix { none: 40, rerr: 30, werr: 40, wafter: 30, full: 20, crash: 25, ..Default::default() },
        "C28" => Mix { none: 30, rerr: 40, werr: 60, wafter: 50, full: 20, crash: 20, ..Default::default() },
        "C31" | "C35" => Mix { none: 40, rerr: 40, werr: 50, wafter: 40, full: 20, crash: 30, ..Default::default() },
        "C32" => Mix { none: 10, rerr: 50, werr: 30, wafter: 20, full: 10, crash: 15, lost: 50, tag: 50 },
        "C13" => Mix { none: 15, rerr: 20, werr: 20, wafter: 10, full: 5, crash: 15, lost: 65, tag: 65 },
        _ => Mix { none: 10, rerr: 60, werr: 60, wafter: 50, full: 40, crash: 20, lost: 8, tag: 8 },
    };
    let r = rates(g, m);
    // Only histories without deletes survive the loss of any subset of writes.
    let grow = match p {
        "C12" => true,
        "C10" => g.one_in(3),
        "C07" | "C11" | "C13" | "C25" | "C31" | "C35" => g.one_in(6),
        _ => false,
    };
    let modes: &[u64] = match (p, grow) {
        ("C10", true) => &[0, 1, 2, 2, 3],
        ("C10", false) => &[0, 1, 1, 3],
        ("C12" | "C39", _) => &[0, 0, 1, 2, 3],
        (_, true) => &[0, 1, 2, 3],
        _ => &[0, 0, 0, 1, 3],
    };
    durability(g, plan, modes);
    plan.set("mem", (p == "C28" || g.one_in(3)) as u64);
    if p == "C23" {
        plan.set("real", 1);
    }
    plan.set("archive", (p == "C39") as u64);
    plan.set("audit", *g.pick(&[1u64, 1, 3, 10]));
    plan.set("drain", (!grow && g.one_in(2)) as u64);
    plan.keys = universe(g);
    // Once in a while many keys.
    if ["C07", "C08", "C09", "C11", "C25", "C31", "C34", "C35"].contains(&p) && g.one_in(80) {
        plan.set("audit", 60);
        let many = if g.one_in(15) { g.range(600, 1500) } else { g.range(60, 300) };
        for _ in 0..many {
            let k = if g.one_in(4) && !plan.keys.is_empty() {
                let b = *g.pick(&plan.keys);
                let n = g.below(40) as usize;
                tail(g, &b, n)
            } else {
                g.bytes32()
            };
            plan.keys.push(k);
        }
    }
    let ws = match p {
        "C07" => vec![("update", 12), ("deletelive", 5), ("delete", 2), ("rewrite", 2), ("empty", 1), ("reopen", 1), ("crash", 1), ("oldroot", 1)],
        "C08" => vec![("update", 8), ("deletelive", 2), ("delete", 6), ("deletetwice", 4), ("empty", 4), ("reopen", 1)],
        "C09" => vec![("update", 10), ("deletelive", 6), ("delete", 2), ("rewrite", 1), ("audit", 2), ("reopen", 1), ("deletetwice", 1)],
        "C10" => vec![("update", 10), ("deletelive", 6), ("delete", 1), ("crash", 3), ("sync", 1), ("reopen", 1), ("rewrite", 1)],
        "C11" => vec![("update", 8), ("deletelive", 5), ("reopen", 8), ("crash", 2), ("delete", 1), ("oldroot", 1)],
        "C12" => vec![("update", 10), ("oldroot", 8), ("rewrite", 2), ("reopen", 1), ("crash", 1)],
        "C39" => vec![("update", 10), ("deletelive", 7), ("oldroot", 8), ("rewrite", 2), ("delete", 2), ("deletetwice", 1), ("empty", 1), ("prune", 1), ("reopen", 1), ("crash", 1), ("sync", 1)],
        "C32" => vec![("update", 8), ("deletelive", 4), ("delete", 3), ("reopen", 4), ("lose", 5), ("heal", 1), ("oldroot", 2), ("rewrite", 1), ("crash", 1)],
        "C13" => vec![("update", 8), ("deletelive", 4), ("delete", 2), ("reopen", 3), ("lose", 4), ("heal", 1), ("oldroot", 1), ("crash", 1)],
        "C25" => vec![("update", 10), ("deletelive", 7), ("delete", 2), ("deletetwice", 1), ("rewrite", 3), ("reopen", 1), ("oldroot", 2), ("crash", 1), ("empty", 1)],
        "C22" => vec![("update", 8), ("forge", 12), ("deletelive", 3), ("reopen", 1), ("crash", 1), ("rewrite", 1)],
        "C28" => vec![("update", 12), ("deletelive", 6), ("delete", 3), ("deletetwice", 2), ("empty", 2), ("rewrite", 3), ("reopen", 1), ("forge", 1), ("crash", 1)],
        "C31" => vec![("update", 12), ("deletelive", 7), ("delete", 2), ("deletetwice", 1), ("rewrite", 3), ("prune", 6), ("reopen", 2), ("crash", 1), ("oldroot", 1)],
        "C34" => vec![("update", 12), ("deletelive", 6), ("delete", 2), ("rewrite", 2), ("empty", 1), ("reopen", 2), ("crash", 1), ("lose", 1), ("heal", 1)],
        "C35" => vec![("update", 12), ("deletelive", 6), ("import", 7), ("delete", 2), ("rewrite", 2), ("reopen", 1), ("crash", 1), ("oldroot", 1)],
        "C40" => vec![("update", 12), ("deletelive", 8), ("delete", 2), ("deletetwice", 1), ("rewrite", 2), ("empty", 1), ("audit", 2), ("reopen", 2), ("oldroot", 1)],
        "C17" | "C18" => vec![("update", 10), ("deletelive", 6), ("delete", 3), ("reopen", 4), ("rewrite", 1), ("empty", 1), ("oldroot", 1)],
        _ => vec![("update", 10), ("deletelive", 5), ("delete", 2), ("reopen", 1)],
    };
    let mut ws = weights(g, &ws);
    ws[0].1 = ws[0].1.max(8);
    if grow {
        // (a forged leaf may have no contents)
        ws.retain(|w| !["forge", "deletelive", "delete", "deletetwice", "empty", "import"].contains(&w.0));
    }
    let n = if p == "C12" { size(g).min(24) } else { size(g) };
    let special = g.one_in(3);
    let values = g.range(1, 6);
    let few = g.one_in(2);
    let nk = plan.keys.len() as u64;
    let mut steps = vec![];
    for _ in 0..n {
        let op = pick_op(g, &ws);
        let mut s = Step { op: op.into(), ..Default::default() };
        let key = |g: &mut Rng| {
            if special && g.one_in(5) {
                nk + g.below(128)
            } else {
                g.below(nk)
            }
        };
        match op {
            "update" => {
                s.a = key(g);
                s.b = if few {
                    g.below(values) << 16 | 1
                } else {
                    (g.below(1 << 30) + 2) << 16 | length(g)
                };
                if grow && s.b & 0xffff == 0 {
                    s.b |= 1;
                }
            }
            "delete" | "empty" | "deletetwice" => {
                s.a = key(g);
                s.b = g.below(2);
            }
            "deletelive" | "rewrite" => {
                s.a = g.below(64);
                s.b = g.below(2);
            }
            "forge" => {
                s.a = g.below(1 << 10);
                s.b = g.below(16);
            }
            "oldroot" | "prune" | "import" | "stream" | "take" | "verify" => {
                s.a = g.below(64);
                s.b = g.next() >> 4;
            }
            "lose" => {
                s.a = g.below(1 << 20);
                s.b = g.below(64);
            }
            "crash" => s.b = g.next() >> 20,
            _ => (),
        }
        steps.push(s);
    }
    // Mostly the tree is filled first.
    if !g.one_in(4) {
        let k = g.below(nk + 1);
        let mut pre: Vec<Step> = (0..k)
            .map(|i| Step {
                op: "update".into(),
                a: i,
                b: (g.below(1 << 30) + 2) << 16 | 4,
                calm: false,
                ..Default::default()
            })
            .collect();
        let calm = g.one_in(2);
        if calm {
            pre.iter_mut().for_each(|s| s.calm = true);
        }
        pre.append(&mut steps);
        steps = pre;
    }
    if !steps.is_empty() && g.one_in(4) {
        let from = g.below(steps.len() as u64) as usize;
        for s in &mut steps[from..] {
            s.calm = true;
        }
    }
    if g.one_in(if p == "C34" { 20 } else { 200 }) {
        let mut soak = soak(g);
        if grow {
            soak.b |= 1;
        }
        let at = g.below(steps.len() as u64 + 1) as usize;
        steps.insert(at, soak);
    }
    plan.steps = steps;
    r
}

fn conc_sp(p: &str, g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "conc_sp".into();
    let r = rates(
        g,
        Mix { none: 40, rerr: 40, werr: 50, wafter: 40, full: 15, crash: 20, ..Default::default() },
    );
    let actors = g.range(2, 4);
    plan.set("actors", actors);
    plan.set("mode", 0);
    plan.set("real", g.one_in(3) as u64);
    plan.set("switch", *g.pick(&[500u64, 2000, 5000, 9000]));
    plan.keys = universe(g);
    plan.keys.truncate(12);
    plan.set("initial", g.below(plan.keys.len() as u64 + 2));
    let few = g.one_in(2);
    let archive = p == "C39";
    plan.set("archive", archive as u64);
    for _ in 0..g.range(4, 30) {
        let mut op = ["update", "update", "update", "visit", "visit", "reopen"][g.below(6) as usize];
        if archive && op != "reopen" && g.one_in(3) {
            op = "delete";
        }
        plan.steps.push(Step {
            actor: g.below(actors) as u32,
            op: op.into(),
            a: g.below(64),
            b: if few {
                (g.below(3) + 2) << 16 | g.below(2) << 8 | 1
            } else {
                (g.below(1 << 30) + 2) << 16 | g.below(1 << 16)
            },
            ..Default::default()
        });
    }
    r
}

// ---------------------------------------------------------------------------

fn sum(p: &str, g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "sum".into();
    let m = match p {
        "C14" => Mix { none: 35, werr: 50, wafter: 40, full: 25, crash: 25, ..Default::default() },
        "C15" => Mix { none: 4, werr: 85, wafter: 60, full: 50, crash: 5, ..Default::default() },
        "C40" => Mix { none: 8, rerr: 15, werr: 25, wafter: 20, full: 15, crash: 90, ..Default::default() },
        "C33" => Mix { none: 25, werr: 60, wafter: 50, full: 30, crash: 30, ..Default::default() },
        "C16" => Mix { none: 30, werr: 50, wafter: 50, full: 30, crash: 40, ..Default::default() },
        _ => Mix { none: 10, werr: 70, wafter: 60, full: 50, crash: 15, ..Default::default() },
    };
    let r = rates(g, Mix { rerr: 20, ..m });
    durability(g, plan, if p == "C16" { &[0, 1, 2, 3] } else { &[0, 0, 1, 2, 3] });
    let ws = vec![
        ("push", 10),
        ("pushroot", 6),
        ("pushn", 2),
        ("root", 4),
        ("root2", 1),
        ("sync", 1),
        ("crash", (p != "C40") as u32),
        ("again", 1),
        ("audit", 1),
        ("forge", if p == "C22" { 10 } else { 0 }),
        ("prune", if p == "C31" { 8 } else { 0 }),
    ];
    let mut ws = weights(g, &ws);
    ws[0].1 = ws[0].1.max(6);
    let n = size(g).min(200);
    let fees = g.below(9); // a style per run
    let few = g.one_in(3);
    let mut steps = vec![];
    for _ in 0..n {
        let op = pick_op(g, &ws);
        let mut s = Step { op: op.into(), ..Default::default() };
        match op {
            "push" | "pushroot" => {
                s.a = match fees {
                    0 => 0,
                    1 => g.below(3),
                    2 => {
                        let k = g.range(1, 50);
                        g.below(1 << k)
                    }
                    3 => {
                        let k = g.range(8, 58);
                        (1u64 << k) - g.below(2)
                    }
                    4 => {
                        let k = g.below(64);
                        u64::MAX >> k
                    }
                    // Mostly nothing, and now and then all there may be.
                    5 => {
                        if g.one_in(4) {
                            u64::MAX - g.below(2)
                        } else {
                            g.below(2) * g.below(2)
                        }
                    }
                    6 => *g.pick(&[0u64, 0, 0, 1, 1 << 63, (1 << 63) - 1, u64::MAX >> 2, u64::MAX]),
                    7 => {
                        let k = g.below(64);
                        g.next() >> k
                    }
                    _ => *g.pick(&[0u64, 1, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 56]),
                };
                s.b = if few {
                    (g.below(3) + 2) << 16 | g.below(2)
                } else {
                    (g.below(1 << 30) + 2) << 16 | length(g)
                };
            }
            "pushn" => {
                s.a = g.range(2, 40);
                s.b = g.next() >> 8;
            }
            "forge" => {
                s.a = g.below(60);
                s.b = g.next() >> 1;
            }
            "crash" => s.b = g.next() >> 20,
            _ => (),
        }
        steps.push(s);
    }
    // Once in a while one big tree.
    if g.one_in(if p == "C34" { 8 } else { 60 }) {
        let at = g.below(steps.len() as u64 + 1) as usize;
        steps.insert(
            at,
            Step {
                op: "pushn".into(),
                a: if g.one_in(60) { g.range(65_000, 70_000) } else { g.range(300, 3000) },
                b: g.next() >> 8,
                ..Default::default()
            },
        );
    }
    if g.one_in(if p == "C34" { 20 } else { 200 }) {
        let soak = soak(g);
        steps.push(soak);
    }
    calm_tail(g, &mut steps);
    plan.steps = steps;
    if p == "C23" {
        plan.set("real", 1);
    }
    r
}

// ---------------------------------------------------------------------------

fn net_rates(g: &mut Rng) -> NetRates {
    if g.one_in(6) {
        return NetRates::default();
    }
    let lvl = |g: &mut Rng| {
        if g.one_in(2) {
            *g.pick(&[200u32, 800, 2000, 4000])
        } else {
            0
        }
    };
    NetRates {
        drop: lvl(g),
        dup: lvl(g),
        delay: lvl(g),
        corrupt: lvl(g) / 2,
    }
}

fn net(p: &str, g: &mut Rng, plan: &mut Plan) -> (Rates, NetRates) {
    let sparse = p == "C19";
    plan.scenario = if sparse { "net_sp" } else { "net_bin" }.into();
    let mut r = rates(
        g,
        Mix { none: 35, rerr: 50, werr: 50, wafter: 40, full: 20, crash: 40, ..Default::default() },
    );
    for x in [&mut r.rerr, &mut r.werr, &mut r.wafter, &mut r.full] {
        *x = (*x).min(600);
    }
    r.crash = r.crash.min(100);
    let actors = g.range(2, 4);
    plan.set("actors", actors);
    plan.set("mem", g.one_in(3) as u64);
    plan.set("abort", g.one_in(2) as u64);
    plan.set("real", g.one_in(3) as u64);
    if sparse {
        plan.set("mode", 3);
        plan.keys = universe(g);
        plan.keys.truncate(if g.one_in(6) { 60 } else { 16 });
    } else {
        plan.set("mode", g.below(4));
        plan.set("sync", *g.pick(&[1u64, 1, 2, 5, 16]));
    }
    for i in 0..actors {
        plan.steps.push(Step { actor: i as u32, op: "node".into(), ..Default::default() });
    }
    let crash = g.one_in(2);
    let part = g.one_in(2);
    let empties = g.below(4);
    let few = g.one_in(2);
    let burst = *g.pick(&[4u64, 4, 4, 4, 12, 30]);
    for _ in 0..g.range(3, 40) {
        let mut s = Step { actor: g.below(actors) as u32, ..Default::default() };
        match g.below(12) {
            0 if crash => {
                s.op = "crash".into();
                s.b = g.next() >> 20;
            }
            1 if part => {
                s.op = "part".into();
                s.a = g.below(1 << (actors + 1));
                s.b = g.next() >> 20;
            }
            _ if sparse => {
                s.op = "put".into();
                s.a = g.below(plan.keys.len() as u64);
                let len = if g.below(4) < empties { 0 } else { g.range(1, 40) };
                s.b = (g.below(if few { 3 } else { 1 << 30 }) + 2) << 16 | g.below(2) << 8 | len;
            }
            x => {
                s.op = if x < 6 { "ask" } else { "append" }.into();
                s.a = if few { g.below(4) } else { g.next() >> 20 };
                s.b = g.below(burst) << 8 | g.below(if few { 2 } else { 80 });
                if s.op == "ask" {
                    s.a = g.next() >> 1;
                    s.b = g.next() >> 1;
                }
            }
        }
        plan.steps.push(s);
    }
    (r, net_rates(g))
}

/// Clients with partial storage that fetch from a server what they lack.
fn fetch(g: &mut Rng, plan: &mut Plan) -> (Rates, NetRates) {
    let sparse = g.one_in(2);
    plan.scenario = if sparse { "fetch_sp" } else { "fetch_bin" }.into();
    let mut r = rates(
        g,
        Mix { none: 35, rerr: 60, werr: 40, wafter: 30, full: 15, crash: 40, ..Default::default() },
    );
    for x in [&mut r.rerr, &mut r.werr, &mut r.wafter, &mut r.full] {
        *x = (*x).min(600);
    }
    r.crash = r.crash.min(100);
    let actors = g.range(2, 4);
    plan.set("actors", actors);
    plan.set("real", g.one_in(3) as u64);
    if sparse {
        plan.set("mode", 3);
        plan.keys = universe(g);
        plan.keys.truncate(if g.one_in(8) { 60 } else { 24 });
    } else {
        plan.set("mode", g.below(4));
        if g.one_in(3) {
            let b = base(g);
            plan.set("base", b);
        }
    }
    for i in 0..actors {
        plan.steps.push(Step { actor: i as u32, op: "node".into(), ..Default::default() });
    }
    let (crash, part, evict) = (g.one_in(2), g.one_in(2), g.one_in(2));
    let many = *g.pick(&[1u64, 4, 20, 60]);
    let few = g.one_in(3);
    for i in 0..g.range(4, 40) {
        let mut s = Step { actor: g.below(actors) as u32, ..Default::default() };
        s.a = g.next() >> 1;
        s.b = g.next() >> 30;
        if few {
            s.a %= 4;
        }
        s.op = match if i < 2 { 20 } else { g.below(24) } {
            0 if crash => "crash",
            1 if part => {
                s.a = g.below(1 << actors);
                "part"
            }
            2 | 3 if evict => {
                s.a = g.below(5);
                "evict"
            }
            4 => "reload",
            5 | 6 => "switch",
            7 | 8 | 9 => "follow",
            20.. => {
                s.b = s.b & 0xff_ffff_ffff | g.below(many) << 40;
                "write"
            }
            _ => {
                if !sparse && g.one_in(4) {
                    // The first and the last leaves.
                    s.a = *g.pick(&[0, 1, u64::MAX - 1, u64::MAX]);
                }
                "do"
            }
        }
        .into();
        plan.steps.push(s);
    }
    (r, net_rates(g))
}

fn indep(g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "indep".into();
    let n = g.range(2, 4);
    let one_kind = if g.one_in(3) { Some(g.below(3)) } else { None };
    // Often the trees get the same histories, the same keys or the same seeds.
    let twin = g.one_in(4);
    let seed = g.next();
    let cut = *g.pick(&[6usize, 12, 12, 30]);
    let damage = g.one_in(4);
    for i in 0..n {
        let mut h = Rng::new(if twin { seed } else { mix(seed, i) });
        let mut p = Plan { property: "C26".into(), seed: plan.seed, ..Default::default() };
        let kind = one_kind.unwrap_or_else(|| if twin { h.below(3) } else { g.below(3) });
        let mut r = match kind {
            0 => bin(if damage { "C06" } else { "C01" }, &mut h, &mut p),
            1 => sp(if damage { "C13" } else { "C07" }, &mut h, &mut p),
            _ => sum("C14", &mut h, &mut p),
        };
        p.steps.truncate(cut);
        for s in &mut p.steps {
            if s.op == "pushn" {
                s.a = s.a.min(40);
            }
        }
        if g.one_in(2) {
            r = Rates::default();
        }
        plan.part_rates.push(r);
        plan.parts.push(p);
    }
    // Trees that differ only a little: the last step or two of one are another's.
    if twin && g.one_in(2) {
        for p in &mut plan.parts {
            let k = g.below(p.steps.len() as u64 + 1) as usize;
            for s in &mut p.steps[k..] {
                s.a ^= g.below(2);
                s.b ^= g.below(2) << 16;
            }
        }
    }
    plan.set("threads", g.one_in(2) as u64);
    plan.set("switch", *g.pick(&[500u64, 2000, 5000, 9000]));
    if plan.get("threads") == 0 && g.one_in(2) {
        plan.set("nest", *g.pick(&[20u64, 200, 1000, 4000]));
    }
    if plan.get("threads") == 0 {
        let total: usize = plan.parts.iter().map(|p| p.steps.len()).sum();
        let mut k = 0;
        let stay = g.range(1, 6);
        for _ in 0..2 * total {
            if !g.one_in(stay) {
                // goes on
            } else {
                k = g.below(n) as u32;
            }
            plan.sched.push(k);
        }
    }
    Rates::default()
}

/// Sum trees that share one storage.
fn shared_sums(p: &str, g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "indep".into();
    plan.set("shared", 1);
    plan.set("real", (p == "C23" || g.one_in(3)) as u64);
    let n = g.range(2, 4);
    let seed = g.next();
    let alike = g.below(3);
    for i in 0..n {
        let mut p = Plan { property: p.into(), seed: plan.seed, ..Default::default() };
        // Alike: the same history, or the same up to some step.
        let mut h = Rng::new(if alike > 0 { seed } else { mix(seed, i) });
        let mut r = sum("C14", &mut h, &mut p);
        p.set("mode", 0);
        p.steps.truncate(16);
        for s in &mut p.steps {
            if s.op == "pushn" {
                s.a = s.a.min(12);
            }
        }
        if alike == 2 {
            let k = g.below(p.steps.len() as u64 + 1) as usize;
            for s in &mut p.steps[k..] {
                match g.below(4) {
                    0 => s.a ^= 1,
                    1 => s.b ^= 1 << 16,
                    2 => s.a = s.a.rotate_left(8) >> 8,
                    _ => (),
                }
            }
            if g.one_in(2) && !p.steps.is_empty() {
                let k = g.below(p.steps.len() as u64) as usize;
                p.steps.remove(k);
            }
        }
        if g.one_in(3) {
            r = Rates::default();
        }
        plan.part_rates.push(r);
        plan.parts.push(p);
    }
    plan.set("threads", g.one_in(2) as u64);
    plan.set("switch", *g.pick(&[500u64, 2000, 5000, 9000]));
    if plan.get("threads") == 0 {
        if g.one_in(3) {
            plan.set("nest", *g.pick(&[20u64, 200, 1000, 4000]));
        }
        let total: usize = plan.parts.iter().map(|p| p.steps.len()).sum();
        let stay = g.range(1, 4);
        let mut k = 0;
        for _ in 0..2 * total {
            if g.one_in(stay) {
                k = g.below(n) as u32;
            }
            plan.sched.push(k);
        }
    }
    Rates::default()
}

/// Histories of the in-memory map itself.
fn map(g: &mut Rng, plan: &mut Plan) -> Rates {
    plan.scenario = "map".into();
    plan.set("table", g.below(3));
    let n = g.range(1, 3);
    plan.set("actors", n);
    let keys = *g.pick(&[1u64, 2, 4, 8, 20, 60, 300, 1 << 40]);
    let values = *g.pick(&[1u64, 2, 5, 1 << 40]);
    let ws = weights(
        g,
        &[("insert", 12), ("remove", 6), ("get", 5), ("all", 1), ("hold", 1), ("swap", 1), ("crash", 1), ("grow", 1), ("shrink", 1)],
    );
    let steps = size(g) * *g.pick(&[1usize, 2, 4]);
    for _ in 0..steps {
        let op = pick_op(g, &ws);
        let mut s = Step { op: op.into(), actor: g.below(n) as u32, ..Default::default() };
        s.a = g.below(keys);
        s.b = match op {
            "insert" => g.below(values) | g.below(3) << 50,
            "grow" | "shrink" => *g.pick(&[1u64, 3, 4, 7, 8, 14, 15, 28, 29, 56, 57, 112, 113, 200]),
            _ => g.below(12),
        };
        plan.steps.push(s);
    }
    // Very many entries, and most of them removed again.
    if g.one_in(150) {
        let (a, n) = (g.below(keys), g.range(500, 70_000));
        for (op, b) in [("grow", n), ("shrink", n - g.below(n / 2)), ("grow", n / 2), ("swap", 1)] {
            let s = Step { op: op.into(), a, b, ..Default::default() };
            let at = plan.steps.len() - g.below(3).min(plan.steps.len() as u64) as usize;
            plan.steps.insert(if op == "swap" { at } else { plan.steps.len() }, s);
        }
    }
    Rates::default()
}

pub fn case(prop: &str, variant: &str, seed: u64) -> Case {
    let mut g = Rng::new(mix(seed, 1));
    let g = &mut g;
    let mut plan = Plan {
        property: prop.into(),
        variant: variant.into(),
        seed,
        ..Default::default()
    };
    let mut nr = NetRates::default();
    let rates = match prop {
        "C26" => indep(g, &mut plan),
        "C36" => {
            let (r, n) = fetch(g, &mut plan);
            nr = n;
            r
        }
        // Any case of any other property.
        "C27" => {
            let other: Vec<&str> = PROPS.iter().copied().filter(|p| *p != "C27" && *p != "C37").collect();
            let p = if g.one_in(6) { "C34" } else { *g.pick(&other) };
            let mut c = case(p, variant, mix(seed, 3));
            c.plan.property = prop.into();
            return c;
        }
        "C21" | "C24" | "C30" | "C37" => bin(prop, g, &mut plan),
        "C31" => match g.below(10) {
            0..=4 => bin(prop, g, &mut plan),
            9 => sum(prop, g, &mut plan),
            _ => sp(prop, g, &mut plan),
        },
        "C33" => sum(prop, g, &mut plan),
        "C34" => match g.below(10) {
            0..=4 => bin(prop, g, &mut plan),
            8 | 9 => sum(prop, g, &mut plan),
            _ => sp(prop, g, &mut plan),
        },
        "C35" if g.one_in(2) => bin(prop, g, &mut plan),
        "C35" => sp(prop, g, &mut plan),
        "C32" if g.one_in(2) => bin(prop, g, &mut plan),
        "C32" => sp(prop, g, &mut plan),
        "C22" | "C28" => match g.below(10) {
            0..=4 => bin(prop, g, &mut plan),
            9 if prop == "C22" => sum(prop, g, &mut plan),
            8 if prop == "C22" => sum(prop, g, &mut plan),
            _ => sp(prop, g, &mut plan),
        },
        "C23" => match g.below(10) {
            0..=3 => map(g, &mut plan),
            4 | 5 => bin(prop, g, &mut plan),
            6 | 7 => sp(prop, g, &mut plan),
            8 => sum(prop, g, &mut plan),
            _ => {
                let r = match g.below(3) {
                    0 => conc_bin(prop, g, &mut plan),
                    1 => conc_sp(prop, g, &mut plan),
                    _ => shared_sums(prop, g, &mut plan),
                };
                plan.set("real", 1);
                r
            }
        },
        "C29" => shared_sums(prop, g, &mut plan),
        "C40" => {
            plan.set("unwind", 1);
            match g.below(10) {
                0..=3 => bin(prop, g, &mut plan),
                4..=7 => sp(prop, g, &mut plan),
                _ => sum(prop, g, &mut plan),
            }
        }
        "C25" => sp(prop, g, &mut plan),
        "C01" | "C02" | "C03" | "C04" | "C06" => bin(prop, g, &mut plan),
        "C05" if g.one_in(2) => bin(prop, g, &mut plan),
        "C05" => conc_bin(prop, g, &mut plan),
        "C38" => shared_bin(g, &mut plan),
        "C12" | "C39" if g.one_in(2) => conc_sp(prop, g, &mut plan),
        "C39" => sp(prop, g, &mut plan),
        "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" => sp(prop, g, &mut plan),
        "C14" | "C15" | "C16" => sum(prop, g, &mut plan),
        "C17" | "C18" => match g.below(10) {
            0..=3 => bin(prop, g, &mut plan),
            4..=7 => sp(prop, g, &mut plan),
            8 => sum(prop, g, &mut plan),
            _ if g.one_in(2) => conc_bin(prop, g, &mut plan),
            _ => conc_sp(prop, g, &mut plan),
        },
        _ => {
            let (r, n) = net(prop, g, &mut plan);
            nr = n;
            r
        }
    };
    Case {
        plan,
        rates,
        net: nr,
        rng: Rng::new(mix(seed, 2)),
    }
}
