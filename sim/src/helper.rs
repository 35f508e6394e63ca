//! The test helpers that ship with the library: a prover that sees each leaf
//! once, and the verifier of proofs. Users copy them into light clients.

use crate::bin_eng::{pick_index, root_of};
use crate::common::*;
use crate::disk::{guard, last_panic, Out};
use crate::model::*;
use crate::plan::Step;
use crate::rng::mix;

#[cfg(feature = "helpers")]
use fuel_merkle_test_helpers::binary::{verify, MerkleTree as Prover};

/// Without the helpers this is never run.
#[cfg(not(feature = "helpers"))]
fn verify(_: &H, _: &Vec<H>, _: u64, _: u64) -> bool {
    unreachable!()
}
#[cfg(not(feature = "helpers"))]
struct Prover;
#[cfg(not(feature = "helpers"))]
impl Prover {
    fn new() -> Self {
        Prover
    }
    fn set_proof_index(&mut self, _: u64) {}
    fn push(&mut self, _: &[u8]) {}
    fn root(&self) -> H {
        unreachable!()
    }
    fn leaves_count(&self) -> u64 {
        unreachable!()
    }
    fn prove(self) -> (H, Vec<H>) {
        unreachable!()
    }
}

struct Stream {
    prover: Prover,
    idx: u64,
    fed: Vec<H>,
}

/// Provers that follow the tree, each for one leaf.
#[derive(Default)]
pub struct Streams(Vec<Stream>);

fn feed(s: &mut Stream, data: &[Vec<u8>], upto: usize) {
    for d in &data[s.fed.len()..upto] {
        s.prover.push(d);
        s.fed.push(leaf_hash(d));
    }
}

impl Streams {
    pub fn exec(&mut self, s: &Step, m: &mut Mth<H>, data: Option<&[Vec<u8>]>, step: usize, st: &mut Stats) -> Res<u64> {
        if !cfg!(feature = "helpers") {
            return Ok(0);
        }
        // The leaves they have seen are no longer those of the tree (a crash,
        // a rollback): they start again.
        let n = m.count();
        self.0.retain(|x| {
            x.fed.len() as u64 <= n && x.fed.iter().enumerate().rev().all(|(i, h)| m.leaf(i as u64) == *h)
        });
        match (s.op.as_str(), data) {
            ("stream", Some(data)) => self.stream(s, m, data, step, st),
            ("take", Some(data)) => self.take(s, m, data, step, st),
            _ => self.verifier(s, m, step, st),
        }
    }

    /// A prover is started, or all are told the leaves that are new.
    fn stream(&mut self, s: &Step, m: &mut Mth<H>, data: &[Vec<u8>], step: usize, st: &mut Stats) -> Res<u64> {
        let n = m.count();
        if self.0.len() < 6 {
            let idx = match s.a % 4 {
                0 => n,
                1 => n + s.b % 5,
                2 => s.b % 40,
                _ => s.b % n.max(1),
            };
            let mut prover = Prover::new();
            prover.set_proof_index(idx);
            self.0.push(Stream { prover, idx, fed: vec![] });
            st.hit("prover_started");
        }
        let upto = if s.b >> 20 & 3 == 0 { (s.b >> 24) % (n + 1) } else { n };
        let want = root_of(m, n);
        for x in &mut self.0 {
            let to = (upto as usize).max(x.fed.len());
            let (root, count) = match guard(|| {
                feed(x, data, to);
                (x.prover.root(), x.prover.leaves_count())
            }) {
                Out::Ret(r) => r,
                _ => return bad(step, "panic", format!("a prover of leaf {} {}", x.idx, last_panic())),
            };
            let w = if to as u64 == n { want } else { root_of(m, to as u64) };
            if root != w || count != to as u64 {
                return bad(
                    step,
                    "prover-root",
                    format!("a prover that saw {} leaves counts {} and gives root {}", to, count, short(&root)),
                );
            }
            st.hit("prover_root_compared");
        }
        Ok(low(&want))
    }

    /// A prover is told the rest and gives its proof.
    fn take(&mut self, s: &Step, m: &mut Mth<H>, data: &[Vec<u8>], step: usize, st: &mut Stats) -> Res<u64> {
        if self.0.is_empty() {
            return Ok(0);
        }
        let mut x = self.0.swap_remove(s.a as usize % self.0.len());
        let idx = x.idx;
        if s.b & 1 == 0 {
            feed(&mut x, data, data.len());
        }
        let n = x.fed.len() as u64;
        let (root, proof) = match guard(|| x.prover.prove()) {
            Out::Ret(r) => r,
            _ => return bad(step, "panic", format!("the prover of leaf {} of {} {}", idx, n, last_panic())),
        };
        let want = root_of(m, n);
        let path = if idx < n { m.path_at(idx, n) } else { vec![] };
        if root != want || proof != path {
            return bad(
                step,
                "prover-proof",
                format!("the prover of leaf {} of {} gives another proof than the tree", idx, n),
            );
        }
        st.hit("prover_proof_compared");
        Ok(low(&root))
    }

    /// The verifier meets proofs, good and bad.
    fn verifier(&self, s: &Step, m: &mut Mth<H>, step: usize, st: &mut Stats) -> Res<u64> {
        let all = m.count();
        if all == 0 {
            return Ok(0);
        }
        let n = match s.a >> 8 & 3 {
            0 => 1 + (s.b >> 1) % all,
            1 => (1u64 << (63 - all.leading_zeros())) + (s.a >> 10 & 1),
            _ => all,
        }
        .min(all);
        let idx = pick_index(n, (s.a >> 16) % 10, s.b) % n;
        let root = root_of(m, n);
        let path = m.path_at(idx, n);
        let leaf = path[0];
        let mut trace = 0;
        for k in 0..14u64 {
            let r = mix(s.b, k);
            let (mut p, mut rt, mut i) = (path.clone(), root, idx);
            let mut want = Some(false);
            match k {
                0 => want = Some(true),
                1 => {
                    let j = r as usize % p.len();
                    p[j][(r >> 8) as usize % 32] ^= 1 << (r >> 16 & 7);
                }
                2 => rt[(r >> 8) as usize % 32] ^= 1 << (r >> 16 & 7),
                3 => {
                    p.pop();
                }
                4 => p.push([r as u8; 32]),
                5 => p.push(root),
                6 => i = n + r % 3,
                7 => i = u64::MAX - r % 3,
                8 if p.len() > 2 => {
                    let j = 1 + r as usize % (p.len() - 2);
                    p.swap(j, j + 1);
                    if p == path {
                        continue;
                    }
                }
                9 if n > 1 => {
                    rt = root_of(m, n - 1);
                    if rt == root {
                        continue;
                    }
                }
                // Another leaf's place. If the very same leaf is there, the
                // proof may be good for it, too.
                10..=13 => {
                    i = match k {
                        10 => r % n,
                        11 => idx ^ 1,
                        12 => idx ^ 1 << (r % 60),
                        _ => n - 1 - r % n.min(3),
                    };
                    if i >= n || m.leaf(i) == leaf {
                        continue;
                    }
                }
                _ => continue,
            }
            if let (true, Some(false)) = (k == 3 && p.is_empty(), want) {
                st.hit("empty_proof_offered");
            }
            let got = match guard(|| verify(&rt, &p, i, n)) {
                Out::Ret(b) => b,
                _ => return bad(step, "panic", format!("verify of leaf {} of {} {}", i, n, last_panic())),
            };
            trace = mix(trace, got as u64 + k);
            if want != Some(got) {
                return bad(
                    step,
                    "verify",
                    format!(
                        "the verifier {} a {} proof for leaf {} of {} (the proof is that of leaf {}, change {})",
                        if got { "accepts" } else { "rejects" },
                        if got { "bad" } else { "good" },
                        i,
                        n,
                        idx,
                        k
                    ),
                );
            }
            st.hit(if got { "proof_accepted" } else { "proof_rejected" });
        }
        Ok(trace)
    }
}
