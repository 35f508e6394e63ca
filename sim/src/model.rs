//! The executable reference models. They share no code with fuel-merkle: the
//! hash functions are written from the specification on top of the sha2 crate.

use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, HashMap};

pub type H = [u8; 32];

pub const ZERO: H = [0; 32];

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn empty() -> H {
    sha(&[])
}

pub fn leaf_hash(data: &[u8]) -> H {
    sha(&[&[0], data])
}

pub fn node_hash(l: &H, r: &H) -> H {
    sha(&[&[1], l, r])
}

pub fn sum_leaf(fee: u64, data: &[u8]) -> (u64, H) {
    (fee, sha(&[&[0], &fee.to_be_bytes(), data]))
}

pub fn sum_join(l: &(u64, H), r: &(u64, H)) -> (u64, H) {
    (
        l.0.wrapping_add(r.0),
        sha(&[&[1], &l.0.to_be_bytes(), &l.1, &r.0.to_be_bytes(), &r.1]),
    )
}

/// An append-only list of leaves, of which the first `base` are all alike (and
/// not stored), and its Merkle tree hash by the recursive definition of
/// RFC 6962: a list of n > 1 leaves splits at the greatest power of 2 below n.
#[derive(Clone)]
pub struct Mth<N: Clone> {
    pub base: u64,
    uniform: Vec<N>,
    pub leaves: Vec<N>,
    cache: HashMap<(u32, u64), N>,
    join: fn(&N, &N) -> N,
}

impl<N: Clone> Mth<N> {
    pub fn new(base: u64, base_leaf: Option<N>, join: fn(&N, &N) -> N) -> Self {
        let mut uniform = vec![];
        if let Some(l) = base_leaf {
            uniform.push(l);
            for _ in 0..62 {
                let x = uniform.last().unwrap();
                let y = join(x, x);
                uniform.push(y);
            }
        }
        Mth {
            base,
            uniform,
            leaves: vec![],
            cache: HashMap::new(),
            join,
        }
    }

    pub fn count(&self) -> u64 {
        self.base + self.leaves.len() as u64
    }

    pub fn push(&mut self, leaf: N) {
        self.leaves.push(leaf);
    }

    pub fn truncate(&mut self, count: u64) {
        if count < self.count() {
            assert!(count >= self.base);
            let n = self.count();
            self.leaves.truncate((count - self.base) as usize);
            if n - count > 8 {
                self.cache.clear();
                return;
            }
            for h in 0..63 {
                for i in count >> h..=(n - 1) >> h {
                    self.cache.remove(&(h, i));
                }
            }
        }
    }

    pub fn leaf(&self, i: u64) -> N {
        if i < self.base {
            self.uniform[0].clone()
        } else {
            self.leaves[(i - self.base) as usize].clone()
        }
    }

    /// The hash of leaves `i << h .. (i + 1) << h`.
    pub fn aligned(&mut self, h: u32, i: u64) -> N {
        if (i + 1) << h <= self.base {
            return self.uniform[h as usize].clone();
        }
        if h == 0 {
            return self.leaf(i);
        }
        if let Some(x) = self.cache.get(&(h, i)) {
            return x.clone();
        }
        let l = self.aligned(h - 1, 2 * i);
        let r = self.aligned(h - 1, 2 * i + 1);
        let x = (self.join)(&l, &r);
        self.cache.insert((h, i), x.clone());
        x
    }

    /// MTH of leaves `a..b`, a < b, `a` aligned to the split.
    fn mth(&mut self, a: u64, b: u64) -> N {
        let n = b - a;
        if n.is_power_of_two() {
            return self.aligned(n.trailing_zeros(), a / n);
        }
        let k = 1u64 << (63 - n.leading_zeros());
        let l = self.mth(a, a + k);
        let r = self.mth(a + k, b);
        (self.join)(&l, &r)
    }

    /// The root over the first `n` leaves; `None` if there are none.
    pub fn root_at(&mut self, n: u64) -> Option<N> {
        if n == 0 {
            None
        } else {
            Some(self.mth(0, n))
        }
    }

    /// The audit path of leaf `idx` among the first `n`: the leaf's hash, then
    /// the sibling hashes from the leaf up to the root.
    pub fn path_at(&mut self, idx: u64, n: u64) -> Vec<N> {
        let mut down = vec![];
        let (mut a, mut b) = (0, n);
        while b - a > 1 {
            let m = b - a;
            let k = if m.is_power_of_two() {
                m / 2
            } else {
                1u64 << (63 - m.leading_zeros())
            };
            if idx < a + k {
                down.push(self.mth(a + k, b));
                b = a + k;
            } else {
                down.push(self.mth(a, a + k));
                a += k;
            }
        }
        down.push(self.leaf(idx));
        down.reverse();
        down
    }
}

/// Peaks (complete subtrees from left to right) of a list of `n` leaves, as
/// in-order indices.
pub fn peak_keys(n: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut start = 0u64;
    for h in (0..63).rev() {
        if n >> h & 1 == 1 {
            v.push(2 * start + (1u64 << h) - 1);
            start += 1u64 << h;
        }
    }
    v
}

/// The range of leaves below an in-order index: (first leaf, height).
pub fn span_of_key(k: u64) -> (u64, u32) {
    let h = (!k).trailing_zeros();
    if h >= 62 {
        return (u64::MAX / 4, 0);
    }
    ((k - ((1u64 << h) - 1)) / 2, h)
}

/// RFC 6962 / RFC 9162 style verification of an inclusion proof, written
/// independently of the prover: recompute the root from the leaf up.
pub fn verify_path(root: &H, path: &[H], idx: u64, n: u64) -> bool {
    if idx >= n || path.is_empty() {
        return false;
    }
    let (mut f, mut s) = (idx, n - 1);
    let mut r = path[0];
    for p in &path[1..] {
        if s == 0 {
            return false;
        }
        if f & 1 == 1 || f == s {
            r = node_hash(p, &r);
            while f & 1 == 0 && f != 0 {
                f >>= 1;
                s >>= 1;
            }
        } else {
            r = node_hash(&r, p);
        }
        f >>= 1;
        s >>= 1;
    }
    s == 0 && r == *root
}

// ---------------------------------------------------------------------------
// Sparse

pub type Map = BTreeMap<H, H>; // key -> sha256(data)

pub fn bit(k: &H, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}

pub fn common_prefix(a: &H, b: &H) -> usize {
    for i in 0..32 {
        let x = a[i] ^ b[i];
        if x != 0 {
            return i * 8 + x.leading_zeros() as usize;
        }
    }
    256
}

pub fn smt_leaf(k: &H, v: &H) -> H {
    sha(&[&[0], k, v])
}

/// The root of the compact sparse Merkle tree of `m`, by the recursive
/// definition: nothing is zero, one leaf is its hash, and more split at the
/// next bit of their keys.
pub fn smt_root(m: &Map) -> H {
    let xs: Vec<(&H, &H)> = m.iter().collect();
    smt(&xs, 0)
}

pub fn smt(xs: &[(&H, &H)], d: usize) -> H {
    match xs.len() {
        0 => ZERO,
        1 => smt_leaf(xs[0].0, xs[0].1),
        _ => {
            let i = xs.partition_point(|(k, _)| !bit(k, d));
            let l = smt(&xs[..i], d + 1);
            let r = smt(&xs[i..], d + 1);
            node_hash(&l, &r)
        }
    }
}

/// All nodes of the tree of `xs`, in their stored form: hash, height, 0 for a
/// leaf or 1, and key and value or the children.
pub fn smt_nodes(xs: &[(&H, &H)], d: usize, out: &mut Vec<(H, (u32, u8, H, H))>) -> H {
    match xs.len() {
        0 => ZERO,
        1 => {
            let h = smt_leaf(xs[0].0, xs[0].1);
            out.push((h, (0, 0, *xs[0].0, *xs[0].1)));
            h
        }
        _ => {
            let i = xs.partition_point(|(k, _)| !bit(k, d));
            let l = smt_nodes(&xs[..i], d + 1, out);
            let r = smt_nodes(&xs[i..], d + 1, out);
            let h = node_hash(&l, &r);
            out.push((h, (256 - d as u32, 1, l, r)));
            h
        }
    }
}

/// How deep the leaf of `k` lies in the tree of `m` with `k` added.
pub fn smt_depth(m: &Map, k: &H) -> usize {
    let lo = m.range(..*k).next_back().map(|(x, _)| common_prefix(x, k) + 1);
    let hi = m
        .range((std::ops::Bound::Excluded(*k), std::ops::Bound::Unbounded))
        .next()
        .map(|(x, _)| common_prefix(x, k) + 1);
    lo.unwrap_or(0).max(hi.unwrap_or(0))
}

pub fn hex(h: &[u8]) -> String {
    h.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn short(h: &H) -> String {
    hex(&h[..6])
}

/// Lengths are written in 16 bits; the greatest stand for more than fit.
pub fn len_of(x: u64) -> u64 {
    if x >= 0xfff8 {
        (1 << 20) + x - 0xfffc
    } else if x >= 0xff00 {
        65530 + (x - 0xff00) * 700
    } else {
        x
    }
}

/// The bytes of content number `tag` with length `len`.
pub fn content(tag: u64, len: u64) -> Vec<u8> {
    if tag == 0 {
        return vec![0; len as usize];
    }
    if tag == 1 {
        return vec![0xff; len as usize];
    }
    let mut r = crate::rng::Rng::new(tag);
    let mut v = Vec::with_capacity(len as usize + 8);
    // Some have structure.
    match tag % 23 {
        // Zeros, then anything
        5 => v.resize((r.next() % (len + 1)) as usize, 0),
        // Few different bytes
        7 => {
            let few = [0u8, 1, 0xff, 0x80];
            while (v.len() as u64) < len {
                v.push(few[(r.next() >> 7) as usize % 4]);
            }
        }
        // One byte repeated
        9 => v.resize(len as usize, (r.next() >> 9) as u8),
        // Begins like the input of a hash
        11 => v.push(r.next() as u8 & 1),
        _ => (),
    }
    while (v.len() as u64) < len {
        v.extend_from_slice(&r.next().to_be_bytes());
    }
    v.truncate(len as usize);
    if tag % 23 == 13 {
        // Anything, then zeros
        let k = (r.next() % (len + 1)) as usize;
        v[k..].fill(0);
    }
    v
}
