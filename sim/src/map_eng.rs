//! Raw histories of several of the library's in-memory maps, each against a
//! reference map, through every way to call them.

use crate::common::*;
use crate::disk::{guard, last_panic, Out};
use crate::plan::*;
use crate::rng::mix;
use fuel_merkle::common::StorageMap;
use fuel_merkle::storage::{StorageInspectInfallible, StorageMutateInfallible};
use fuel_storage::{Mappable, StorageInspect, StorageMutate};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;

/// As the binary tree's table.
struct Numbers;
impl Mappable for Numbers {
    type Key = u64;
    type SetValue = (u64, [u8; 32]);
    type GetValue = (u64, [u8; 32]);
}

/// As the sparse tree's table.
struct Hashes;
impl Mappable for Hashes {
    type Key = [u8; 32];
    type SetValue = (u32, u8, [u8; 32], [u8; 32]);
    type GetValue = (u32, u8, [u8; 32], [u8; 32]);
}

/// Values are stored in another form than they are set in.
struct Texts;
#[derive(Clone, Debug, PartialEq)]
struct Text(Vec<u8>);
impl From<u64> for Text {
    fn from(x: u64) -> Self {
        Text(x.to_be_bytes()[..(x % 9) as usize].to_vec())
    }
}
impl Mappable for Texts {
    type Key = Vec<u8>;
    type SetValue = u64;
    type GetValue = Text;
}

fn wide(x: u64) -> [u8; 32] {
    let mut h = [0u8; 32];
    match x % 5 {
        // Keys that differ in few places
        0 => h[31] = (x / 5) as u8,
        1 => h[0] = (x / 5) as u8,
        2 => h = [(x / 5) as u8; 32],
        _ => {
            for i in 0..4 {
                h[8 * i..8 * i + 8].copy_from_slice(&mix(x, i as u64).to_be_bytes());
            }
        }
    }
    h
}

struct Eng<'a, T>
where
    T: Mappable,
{
    maps: Vec<StorageMap<T>>,
    refs: Vec<BTreeMap<T::Key, T::GetValue>>,
    key: fn(u64) -> T::Key,
    value: fn(u64) -> T::SetValue,
    /// What `get` once lent, still held, and what it must read.
    held: Vec<(T::GetValue, T::GetValue)>,
    st: &'a mut Stats,
    step: usize,
    trace: u64,
    calls: u64,
}

impl<T> Eng<'_, T>
where
    T: Mappable,
    T::Key: Ord + Eq + Hash + Clone + Debug,
    T::SetValue: Clone,
    T::GetValue: Clone + Debug + PartialEq + From<T::SetValue>,
{
    fn says(&mut self, what: &str, k: &T::Key, got: Option<T::GetValue>, want: Option<T::GetValue>) -> Res {
        self.calls += 1;
        self.trace = mix(self.trace, got.is_some() as u64 + 2);
        if got != want {
            return bad(
                self.step,
                "map",
                format!("{} of {:?} gives {:?} instead of {:?}", what, k, got, want),
            );
        }
        Ok(())
    }

    fn get(&mut self, m: usize, x: u64, how: u64) -> Res {
        let k = (self.key)(x);
        let want = self.refs[m].get(&k).cloned();
        let map = &self.maps[m];
        let (got, has) = match guard(|| match how % 4 {
            0 => (
                StorageInspect::get(map, &k).unwrap().map(|c| c.into_owned()),
                StorageInspect::contains_key(map, &k).unwrap(),
            ),
            1 => (
                StorageInspectInfallible::get(map, &k).map(|c| c.into_owned()),
                StorageInspectInfallible::contains_key(map, &k),
            ),
            2 => (
                StorageInspect::get(&map, &k).unwrap().map(|c| c.into_owned()),
                StorageInspect::contains_key(&map, &k).unwrap(),
            ),
            _ => (
                StorageInspectInfallible::get(&map, &k).map(|c| {
                    // The copy is the reader's own.
                    let mut c = c;
                    let v = c.to_mut().clone();
                    v
                }),
                StorageInspectInfallible::contains_key(&map, &k),
            ),
        }) {
            Out::Ret(r) => r,
            _ => return bad(self.step, "panic", format!("get of {:?} {}", k, last_panic())),
        };
        if has != want.is_some() {
            return bad(
                self.step,
                "map",
                format!("contains_key of {:?} gives {}, get {:?}", k, has, got),
            );
        }
        self.says("get", &k, got, want)
    }

    fn insert(&mut self, m: usize, x: u64, y: u64, how: u64) -> Res {
        let k = (self.key)(x);
        let v = (self.value)(y);
        let want = self.refs[m].insert(k.clone(), v.clone().into());
        let mut map = &mut self.maps[m];
        let got = match guard(|| match how % 3 {
            0 => StorageMutate::insert(map, &k, &v).unwrap(),
            1 => StorageMutateInfallible::insert(map, &k, &v),
            _ => StorageMutate::insert(&mut map, &k, &v).unwrap(),
        }) {
            Out::Ret(r) => r,
            _ => return bad(self.step, "panic", format!("insert of {:?} {}", k, last_panic())),
        };
        self.st.hit(if want.is_some() { "map_overwrite" } else { "map_insert" });
        self.says("insert", &k, got, want)
    }

    fn remove(&mut self, m: usize, x: u64, how: u64) -> Res {
        let k = (self.key)(x);
        let want = self.refs[m].remove(&k);
        let mut map = &mut self.maps[m];
        let got = match guard(|| match how % 3 {
            0 => StorageMutate::remove(map, &k).unwrap(),
            1 => StorageMutateInfallible::remove(map, &k),
            _ => StorageMutate::remove(&mut map, &k).unwrap(),
        }) {
            Out::Ret(r) => r,
            _ => return bad(self.step, "panic", format!("remove of {:?} {}", k, last_panic())),
        };
        self.st.hit(if want.is_some() { "map_remove" } else { "map_remove_absent" });
        self.says("remove", &k, got, want)
    }

    /// Everything that is in a map, and a few keys that are not.
    fn all(&mut self, m: usize) -> Res {
        let ks: Vec<(T::Key, T::GetValue)> =
            self.refs[m].iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        for (k, v) in ks {
            let got = StorageInspectInfallible::get(&self.maps[m], &k).map(|c| c.into_owned());
            self.says("get", &k, got, Some(v))?;
        }
        for x in 0..24 {
            self.get(m, x, x)?;
        }
        for (a, b) in &self.held {
            if a != b {
                return bad(self.step, "map", "a value read earlier has changed");
            }
        }
        self.st.hit("map_read_whole");
        Ok(())
    }

    fn exec(&mut self, s: &Step) -> Res {
        let n = self.maps.len();
        let m = s.actor as usize % n;
        match s.op.as_str() {
            "insert" => self.insert(m, s.a, s.b, s.b >> 20)?,
            "remove" => self.remove(m, s.a, s.b)?,
            "get" => self.get(m, s.a, s.b)?,
            // The process that owned the map dies; nothing of it stays.
            "crash" => {
                self.maps[m] = if s.a & 1 == 0 { StorageMap::new() } else { StorageMap::default() };
                self.refs[m].clear();
                self.st.hit("crash");
                self.all(m)?;
            }
            "swap" => {
                let o = (m + 1 + s.a as usize % n) % n;
                self.maps.swap(m, o);
                self.refs.swap(m, o);
            }
            "grow" => {
                for i in 0..s.b {
                    self.insert(m, s.a + i, mix(s.a, i) >> 3, i)?;
                }
                self.all(m)?;
            }
            "shrink" => {
                for i in 0..s.b {
                    self.remove(m, s.a + i, i)?;
                }
                self.all(m)?;
            }
            "all" => self.all(m)?,
            "hold" => {
                let k = (self.key)(s.a);
                if let Some(v) = StorageInspectInfallible::get(&self.maps[m], &k) {
                    self.held.push((v.into_owned(), self.refs[m].get(&k).cloned().unwrap()));
                }
            }
            o => panic!("unknown op {}", o),
        }
        Ok(())
    }
}

fn drive<T>(plan: &Plan, st: &mut Stats, key: fn(u64) -> T::Key, value: fn(u64) -> T::SetValue) -> Res<u64>
where
    T: Mappable,
    T::Key: Ord + Eq + Hash + Clone + Debug,
    T::SetValue: Clone,
    T::GetValue: Clone + Debug + PartialEq + From<T::SetValue>,
{
    let n = plan.get("actors").max(1) as usize;
    let mut e = Eng::<T> {
        maps: (0..n).map(|_| StorageMap::new()).collect(),
        refs: (0..n).map(|_| BTreeMap::new()).collect(),
        key,
        value,
        held: vec![],
        st,
        step: 0,
        trace: plan.get("table"),
        calls: 0,
    };
    for (i, s) in plan.steps.iter().enumerate() {
        e.step = i;
        e.exec(s)?;
        e.trace = mix(e.trace, mix(s.a, s.b) ^ s.actor as u64);
        let t = e.trace;
        let size: usize = e.refs.iter().map(|r| r.len()).sum();
        e.st.state(t, size as u64);
        vlog!(e.st, "step {} {} a={} b={}: {} entries", i, s.op, s.a, s.b, size);
    }
    e.step = plan.steps.len();
    for m in 0..n {
        e.all(m)?;
    }
    let (c, t) = (e.calls, e.trace);
    e.st.add("storage_calls", c);
    Ok(t)
}

pub fn run(plan: &Plan, st: &mut Stats) -> Res<u64> {
    match plan.get("table") {
        0 => drive::<Numbers>(
            plan,
            st,
            |x| match x % 4 {
                0 => x / 4,
                1 => u64::MAX - x / 4,
                2 => (x / 4) << 32,
                _ => mix(x, 1),
            },
            |y| (mix(y, 3) >> (y % 64), wide(y)),
        ),
        1 => drive::<Hashes>(plan, st, wide, |y| ((y % 257) as u32, (y & 1) as u8, wide(y), wide(y ^ 5))),
        _ => drive::<Texts>(plan, st, |x| wide(x)[..(x % 33) as usize].to_vec(), |y| y),
    }
}
