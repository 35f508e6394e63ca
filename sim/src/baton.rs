//! Real threads of which exactly one runs: at every storage call the running
//! actor asks the scheduler, which decides (from the seed or from the recorded
//! schedule) who continues.

use crate::rng::Rng;
use std::sync::{Condvar, Mutex};

struct State {
    turn: usize,
    alive: Vec<bool>,
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    /// In how many of 10,000 points the running actor is preempted.
    switch: u32,
    record: Vec<u32>,
    switches: u64,
    started: bool,
}

pub struct Baton {
    st: Mutex<State>,
    cv: Vec<Condvar>,
}

impl Baton {
    pub fn new(n: usize, seed: u64, switch: u32, replay: Option<Vec<u32>>) -> Self {
        Baton {
            st: Mutex::new(State {
                turn: 0,
                alive: vec![true; n],
                rng: Rng::new(seed),
                replay,
                pos: 0,
                switch,
                record: vec![],
                switches: 0,
                started: false,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
        }
    }

    fn choose(s: &mut State, me: Option<usize>) -> Option<usize> {
        let live: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i]).collect();
        if live.is_empty() {
            return None;
        }
        // The recorded value is the choice among the live actors; past the end
        // of a (shortened) recording the current actor goes on.
        let c = if let Some(r) = &s.replay {
            let v = r.get(s.pos).copied();
            match (v, me) {
                (Some(v), _) => live[v as usize % live.len()],
                (None, Some(m)) if s.alive[m] => m,
                _ => live[0],
            }
        } else {
            match me {
                Some(m) if s.alive[m] && !s.rng.pct(s.switch) => m,
                _ => *s.rng.pick(&live),
            }
        };
        s.pos += 1;
        let i = live.iter().position(|x| *x == c).unwrap();
        s.record.push(i as u32);
        if Some(c) != me {
            s.switches += 1;
        }
        Some(c)
    }

    /// Called by an actor before its first step.
    pub fn enter(&self, me: usize) {
        let mut s = self.st.lock().unwrap();
        if !s.started {
            s.started = true;
            let c = Self::choose(&mut s, None).unwrap();
            s.turn = c;
            for c in &self.cv {
                c.notify_one();
            }
        }
        while s.turn != me {
            s = self.cv[me].wait(s).unwrap();
        }
    }

    pub fn yield_now(&self, me: usize) {
        let mut s = self.st.lock().unwrap();
        let c = Self::choose(&mut s, Some(me)).unwrap();
        if c != me {
            s.turn = c;
            self.cv[c].notify_one();
            while s.turn != me {
                s = self.cv[me].wait(s).unwrap();
            }
        }
    }

    pub fn leave(&self, me: usize) {
        let mut s = self.st.lock().unwrap();
        s.alive[me] = false;
        if let Some(c) = Self::choose(&mut s, None) {
            s.turn = c;
            self.cv[c].notify_one();
        }
    }

    pub fn result(&self) -> (Vec<u32>, u64) {
        let s = self.st.lock().unwrap();
        (s.record.clone(), s.switches)
    }
}
