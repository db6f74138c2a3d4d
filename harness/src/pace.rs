//! Controlled interleaving of threads: the threads ("lanes") of a case run one at a time and are switched at steps
//! chosen by the case. Steps are memory allocations and the events of the network.

use crate::Sm;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pace {
    /// switch at every step with probability 2^-k
    Random(u8, u64),
    /// switch at these steps (counted over all lanes), and when a lane cannot go on
    At(Vec<u32>, u64),
}

struct State {
    rng: Sm,
    alive: Vec<bool>,
    current: usize,
    steps: u64,
    switches: u64,
    /// a lane that did not reach its next step was overtaken: it waits for another lane, unknown to the pacer
    stalls: u64,
}

pub struct Pacer {
    pace: Pace,
    state: Mutex<State>,
    turn: Condvar,
}

thread_local! {
    static LANE: Cell<Option<(&'static Pacer, usize)>> = const { Cell::new(None) };
    /// the pacer itself is at work
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// Run `f` with this thread's lane, if it is one and not within the pacer already.
fn with<T>(f: impl FnOnce(&'static Pacer, usize) -> T) -> Option<T> {
    if BUSY.with(|b| b.get()) {
        return None;
    }
    let (p, me) = LANE.with(|l| l.get())?;
    BUSY.with(|b| b.set(true));
    let r = f(p, me);
    BUSY.with(|b| b.set(false));
    Some(r)
}

impl Pacer {
    /// Never freed: threads may look at it at any time.
    pub fn new(pace: &Pace, lanes: usize) -> &'static Self {
        let seed = match pace {
            Pace::Random(_, s) | Pace::At(_, s) => *s,
        };
        let mut rng = Sm(crate::mix(seed));
        let current = (rng.next() % lanes as u64) as usize;
        Box::leak(Box::new(Pacer {
            pace: pace.clone(),
            state: Mutex::new(State { rng, alive: vec![true; lanes], current, steps: 0, switches: 0, stalls: 0 }),
            turn: Condvar::new(),
        }))
    }

    /// Run `f` as lane `me`.
    pub fn lane<T>(&'static self, me: usize, f: impl FnOnce() -> T) -> T {
        struct End;
        impl Drop for End {
            fn drop(&mut self) {
                with(|p, me| {
                    let mut s = p.state.lock().unwrap();
                    s.alive[me] = false;
                    p.hand_over(&mut s, me);
                });
                LANE.with(|l| l.set(None));
            }
        }
        LANE.with(|l| l.set(Some((self, me))));
        let _end = End;
        with(|p, me| p.wait(p.state.lock().unwrap(), me));
        f()
    }

    /// Steps made, switches among them, stalls.
    pub fn counts(&self) -> (u64, u64, u64) {
        let s = self.state.lock().unwrap();
        (s.steps, s.switches, s.stalls)
    }

    fn hand_over(&self, s: &mut State, me: usize) -> bool {
        let others = s.alive.iter().enumerate().filter(|(i, a)| *i != me && **a).count();
        if others == 0 {
            return false;
        }
        if s.current == me || !s.alive[s.current] {
            let k = (s.rng.next() % others as u64) as usize;
            s.current = (0..s.alive.len()).filter(|i| *i != me && s.alive[*i]).nth(k).unwrap();
            s.switches += 1;
        }
        self.turn.notify_all();
        true
    }

    fn wait(&self, mut s: std::sync::MutexGuard<State>, me: usize) {
        let mut seen = s.steps;
        while s.current != me {
            let (g, t) = self.turn.wait_timeout(s, Duration::from_millis(40)).unwrap();
            s = g;
            if t.timed_out() && s.current != me {
                if s.steps == seen {
                    s.stalls += 1;
                    s.current = me;
                }
                seen = s.steps;
            }
        }
    }

    fn step(&self, me: usize, blocked: bool) -> bool {
        let mut s = self.state.lock().unwrap();
        if s.current != me {
            // overtaken
            self.wait(s, me);
            s = self.state.lock().unwrap();
        }
        s.steps += 1;
        let switch = blocked
            || match &self.pace {
                Pace::Random(k, _) => s.rng.next() >> 20 & ((1u64 << k) - 1) == 0,
                Pace::At(at, _) => at.iter().any(|a| *a as u64 == s.steps),
            };
        if !switch || !self.hand_over(&mut s, me) {
            return !blocked;
        }
        self.wait(s, me);
        true
    }
}

/// A point where another lane may take over.
pub fn step() {
    with(|p, me| p.step(me, false));
}

/// This lane cannot go on; whether another one had a turn.
pub fn blocked() -> bool {
    with(|p, me| p.step(me, true)).unwrap_or(false)
}
