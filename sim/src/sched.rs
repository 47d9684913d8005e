//! Deterministic scheduling of OS threads: exactly one actor runs at any time; at every scheduling
//! point (document access, internal span marker, operation boundary) the schedule, which is plain
//! data, says whether control passes to another actor.

use std::collections::HashMap;
use std::sync::{Condvar, Mutex};

struct State {
    running: usize,
    alive: Vec<bool>,
    /// Scheduling points passed so far.
    points: u64,
    switches: u64,
    hash: u64,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
    /// At point number `p`, pass control to actor `a` (if alive).
    plan: HashMap<u64, usize>,
    /// Additionally, with this seed, switch at pseudo-random points (0 = never).
    seed: u64,
    every: u64,
}

impl Sched {
    pub fn new(actors: usize, plan: &[(u64, usize)], seed: u64, every: u64) -> Sched {
        Sched {
            st: Mutex::new(State {
                running: 0,
                alive: vec![true; actors],
                points: 0,
                switches: 0,
                hash: 7,
            }),
            cv: Condvar::new(),
            plan: plan.iter().copied().collect(),
            seed,
            every: every.max(1),
        }
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn wait(&self, mut g: std::sync::MutexGuard<'_, State>, me: usize) {
        // Should the running actor block (on a lock that a waiting actor holds, say), nothing
        // moves any more: that is a deadlock of the code under test.
        let (mut still, mut seen) = (0, g.points);
        while g.running != me {
            let t;
            (g, t) = self
                .cv
                .wait_timeout(g, std::time::Duration::from_secs(1))
                .unwrap_or_else(|e| e.into_inner());
            if !t.timed_out() || g.points != seen {
                seen = g.points;
                still = 0;
            } else {
                still += 1;
                if still >= 25 {
                    eprintln!("deadlock: the running actor has not moved for 25 s");
                    std::process::abort();
                }
            }
        }
    }

    /// Called by an actor before its first step.
    pub fn start(&self, me: usize) {
        let g = self.lock();
        self.wait(g, me);
    }

    pub fn point(&self, me: usize) {
        let mut g = self.lock();
        let p = g.points;
        g.points += 1;
        let n = g.alive.len();
        let mut to = me;
        if let Some(a) = self.plan.get(&p) {
            if *a < n && g.alive[*a] {
                to = *a;
            }
        } else if self.seed != 0 {
            let h = crate::rng::fold(self.seed, p);
            if h % self.every == 0 {
                let a = (h >> 20) as usize % n;
                if g.alive[a] {
                    to = a;
                }
            }
        }
        if to != me {
            g.running = to;
            g.switches += 1;
            g.hash = crate::rng::fold(g.hash, p << 8 | to as u64);
            self.cv.notify_all();
            self.wait(g, me);
        }
    }

    /// Called by an actor after its last step.
    pub fn finish(&self, me: usize) {
        let mut g = self.lock();
        g.alive[me] = false;
        if let Some(a) = (0..g.alive.len()).find(|a| g.alive[*a]) {
            g.running = a;
            g.hash = crate::rng::fold(g.hash, g.points << 8 | a as u64);
        }
        self.cv.notify_all();
    }

    pub fn summary(&self) -> (u64, u64, u64) {
        let g = self.lock();
        (g.points, g.switches, g.hash)
    }
}
