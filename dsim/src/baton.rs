//! The baton scheduler: several real OS threads, of which exactly one runs at
//! a time. Who runs next, and for how many steps, is drawn from a seed.
use crate::prng::{mix, Rng};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub struct Stall {
    pub worker: usize,
    /// first hand-over at which the worker is not scheduled, and for how many
    pub from: u64,
    pub len: u64,
}

struct B {
    live: Vec<bool>,
    rng: Rng,
    quantum: i64,
    stalls: Vec<Stall>,
    switches: u64,
    hash: u64,
    stalled: u64,
    overtaken: u64,
}

pub struct Baton {
    m: Mutex<B>,
    cv: Vec<Condvar>,
    holder: AtomicUsize,
    left: AtomicI64,
    beat: AtomicU64,
}

pub struct Report {
    pub switches: u64,
    pub hash: u64,
    pub stalled: u64,
    /// times a thread was taken for blocked and another one let run
    pub overtaken: u64,
}

impl Baton {
    pub fn new(workers: usize, seed: u64, quantum: i64, stalls: Vec<Stall>) -> Arc<Baton> {
        let b = Baton {
            m: Mutex::new(B { live: vec![true; workers], rng: Rng::new(seed), quantum: quantum.max(1), stalls, switches: 0, hash: 0, stalled: 0, overtaken: 0 }),
            cv: (0..workers).map(|_| Condvar::new()).collect(),
            holder: AtomicUsize::new(usize::MAX),
            left: AtomicI64::new(0),
            beat: AtomicU64::new(0),
        };
        b.pick(&mut b.m.lock().unwrap());
        Arc::new(b)
    }

    fn pick(&self, b: &mut B) {
        let live: Vec<usize> = (0..b.live.len()).filter(|w| b.live[*w]).collect();
        if live.is_empty() {
            return;
        }
        let n = b.switches;
        let mut can: Vec<usize> = live.iter().copied().filter(|w| !b.stalls.iter().any(|s| s.worker == *w && n >= s.from && n - s.from < s.len)).collect();
        if can.len() < live.len() {
            b.stalled += 1;
        }
        if can.is_empty() {
            can = live;
        }
        let next = *b.rng.pick(&can);
        b.switches += 1;
        b.hash = mix(b.hash.rotate_left(9) ^ next as u64 ^ self.beat.load(SeqCst) << 4);
        let q = b.quantum;
        self.left.store(b.rng.range(1, q), SeqCst);
        self.holder.store(next, SeqCst);
        self.cv[next].notify_one();
    }

    fn wait(&self, mut b: MutexGuard<B>, me: usize) {
        let mut seen = self.beat.load(SeqCst);
        while self.holder.load(SeqCst) != me {
            let (g, t) = self.cv[me].wait_timeout(b, Duration::from_millis(400)).unwrap();
            b = g;
            if t.timed_out() && self.holder.load(SeqCst) != me {
                let now = self.beat.load(SeqCst);
                if now == seen {
                    // the holder is blocked outside the seams (on a lock of the
                    // code under test): let this one run instead
                    b.overtaken += 1;
                    self.left.store(1, SeqCst);
                    self.holder.store(me, SeqCst);
                }
                seen = now;
            }
        }
    }

    /// Start of a worker: waits for its first turn.
    pub fn enter(&self, me: usize) {
        self.wait(self.m.lock().unwrap(), me);
    }

    /// One step of worker `me`.
    pub fn step(&self, me: usize) {
        self.beat.fetch_add(1, SeqCst);
        if self.holder.load(SeqCst) != me {
            self.wait(self.m.lock().unwrap(), me);
            return;
        }
        if self.left.fetch_sub(1, SeqCst) > 1 {
            return;
        }
        let mut b = self.m.lock().unwrap();
        self.pick(&mut b);
        self.wait(b, me);
    }

    pub fn leave(&self, me: usize) {
        let mut b = self.m.lock().unwrap();
        b.live[me] = false;
        if self.holder.load(SeqCst) == me {
            self.pick(&mut b);
        }
    }

    pub fn hook(self: &Arc<Self>, me: usize) -> simseam::Hook {
        let b = self.clone();
        Rc::new(move |_| {
            // the scheduler's own timeouts follow the real clock
            let seam = simseam::uninstall();
            b.step(me);
            if let Some(s) = seam {
                simseam::install(s);
            }
        })
    }

    pub fn report(&self) -> Report {
        let b = self.m.lock().unwrap();
        Report { switches: b.switches, hash: b.hash, stalled: b.stalled, overtaken: b.overtaken }
    }
}

/// Takes a worker out of the schedule however its thread ends.
pub struct Seat {
    pub baton: Arc<Baton>,
    pub me: usize,
}
impl Drop for Seat {
    fn drop(&mut self) {
        self.baton.leave(self.me);
    }
}
