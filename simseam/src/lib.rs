//! The seams of the simulator: the random stream, the entropy source and the
//! clocks of the current simulated thread. One OS thread carries at most one
//! simulated thread at a time; its whole state is the `Seam` installed here.
//!
//! * `rand::thread_rng()` (vendored rand) draws from [`draw`].
//! * `getrandom` (vendored) reads from [`entropy`].
//! * `clock_gettime` (interposed in the dsim binary) reads [`clock`].

use std::cell::RefCell;
use std::rc::Rc;

/// A window of the random stream in which the source misbehaves in a way that
/// a correct consumer must survive (every single value is a legal draw).
#[derive(Clone, Debug)]
pub struct Window {
    pub at: u64,
    pub len: u64,
    pub kind: WindowKind,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WindowKind {
    /// all bits zero
    Low,
    /// all bits one
    High,
    /// one value again and again
    Stuck(u64),
    /// alternating all zero, all one
    Flip,
}

/// Panic payload: the run used up its step budget (no progress).
pub struct BudgetExceeded;

pub type Hook = Rc<dyn Fn(&'static str)>;

pub struct Seam {
    s: [u64; 4],
    /// number of draws so far
    pub draws: u64,
    pub windows: Vec<Window>,
    /// value every draw returns while `forced_left` > 0
    pub forced: u64,
    pub forced_left: u64,
    /// draws served by a window, per kind
    pub window_hits: [u64; 4],
    pub entropy_reads: u64,
    /// simulated CLOCK_MONOTONIC, ns
    pub mono_ns: u64,
    /// simulated CLOCK_REALTIME, ns (may jump both ways)
    pub real_ns: i64,
    pub clock_reads: u64,
    /// steps left before the run is declared stuck
    pub budget: u64,
    /// called at every seam crossing (scheduling point)
    pub hook: Option<Hook>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Seam {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Seam {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
            draws: 0,
            windows: vec![],
            forced: 0,
            forced_left: 0,
            window_hits: [0; 4],
            entropy_reads: 0,
            mono_ns: 1_000_000_000_000,
            real_ns: 1_600_000_000_000_000_000,
            clock_reads: 0,
            budget: 30_000_000,
            hook: None,
        }
    }

    /// Restart the random stream from `seed` (draw count included).
    pub fn reseed(&mut self, seed: u64) {
        let mut x = seed;
        self.s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        self.draws = 0;
        self.forced_left = 0;
    }

    fn next(&mut self) -> u64 {
        // xoshiro256**
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    fn draw(&mut self) -> u64 {
        let v = self.next();
        let n = self.draws;
        self.draws += 1;
        if self.forced_left > 0 {
            self.forced_left -= 1;
            return self.forced;
        }
        for w in &self.windows {
            if n >= w.at && n - w.at < w.len {
                let (i, r) = match w.kind {
                    WindowKind::Low => (0, 0),
                    WindowKind::High => (1, u64::MAX),
                    WindowKind::Stuck(v) => (2, v),
                    WindowKind::Flip => (3, if n % 2 == 0 { 0 } else { u64::MAX }),
                };
                self.window_hits[i] += 1;
                return r;
            }
        }
        v
    }
}

thread_local! {
    static CUR: RefCell<Option<Seam>> = const { RefCell::new(None) };
}

/// Install the seam of the simulated thread that this OS thread now carries.
pub fn install(s: Seam) -> Option<Seam> {
    CUR.with(|c| c.borrow_mut().replace(s))
}

pub fn uninstall() -> Option<Seam> {
    CUR.with(|c| c.borrow_mut().take())
}

/// Run `f` on the installed seam; `None` if there is none.
pub fn with<R>(f: impl FnOnce(&mut Seam) -> R) -> Option<R> {
    CUR.with(|c| c.borrow_mut().as_mut().map(f))
}

/// One step at a seam: counts against the budget and is a scheduling point.
pub fn step(what: &'static str) {
    let (over, hook) = CUR.with(|c| match c.borrow_mut().as_mut() {
        None => (false, None),
        Some(s) => {
            if s.budget == 0 {
                (true, None)
            } else {
                s.budget -= 1;
                (false, s.hook.clone())
            }
        }
    });
    if over {
        std::panic::panic_any(BudgetExceeded);
    }
    if let Some(h) = hook {
        h(what)
    }
}

/// One draw from the simulated random stream.
pub fn draw() -> u64 {
    step("draw");
    with(|s| s.draw()).expect("randomness drawn outside a simulation")
}

/// Entropy for `getrandom`.
pub fn entropy(dest: &mut [u8]) {
    with(|s| s.entropy_reads += 1);
    for chunk in dest.chunks_mut(8) {
        let v = draw().to_le_bytes();
        let n = chunk.len();
        chunk.copy_from_slice(&v[..n]);
    }
}

/// Simulated clock reading for `clk_id`, or `None` outside a simulation.
pub fn clock(clk_id: i32) -> Option<(i64, i64)> {
    CUR.try_with(|c| {
        let mut g = match c.try_borrow_mut() {
            Ok(g) => g,
            Err(_) => return None,
        };
        let s = g.as_mut()?;
        s.clock_reads += 1;
        // 0 and 5: CLOCK_REALTIME(_COARSE); everything else follows the monotonic clock
        let ns = if clk_id == 0 || clk_id == 5 { s.real_ns } else { s.mono_ns as i64 };
        Some((ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000)))
    })
    .ok()
    .flatten()
}

/// Let simulated time pass.
pub fn advance(ns: u64) {
    with(|s| {
        s.mono_ns = s.mono_ns.saturating_add(ns).min(i64::MAX as u64);
        s.real_ns = s.real_ns.saturating_add(ns.min(i64::MAX as u64) as i64);
    });
}

/// Step the wall clock (not the monotonic one).
pub fn step_wall_clock(delta_ns: i64) {
    with(|s| s.real_ns = s.real_ns.saturating_add(delta_ns));
}
