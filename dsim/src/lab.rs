//! The lab: closures as components, so that real operators can be applied to
//! arbitrary populations inside a running genetic algorithm of tagged
//! individuals (chromosome = unique tag).
use crate::kit::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use optlib::genetic::{Creator, Cross, Mutation, Pairing, Population, PreBirth, Selection};
use optlib::particleswarm::{CoordinatesInitializer, Particle, PostMove, PostVelocityCalc, Swarm, VelocityCalculator, VelocityInitializer};
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use crate::stat;
use optlib::{AlgorithmState, Goal};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;

pub struct FnCreator<T>(pub Box<dyn FnMut() -> Vec<T>>);
impl<T> Creator<T> for FnCreator<T> {
    fn create(&mut self) -> Vec<T> {
        simseam::step("creator");
        (self.0)()
    }
}
pub struct FnPairing<T>(pub Box<dyn FnMut(&Population<T>) -> Vec<Vec<usize>>>);
impl<T> Pairing<T> for FnPairing<T> {
    fn get_pairs(&mut self, p: &Population<T>) -> Vec<Vec<usize>> {
        simseam::step("pairing");
        (self.0)(p)
    }
}
pub struct FnCross<T>(pub Box<dyn FnMut(&[&T]) -> Vec<T>>);
impl<T> Cross<T> for FnCross<T> {
    fn cross(&mut self, p: &[&T]) -> Vec<T> {
        simseam::step("cross");
        (self.0)(p)
    }
}
pub struct FnMutation<T>(pub Box<dyn FnMut(&T) -> T>);
impl<T> Mutation<T> for FnMutation<T> {
    fn mutation(&mut self, c: &T) -> T {
        simseam::step("mutation");
        (self.0)(c)
    }
}
pub struct FnPre<T>(pub Box<dyn FnMut(&Population<T>, &mut Vec<T>)>);
impl<T> PreBirth<T> for FnPre<T> {
    fn pre_birth(&mut self, p: &Population<T>, c: &mut Vec<T>) {
        simseam::step("pre_birth");
        (self.0)(p, c)
    }
}
pub struct FnSel<T>(pub Box<dyn FnMut(&mut Population<T>)>);
impl<T> Selection<T> for FnSel<T> {
    fn kill(&mut self, p: &mut Population<T>) {
        simseam::step("selection");
        (self.0)(p)
    }
}
pub struct FnStop<T>(pub Box<dyn FnMut(&dyn AlgorithmState<T>) -> bool>);
impl<T> StopChecker<T> for FnStop<T> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        simseam::step("stop_checker");
        (self.0)(s)
    }
}
pub struct FnGoal<T>(pub Box<dyn FnMut(&T) -> f64>);
impl<T> Goal<T> for FnGoal<T> {
    fn get(&mut self, x: &T) -> f64 {
        simseam::step("goal");
        (self.0)(x)
    }
}
pub struct FnLogger<T>(pub Box<dyn FnMut(Lg, &dyn AlgorithmState<T>)>);
impl<T> Logger<T> for FnLogger<T> {
    fn start(&mut self, s: &dyn AlgorithmState<T>) {
        simseam::step("logger");
        (self.0)(Lg::Start, s)
    }
    fn resume(&mut self, s: &dyn AlgorithmState<T>) {
        simseam::step("logger");
        (self.0)(Lg::Resume, s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<T>) {
        simseam::step("logger");
        (self.0)(Lg::Iter, s)
    }
    fn finish(&mut self, s: &dyn AlgorithmState<T>) {
        simseam::step("logger");
        (self.0)(Lg::Finish, s)
    }
}
pub struct FnCoord<F>(pub Box<dyn FnMut() -> Vec<Vec<F>>>);
impl<F> CoordinatesInitializer<F> for FnCoord<F> {
    fn get_coordinates(&mut self) -> Vec<Vec<F>> {
        simseam::step("coordinates");
        (self.0)()
    }
}
impl<F> VelocityInitializer<F> for FnCoord<F> {
    fn get_velocity(&mut self) -> Vec<Vec<F>> {
        simseam::step("velocity_init");
        (self.0)()
    }
}
pub struct FnVel<F>(pub Box<dyn FnMut(&Swarm<F>, &Particle<F>) -> Vec<F>>);
impl<F> VelocityCalculator<F> for FnVel<F> {
    fn calc_new_velocity(&mut self, s: &Swarm<F>, p: &Particle<F>) -> Vec<F> {
        simseam::step("velocity_calc");
        (self.0)(s, p)
    }
}
pub struct FnPvc<F>(pub Box<dyn FnMut(Vec<F>) -> Vec<F>>);
impl<F> PostVelocityCalc<F> for FnPvc<F> {
    fn correct_velocity(&mut self, v: Vec<F>) -> Vec<F> {
        simseam::step("post_velocity");
        (self.0)(v)
    }
}
pub struct FnMove<F>(pub Box<dyn FnMut(&mut Vec<F>)>);
impl<F> PostMove<F> for FnMove<F> {
    fn post_move(&mut self, c: &mut Vec<F>) {
        simseam::step("post_move");
        (self.0)(c)
    }
}

/// One individual as a component sees it.
#[derive(Clone, PartialEq, Debug)]
pub struct Ind {
    pub x: X,
    pub v: u64,
    pub alive: bool,
}
impl Ind {
    pub fn val(&self) -> f64 {
        fval(self.v)
    }
}

pub fn inds<T: Point>(p: &Population<T>) -> Vec<Ind> {
    p.iter().map(|i| Ind { x: i.get_chromosomes().x(), v: fbits(i.get_fitness()), alive: i.is_alive() }).collect()
}

pub const DISTS: i64 = 13;

/// Fitness of a tag under a distribution of values.
pub fn tag_value(dist: i64, salt: u64, tag: u64) -> f64 {
    let h = mix(mix(salt) ^ tag.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let u = (h >> 11) as f64 / (1u64 << 53) as f64;
    let noise = u * 200.0 - 100.0;
    let odd = |n: u64| match n % 5 {
        0 | 1 => nan_of(mix(n)),
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        _ => -0.0,
    };
    match dist {
        0 => noise,
        1 => (h % 4) as f64,
        2 => {
            if mix(h) % 3 == 0 {
                nan_of(h)
            } else {
                noise
            }
        }
        3 => {
            if mix(h) % 3 == 0 {
                odd(h)
            } else {
                noise
            }
        }
        4 => 7.0,
        5 => nan_of(h),
        6 => tag as f64,
        7 => -(tag as f64),
        8 => *[0.0, -0.0, 1.0, -1.0].get((h % 4) as usize).unwrap(),
        9 => *[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1.0, 1.0 + f64::EPSILON].get((h % 6) as usize).unwrap(),
        10 => {
            if h % 2 == 0 {
                odd(mix(h))
            } else {
                (mix(h) % 3) as f64
            }
        }
        11 => {
            // zigzag: later tags alternate between very good and bad
            if tag % 2 == 0 {
                -noise.abs() - tag as f64
            } else {
                noise.abs()
            }
        }
        12 => 1.0 + u * 1e-12,
        _ => f64::INFINITY,
    }
}

/// Order used by the properties: NaN is the worst, everything else by value.
pub fn better(a: f64, b: f64) -> bool {
    if a.is_nan() {
        false
    } else if b.is_nan() {
        true
    } else {
        a < b
    }
}

/// Exponent of the Chernoff bound for seeing `obs` successes in `n` trials of
/// probability `p`: exp(-result) bounds the probability of such a deviation.
pub fn surprise(obs: u64, n: u64, p: f64) -> f64 {
    if n == 0 {
        return 0.0;
    }
    let q = obs as f64 / n as f64;
    let t = |q: f64, p: f64| {
        if q <= 0.0 {
            0.0
        } else if p <= 0.0 {
            f64::INFINITY
        } else {
            q * (q / p).ln()
        }
    };
    n as f64 * (t(q, p) + t(1.0 - q, 1.0 - p))
}
/// deviations less likely than e^-40 are violations
pub const SURPRISE: f64 = 40.0;

pub fn gen_dist(r: &mut Rng, p: &mut Plan) {
    p.set("dist", r.range(0, DISTS));
    p.set("salt", r.range(0, 1 << 40));
}

/// A simulated device behind a writer; faults by write call: 0 short write,
/// 1 interruptions, 2 zero-length write, 3 error, 4 full from then on.
#[derive(Default)]
pub struct Dev {
    pub out: Vec<u8>,
    pub calls: u64,
    pub chunk: usize,
    /// write call -> (kind, argument)
    pub faults: BTreeMap<u64, (i64, i64)>,
    interrupts_left: i64,
    dead: bool,
    /// an error was reported that the caller of the logger must learn about
    pub failed: bool,
}
pub struct Writer(pub Rc<RefCell<Dev>>);
impl io::Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        simseam::step("write");
        let mut d = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        if d.dead {
            d.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "simulated: no space left on device"));
        }
        if d.interrupts_left > 0 {
            d.interrupts_left -= 1;
            stat::hit("fault.write_interrupted");
            return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated: interrupted"));
        }
        let n = d.calls;
        d.calls += 1;
        let mut take = if d.chunk > 0 { buf.len().min(d.chunk) } else { buf.len() };
        match d.faults.get(&n).copied() {
            Some((0, a)) => {
                stat::hit("fault.short_write");
                take = take.min(a.clamp(1, 1 << 20) as usize);
            }
            Some((1, a)) => {
                stat::hit("fault.write_interrupted");
                d.interrupts_left = a.clamp(1, 60) - 1;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated: interrupted"));
            }
            Some((2, _)) => {
                stat::hit("fault.write_zero");
                d.failed = true;
                return Ok(0);
            }
            Some((3, a)) => {
                stat::hit("fault.write_error");
                d.failed = true;
                let kinds = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut];
                return Err(io::Error::new(kinds[(a % 4) as usize], "simulated: write failed"));
            }
            Some((_, a)) => {
                // the device takes a few more bytes, then is full
                stat::hit("fault.disk_full");
                d.dead = true;
                take = take.min(a.max(0) as usize);
                if take == 0 {
                    d.failed = true;
                    return Err(io::Error::new(io::ErrorKind::Other, "simulated: no space left on device"));
                }
            }
            None => {}
        }
        d.out.extend_from_slice(&buf[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> io::Result<()> {
        simseam::step("flush");
        Ok(())
    }
}
