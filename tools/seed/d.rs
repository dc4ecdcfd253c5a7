//! Closures as optlib components.
#![allow(dead_code)]
use optlib::genetic::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal};

pub struct G<T>(pub Box<dyn FnMut(&T) -> f64>);
impl<T> Goal<T> for G<T> {
    fn get(&mut self, x: &T) -> f64 {
        (self.0)(x)
    }
}
pub struct Cr<T>(pub Box<dyn FnMut() -> Vec<T>>);
impl<T> Creator<T> for Cr<T> {
    fn create(&mut self) -> Vec<T> {
        (self.0)()
    }
}
pub struct Pa<T>(pub Box<dyn FnMut(&Population<T>) -> Vec<Vec<usize>>>);
impl<T> Pairing<T> for Pa<T> {
    fn get_pairs(&mut self, p: &Population<T>) -> Vec<Vec<usize>> {
        (self.0)(p)
    }
}
pub struct Xo<T>(pub Box<dyn FnMut(&[&T]) -> Vec<T>>);
impl<T> Cross<T> for Xo<T> {
    fn cross(&mut self, p: &[&T]) -> Vec<T> {
        (self.0)(p)
    }
}
pub struct Mu<T>(pub Box<dyn FnMut(&T) -> T>);
impl<T> Mutation<T> for Mu<T> {
    fn mutation(&mut self, c: &T) -> T {
        (self.0)(c)
    }
}
pub struct Se<T>(pub Box<dyn FnMut(&mut Population<T>)>);
impl<T> Selection<T> for Se<T> {
    fn kill(&mut self, p: &mut Population<T>) {
        (self.0)(p)
    }
}
pub struct St<T>(pub Box<dyn FnMut(&dyn AlgorithmState<T>) -> bool>);
impl<T> StopChecker<T> for St<T> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        (self.0)(s)
    }
}
pub struct Lo<T>(pub Box<dyn FnMut(&'static str, &dyn AlgorithmState<T>)>);
impl<T> Logger<T> for Lo<T> {
    fn start(&mut self, s: &dyn AlgorithmState<T>) {
        (self.0)("start", s)
    }
    fn resume(&mut self, s: &dyn AlgorithmState<T>) {
        (self.0)("resume", s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<T>) {
        (self.0)("iter", s)
    }
    fn finish(&mut self, s: &dyn AlgorithmState<T>) {
        (self.0)("finish", s)
    }
}
pub struct Co(pub Box<dyn FnMut() -> Vec<Vec<f64>>>);
impl CoordinatesInitializer<f64> for Co {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
        (self.0)()
    }
}
impl VelocityInitializer<f64> for Co {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        (self.0)()
    }
}
pub struct Ve(pub Box<dyn FnMut(&Swarm<f64>, &Particle<f64>) -> Vec<f64>>);
impl VelocityCalculator<f64> for Ve {
    fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> Vec<f64> {
        (self.0)(s, p)
    }
}
pub struct Pv(pub Box<dyn FnMut(Vec<f64>) -> Vec<f64>>);
impl PostVelocityCalc<f64> for Pv {
    fn correct_velocity(&mut self, v: Vec<f64>) -> Vec<f64> {
        (self.0)(v)
    }
}

/// A swarm of given points and velocities.
pub fn swarm(goal: impl FnMut(&Vec<f64>) -> f64 + 'static, stop: impl StopChecker<Vec<f64>> + 'static, x: Vec<Vec<f64>>, v: Vec<Vec<f64>>, calc: impl VelocityCalculator<f64> + 'static) -> ParticleSwarmOptimizer<'static, f64> {
    ParticleSwarmOptimizer::new(Box::new(G(Box::new(goal))), Box::new(stop), Box::new(Co(Box::new(move || x.clone()))), Box::new(Co(Box::new(move || v.clone()))), Box::new(calc))
}
/// Keeps the velocity.
pub fn keep(v: Vec<Vec<f64>>) -> Ve {
    let mut n = 0;
    Ve(Box::new(move |_, _| {
        n += 1;
        v[(n - 1) % v.len()].clone()
    }))
}
/// A genetic algorithm over tags: child i of a family (a, b) is the next unused tag.
pub fn tagged(goal: impl FnMut(&u64) -> f64 + 'static, stop: impl StopChecker<u64> + 'static, pop: u64, pairing: Box<dyn Pairing<u64>>, sel: Vec<Box<dyn Selection<u64>>>) -> GeneticOptimizer<'static, u64> {
    let mut next = pop;
    GeneticOptimizer::new(
        Box::new(G(Box::new(goal))),
        Box::new(stop),
        Box::new(Cr(Box::new(move || (0..pop).collect()))),
        pairing,
        Box::new(Xo(Box::new(move |_: &[&u64]| {
            next += 1;
            vec![next - 1]
        }))),
        Box::new(Mu(Box::new(|c: &u64| *c))),
        sel,
        vec![],
    )
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAIL: {}", what);
        std::process::exit(1);
    }
}
