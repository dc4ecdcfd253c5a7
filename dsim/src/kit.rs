//! Shared building blocks: floats, intervals, the event log, simulated goal
//! functions, tapped components, configurations and sessions.
use crate::exec::{guard, Injected};
use crate::plan::{Op, Plan};
use crate::prng::{mix, Rng};
use crate::stat::{self, Violation};
use num::Float;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::{CrossBitwise, CrossMean, FloatCrossExp, FloatCrossGeometricMean, VecCrossAllGenes};
use optlib::genetic::mutation::{BitwiseMutation, VecMutation};
use optlib::genetic::pairing::{RandomPairing, Tournament};
use optlib::genetic::selection::{KillFitnessNaN, LimitPopulation};
use optlib::genetic::{self, Creator, Cross, GeneticOptimizer, Mutation, Pairing, Population, PreBirth, Selection};
use optlib::particleswarm::initializing::{RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer};
use optlib::particleswarm::postmove::{MoveToBoundary, RandomTeleport};
use optlib::particleswarm::postvelocitycalc::{MaxVelocityAbs, MaxVelocityDimensions};
use optlib::particleswarm::velocitycalc::{CanonicalVelocityCalculator, ClassicVelocityCalculator, ConstInertia, Inertia, InertiaVelocityCalculator, LinearInertia, NegativeReinforcement};
use optlib::particleswarm::{CoordinatesInitializer, Particle, ParticleSwarmOptimizer, PostMove, PostVelocityCalc, Swarm, VelocityCalculator, VelocityInitializer};
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::{MaxIterations, StopChecker};
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use rand::distributions::uniform::SampleUniform;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};
use std::rc::Rc;

// ------------------------------------------------------------------ floats

/// The float types optlib is instantiated with.
pub trait Fl: Float + SampleUniform + Display + Debug + 'static {
    fn b(self) -> u64;
    fn of_bits(b: u64) -> Self;
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn bit_mutation(n: usize) -> Box<dyn Mutation<Self>>;
    fn bit_cross() -> Box<dyn Cross<Self>>;
    fn of(v: f64) -> Self {
        <Self as num::NumCast>::from(v).unwrap()
    }
    fn d(self) -> f64 {
        self.to_f64().unwrap()
    }
}

impl Fl for f64 {
    fn b(self) -> u64 {
        fbits(self)
    }
    fn of_bits(b: u64) -> f64 {
        f64::from_bits(b)
    }
    fn up(self) -> f64 {
        f64::next_up(self)
    }
    fn down(self) -> f64 {
        f64::next_down(self)
    }
    fn bit_mutation(n: usize) -> Box<dyn Mutation<f64>> {
        Box::new(BitwiseMutation::new(n))
    }
    fn bit_cross() -> Box<dyn Cross<f64>> {
        Box::new(CrossBitwise::new())
    }
}

impl Fl for f32 {
    fn b(self) -> u64 {
        if self.is_nan() {
            f32::NAN.to_bits() as u64
        } else {
            self.to_bits() as u64
        }
    }
    fn of_bits(b: u64) -> f32 {
        f32::from_bits(b as u32)
    }
    fn up(self) -> f32 {
        f32::next_up(self)
    }
    fn down(self) -> f32 {
        f32::next_down(self)
    }
    fn bit_mutation(n: usize) -> Box<dyn Mutation<f32>> {
        Box::new(BitwiseMutation::new(n))
    }
    fn bit_cross() -> Box<dyn Cross<f32>> {
        Box::new(CrossBitwise::new())
    }
}

/// NaN comes with either sign and different payloads
pub fn nan_of(h: u64) -> f64 {
    f64::from_bits(match mix(h ^ 0x4E61) % 4 {
        0 => 0x7FF8_0000_0000_0000,
        1 => 0xFFF8_0000_0000_0000,
        2 => 0x7FF8_0000_0000_0001 | h & 0xFFFF,
        _ => 0xFFFF_FFFF_FFFF_0000 | h & 0xFFFF,
    })
}

/// bits of a goal value, all NaNs alike
pub fn fbits(v: f64) -> u64 {
    if v.is_nan() {
        f64::NAN.to_bits()
    } else {
        v.to_bits()
    }
}
pub fn fval(b: u64) -> f64 {
    f64::from_bits(b)
}

/// A point, as bits (any float width, or the tag of a tagged individual).
pub type X = Vec<u64>;

pub trait Point: Clone + 'static {
    fn x(&self) -> X;
}
impl<F: Fl> Point for Vec<F> {
    fn x(&self) -> X {
        self.iter().map(|v| v.b()).collect()
    }
}
impl Point for u64 {
    fn x(&self) -> X {
        vec![*self]
    }
}

pub fn hash_x(x: &[u64], salt: u64) -> u64 {
    x.iter().fold(mix(salt), |a, b| mix(a.rotate_left(7) ^ *b))
}

pub fn show_x(x: &[u64]) -> String {
    format!("{:?}", x.iter().map(|b| if *b >> 32 == 0 && *b != 0 { format!("{:e}|{}", f32::from_bits(*b as u32), b) } else { format!("{:e}", f64::from_bits(*b)) }).collect::<Vec<_>>())
}

// ------------------------------------------------------------------ events

#[derive(Clone, PartialEq, Debug)]
pub struct St {
    pub iter: usize,
    pub best: Option<(X, u64)>,
}

pub fn snap<T: Point>(s: &dyn AlgorithmState<T>) -> St {
    St { iter: s.get_iteration(), best: s.get_best_solution().map(|(x, v)| (x.x(), fbits(v))) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lg {
    Start,
    Resume,
    Iter,
    Finish,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    /// the session calls find_min
    Begin,
    /// the session calls next_iterations
    Again,
    End(Option<(X, u64)>),
    /// an injected panic reached the session
    Abort,
    Eval(X, u64),
    EvalPanic(X),
    Log { l: usize, what: Lg, st: St },
    Stop { st: St, ans: bool },
    /// agents exposed to a component
    Agents(Vec<(X, u64)>),
}

fn ev_hash(e: &Ev) -> u64 {
    fn st(s: &St) -> u64 {
        let b = s.best.as_ref().map_or(1, |(x, v)| hash_x(x, *v));
        mix(b ^ s.iter as u64)
    }
    match e {
        Ev::Begin => 1,
        Ev::Again => 2,
        Ev::End(None) => 3,
        Ev::End(Some((x, v))) => hash_x(x, *v ^ 4),
        Ev::Abort => 5,
        Ev::Eval(x, v) => hash_x(x, *v ^ 6),
        Ev::EvalPanic(x) => hash_x(x, 7),
        Ev::Log { l, what, st: s } => mix(st(s) ^ ((*l as u64) << 8) ^ (*what as u64) << 4 ^ 8),
        Ev::Stop { st: s, ans } => mix(st(s) ^ 9 ^ (*ans as u64) << 8),
        Ev::Agents(a) => a.iter().fold(10, |h, (x, v)| mix(h ^ hash_x(x, *v))),
    }
}

// ------------------------------------------------------------------ rig

#[derive(Clone, Default)]
pub struct GoalSpec {
    pub kind: i64,
    pub salt: u64,
    /// evaluation index -> fault
    pub faults: BTreeMap<u64, i64>,
    /// simulated duration of one evaluation
    pub ns: u64,
    /// evaluation index -> (clock event, amount)
    pub clock: BTreeMap<u64, (i64, i64)>,
}

pub const FAULT_NAMES: [&str; 8] = ["fault.goal_none", "fault.goal_nan", "fault.goal_pos_inf", "fault.goal_neg_inf", "fault.goal_panic", "fault.goal_max", "fault.goal_neg_zero", "fault.goal_min"];

/// Everything a simulated session shares with its components.
pub struct Rig {
    pub ev: RefCell<Vec<Ev>>,
    /// taps passed so far (every call of a component by the optimizer)
    pub taps: Cell<u64>,
    /// taps at which the component panics
    pub panic_taps: RefCell<BTreeSet<u64>>,
    pub evals: Cell<u64>,
    pub goal: GoalSpec,
    /// the session's stop checker says yes from this iteration on
    pub target: Cell<usize>,
    pub rec_agents: Cell<bool>,
    pub rec_stop: Cell<bool>,
    pub quiet: Cell<bool>,
}

impl Rig {
    pub fn new(goal: GoalSpec) -> Rc<Rig> {
        Rc::new(Rig {
            ev: RefCell::new(vec![]),
            taps: Cell::new(0),
            panic_taps: RefCell::new(BTreeSet::new()),
            evals: Cell::new(0),
            goal,
            target: Cell::new(0),
            rec_agents: Cell::new(false),
            rec_stop: Cell::new(true),
            quiet: Cell::new(false),
        })
    }
    pub fn push(&self, e: Ev) {
        if self.quiet.get() {
            return;
        }
        stat::mark(ev_hash(&e));
        self.ev.borrow_mut().push(e);
    }
    pub fn tap(&self, what: &'static str) {
        simseam::step(what);
        let n = self.taps.get();
        self.taps.set(n + 1);
        if self.panic_taps.borrow().contains(&n) {
            stat::hit("fault.component_panic");
            std::panic::panic_any(Injected(what));
        }
    }
    /// one evaluation of the goal function, which would return `v`
    pub fn fault(&self, x: X, v: f64) -> f64 {
        let n = self.evals.get();
        self.evals.set(n + 1);
        let spec = &self.goal;
        simseam::advance(spec.ns);
        if let Some((k, amount)) = spec.clock.get(&n) {
            clock_event(*k, *amount);
        }
        let mut v = v;
        if let Some(f) = spec.faults.get(&n) {
            stat::hit(FAULT_NAMES[(*f).clamp(0, 7) as usize]);
            v = match *f {
                1 => nan_of(n),
                2 => f64::INFINITY,
                3 => f64::NEG_INFINITY,
                4 => {
                    self.push(Ev::EvalPanic(x));
                    std::panic::panic_any(Injected("goal"));
                }
                5 => f64::MAX,
                6 => -0.0,
                7 => f64::MIN,
                _ => v,
            };
        }
        self.push(Ev::Eval(x, fbits(v)));
        v
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.ev.borrow_mut())
    }
}

pub fn base_value<F: Fl>(kind: i64, x: &Vec<F>, n: u64, salt: u64) -> f64 {
    use optlib_testfunc as tf;
    let h = || hash_x(&x.x(), salt);
    let unit = |h: u64| (h >> 11) as f64 / (1u64 << 53) as f64;
    match kind {
        0 => tf::paraboloid(x),
        1 => tf::schwefel(x),
        2 => tf::rastrigin(x),
        3 => {
            if x.len() >= 2 {
                tf::rosenbrock(x)
            } else {
                tf::paraboloid(x)
            }
        }
        4 => (h() % 5) as f64 - 2.0,
        5 => unit(h()) * 2000.0 - 1000.0,
        6 => 1.0,
        7 => x.iter().fold(0.0, |a, v| a + v.d()),
        8 => {
            let k = h();
            match k % 20 {
                0 | 1 => nan_of(mix(k)),
                2 => f64::INFINITY,
                3 => f64::NEG_INFINITY,
                _ => unit(mix(k)) * 20.0 - 10.0,
            }
        }
        9 => (unit(h()) - 0.5) * 3e300,
        10 => {
            let k = h();
            if k % 3 == 0 {
                unit(mix(k)) * 4.0 - 2.0
            } else {
                1.0
            }
        }
        11 => -(n as f64),
        12 => n as f64,
        13 => nan_of(n),
        14 => {
            if x.first().map_or(false, |v| v.d() < 0.0) {
                nan_of(h())
            } else {
                unit(h())
            }
        }
        15 => {
            // drifting downwards with rare jumps
            let k = mix(n / 7 ^ salt);
            -(n as f64) * 0.01 - if k % 5 == 0 { 5.0 } else { 0.0 }
        }
        16 => unit(h()) * 1e-6,
        _ => f64::NAN,
    }
}
pub const GOAL_KINDS: i64 = 16;

pub struct SimGoal {
    pub rig: Rc<Rig>,
}

impl SimGoal {
    fn call(&mut self, x: X, base: impl FnOnce(u64) -> f64) -> f64 {
        self.rig.tap("goal");
        let n = self.rig.evals.get();
        let v = base(n);
        self.rig.fault(x, v)
    }
}

pub fn clock_event(k: i64, amount: i64) {
    match k {
        0 => {
            stat::hit("fault.slow_evaluation");
            simseam::advance(amount.max(0) as u64);
        }
        1 => {
            stat::hit("fault.wall_clock_forward");
            simseam::step_wall_clock(amount.abs());
        }
        _ => {
            stat::hit("fault.wall_clock_back");
            simseam::step_wall_clock(-amount.abs());
        }
    }
}

impl<F: Fl> Goal<Vec<F>> for SimGoal {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        let (kind, salt) = (self.rig.goal.kind, self.rig.goal.salt);
        self.call(x.x(), |n| base_value(kind, x, n, salt))
    }
}

/// Decode the goal parameters and fault operations of a plan.
pub fn goal_spec(p: &Plan) -> GoalSpec {
    let mut g = GoalSpec {
        kind: p.get("goal", 0, 0, GOAL_KINDS),
        salt: p.get("salt", 0, 0, i64::MAX) as u64,
        ns: p.get("eval_ns", 0, 0, 1_000_000_000_000_000) as u64,
        ..GoalSpec::default()
    };
    for o in p.ops_of("gf") {
        g.faults.insert(o.argc(1, 0, i64::MAX) as u64, o.argc(0, 0, 7));
    }
    for o in p.ops_of("ck") {
        g.clock.insert(o.argc(1, 0, i64::MAX) as u64, (o.argc(0, 0, 2), o.argc(2, -(1 << 60), 1 << 60)));
    }
    g
}

/// Install the plan's windows of the random stream.
pub fn install_windows(p: &Plan) {
    let mut ws = vec![];
    for o in p.ops_of("rw") {
        let kind = match o.argc(0, 0, 3) {
            0 => simseam::WindowKind::Low,
            1 => simseam::WindowKind::High,
            2 => simseam::WindowKind::Stuck(mix(o.arg(3) as u64)),
            _ => simseam::WindowKind::Flip,
        };
        ws.push(simseam::Window { at: o.argc(1, 0, i64::MAX) as u64, len: o.argc(2, 0, 64) as u64, kind });
    }
    simseam::with(|s| s.windows = ws);
}

pub fn gen_windows(r: &mut Rng, p: &mut Plan, upto: i64) {
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 4) {
            let at = r.range(0, upto.max(1));
            let a = [r.range(0, 3), at, r.range(1, 40), r.range(0, 1 << 30)];
            p.op("rw", &a);
        }
    }
}

pub fn gen_goal_faults(r: &mut Rng, p: &mut Plan, upto: i64, kinds: &[i64]) {
    let n = match r.below(4) {
        0 => 0,
        1 => r.range(1, 2),
        2 => r.range(1, 8),
        _ => (upto / 4).clamp(1, 30),
    };
    // some runs hit a stretch of evaluations in a row
    if n > 0 && r.chance(1, 4) {
        let k = *r.pick(kinds);
        let at = r.range(0, upto.max(1));
        for i in 0..n {
            p.op("gf", &[k, at + i]);
        }
    } else {
        for _ in 0..n {
            let a = [*r.pick(kinds), r.range(0, upto.max(1))];
            p.op("gf", &a);
        }
    }
}

// ------------------------------------------------------------------ intervals

pub const IVL_KINDS: i64 = 8;

pub fn interval<F: Fl>(kind: i64) -> (F, F) {
    let o = F::of;
    match kind {
        0 => (o(-100.0), o(100.0)),
        1 => (o(0.0), o(1.0)),
        2 => (o(1.0e6), o(1.0e6 + 1.0)),
        3 => (o(1.0), o(1.0).up()),
        4 => (o(-1.0e30), o(1.0e30)),
        5 => (o(-1.0), o(-0.5)),
        6 => (o(0.0), F::min_positive_value()),
        7 => (o(-3.0), o(1.0e9)),
        _ => (o(-1e-3), o(2e-3)),
    }
}

/// kind 0..=IVL_KINDS: the same shape everywhere; above: mixed per dimension
pub fn intervals<F: Fl>(kind: i64, dim: usize) -> Vec<(F, F)> {
    (0..dim)
        .map(|i| {
            if kind <= IVL_KINDS {
                interval(kind)
            } else {
                interval((mix(i as u64 ^ ((kind as u64) << 16)) % (IVL_KINDS as u64 + 1)) as i64)
            }
        })
        .collect()
}

// ------------------------------------------------------------------ taps

macro_rules! tapped {
    ($name:ident, $tr:ident < $($g:ident),* >) => {
        pub struct $name<$($g),*> { pub inner: Box<dyn $tr<$($g),*>>, pub rig: Rc<Rig> }
    };
}
tapped!(TapCreator, Creator<T>);
tapped!(TapPairing, Pairing<T>);
tapped!(TapCross, Cross<T>);
tapped!(TapMut, Mutation<T>);
tapped!(TapPre, PreBirth<T>);
tapped!(TapSel, Selection<T>);
tapped!(TapStop, StopChecker<T>);
tapped!(TapCoord, CoordinatesInitializer<F>);
tapped!(TapVelInit, VelocityInitializer<F>);
tapped!(TapVel, VelocityCalculator<F>);
tapped!(TapPvc, PostVelocityCalc<F>);
tapped!(TapMove, PostMove<F>);

fn agents_of<T: Point>(p: &Population<T>) -> Vec<(X, u64)> {
    AgentsState::get_agents(p).iter().map(|a| (Agent::get_parameter(*a).x(), fbits(Agent::get_goal(*a)))).collect()
}

impl<T> Creator<T> for TapCreator<T> {
    fn create(&mut self) -> Vec<T> {
        self.rig.tap("creator");
        self.inner.create()
    }
}
impl<T: Point> Pairing<T> for TapPairing<T> {
    fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
        self.rig.tap("pairing");
        if self.rig.rec_agents.get() {
            self.rig.push(Ev::Agents(agents_of(population)));
        }
        self.inner.get_pairs(population)
    }
}
impl<T> Cross<T> for TapCross<T> {
    fn cross(&mut self, parents: &[&T]) -> Vec<T> {
        self.rig.tap("cross");
        self.inner.cross(parents)
    }
}
impl<T> Mutation<T> for TapMut<T> {
    fn mutation(&mut self, c: &T) -> T {
        self.rig.tap("mutation");
        self.inner.mutation(c)
    }
}
impl<T: Point> PreBirth<T> for TapPre<T> {
    fn pre_birth(&mut self, population: &Population<T>, new_chromosomes: &mut Vec<T>) {
        self.rig.tap("pre_birth");
        if self.rig.rec_agents.get() {
            self.rig.push(Ev::Agents(agents_of(population)));
        }
        self.inner.pre_birth(population, new_chromosomes)
    }
}
impl<T: Point> Selection<T> for TapSel<T> {
    fn kill(&mut self, population: &mut Population<T>) {
        self.rig.tap("selection");
        if self.rig.rec_agents.get() {
            self.rig.push(Ev::Agents(agents_of(population)));
        }
        self.inner.kill(population)
    }
}
impl<T: Point> StopChecker<T> for TapStop<T> {
    fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
        self.rig.tap("stop_checker");
        let ans = self.inner.can_stop(state);
        if self.rig.rec_stop.get() {
            self.rig.push(Ev::Stop { st: snap(state), ans });
        }
        ans
    }
}
impl<F: Fl> CoordinatesInitializer<F> for TapCoord<F> {
    fn get_coordinates(&mut self) -> Vec<Vec<F>> {
        self.rig.tap("coordinates");
        self.inner.get_coordinates()
    }
}
impl<F: Fl> VelocityInitializer<F> for TapVelInit<F> {
    fn get_velocity(&mut self) -> Vec<Vec<F>> {
        self.rig.tap("velocity_init");
        self.inner.get_velocity()
    }
}
impl<F: Fl> VelocityCalculator<F> for TapVel<F> {
    fn calc_new_velocity(&mut self, swarm: &Swarm<F>, particle: &Particle<F>) -> Vec<F> {
        self.rig.tap("velocity_calc");
        if self.rig.rec_agents.get() {
            self.rig.push(Ev::Agents(swarm.get_agents().iter().map(|a| (a.get_parameter().x(), fbits(a.get_goal()))).collect()));
        }
        self.inner.calc_new_velocity(swarm, particle)
    }
}
impl<F: Fl> PostVelocityCalc<F> for TapPvc<F> {
    fn correct_velocity(&mut self, velocity: Vec<F>) -> Vec<F> {
        self.rig.tap("post_velocity");
        self.inner.correct_velocity(velocity)
    }
}
impl<F: Fl> PostMove<F> for TapMove<F> {
    fn post_move(&mut self, coordinates: &mut Vec<F>) {
        self.rig.tap("post_move");
        self.inner.post_move(coordinates)
    }
}

/// Values no sane component would produce, chosen by what goes in.
pub fn wild<F: Fl>(v: &mut [F], iv: &[(F, F)], salt: u64, rate: u64) {
    for i in 0..v.len() {
        let h = hash_x(&[v[i].b(), i as u64], salt);
        if h % 100 >= rate {
            continue;
        }
        let (lo, hi) = iv[i % iv.len()];
        stat::hit("fault.wild_component");
        v[i] = match mix(h) % 12 {
            0 => F::of(nan_of(h)),
            1 => F::infinity(),
            2 => F::neg_infinity(),
            3 => F::max_value(),
            4 => -F::max_value(),
            5 => lo.down(),
            6 => hi.up(),
            7 => lo,
            8 => hi,
            9 => F::zero(),
            10 => v[i] * F::of(1e10),
            _ => -v[i],
        };
    }
}

/// A component whose output is made wild (a user component gone astray).
pub struct Wild<B: ?Sized, F> {
    pub inner: Box<B>,
    pub iv: Vec<(F, F)>,
    pub salt: u64,
    pub rate: u64,
}
impl<F: Fl> VelocityCalculator<F> for Wild<dyn VelocityCalculator<F>, F> {
    fn calc_new_velocity(&mut self, s: &Swarm<F>, p: &Particle<F>) -> Vec<F> {
        let mut v = self.inner.calc_new_velocity(s, p);
        wild(&mut v, &self.iv, self.salt, self.rate);
        v
    }
}
impl<F: Fl> CoordinatesInitializer<F> for Wild<dyn CoordinatesInitializer<F>, F> {
    fn get_coordinates(&mut self) -> Vec<Vec<F>> {
        let mut c = self.inner.get_coordinates();
        c.iter_mut().for_each(|v| wild(v, &self.iv, self.salt, self.rate));
        c
    }
}
impl<F: Fl> VelocityInitializer<F> for Wild<dyn VelocityInitializer<F>, F> {
    fn get_velocity(&mut self) -> Vec<Vec<F>> {
        let mut c = self.inner.get_velocity();
        c.iter_mut().for_each(|v| wild(v, &self.iv, self.salt, self.rate));
        c
    }
}
impl<F: Fl> Mutation<Vec<F>> for Wild<dyn Mutation<Vec<F>>, F> {
    fn mutation(&mut self, c: &Vec<F>) -> Vec<F> {
        let mut v = self.inner.mutation(c);
        wild(&mut v, &self.iv, self.salt, self.rate);
        v
    }
}

/// Stops from iteration `rig.target` on.
pub struct AtTarget {
    pub rig: Rc<Rig>,
}
impl<T> StopChecker<T> for AtTarget {
    fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
        state.get_iteration() >= self.rig.target.get()
    }
}

/// Records every callback with the state it is shown.
pub struct RecLogger {
    pub rig: Rc<Rig>,
    pub l: usize,
}
impl RecLogger {
    fn rec<T: Point>(&mut self, what: Lg, state: &dyn AlgorithmState<T>, name: &'static str) {
        // the event first: a panic of this logger happens after it was told
        self.rig.push(Ev::Log { l: self.l, what, st: snap(state) });
        self.rig.tap(name);
    }
}
impl<T: Point> Logger<T> for RecLogger {
    fn start(&mut self, state: &dyn AlgorithmState<T>) {
        self.rec(Lg::Start, state, "log_start")
    }
    fn resume(&mut self, state: &dyn AlgorithmState<T>) {
        self.rec(Lg::Resume, state, "log_resume")
    }
    fn next_iteration(&mut self, state: &dyn AlgorithmState<T>) {
        self.rec(Lg::Iter, state, "log_iter")
    }
    fn finish(&mut self, state: &dyn AlgorithmState<T>) {
        self.rec(Lg::Finish, state, "log_finish")
    }
}

// ------------------------------------------------------------------ optimizers

pub enum Opt<F: Fl> {
    Ga(GeneticOptimizer<'static, Vec<F>>),
    Pso(ParticleSwarmOptimizer<'static, F>),
}

impl<F: Fl> Opt<F> {
    pub fn find_min(&mut self) -> Option<(Vec<F>, f64)> {
        match self {
            Opt::Ga(o) => o.find_min(),
            Opt::Pso(o) => o.find_min(),
        }
    }
    pub fn next_iterations(&mut self) -> Option<(Vec<F>, f64)> {
        match self {
            Opt::Ga(o) => o.next_iterations(),
            Opt::Pso(o) => o.next_iterations(),
        }
    }
    pub fn set_stop(&mut self, s: Box<dyn StopChecker<Vec<F>>>) {
        match self {
            Opt::Ga(o) => o.set_stop_checker(s),
            Opt::Pso(o) => o.set_stop_checker(s),
        }
    }
    pub fn set_loggers(&mut self, l: Vec<Box<dyn Logger<Vec<F>>>>) {
        match self {
            Opt::Ga(o) => o.set_loggers(l),
            Opt::Pso(o) => o.set_loggers(l),
        }
    }
}

// ------------------------------------------------------------------ configuration

/// The optimizer a plan describes. All fields are decoded with clamping, so any
/// change of a parameter gives another valid configuration.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub pso: bool,
    pub f32: bool,
    pub dim: usize,
    pub pop: usize,
    pub ivl: i64,
    // genetic
    pub pairing: i64,
    pub fam: usize,
    pub rounds: usize,
    pub cross: i64,
    pub mut_prob: f64,
    pub mut_bits: usize,
    pub pre: i64,
    pub sel: i64,
    pub limit: usize,
    // swarm
    pub vinit: i64,
    pub calc: i64,
    pub phi: [f64; 6],
    pub xi: f64,
    pub tmax: usize,
    pub pvc: i64,
    pub vmax: f64,
    pub pm: i64,
    pub inner: i64,
    pub tele: f64,
    /// percentage of values that some components replace by wild ones
    pub wild: u64,
    /// all lengths of the search space are multiplied by this
    pub scale: f64,
}

impl Cfg {
    pub fn ivs<F: Fl>(&self) -> Vec<(F, F)> {
        let k = F::of(self.scale);
        intervals::<F>(self.ivl, self.dim).into_iter().map(|(a, b)| (a * k, b * k)).collect()
    }
    pub fn of(p: &Plan) -> Cfg {
        let f = |k: &str, d: i64, lo: i64, hi: i64| p.get(k, d, lo, hi) as f64 / 1000.0;
        Cfg {
            pso: p.get("algo", 0, 0, 1) == 1,
            f32: p.flag("f32"),
            dim: p.get("dim", 1, 1, 140) as usize,
            pop: p.get("pop", 2, 1, 600) as usize,
            ivl: p.get("ivl", 0, 0, 40),
            pairing: p.get("pairing", 0, 0, 1),
            fam: p.get("fam", 1, 0, 300) as usize,
            rounds: p.get("rounds", 0, 0, 12) as usize,
            cross: p.get("cross", 0, 0, 3),
            mut_prob: f("mut_prob", 0, 0, 100_000),
            mut_bits: p.get("mut_bits", 1, 0, 64) as usize,
            pre: p.get("pre", 0, 0, 1),
            sel: p.get("sel", 0, 0, 15),
            limit: p.get("limit", 3, 0, 600) as usize,
            vinit: p.get("vinit", 0, 0, 1),
            calc: p.get("calc", 0, 0, 5),
            phi: [
                f("phi0", 1000, -4000, 9000),
                f("phi1", 1000, -4000, 9000),
                f("phi2", 0, -4000, 9000),
                f("phi3", 0, -4000, 9000),
                f("phi4", 0, -4000, 9000),
                f("phi5", 0, -4000, 9000),
            ],
            xi: f("xi", 700, 1, 999),
            tmax: p.get("tmax", 10, 1, 1000) as usize,
            pvc: p.get("pvc", 0, 0, 3),
            vmax: f("vmax", 1000, 0, 1_000_000_000_000),
            pm: p.get("pm", 0, 0, 4),
            inner: p.get("inner", 0, 0, 1000),
            tele: f("tele", 0, 0, 1000),
            wild: p.get("wild", 0, 0, 100) as u64,
            scale: 1.0,
        }
    }

    pub fn selections<F: Fl>(&self) -> Vec<Box<dyn Selection<Vec<F>>>> {
        let iv = || self.ivs::<F>();
        let nan = || Box::new(KillFitnessNaN::new()) as Box<dyn Selection<Vec<F>>>;
        let lim = || Box::new(LimitPopulation::new(self.limit)) as Box<dyn Selection<Vec<F>>>;
        let chk = || Box::new(genetic::selection::vec_float::CheckChromoInterval::new(iv())) as Box<dyn Selection<Vec<F>>>;
        match self.sel {
            0 | 6..=15 => vec![nan(), lim()],
            1 => vec![chk(), nan(), lim()],
            2 => vec![nan(), chk(), lim()],
            3 => vec![lim()],
            4 => vec![lim(), nan()],
            _ => vec![nan(), lim(), chk()],
        }
    }

    pub fn crossing<F: Fl>(&self) -> Box<dyn Cross<Vec<F>>> {
        let single: Box<dyn Cross<F>> = match self.cross {
            0 => F::bit_cross(),
            1 => Box::new(FloatCrossExp::new()),
            2 => Box::new(CrossMean::new()),
            _ => Box::new(FloatCrossGeometricMean::new()),
        };
        Box::new(VecCrossAllGenes::new(single))
    }

    pub fn mutation<F: Fl>(&self) -> Box<dyn Mutation<Vec<F>>> {
        let m = Box::new(VecMutation::new(self.mut_prob, F::bit_mutation(self.mut_bits)));
        if self.wild > 0 {
            return Box::new(Wild::<dyn Mutation<Vec<F>>, F> { inner: m, iv: self.ivs::<F>(), salt: 1, rate: self.wild });
        }
        m
    }

    pub fn pairing_of<F: Fl>(&self) -> Box<dyn Pairing<Vec<F>>> {
        match self.pairing {
            0 => Box::new(RandomPairing::new()),
            _ => Box::new(Tournament::new(self.fam).partners_count(2).rounds_count(self.rounds)),
        }
    }

    pub fn pre_births<F: Fl>(&self) -> Vec<Box<dyn PreBirth<Vec<F>>>> {
        if self.pre == 1 {
            vec![Box::new(genetic::pre_birth::vec_float::CheckChromoInterval::new(self.ivs::<F>()))]
        } else {
            vec![]
        }
    }

    pub fn velocity_calc<F: Fl>(&self) -> Box<dyn VelocityCalculator<F>> {
        let o = F::of;
        match self.calc {
            0 => Box::new(ClassicVelocityCalculator::new(o(self.phi[0]), o(self.phi[1]))),
            1 => {
                let (a, b) = (self.phi[0].abs() + 0.1, self.phi[1].abs() + 4.0);
                Box::new(CanonicalVelocityCalculator::new(o(a), o(b), o(self.xi)))
            }
            2 => Box::new(InertiaVelocityCalculator::new(o(self.phi[0]), o(self.phi[1]), Box::new(ConstInertia::new(o(self.xi))) as Box<dyn Inertia<F>>)),
            3 => Box::new(InertiaVelocityCalculator::new(o(self.phi[0]), o(self.phi[1]), Box::new(LinearInertia::new(o(self.xi / 2.0), o(self.xi), self.tmax)) as Box<dyn Inertia<F>>)),
            5 => Box::new(CanonicalVelocityCalculator::new(o(self.phi[0]), o(self.phi[1]), o(self.xi))),
            _ => Box::new(NegativeReinforcement::new(o(self.phi[0]), o(self.phi[1]), o(self.phi[2]), o(self.phi[3]), o(self.phi[4]), o(self.phi[5]), o(self.xi))),
        }
    }

    pub fn post_velocity<F: Fl>(&self) -> Vec<Box<dyn PostVelocityCalc<F>>> {
        let m = F::of(self.vmax * self.scale);
        let abs = || Box::new(MaxVelocityAbs::new(m)) as Box<dyn PostVelocityCalc<F>>;
        let dims = || Box::new(MaxVelocityDimensions::new(vec![m; self.dim])) as Box<dyn PostVelocityCalc<F>>;
        match self.pvc {
            0 => vec![],
            1 => vec![abs()],
            2 => vec![dims()],
            _ => vec![dims(), abs()],
        }
    }

    /// The box of the post-move corrections; with `inner` a part of the
    /// initial one, some coordinates being fixed.
    pub fn bounds<F: Fl>(&self) -> Vec<(F, F)> {
        let h = F::of(0.5);
        let mut v = self.ivs::<F>();
        if self.inner > 0 {
            for (i, (lo, hi)) in v.iter_mut().enumerate() {
                let mid = *lo * h + *hi * h;
                match mix(i as u64 ^ ((self.inner as u64) << 20)) % 4 {
                    0 => *lo = mid,
                    1 => *hi = mid,
                    2 => (*lo, *hi) = (mid, mid),
                    _ => {}
                }
            }
        }
        v
    }

    pub fn post_move<F: Fl>(&self) -> Vec<Box<dyn PostMove<F>>> {
        let iv = || self.bounds::<F>();
        let b = || Box::new(MoveToBoundary::new(iv())) as Box<dyn PostMove<F>>;
        let t = || Box::new(RandomTeleport::new(iv(), self.tele as f32)) as Box<dyn PostMove<F>>;
        match self.pm {
            0 => vec![],
            1 => vec![b()],
            2 => vec![t(), b()],
            3 => vec![b(), t()],
            // a teleport far beyond the box, which the boundary correction must catch
            _ => {
                let wide = iv()
                    .into_iter()
                    .map(|(lo, hi)| {
                        let w = (hi - lo) * F::of(3.0);
                        if ((hi + w) - (lo - w)).is_finite() {
                            (lo - w, hi + w)
                        } else {
                            (lo, hi)
                        }
                    })
                    .collect();
                vec![Box::new(RandomTeleport::new(wide, self.tele as f32)) as Box<dyn PostMove<F>>, b()]
            }
        }
    }

    /// Build the optimizer with every component tapped.
    pub fn build<F: Fl>(&self, rig: &Rc<Rig>) -> Opt<F> {
        let stop = Box::new(TapStop { inner: Box::new(AtTarget { rig: rig.clone() }), rig: rig.clone() });
        self.build_with(rig, stop, Box::new(SimGoal { rig: rig.clone() }))
    }

    pub fn build_with<F: Fl>(&self, rig: &Rc<Rig>, stop: Box<dyn StopChecker<Vec<F>>>, goal: Box<dyn Goal<Vec<F>>>) -> Opt<F> {
        let rg = || rig.clone();
        let iv = self.ivs::<F>();
        if self.pso {
            let mut cinner: Box<dyn CoordinatesInitializer<F>> = Box::new(RandomCoordinatesInitializer::new(iv.clone(), self.pop));
            let mut vinner: Box<dyn VelocityInitializer<F>> = if self.vinit == 0 { Box::new(ZeroVelocityInitializer::new(self.dim, self.pop)) } else { Box::new(RandomVelocityInitializer::new(iv.clone(), self.pop)) };
            let mut rule = self.velocity_calc::<F>();
            if self.wild > 0 {
                cinner = Box::new(Wild::<dyn CoordinatesInitializer<F>, F> { inner: cinner, iv: iv.clone(), salt: 2, rate: self.wild });
                vinner = Box::new(Wild::<dyn VelocityInitializer<F>, F> { inner: vinner, iv: iv.clone(), salt: 3, rate: self.wild });
                rule = Box::new(Wild::<dyn VelocityCalculator<F>, F> { inner: rule, iv: iv.clone(), salt: 4, rate: self.wild });
            }
            let coord = Box::new(TapCoord { inner: cinner, rig: rg() });
            let vinit = Box::new(TapVelInit { inner: vinner, rig: rg() });
            let calc = Box::new(TapVel { inner: rule, rig: rg() });
            let mut o = ParticleSwarmOptimizer::new(goal, stop, coord, vinit, calc);
            o.set_post_velocity_calc(self.tapped_pvc(rig));
            o.set_post_moves(self.tapped_pm(rig));
            Opt::Pso(o)
        } else {
            let creator = Box::new(TapCreator { inner: Box::new(RandomCreator::new(self.pop, iv)), rig: rg() });
            let pairing = Box::new(TapPairing { inner: self.pairing_of::<F>(), rig: rg() });
            let cross = Box::new(TapCross { inner: self.crossing::<F>(), rig: rg() });
            let mutation = Box::new(TapMut { inner: self.mutation::<F>(), rig: rg() });
            Opt::Ga(GeneticOptimizer::new(goal, stop, creator, pairing, cross, mutation, self.tapped_sel(rig), self.tapped_pre(rig)))
        }
    }

    pub fn tapped_sel<F: Fl>(&self, rig: &Rc<Rig>) -> Vec<Box<dyn Selection<Vec<F>>>> {
        self.selections::<F>().into_iter().map(|s| Box::new(TapSel { inner: s, rig: rig.clone() }) as Box<dyn Selection<Vec<F>>>).collect()
    }
    pub fn tapped_pre<F: Fl>(&self, rig: &Rc<Rig>) -> Vec<Box<dyn PreBirth<Vec<F>>>> {
        self.pre_births::<F>().into_iter().map(|s| Box::new(TapPre { inner: s, rig: rig.clone() }) as Box<dyn PreBirth<Vec<F>>>).collect()
    }
    pub fn tapped_pvc<F: Fl>(&self, rig: &Rc<Rig>) -> Vec<Box<dyn PostVelocityCalc<F>>> {
        self.post_velocity::<F>().into_iter().map(|s| Box::new(TapPvc { inner: s, rig: rig.clone() }) as Box<dyn PostVelocityCalc<F>>).collect()
    }
    pub fn tapped_pm<F: Fl>(&self, rig: &Rc<Rig>) -> Vec<Box<dyn PostMove<F>>> {
        self.post_move::<F>().into_iter().map(|s| Box::new(TapMove { inner: s, rig: rig.clone() }) as Box<dyn PostMove<F>>).collect()
    }

    /// Replace the components by identical new ones through the setters.
    pub fn replace<F: Fl>(&self, o: &mut Opt<F>, rig: &Rc<Rig>, which: i64) {
        match o {
            Opt::Ga(g) => {
                if which & 1 != 0 {
                    g.set_pairing(Box::new(TapPairing { inner: self.pairing_of::<F>(), rig: rig.clone() }));
                }
                if which & 2 != 0 {
                    g.set_cross(Box::new(TapCross { inner: self.crossing::<F>(), rig: rig.clone() }));
                }
                if which & 4 != 0 {
                    g.set_mutation(Box::new(TapMut { inner: self.mutation::<F>(), rig: rig.clone() }));
                }
                if which & 8 != 0 {
                    g.set_selection(self.tapped_sel(rig));
                }
                if which & 16 != 0 {
                    g.set_pre_birth(self.tapped_pre(rig));
                }
            }
            Opt::Pso(s) => {
                if which & 1 != 0 {
                    s.set_post_velocity_calc(self.tapped_pvc(rig));
                }
                if which & 2 != 0 {
                    s.set_post_moves(self.tapped_pm(rig));
                }
            }
        }
    }
}

/// Random configuration parameters. `algo`: 0 GA, 1 PSO, -1 either.
pub fn gen_cfg(r: &mut Rng, p: &mut Plan, algo: i64, deep: bool) {
    let algo = if algo < 0 { r.range(0, 1) } else { algo };
    p.set("algo", algo);
    p.set("f32", r.range(0, 1));
    let top = if r.chance(1, 6) { 140 } else { 40 };
    let dim = if r.chance(1, 12) { r.range(13, top) } else { r.size(1, 8) };
    p.set("dim", dim);
    let pop = if r.chance(1, if deep { 12 } else { 30 }) { r.range(60, if deep { 300 } else { 120 }) } else { r.size(1, 24) };
    p.set("pop", pop);
    p.set("ivl", if r.chance(1, 2) { r.range(0, 1) } else { r.range(0, 30) });
    p.set("goal", r.range(0, GOAL_KINDS));
    p.set("salt", r.range(0, 1 << 40));
    if algo == 0 {
        p.set("pairing", r.range(0, 1));
        p.set("fam", r.size(0, 15).min(pop + 4));
        p.set("rounds", r.range(0, 5));
        p.set("cross", r.range(0, 3));
        p.set("mut_prob", *r.pick(&[0, 5_000, 20_000, 50_000, 80_000, 100_000]));
        p.set("mut_bits", r.size(0, 6));
        p.set("pre", r.range(0, 1));
        p.set("sel", r.range(0, 5));
        p.set("limit", r.range(1, (pop + 3).max(2)));
    } else {
        p.set("vinit", r.range(0, 1));
        p.set("calc", r.range(0, 4));
        for k in ["phi0", "phi1", "phi2", "phi3", "phi4", "phi5"] {
            p.set(k, r.range(0, 3200));
        }
        p.set("xi", r.range(50, 990));
        p.set("tmax", r.range(1, 40));
        p.set("pvc", r.range(0, 3));
        p.set("vmax", *r.pick(&[10, 1000, 30_000, 1_000_000_000]));
        p.set("pm", r.range(0, 3));
        p.set("tele", *r.pick(&[0, 10, 200, 1000]));
    }
}

// ------------------------------------------------------------------ sessions

/// Ops of a session:
///   run t      find_min, stopping at iteration t
///   more t     next_iterations for up to t further iterations
///   rep w      replace components by identical ones (w: bit mask)
/// After an injected panic during the initialization of a run only `run` is
/// executed, other operations are skipped.
pub struct Session<F: Fl> {
    pub opt: Opt<F>,
    pub rig: Rc<Rig>,
    pub cfg: Cfg,
    pub stop_mode: i64,
    pub started: bool,
    pub aborted: bool,
    pub iter: usize,
    /// run `more` also when the optimizer was never started
    pub allow_unstarted: bool,
    /// resume a run after it was aborted inside an iteration
    pub allow_resume_after_abort: bool,
}

impl<F: Fl> Session<F> {
    pub fn new(p: &Plan) -> Session<F> {
        let cfg = Cfg::of(p);
        let rig = Rig::new(goal_spec(p));
        for o in p.ops_of("tp") {
            rig.panic_taps.borrow_mut().insert(o.argc(0, 0, i64::MAX) as u64);
        }
        let mut opt = cfg.build::<F>(&rig);
        let n = p.get("loggers", 1, 0, 40) as usize;
        opt.set_loggers((0..n).map(|l| Box::new(RecLogger { rig: rig.clone(), l }) as Box<dyn Logger<Vec<F>>>).collect());
        Session { opt, rig, cfg, stop_mode: p.get("stop_mode", 0, 0, 1), started: false, aborted: false, iter: 0, allow_unstarted: false, allow_resume_after_abort: true }
    }

    fn arm(&mut self, target: usize) {
        self.rig.target.set(target);
        if self.stop_mode == 1 {
            let inner: Box<dyn StopChecker<Vec<F>>> = Box::new(MaxIterations::new(target));
            self.opt.set_stop(Box::new(TapStop { inner, rig: self.rig.clone() }));
        }
    }

    /// last iteration number seen in the log since the last Begin/Again
    fn seen_iter(&self) -> usize {
        for e in self.rig.ev.borrow().iter().rev() {
            match e {
                Ev::Stop { st, .. } | Ev::Log { st, .. } => return st.iter,
                _ => {}
            }
        }
        0
    }

    /// whether the current run got past its initialization
    fn initialized(&self) -> bool {
        for e in self.rig.ev.borrow().iter().rev() {
            match e {
                Ev::Stop { .. } | Ev::Log { .. } => return true,
                Ev::Begin => return false,
                _ => {}
            }
        }
        false
    }

    /// Execute one operation; false if it does not apply.
    pub fn step(&mut self, o: &Op) -> Result<bool, Violation> {
        match o.k.as_str() {
            "run" => {
                self.arm(o.argc(0, 0, 3000) as usize);
                self.started = true;
                self.rig.push(Ev::Begin);
                let opt = &mut self.opt;
                let r = guard(|| opt.find_min())?;
                self.finish(r);
            }
            "more" => {
                if (!self.started && !self.allow_unstarted) || (self.aborted && (!self.allow_resume_after_abort || !self.initialized())) {
                    return Ok(false);
                }
                let t = self.seen_iter() + o.argc(0, 0, 3000) as usize;
                self.arm(t);
                self.rig.push(Ev::Again);
                let opt = &mut self.opt;
                let r = guard(|| opt.next_iterations())?;
                self.finish(r);
            }
            "rep" => {
                let cfg = self.cfg.clone();
                cfg.replace(&mut self.opt, &self.rig, o.argc(0, 0, 31));
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    fn finish(&mut self, r: Option<Option<(Vec<F>, f64)>>) {
        match r {
            Some(s) => {
                self.aborted = false;
                self.rig.push(Ev::End(s.map(|(x, v)| (x.x(), fbits(v)))));
            }
            None => {
                self.aborted = true;
                self.rig.push(Ev::Abort);
            }
        }
        self.iter = self.seen_iter();
    }
}

/// Session operations: runs, resumptions, re-runs.
/// Now and then one of the runs is a long one, with few agents.
pub fn lengthen(r: &mut Rng, p: &mut Plan, one_in: u64, shrink: &[(&str, i64)]) {
    if !r.chance(1, one_in) {
        return;
    }
    let runs: Vec<usize> = (0..p.ops.len()).filter(|i| matches!(p.ops[*i].k.as_str(), "run" | "more" | "pre")).collect();
    if runs.is_empty() {
        return;
    }
    for (k, m) in shrink {
        if let Some(v) = p.p.get(*k).copied() {
            p.set(k, v.min(*m));
        }
    }
    let i = *r.pick(&runs);
    p.ops[i].a[0] = r.range(257, 1100);
}

pub fn gen_session(r: &mut Rng, p: &mut Plan, deep: bool) -> i64 {
    let max = if r.chance(1, 25) { if deep { 400 } else { 120 } } else { 14 };
    let many = r.chance(1, 80);
    let n = if many { r.range(6, 25) } else { r.range(1, 5) };
    let max = if many { 6 } else { max };
    let mut total = 0;
    for i in 0..n {
        let t = r.size(0, max);
        total += t;
        if i == 0 || r.chance(1, 4) {
            p.op("run", &[t]);
        } else {
            p.op("more", &[t]);
        }
        if r.chance(1, 6) {
            let w = r.range(1, 31);
            p.op("rep", &[w]);
        }
    }
    p.set("stop_mode", r.range(0, 1));
    if p.get("pop", 1, 0, 1 << 40) * p.get("dim", 1, 1, 1 << 40) <= 24 {
        lengthen(r, p, 150, &[]);
        let runs = p.ops.iter().filter(|o| matches!(o.k.as_str(), "run" | "more"));
        total = runs.map(|o| o.arg(0)).sum();
    }
    total
}

/// Dispatch on the float type a plan asks for.
#[macro_export]
macro_rules! with_float {
    ($p:expr, $f:ident ( $($a:expr),* )) => {
        if $p.flag("f32") { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) }
    };
}

/// A value borrowed for 'static and reclaimed when dropped. The borrower must
/// be dropped first.
pub struct Leak<T> {
    p: *mut T,
}
impl<T> Leak<T> {
    pub fn new(v: T) -> Leak<T> {
        Leak { p: Box::into_raw(Box::new(v)) }
    }
    /// a mutable borrow for the component under test
    pub fn lend(&self) -> &'static mut T {
        unsafe { &mut *self.p }
    }
    pub fn get(&self) -> &T {
        unsafe { &*self.p }
    }
}
impl<T> Drop for Leak<T> {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.p)) }
    }
}
