//! C27: the algorithms solve simple problems, also after faults.
use crate::exec::{guard, Prop};
use crate::kit::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res, Violation};
use crate::with_float;
use optlib::tools::stopchecker::{CompositeAny, MaxIterations, Threshold};
use optlib::{Goal, GoalFromFunction};
use std::rc::Rc;

pub struct C27;

struct Class {
    name: &'static str,
    tried: &'static str,
    solved: &'static str,
    func: usize,
    /// the search space is -100..100 times this
    scale: f64,
    /// iterations within which the goal value has to fall below `below`
    iters: usize,
    below: f64,
    cfg: &'static [(&'static str, i64)],
}

macro_rules! class {
    ($n:literal, $f:literal, $s:literal, $i:literal, $b:literal, [$($k:ident $v:literal),*]) => {
        Class { name: $n, tried: concat!("tried.", $n), solved: concat!("solved.", $n), func: $f, scale: $s, iters: $i, below: $b, cfg: &[$((stringify!($k), $v)),*] }
    };
}

/// Settings in the manner of the library's examples.
static CLASSES: &[Class] = &[
    class!("paraboloid_canonical", 0, 1.0, 150, 20.0, [algo 1, dim 4, pop 25, calc 5, phi0 2050, phi1 2050, xi 999, pvc 1, vmax 50000, pm 1]),
    class!("rosenbrock_canonical", 3, 0.02, 200, 0.02, [algo 1, dim 2, pop 25, calc 5, phi0 3400, phi1 1000, xi 900, pvc 1, vmax 2000, pm 1]),
    class!("schwefel_canonical", 1, 5.0, 200, 2.0, [algo 1, dim 2, pop 40, calc 5, phi0 3200, phi1 1000, xi 900, pvc 1, vmax 700000, pm 2, tele 50]),
    class!("rastrigin_inertia", 2, 0.0512, 150, 0.3, [algo 1, dim 2, pop 40, calc 2, phi0 2200, phi1 600, xi 850, pvc 1, vmax 700000, pm 1]),
    class!("schwefel_linear_inertia", 1, 5.0, 200, 2.0, [algo 1, dim 2, pop 60, calc 3, phi0 2200, phi1 600, xi 900, tmax 200, pvc 2, vmax 700000, pm 1]),
    class!("schwefel_negative_reinforcement", 1, 5.0, 200, 2.0, [algo 1, dim 2, pop 60, calc 4, phi0 3200, phi1 0, phi2 1000, xi 818, pvc 1, vmax 700000, pm 1]),
    class!("paraboloid_classic", 0, 1.0, 200, 2.0, [algo 1, dim 3, pop 30, calc 0, phi0 2000, phi1 2000, pvc 2, vmax 4000, pm 1]),
    class!("paraboloid_tournament", 0, 1.0, 150, 20.0, [algo 0, dim 3, pop 60, pairing 1, fam 30, rounds 2, cross 1, mut_prob 15000, mut_bits 3, pre 1, sel 0, limit 60]),
    class!("schwefel_tournament", 1, 5.0, 250, 20.0, [algo 0, dim 2, pop 80, pairing 1, fam 40, rounds 5, cross 1, mut_prob 15000, mut_bits 3, pre 1, sel 0, limit 80]),
    class!("paraboloid_random_pairing", 0, 1.0, 150, 20.0, [algo 0, dim 3, pop 80, pairing 0, cross 1, mut_prob 40000, mut_bits 3, pre 1, sel 0, limit 80]),
    class!("rastrigin_bitwise", 2, 0.0512, 150, 0.3, [algo 0, dim 3, pop 60, pairing 1, fam 30, rounds 5, cross 0, mut_prob 15000, mut_bits 3, pre 1, sel 0, limit 60]),
    class!("paraboloid_mean", 0, 1.0, 120, 20.0, [algo 0, dim 3, pop 60, pairing 0, cross 2, mut_prob 30000, mut_bits 3, pre 1, sel 1, limit 60]),
];
const REPS: usize = 10;
const SOLVED: usize = 5;

impl Prop for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn runs(&self) -> (u64, u64) {
        (8_000, 150_000)
    }
    fn rule(&self) -> &'static str {
        "each run performs ten optimizations with settings in the manner of the examples, on goal functions that may be undefined in a part of the space, hit early by bursts of non-finite values and by aborts after which they are resumed or restarted; at least half must get below a loose bound within a fixed number of iterations; non-trivial: at least one fault was injected"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.genetic", "probe.swarm", "probe.all_initial_lost", "probe.hole_met", "probe.resumed", "probe.restarted", "probe.stopped_by_threshold", "fault.goal_nan", "fault.goal_pos_inf", "fault.goal_neg_inf", "fault.goal_panic"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers with every velocity rule, limiter, move correction, crossing, pairing, selection; GoalFromFunction and the test functions; Threshold, MaxIterations, CompositeAny", "fault injection between optimizer and goal function")
    }
    fn gen(&self, r: &mut Rng, _deep: bool) -> Plan {
        let class = r.range(0, CLASSES.len() as i64 - 1);
        let mut p = Plan::new("C27", "solve", 0);
        p.set("class", class);
        p.set("f32", r.range(0, 1));
        p.set("hole", (r.range(0, 5) - 2).max(0));
        let c = Cfg::of(&configured(&p));
        let pop = c.pop as i64;
        // a genetic population that dies out cannot come back
        let (from, to) = if c.pso { (0, pop * 4) } else { (pop / 3, pop * 3) };
        match r.below(6) {
            0 => {}
            1 if c.pso => {
                let k = r.range(1, 2);
                for i in 0..pop {
                    p.op("gf", &[k, i]);
                }
            }
            n => {
                for _ in 0..r.range(1, n as i64 + 2) {
                    let k = *r.pick(&[1, 2, 3]);
                    let at = r.range(from, to);
                    let len = r.size(1, pop);
                    for i in 0..len {
                        if at + i < to {
                            p.op("gf", &[k, at + i]);
                        }
                    }
                }
            }
        }
        // a restarted initialization would meet the burst at another place
        let aborts = if c.pso || p.ops.is_empty() { r.below(3) } else { 0 };
        for _ in 0..aborts {
            let a = [4, r.range(0, to)];
            p.op("gf", &a);
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

fn class_of(p: &Plan) -> &'static Class {
    &CLASSES[p.get("class", 0, 0, CLASSES.len() as i64 - 1) as usize]
}

fn configured(p: &Plan) -> Plan {
    let mut q = p.clone();
    for (k, v) in class_of(p).cfg {
        q.set(k, *v);
    }
    q
}

/// The real goal function behind the simulator's faults.
struct Faulty<F: Fl> {
    real: GoalFromFunction<Vec<F>>,
    rig: Rc<Rig>,
    /// the goal function is undefined in a part of the space
    hole: i64,
    extent: f64,
}
impl<F: Fl> Goal<Vec<F>> for Faulty<F> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        let mut v = self.real.get(x);
        if self.hole > 0 && x[0].d() < -0.2 * self.extent {
            stat::hit("probe.hole_met");
            v = [nan_of(fbits(v)), f64::INFINITY, f64::NEG_INFINITY][self.hole as usize - 1];
        }
        self.rig.fault(x.x(), v)
    }
}

fn go<F: Fl>(p: &Plan) -> Res {
    let class = class_of(p);
    let mut got = vec![];
    for rep in 0..REPS as u64 {
        simseam::with(|s| s.reseed(mix(p.seed ^ rep)));
        stat::hit(class.tried);
        let best = solve::<F>(p, class)?;
        if best.map_or(false, |v| v < class.below) {
            stat::hit(class.solved);
        }
        got.push(best);
    }
    let solved = got.iter().filter(|b| b.map_or(false, |v| v < class.below)).count();
    if solved < SOLVED {
        return bad("no-progress", format!("{}: only {} of {} optimizations got below {} within {} iterations: {:?}", class.name, solved, REPS, class.below, class.iters, got));
    }
    Ok(())
}

fn solve<F: Fl>(p: &Plan, class: &Class) -> Result<Option<f64>, Violation> {
    let mut cfg = Cfg::of(&configured(p));
    cfg.scale = class.scale;
    if cfg.pvc > 0 {
        cfg.vmax /= class.scale;
    }
    let rig = Rig::new(goal_spec(p));
    rig.rec_stop.set(false);
    let f: fn(&Vec<F>) -> f64 = match class.func {
        0 => optlib_testfunc::paraboloid,
        1 => optlib_testfunc::schwefel,
        2 => optlib_testfunc::rastrigin,
        _ => optlib_testfunc::rosenbrock,
    };
    let stop = || -> Box<dyn optlib::tools::stopchecker::StopChecker<Vec<F>>> { Box::new(TapStop { inner: Box::new(CompositeAny::new(vec![Box::new(Threshold::new(class.below * 0.5)), Box::new(MaxIterations::new(class.iters))])), rig: rig.clone() }) };
    let mut opt = cfg.build_with::<F>(&rig, stop(), Box::new(Faulty { real: GoalFromFunction::new(f), rig: rig.clone(), hole: p.get("hole", 0, 0, 3), extent: 100.0 * class.scale }));
    if cfg.pso && (0..cfg.pop as u64).all(|i| matches!(rig.goal.faults.get(&i), Some(1..=3))) {
        stat::hit("probe.all_initial_lost");
    }
    stat::hit(if cfg.pso { "probe.swarm" } else { "probe.genetic" });
    opt.set_loggers(vec![Box::new(RecLogger { rig: rig.clone(), l: 0 })]);
    let mut again = false;
    for _ in 0..8 {
        let r = guard(|| if again { opt.next_iterations() } else { opt.find_min() })?;
        let ev = rig.take();
        if !p.ops.is_empty() {
            stat::nontrivial();
        }
        match r {
            Some(sol) => {
                if let Some(Ev::Log { st, .. }) = ev.last() {
                    if st.iter < class.iters {
                        stat::hit("probe.stopped_by_threshold");
                    }
                }
                return Ok(sol.map(|s| s.1));
            }
            None => {
                // aborted: resumed if it had started
                again = again || ev.iter().any(|e| matches!(e, Ev::Log { .. }));
                stat::hit(if again { "probe.resumed" } else { "probe.restarted" });
            }
        }
    }
    Ok(None)
}
