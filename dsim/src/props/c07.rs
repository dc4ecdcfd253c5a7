//! C07: a swarm iteration moves every particle exactly once by its own velocity.
use crate::exec::Prop;
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use crate::with_float;
use optlib::particleswarm::velocitycalc::ClassicVelocityCalculator;
use optlib::particleswarm::{Particle, ParticleSwarmOptimizer, PostMove, PostVelocityCalc, Swarm, VelocityCalculator};
use optlib::tools::logging::Logger;
use optlib::{Agent, AgentsState, AlgorithmState, IterativeOptimizer, Optimizer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct C07;

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn runs(&self) -> (u64, u64) {
        (240_000, 3_000_000)
    }
    fn rule(&self) -> &'static str {
        "runs, pauses, re-runs and replacement of corrections of a particle swarm with unique velocities, non-commuting velocity and move corrections and every trait call recorded; the velocity a particle carries is read back through the classic rule with zero coefficients; non-trivial: an iteration of two or more particles was checked"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.iterations_checked", "probe.many_corrections", "probe.no_corrections", "probe.replaced", "probe.rerun", "probe.paused", "probe.empty_swarm", "probe.initial_corrected", "probe.nan_value", "probe.odd_velocity"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("ParticleSwarmOptimizer, Swarm, Particle, ClassicVelocityCalculator (as a probe)", "initializers, velocity rule, corrections, goal (recording, scripted)")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C07", "step", 0);
        p.set("f32", r.range(0, 1));
        p.set("salt", r.range(0, 1 << 40));
        p.set("goal", r.range(0, 4));
        p.set("n", if r.chance(1, 25) { r.range(20, if deep { 150 } else { 60 }) } else { r.size(0, 10) });
        p.set("dim", r.size(1, 6));
        if r.chance(1, 60) {
            p.set("dim", r.range(7, 140)).set("n", r.size(1, 5));
        } else if r.chance(1, 300) {
            p.set("n", r.range(60, 300));
        }
        p.set("pvc", if r.chance(1, 60) { r.range(4, 20) } else { r.range(0, 3) });
        p.set("pm", if r.chance(1, 60) { r.range(4, 20) } else { r.range(0, 3) });
        p.set("loggers", r.range(0, 2));
        // velocities of any kind, as long as the last move correction brings the particles back
        p.set("odd", r.chance(1, 3) as i64);
        let mut any = false;
        for _ in 0..r.range(1, 5) {
            if any && r.chance(1, 4) {
                p.op("rep", &[r.range(1, 7)]);
            }
            let t = if r.chance(1, 30) { r.range(20, 80) } else { r.size(0, 7) };
            if any && r.chance(2, 3) {
                p.op("more", &[t]);
            } else {
                p.op("run", &[t]);
            }
            any = true;
        }
        lengthen(r, &mut p, 200, &[("n", 3), ("dim", 2), ("pvc", 2), ("pm", 2)]);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

/// The scripted corrections: pure, not commuting with each other.
fn pvc<F: Fl>(salt: u64, i: usize, ver: u64, v: &[F]) -> Vec<F> {
    let m = F::of(80.0);
    match mix(salt ^ (i as u64) << 8 ^ ver << 16) % 5 {
        0 => v.iter().map(|x| *x * F::of(0.5)).collect(),
        1 => v.iter().map(|x| -*x).collect(),
        2 => v.iter().map(|x| *x + F::of(3.0)).collect(),
        3 => v.iter().rev().cloned().collect(),
        _ => v.iter().map(|x| x.max(-m).min(m)).collect(),
    }
}
fn mv<F: Fl>(salt: u64, i: usize, ver: u64, c: &[F], back: bool) -> Vec<F> {
    let m = F::of(300.0);
    if back {
        return c.iter().map(|x| if x.abs() <= m { *x } else { F::of(if *x > m { 17.0 } else { -23.5 }) }).collect();
    }
    match mix(salt ^ 7 ^ (i as u64) << 8 ^ ver << 16) % 5 {
        0 => c.iter().map(|x| *x * F::of(0.75)).collect(),
        1 => c.iter().map(|x| *x - F::of(11.0)).collect(),
        2 => c.iter().rev().cloned().collect(),
        3 => c.iter().map(|x| x.max(-m).min(m)).collect(),
        _ => c.iter().map(|x| x.abs()).collect(),
    }
}
/// bits with the zeros alike
fn xb<F: Fl>(v: &[F]) -> X {
    v.iter().map(|x| if *x == F::zero() { F::zero().b() } else { x.b() }).collect()
}

fn value(kind: i64, salt: u64, x: &[u64]) -> f64 {
    let h = hash_x(x, salt);
    let u = (h >> 11) as f64 / (1u64 << 53) as f64;
    match kind {
        0 => u * 100.0 - 50.0,
        1 => (h % 3) as f64,
        2 => {
            if h % 4 == 0 {
                stat::hit("probe.nan_value");
                [nan_of(h), f64::INFINITY, f64::NEG_INFINITY][(mix(h) % 3) as usize]
            } else {
                u
            }
        }
        3 => 2.5,
        _ => nan_of(h),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct P {
    x: X,
    v: X,
    val: u64,
}

struct Step<F> {
    before: P,
    v0: Vec<F>,
    x: Vec<F>,
}

struct Model<F> {
    /// the particles between iterations; None before the initialization is verified
    parts: Option<Vec<P>>,
    coords: Vec<Vec<F>>,
    vels: Vec<Vec<F>>,
    steps: Vec<Step<F>>,
    pvc_in: Vec<Vec<X>>,
    mv_in: Vec<Vec<X>>,
    evals: Vec<X>,
    agents0: Option<Vec<(X, u64)>>,
    iter: usize,
    npvc: usize,
    npm: usize,
    ver: [u64; 2],
    checked: u64,
    inits: u64,
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn show(v: &[X]) -> String {
    v.iter().map(|x| show_x(x)).collect::<Vec<_>>().join(" ")
}
fn same(tag: &str, what: String, want: &[X], got: &[X]) -> bool {
    if sorted(want) != sorted(got) {
        stat::fail(tag, format!("{}: expected {}, got {}", what, show(want), show(got)));
        return false;
    }
    true
}

struct Ctx {
    salt: u64,
    odd: bool,
    kind: i64,
}

impl<F: Fl> Model<F> {
    fn chain_moves(&self, c: &Ctx, x: &[F], stages: &mut [Vec<X>]) -> Vec<F> {
        let mut x = x.to_vec();
        for i in 0..self.npm {
            stages[i].push(xb(&x));
            x = mv(c.salt, i, self.ver[1], &x, c.odd && i + 1 == self.npm);
        }
        x
    }
    fn clear(&mut self) {
        self.steps.clear();
        self.pvc_in = vec![vec![]; self.npvc];
        self.mv_in = vec![vec![]; self.npm];
        self.evals.clear();
        self.agents0 = None;
    }
    /// after the initialization: corrected, evaluated once, paired in order
    fn initial(&mut self, c: &Ctx) {
        if self.parts.is_some() {
            return;
        }
        let mut stages = vec![vec![]; self.npm];
        let mut parts = vec![];
        let mut xs = vec![];
        for (x, v) in self.coords.clone().iter().zip(self.vels.clone()) {
            let y = self.chain_moves(c, x, &mut stages);
            if self.npm > 0 {
                stat::hit("probe.initial_corrected");
            }
            let y = xb(&y);
            parts.push(P { val: fbits(value(c.kind, c.salt, &y)), x: y.clone(), v: xb(&v) });
            xs.push(y);
        }
        for i in 0..self.npm {
            if !same("initial-corrections", format!("post move {}", i), &stages[i], &self.mv_in[i]) {
                return;
            }
        }
        if !same("initial-evaluations", "initial positions evaluated".into(), &xs, &self.evals) {
            return;
        }
        if self.steps.len() + self.pvc_in.iter().map(|p| p.len()).sum::<usize>() > 0 {
            stat::fail("velocity-before-start", "velocity rule or corrections called during the initialization");
        }
        self.parts = Some(parts);
        self.clear();
    }
    /// the iteration is complete
    fn verify(&mut self, c: &Ctx) {
        let mut left = self.parts.clone().unwrap();
        let n = left.len();
        if let Some(a) = &self.agents0 {
            let want: Vec<(X, u64)> = left.iter().map(|p| (p.x.clone(), p.val)).collect();
            if sorted(&want) != sorted(a) {
                return stat::fail("swarm-shown", format!("iteration {} shows the particles {:?}, they are {:?}", self.iter, a, want));
            }
        }
        if self.steps.len() != n {
            return stat::fail("velocity-count", format!("{} particles, velocity rule called {} times in iteration {}", n, self.steps.len(), self.iter));
        }
        let (mut pv, mut ms) = (vec![vec![]; self.npvc], vec![vec![]; self.npm]);
        let (mut next, mut xs) = (vec![], vec![]);
        for s in &self.steps {
            match left.iter().position(|p| *p == s.before) {
                None => {
                    let same_x: Vec<&P> = left.iter().filter(|p| p.x == s.before.x).collect();
                    let tag = if same_x.is_empty() { "moved-twice-or-unknown" } else { "velocity-not-kept" };
                    return stat::fail(tag, format!("iteration {}: the velocity rule was asked for {:?}; particles left to move: {:?}", self.iter, s.before, left));
                }
                Some(i) => {
                    left.swap_remove(i);
                }
            }
            let mut v = s.v0.clone();
            for i in 0..self.npvc {
                pv[i].push(xb(&v));
                v = pvc(c.salt, i, self.ver[0], &v);
            }
            let x: Vec<F> = s.x.iter().zip(&v).map(|(a, b)| *a + *b).collect();
            let y = xb(&self.chain_moves(c, &x, &mut ms));
            xs.push(y.clone());
            next.push(P { val: fbits(value(c.kind, c.salt, &y)), x: y, v: xb(&v) });
        }
        for i in 0..self.npvc {
            if !same("velocity-corrections", format!("iteration {}, velocity correction {} was given", self.iter, i), &pv[i], &self.pvc_in[i]) {
                return;
            }
        }
        for i in 0..self.npm {
            if !same("move-corrections", format!("iteration {}, post move {} was given", self.iter, i), &ms[i], &self.mv_in[i]) {
                return;
            }
        }
        if !same("evaluations", format!("iteration {}: new positions evaluated", self.iter), &xs, &self.evals) {
            return;
        }
        if n >= 2 {
            stat::nontrivial();
        }
        if self.npvc > 1 && self.npm > 1 {
            stat::hit("probe.many_corrections");
        }
        if self.npvc == 0 && self.npm == 0 {
            stat::hit("probe.no_corrections");
        }
        if n == 0 {
            stat::hit("probe.empty_swarm");
        }
        self.checked += 1;
        stat::hit("probe.iterations_checked");
        self.parts = Some(next);
        self.clear();
    }
}

type M<F> = Rc<RefCell<Model<F>>>;

fn boxed_pvc<F: Fl>(m: &M<F>, salt: u64, n: usize, ver: u64) -> Vec<Box<dyn PostVelocityCalc<F>>> {
    (0..n)
        .map(|i| {
            let m = m.clone();
            Box::new(FnPvc(Box::new(move |v: Vec<F>| {
                let mut b = m.borrow_mut();
                if b.ver[0] != ver || i >= b.npvc {
                    stat::fail("stale-component", "a replaced velocity correction was called");
                } else {
                    b.pvc_in[i].push(xb(&v));
                }
                pvc(salt, i, ver, &v)
            }))) as Box<dyn PostVelocityCalc<F>>
        })
        .collect()
}
fn boxed_pm<F: Fl>(m: &M<F>, salt: u64, odd: bool, n: usize, ver: u64) -> Vec<Box<dyn PostMove<F>>> {
    (0..n)
        .map(|i| {
            let m = m.clone();
            Box::new(FnMove(Box::new(move |c: &mut Vec<F>| {
                let mut b = m.borrow_mut();
                if b.ver[1] != ver || i >= b.npm {
                    stat::fail("stale-component", "a replaced post move was called");
                } else {
                    b.mv_in[i].push(xb(c));
                }
                *c = mv(salt, i, ver, c, odd && i + 1 == n);
            }))) as Box<dyn PostMove<F>>
        })
        .collect()
}

fn go<F: Fl>(p: &Plan) -> Res {
    let salt = p.get("salt", 0, 0, i64::MAX) as u64;
    let odd = p.get("odd", 0, 0, 1) == 1;
    let ctx = Rc::new(Ctx { salt, odd, kind: p.get("goal", 0, 0, 4) });
    let n = p.get("n", 1, 0, 600) as u64;
    let dim = p.get("dim", 1, 1, 140) as u64;
    let (npvc, npm) = (p.get("pvc", 0, 0, 20) as usize, p.get("pm", 0, 0, 20).max(odd as i64) as usize);
    let m: M<F> = Rc::new(RefCell::new(Model {
        parts: None,
        coords: vec![],
        vels: vec![],
        steps: vec![],
        pvc_in: vec![],
        mv_in: vec![],
        evals: vec![],
        agents0: None,
        iter: 0,
        npvc,
        npm,
        ver: [0, 0],
        checked: 0,
        inits: 0,
    }));
    let target = Rc::new(Cell::new(0usize));
    let count = Rc::new(Cell::new(0u64));
    let fresh = move |c: &Rc<Cell<u64>>, scale: f64| -> Vec<F> {
        c.set(c.get() + 1);
        (0..dim).map(|d| F::of(((mix(salt ^ mix(c.get() << 8 ^ d)) >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0) * scale)).collect()
    };
    let (mg, cg) = (m.clone(), ctx.clone());
    let goal = FnGoal(Box::new(move |x: &Vec<F>| {
        let x = xb(x);
        let v = value(cg.kind, cg.salt, &x);
        stat::mark(hash_x(&x, 1));
        mg.borrow_mut().evals.push(x);
        v
    }));
    let (mk, ck) = (m.clone(), count.clone());
    let coords = FnCoord(Box::new(move || {
        let c: Vec<Vec<F>> = (0..n).map(|_| fresh(&ck, 200.0)).collect();
        let mut b = mk.borrow_mut();
        b.inits += 1;
        b.coords = c.clone();
        c
    }));
    let (mk, ck) = (m.clone(), count.clone());
    let vels = FnCoord(Box::new(move || {
        let c: Vec<Vec<F>> = (0..n).map(|_| fresh(&ck, 20.0)).collect();
        mk.borrow_mut().vels = c.clone();
        c
    }));
    let (mk, ck, cc) = (m.clone(), count.clone(), ctx.clone());
    let mut probe = ClassicVelocityCalculator::new(F::zero(), F::zero());
    let calc = FnVel(Box::new(move |s: &Swarm<F>, q: &Particle<F>| {
        let carried = probe.calc_new_velocity(s, q);
        let mut v0 = fresh(&ck, 100.0);
        if odd {
            for (i, x) in v0.iter_mut().enumerate() {
                let h = mix(salt ^ ck.get() << 20 ^ i as u64 ^ 0x0dd);
                if h % 4 == 0 {
                    stat::hit("probe.odd_velocity");
                    *x = [F::of(nan_of(h)), F::infinity(), F::neg_infinity(), F::max_value(), F::min_value(), F::min_positive_value(), -F::zero(), F::of(1e30)][(h >> 8) as usize % 8];
                }
            }
        }
        let mut b = mk.borrow_mut();
        b.initial(&cc);
        if b.agents0.is_none() {
            b.agents0 = Some(s.get_agents().iter().map(|a| (xb(a.get_parameter()), fbits(a.get_goal()))).collect());
        }
        if s.get_iteration() != b.iter {
            stat::fail("iteration-number", format!("the swarm shows iteration {} during iteration {}", s.get_iteration(), b.iter));
        }
        if s.len() as u64 != n {
            stat::fail("particle-count", format!("{} particles instead of {}", s.len(), n));
        }
        b.steps.push(Step { before: P { x: xb(q.get_parameter()), v: xb(&carried), val: fbits(q.get_goal()) }, v0: v0.clone(), x: q.get_parameter().clone() });
        v0
    }));
    // an iteration is over when its number was counted up, at the latest at the next stop check
    let end = {
        let (m, ctx) = (m.clone(), ctx.clone());
        Rc::new(move |who: &str, iter: usize| {
            let mut b = m.borrow_mut();
            b.initial(&ctx);
            if b.parts.is_none() {
                return;
            }
            if iter == b.iter + 1 {
                b.verify(&ctx);
                b.iter += 1;
            }
            if iter != b.iter {
                stat::fail("iteration-number", format!("{} sees iteration {} after {} iterations", who, iter, b.iter));
            }
        })
    };
    let (t2, e2) = (target.clone(), end.clone());
    let stop = FnStop(Box::new(move |s: &dyn AlgorithmState<Vec<F>>| {
        e2("the stop checker", s.get_iteration());
        s.get_iteration() >= t2.get()
    }));
    let mut pso = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(stop), Box::new(coords), Box::new(vels), Box::new(calc));
    pso.set_post_velocity_calc(boxed_pvc(&m, salt, npvc, 0));
    pso.set_post_moves(boxed_pm(&m, salt, odd, npm, 0));
    let nlog = p.get("loggers", 1, 0, 3);
    pso.set_loggers(
        (0..nlog)
            .map(|_| {
                let e = end.clone();
                Box::new(FnLogger(Box::new(move |_: Lg, s: &dyn AlgorithmState<Vec<F>>| e("a logger", s.get_iteration())))) as Box<dyn Logger<Vec<F>>>
            })
            .collect(),
    );
    let mut started = false;
    for o in &p.ops {
        let t = o.argc(0, 0, 1500) as usize;
        match o.k.as_str() {
            "run" => {
                if started {
                    stat::hit("probe.rerun");
                }
                started = true;
                {
                    let mut b = m.borrow_mut();
                    b.clear();
                    b.parts = None;
                    b.iter = 0;
                    b.inits = 0;
                }
                target.set(t);
                pso.find_min();
                if m.borrow().inits != 1 {
                    stat::fail("initialized-twice", "initial positions were asked for more than once in a run");
                }
            }
            "more" if started => {
                stat::hit("probe.paused");
                let it = m.borrow().iter;
                target.set(it + t);
                pso.next_iterations();
            }
            "rep" if started => {
                let w = o.argc(0, 0, 7);
                stat::hit("probe.replaced");
                if w & 1 != 0 {
                    let (k, ver) = {
                        let mut b = m.borrow_mut();
                        b.ver[0] += 1;
                        b.npvc = (mix(salt ^ b.ver[0]) % 4) as usize;
                        b.clear();
                        (b.npvc, b.ver[0])
                    };
                    pso.set_post_velocity_calc(boxed_pvc(&m, salt, k, ver));
                }
                if w & 2 != 0 {
                    let (k, ver) = {
                        let mut b = m.borrow_mut();
                        b.ver[1] += 1;
                        b.npm = ((mix(salt ^ 5 ^ b.ver[1]) % 4) as usize).max(odd as usize);
                        b.clear();
                        (b.npm, b.ver[1])
                    };
                    pso.set_post_moves(boxed_pm(&m, salt, odd, k, ver));
                }
            }
            _ => {}
        }
        if stat::failed() {
            break;
        }
    }
    Ok(())
}
