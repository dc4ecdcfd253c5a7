//! C26: only the order of goal values matters; units never do.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::Plan;
use crate::prng::Rng;
use crate::stat::{self, bad, Res, Violation};
use crate::with_float;
use optlib::tools::stopchecker::StopChecker;
use optlib::Goal;
use std::cell::Cell;
use std::rc::Rc;

pub struct C26;

impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn runs(&self) -> (u64, u64) {
        (120_000, 1_500_000)
    }
    fn rule(&self) -> &'static str {
        "each session is executed twice on the same random stream: with its goal function, and with the same goal function behind a strictly increasing exact change of its values (shifts and jumps of the floating-point order, so that ties, order and nothing else survive), or, for swarms, in a space scaled by a power of two; points, stop checks, agents shown to components and results must correspond exactly; non-trivial: at least one iteration under a real change"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.order", "probe.scale", "probe.scale_compared", "probe.single_precision", "probe.far_units", "probe.genetic", "probe.swarm", "probe.sign_changed", "probe.below_epsilon", "probe.shrunk", "probe.grown", "probe.iterations", "probe.pvc_abs", "probe.pvc_dims", "probe.teleport", "probe.boundary", "probe.negative_reinforcement", "probe.canonical", "probe.linear_inertia", "probe.tournament", "fault.goal_nan", "fault.goal_pos_inf", "fault.goal_neg_inf", "fault.goal_panic", "fault.component_panic"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers and all their components", "goal function, stop decision, recording loggers")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let scale = r.chance(1, 3);
        let mut p = Plan::new("C26", if scale { "scale" } else { "order" }, 0);
        gen_cfg(r, &mut p, if scale { 1 } else { -1 }, deep);
        if scale {
            let band = r.below(6);
            let k = match band {
                0 => r.range(-30, 30),
                1 => r.range(46, 380) * if r.chance(1, 2) { 1 } else { -1 },
                2 => -r.range(381, 480),
                _ => r.range(-40, 40),
            };
            p.set("f32", (band == 0) as i64);
            p.set("ivl", if band < 3 { *r.pick(&[0, 1, 5]) } else { *r.pick(&[0, 1, 2, 5, 7, 8]) });
            if band < 3 {
                p.set("vmax", *r.pick(&[10, 1000, 30_000, 1_000_000]));
            }
            p.set("k", if k == 0 { 29 } else { k });
        } else {
            if r.chance(1, 4) {
                p.set("wild", r.range(1, 30));
            }
            // shift and jumps: op jump PIVOT(bits) SIZE
            let size = |r: &mut Rng| -> i64 {
                let bits = r.range(0, 54);
                r.range(0, 1i64 << bits)
            };
            p.set("shift", if r.chance(1, 2) { size(r) } else { -size(r) });
            for _ in 0..r.below(4) {
                let pivot = *r.pick(&[0.0f64, 1.0, -1.0, 10.0, -0.5, 1000.0, 1e-6, -100.0, 3.0, -2.0]);
                let s = size(r);
                p.op("jump", &[ord(pivot) + r.range(-1, 1), s]);
            }
        }
        let total = gen_session(r, &mut p, false);
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4]);
        gen_windows(r, &mut p, evals * 3);
        if r.chance(1, 6) {
            let a = [r.range(0, evals * 4)];
            p.op("tp", &a);
        }
        p.set("loggers", 1);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        if p.scenario == "scale" {
            with_float!(p, scale(p))
        } else {
            with_float!(p, order(p))
        }
    }
}

/// the position of a number among all numbers
fn ord(v: f64) -> i64 {
    let b = v.to_bits() as i64;
    if b < 0 {
        i64::MIN - b
    } else {
        b
    }
}
fn of_ord(o: i64) -> f64 {
    f64::from_bits(if o < 0 { (i64::MIN - o) as u64 } else { o as u64 })
}

/// A strictly increasing change of goal values.
#[derive(Clone, Default)]
struct Change {
    shift: i64,
    jumps: Vec<(i64, i64)>,
}
impl Change {
    fn of(p: &Plan) -> Change {
        let lim = 1i64 << 54;
        Change { shift: p.get("shift", 0, -lim, lim), jumps: p.ops_of("jump").take(3).map(|o| (o.arg(0), o.argc(1, 0, lim))).collect() }
    }
    fn on(&self, v: f64) -> f64 {
        if !v.is_finite() {
            return v;
        }
        let o = ord(v);
        of_ord(o + self.shift + self.jumps.iter().map(|(p, s)| if o >= *p { *s } else { 0 }).sum::<i64>())
    }
}

/// The changed goal function; numbers too large to be changed are infinite.
struct Changed {
    inner: SimGoal,
    change: Change,
}
impl<F: Fl> Goal<Vec<F>> for Changed {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        let v = self.inner.get(x);
        if v.abs() > 1e300 {
            return v * f64::INFINITY;
        }
        let w = self.change.on(v);
        if (w < 0.0) != (v < 0.0) {
            stat::hit("probe.sign_changed");
        }
        w
    }
}

fn stop_of<F: Fl>(rig: &Rc<Rig>) -> Box<dyn StopChecker<Vec<F>>> {
    Box::new(TapStop { inner: Box::new(AtTarget { rig: rig.clone() }), rig: rig.clone() })
}

fn play<F: Fl>(s: &mut Session<F>, p: &Plan) -> Result<Vec<Ev>, Violation> {
    let l = Box::new(RecLogger { rig: s.rig.clone(), l: 0 });
    s.opt.set_loggers(vec![l]);
    s.rig.rec_agents.set(true);
    for o in &p.ops {
        if s.step(o)? && o.k != "rep" {
            stat::add("probe.iterations", s.iter as u64);
            if s.iter > 0 {
                stat::nontrivial();
            }
        }
    }
    Ok(s.rig.take())
}

fn features(c: &Cfg) {
    if c.pso {
        stat::hit("probe.swarm");
        if c.pvc & 1 == 1 {
            stat::hit("probe.pvc_abs");
        }
        if c.pvc >= 2 {
            stat::hit("probe.pvc_dims");
        }
        if c.pm >= 1 {
            stat::hit("probe.boundary");
        }
        if c.pm >= 2 && c.tele > 0.0 {
            stat::hit("probe.teleport");
        }
        match c.calc {
            1 => stat::hit("probe.canonical"),
            3 => stat::hit("probe.linear_inertia"),
            4 => stat::hit("probe.negative_reinforcement"),
            _ => {}
        }
    } else {
        stat::hit("probe.genetic");
        if c.pairing == 1 {
            stat::hit("probe.tournament");
        }
    }
}

// ------------------------------------------------------------------ order

fn order<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    stat::hit("probe.order");
    let change = Change::of(p);
    let mut evs = vec![];
    for c in [Change::default(), change.clone()] {
        simseam::with(|s| s.reseed(p.seed));
        let mut s: Session<F> = Session::new(p);
        features(&s.cfg);
        s.opt = s.cfg.build_with::<F>(&s.rig, stop_of(&s.rig), Box::new(Changed { inner: SimGoal { rig: s.rig.clone() }, change: c }));
        evs.push(play(&mut s, p)?);
    }
    // what the changed run ought to show
    let t = |v: u64| {
        let v = fval(v);
        let w = fval(fbits(change.on(v)));
        if v.is_finite() && (w - v).abs() < 1e-9 && w != v {
            stat::hit("probe.below_epsilon");
        }
        // either zero may stand for zero
        fbits(if w == 0.0 { 0.0 } else { w })
    };
    let id = |v: u64| if fval(v) == 0.0 { 0 } else { v };
    let b: Vec<Ev> = evs[1].iter().map(|e| values(e, &id)).collect();
    let a: Vec<Ev> = evs[0].iter().map(|e| values(e, &t)).collect();
    compare(&a, &b, "the goal function behind a strictly increasing change", usize::MAX)
}

/// the event with its reported goal values mapped
fn values(e: &Ev, f: &dyn Fn(u64) -> u64) -> Ev {
    let best = |b: &Option<(X, u64)>| b.as_ref().map(|(x, v)| (x.clone(), f(*v)));
    let st = |s: &St| St { iter: s.iter, best: best(&s.best) };
    match e {
        Ev::End(b) => Ev::End(best(b)),
        Ev::Log { l, what, st: s } => Ev::Log { l: *l, what: *what, st: st(s) },
        Ev::Stop { st: s, ans } => Ev::Stop { st: st(s), ans: *ans },
        Ev::Agents(a) => Ev::Agents(a.iter().map(|(x, v)| (x.clone(), f(*v))).collect()),
        // recorded inside the change
        e => e.clone(),
    }
}

fn compare(a: &[Ev], b: &[Ev], what: &str, upto: usize) -> Res {
    for i in 0..a.len().max(b.len()).min(upto) {
        if a.get(i) != b.get(i) {
            return bad("differs", format!("{}: event {} ought to be {:?}, is {:?}", what, i, a.get(i), b.get(i)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ scale

/// Evaluates the goal function in the original units.
struct Scaled<F> {
    inner: SimGoal,
    by: F,
    /// the range (in original units) in which scaling is exact
    range: (f64, f64),
    /// a coordinate left it
    wild: Rc<Cell<bool>>,
}
impl<F: Fl> Goal<Vec<F>> for Scaled<F> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        let y: Vec<F> = x.iter().map(|c| *c / self.by).collect();
        if y.iter().any(|c| !(*c == F::zero() || c.d().abs() > self.range.0 && c.d().abs() < self.range.1)) {
            self.wild.set(true);
        }
        self.inner.get(&y)
    }
}

fn scale<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    stat::hit("probe.scale");
    let single = std::mem::size_of::<F>() == 4;
    let k = if single { p.get("k", 1, -30, 30) } else { p.get("k", 1, -480, 380) } as i32;
    stat::hit(if k < 0 { "probe.shrunk" } else { "probe.grown" });
    if single {
        stat::hit("probe.single_precision");
    }
    if k.abs() > 45 {
        stat::hit("probe.far_units");
    }
    // squares of velocities and their products with the limits must stay normal numbers
    let range = match () {
        _ if single => (1e-6, 1e6),
        _ if k.abs() <= 45 => (1e-60, 1e60),
        _ if k >= -380 => (1e-30, 1e30),
        _ => (1e-3, 1e3),
    };
    let by = F::of(2f64.powi(k));
    let mut evs = vec![];
    let wild = Rc::new(Cell::new(false));
    for by in [F::of(1.0), by] {
        simseam::with(|s| s.reseed(p.seed));
        let mut s: Session<F> = Session::new(p);
        s.cfg.scale = by.d();
        if single || k.abs() > 45 {
            s.cfg.vmax = s.cfg.vmax.clamp(1e-3, 1e3);
        }
        features(&s.cfg);
        s.opt = s.cfg.build_with::<F>(&s.rig, stop_of(&s.rig), Box::new(Scaled { inner: SimGoal { rig: s.rig.clone() }, by, range, wild: wild.clone() }));
        evs.push(play(&mut s, p)?);
    }
    if wild.get() {
        stat::hit("probe.scale_left_exact_range");
        return Ok(());
    }
    stat::hit("probe.scale_compared");
    let a: Vec<Ev> = evs[0].iter().map(|e| points(e, by)).collect();
    let b: Vec<Ev> = evs[1].iter().map(|e| points(e, F::of(1.0))).collect();
    compare(&a, &b, &format!("the space scaled by 2^{}", k), usize::MAX)
}

/// the event with its points scaled
fn points<F: Fl>(e: &Ev, by: F) -> Ev {
    let sc = |x: &X| -> X { x.iter().map(|b| (F::of_bits(*b) * by + F::zero()).b()).collect() };
    let best = |b: &Option<(X, u64)>| b.as_ref().map(|(x, v)| (sc(x), *v));
    let st = |s: &St| St { iter: s.iter, best: best(&s.best) };
    match e {
        Ev::End(b) => Ev::End(best(b)),
        Ev::Log { l, what, st: s } => Ev::Log { l: *l, what: *what, st: st(s) },
        Ev::Stop { st: s, ans } => Ev::Stop { st: st(s), ans: *ans },
        Ev::Agents(a) => Ev::Agents(a.iter().map(|(x, v)| (sc(x), *v)).collect()),
        e => e.clone(),
    }
}
