//! C08: velocity rules compute their documented equations.
use crate::exec::{guard, Injected, Prop};
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use crate::with_float;
use optlib::particleswarm::initializing::{RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer};
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::{CoordinatesInitializer, Particle, ParticleSwarmOptimizer, PostVelocityCalc, Swarm, VelocityCalculator, VelocityInitializer};
use optlib::{Agent, AgentsState, AlgorithmState, IterativeOptimizer, Optimizer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct C08;

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn runs(&self) -> (u64, u64) {
        (120_000, 1_500_000)
    }
    fn rule(&self) -> &'static str {
        "runs, pauses and re-runs of swarms with each velocity rule: `exact` holds the random stream constant during the rule and compares with the documented equation on the recorded history, `stat` leaves it free and examines the recovered coefficients, `inertia` asks the coefficients at arbitrary iterations; non-trivial: a velocity with at least two different reference points was compared, or enough coefficients were recovered"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.exact_checked", "probe.envelope_checked", "probe.recovered", "probe.pairs", "probe.classic", "probe.canonical", "probe.const_inertia", "probe.linear_inertia", "probe.negative", "probe.after_tmax", "probe.nan_history", "probe.ties_skipped", "probe.limited", "probe.rerun", "probe.paused", "probe.resumed_after_abort", "probe.stat_uniform", "probe.stat_pairs", "probe.stat_dims", "probe.stat_many_dims", "probe.clone"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("all velocity rules and inertia coefficients, ParticleSwarmOptimizer, Swarm, Particle, velocity limiters, initializers", "goal (scripted)")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let k = r.below(20);
        let mut p = Plan::new("C08", if k == 0 || k == 2 && r.chance(1, 2) { "stat" } else if k == 1 { "inertia" } else { "exact" }, 0);
        p.set("f32", r.range(0, 1));
        p.set("salt", r.range(0, 1 << 40));
        p.set("rule", r.range(0, 4));
        for k in ["phi0", "phi1", "phi2", "phi3", "phi4", "phi5"] {
            p.set(k, if r.chance(1, 6) { 0 } else { r.range(1, 3000) });
        }
        p.set("xi", r.range(50, 990));
        p.set("near", r.range(0, 1));
        p.set("wmin", r.range(0, 900));
        p.set("wspan", r.range(0, 600));
        p.set("tmax", if r.chance(1, 10) { 0 } else { r.size(1, 40) });
        p.set("pvc", r.range(0, 3));
        p.set("pm", r.range(0, 3));
        p.set("ivl", *r.pick(&[0, 1, 5, 8]));
        p.set("vinit", r.range(0, 1));
        if p.scenario == "inertia" {
            p.set("dim", 1);
            p.set("pop", 1);
            if r.chance(1, 4) {
                let e = r.range(6, 40);
                p.set("tmax", r.range(41, 1 << e));
            }
            for _ in 0..r.range(1, 30) {
                let t = match r.below(6) {
                    0 => 0,
                    1 => p.p["tmax"] + r.range(-1, 2),
                    2 => r.range(0, 1 << 20),
                    3 => r.range(0, i64::MAX - 1),
                    _ => r.range(0, 2 * p.p["tmax"] + 3),
                };
                p.op("at", &[t.max(0)]);
            }
            return p;
        }
        let stat = p.scenario == "stat";
        if stat {
            // the rule with most coefficients gets most of the runs
            if r.chance(1, 2) {
                p.set("rule", 4);
            }
            // few reference points at work, so that coefficients can be recovered
            let keep = if r.chance(1, 3) { 1 } else { 2 };
            let mut idx: Vec<usize> = if p.p["rule"] == 4 { (0..6).collect() } else { vec![0, 1] };
            while idx.len() > keep {
                let i = r.below(idx.len() as u64) as usize;
                idx.swap_remove(i);
            }
            for (i, k) in ["phi0", "phi1", "phi2", "phi3", "phi4", "phi5"].iter().enumerate() {
                p.set(k, if idx.contains(&i) { r.range(900, 1600) } else { 0 });
            }
            p.set("xi", r.range(300, 800));
            p.set("goal", 5);
            p.set("dim", if r.chance(1, 4) { r.range(11, 40) } else { r.range(4, 10) });
            p.set("pop", r.range(6, if deep { 30 } else { 14 }));
            p.set("tmax", r.range(20, 60));
            p.op("run", &[r.range(70, if deep { 400 } else { 130 })]);
            return p;
        }
        p.set("goal", r.range(0, GOAL_KINDS));
        p.set("dim", r.size(1, 6));
        p.set("pop", r.size(1, 10));
        if r.chance(1, 40) {
            p.set("dim", r.range(7, 70));
            p.set("pop", r.size(1, 4));
        }
        let mut any = false;
        for _ in 0..r.range(1, 4) {
            let t = if r.chance(1, 20) { r.range(20, 70) } else { r.size(0, 9) };
            if any && r.chance(2, 3) {
                p.op("more", &[t]);
            } else {
                p.op("run", &[t]);
            }
            any = true;
            if r.chance(1, 8) {
                // one of the next evaluations ends the run
                let k = r.range(1, p.p["pop"] * 4);
                p.op("bad", &[k]);
            }
        }
        lengthen(r, &mut p, 200, &[("pop", 3), ("dim", 2)]);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        if p.scenario == "inertia" {
            with_float!(p, inertia(p))
        } else {
            with_float!(p, go(p))
        }
    }
}

struct Coef {
    rule: i64,
    phi: [f64; 6],
    /// overall factor
    xi: f64,
    /// inertia
    wmin: f64,
    wmax: f64,
    tmax: usize,
}

impl Coef {
    fn of<F: Fl>(p: &Plan) -> Coef {
        let rule = p.get("rule", 0, 0, 4);
        let f = |k: &str, d: i64, lo: i64, hi: i64| F::of(p.get(k, d, lo, hi) as f64 / 1000.0).d();
        let mut phi = [0.0; 6];
        for (i, k) in ["phi0", "phi1", "phi2", "phi3", "phi4", "phi5"].iter().enumerate() {
            phi[i] = f(k, 1000, 0, 4000);
        }
        if rule == 1 {
            // must add up to more than 4
            for i in 0..2 {
                if phi[i] > 0.0 {
                    phi[i] = F::of(phi[i] + 4.5).d();
                }
            }
            if phi[0] + phi[1] < 4.5 {
                phi[0] = 5.0;
            }
            // just above 4
            if p.get("near", 0, 0, 1) == 1 {
                phi[1] = F::of(phi[1].min(3.5)).d();
                phi[0] = F::of(4.02 + p.get("phi0", 1000, 0, 4000) as f64 / 10_000.0 - phi[1]).d();
            }
        }
        let wmin = f("wmin", 400, 0, 2000);
        Coef { rule, phi, xi: f("xi", 500, 1, 999), wmin, wmax: F::of(wmin + f("wspan", 500, 0, 2000)).d(), tmax: p.get("tmax", 10, 0, 1 << 40) as usize }
    }
    fn build<F: Fl>(&self) -> Box<dyn VelocityCalculator<F>> {
        let (o, q) = (F::of, self.phi);
        match self.rule {
            0 => Box::new(ClassicVelocityCalculator::new(o(q[0]), o(q[1]))),
            1 => Box::new(CanonicalVelocityCalculator::new(o(q[0]), o(q[1]), o(self.xi))),
            2 => Box::new(InertiaVelocityCalculator::new(o(q[0]), o(q[1]), Box::new(ConstInertia::new(o(self.xi))))),
            3 => Box::new(InertiaVelocityCalculator::new(o(q[0]), o(q[1]), Box::new(LinearInertia::new(o(self.wmin), o(self.wmax), self.tmax)))),
            _ => Box::new(NegativeReinforcement::new(o(q[0]), o(q[1]), o(q[2]), o(q[3]), o(q[4]), o(q[5]), o(self.xi))),
        }
    }
    /// factor of the previous velocity and of everything, at iteration t
    fn factors(&self, t: usize) -> (f64, f64) {
        match self.rule {
            0 => (1.0, 1.0),
            1 => (1.0, 2.0 * self.xi / (self.phi[0] + self.phi[1] - 2.0)),
            2 => (self.xi, 1.0),
            3 => (self.linear(t), 1.0),
            _ => (1.0, self.xi),
        }
    }
    fn linear(&self, t: usize) -> f64 {
        if t >= self.tmax {
            self.wmin
        } else {
            self.wmax - (self.wmax - self.wmin) * t as f64 / self.tmax as f64
        }
    }
}

fn inertia<F: Fl>(p: &Plan) -> Res {
    let c = Coef::of::<F>(p);
    let mut lin = LinearInertia::new(F::of(c.wmin), F::of(c.wmax), c.tmax);
    let mut con = ConstInertia::new(F::of(c.xi));
    for o in p.ops_of("at") {
        let t = o.argc(0, 0, i64::MAX) as usize;
        let w = lin.get(t).d();
        stat::mark(fbits(w));
        if t > c.tmax {
            stat::hit("probe.after_tmax");
        }
        if con.get(t).d() != c.xi {
            stat::fail("const-inertia", format!("constant coefficient {} at iteration {}: {}", c.xi, t, con.get(t)));
        }
        // at t = tmax = 0 both ends are meant
        if c.tmax == 0 && t == 0 && w == c.wmax {
            continue;
        }
        let want = c.linear(t);
        if !((w - want).abs() <= 1e-5 * (c.wmax.abs() + c.wmin.abs()) + 1e-12) {
            stat::fail("linear-inertia", format!("from {} to {} within {} iterations: {} at iteration {}, documented {}", c.wmax, c.wmin, c.tmax, w, t, want));
        }
        stat::nontrivial();
    }
    Ok(())
}

type Pos<F> = (Vec<F>, f64);

fn rank(v: f64) -> f64 {
    if v.is_finite() {
        v
    } else {
        f64::INFINITY
    }
}

/// positions that may count as the best (worst) of a history, ties included
fn extreme<F: Fl>(h: &[Pos<F>], worst: bool) -> Vec<Vec<F>> {
    let e = h.iter().map(|p| rank(p.1)).fold(if worst { f64::NEG_INFINITY } else { f64::INFINITY }, |a, b| if worst { a.max(b) } else { a.min(b) });
    let mut out: Vec<Vec<F>> = vec![];
    for (x, v) in h {
        if rank(*v) == e && !out.iter().any(|o| o.x() == x.x()) {
            out.push(x.clone());
            if out.len() > 4 {
                break;
            }
        }
    }
    out
}

/// The positions that may count as the best (worst) so far, kept up to date.
#[derive(Clone)]
struct Ext<F> {
    worst: bool,
    e: f64,
    at: Vec<Vec<F>>,
}
impl<F: Fl> Ext<F> {
    fn new(worst: bool) -> Ext<F> {
        Ext { worst, e: if worst { f64::NEG_INFINITY } else { f64::INFINITY }, at: vec![] }
    }
    fn add(&mut self, x: &Vec<F>, v: f64) {
        let v = rank(v);
        let first = self.at.is_empty();
        if first || (self.worst && v > self.e) || (!self.worst && v < self.e) {
            self.e = v;
            self.at = vec![x.clone()];
        } else if v == self.e && self.at.len() <= 4 && !self.at.iter().any(|o| o.x() == x.x()) {
            self.at.push(x.clone());
        }
    }
    fn join(&mut self, o: &Ext<F>) {
        for x in &o.at {
            self.add(x, o.e);
        }
    }
}

struct Model<F> {
    c: Coef,
    exact: bool,
    salt: u64,
    /// positions of every particle after each completed iteration of the run
    hist: Vec<Vec<Pos<F>>>,
    /// best and worst of every particle's history, and of all
    ext: Vec<[Ext<F>; 2]>,
    all: [Ext<F>; 2],
    big: bool,
    odd: Vec<bool>,
    vel: Vec<Vec<F>>,
    new_vel: Vec<Option<Vec<F>>>,
    iter: Option<usize>,
    /// the last iteration was aborted and is done anew
    again: bool,
    lost: bool,
    calls: u64,
    limiters: Vec<Box<dyn PostVelocityCalc<F>>>,
    // what was recovered, dimension by dimension
    got: Vec<Got>,
    both: u64,
    n_both: u64,
    last_r: Option<f64>,
}

#[derive(Clone, Copy, Default)]
struct Got {
    below: [u64; 9],
    n_rec: u64,
    dims: u64,
    n_dims: u64,
    pair_sum: f64,
    pair_signed: f64,
    n_pair: u64,
}
impl Got {
    fn add(&mut self, o: &Got) {
        for j in 0..9 {
            self.below[j] += o.below[j];
        }
        self.n_rec += o.n_rec;
        self.dims += o.dims;
        self.n_dims += o.n_dims;
        self.pair_sum += o.pair_sum;
        self.pair_signed += o.pair_signed;
        self.n_pair += o.n_pair;
    }
}

impl<F: Fl> Model<F> {
    fn call(&mut self, rule: &mut dyn VelocityCalculator<F>, s: &Swarm<F>, q: &Particle<F>) -> Vec<F> {
        let agents: Vec<Pos<F>> = s.get_agents().iter().map(|a| (a.get_parameter().clone(), a.get_goal())).collect();
        let t = s.get_iteration();
        if self.iter != Some(t) || self.again {
            self.again = false;
            // first call of an iteration: everybody's new position is final
            self.iter = Some(t);
            if self.hist.len() != agents.len() {
                self.hist = vec![vec![]; agents.len()];
            }
            if self.hist.iter().all(|h| h.is_empty()) {
                self.ext = vec![[Ext::new(false), Ext::new(true)]; agents.len()];
                self.all = [Ext::new(false), Ext::new(true)];
                self.big = false;
                self.odd = vec![false; agents.len()];
            }
            for (i, a) in agents.iter().enumerate() {
                self.hist[i].push(a.clone());
                self.big |= a.0.iter().any(|v| !(v.d().abs() < 1e30));
                self.odd[i] |= !a.1.is_finite();
                for k in 0..2 {
                    self.ext[i][k].add(&a.0, a.1);
                }
            }
            for k in 0..2 {
                let mut e = Ext::new(k == 1);
                self.ext.iter().for_each(|x| e.join(&x[k]));
                self.all[k] = e;
            }
            for i in 0..agents.len() {
                if let Some(v) = self.new_vel.get_mut(i).and_then(|v| v.take()) {
                    self.vel[i] = v;
                }
            }
            self.new_vel = vec![None; agents.len()];
        }
        // which particle is it?
        let me = (q.get_parameter().x(), fbits(q.get_goal()));
        let cand: Vec<usize> = (0..agents.len()).filter(|i| self.new_vel[*i].is_none() && (agents[*i].0.x(), fbits(agents[*i].1)) == me).collect();
        let order = self.new_vel.iter().filter(|v| v.is_some()).count();
        let i = if cand.contains(&order) {
            order
        } else if cand.len() == 1 {
            cand[0]
        } else {
            self.lost = true;
            0
        };
        self.calls += 1;
        let c32 = match mix(self.salt ^ self.calls) % 5 {
            0 => 0u64,
            1 => 0xFFFF_0000,
            2 => 0x8000_0000,
            _ => mix(self.salt ^ self.calls << 20) >> 32 & 0xFFFF_FF00,
        };
        let before = simseam::with(|s| {
            if self.exact {
                s.forced = c32 << 32 | c32;
                s.forced_left = u64::MAX;
            }
            s.draws
        });
        // a clone serves the rule like the particle itself
        let clone = mix(self.salt ^ self.calls << 8) % 3 == 0;
        let v = if clone {
            stat::hit("probe.clone");
            rule.calc_new_velocity(s, &q.clone())
        } else {
            rule.calc_new_velocity(s, q)
        };
        let after = simseam::with(|s| {
            s.forced_left = 0;
            s.draws
        });
        for x in &v {
            stat::mark(x.b());
        }
        let mut kept = v.clone();
        for l in &mut self.limiters {
            kept = l.correct_velocity(kept);
        }
        if self.lost {
            return v;
        }
        self.new_vel[i] = Some(kept);
        if v.len() != q.get_parameter().len() {
            stat::fail("dimension", format!("{} velocity components for {} coordinates", v.len(), q.get_parameter().len()));
            return v;
        }
        let r = if self.exact && after > before { Some(c32 as f64 / 4294967296.0) } else { None };
        self.judge(i, t, &agents, &v, r);
        v
    }

    fn judge(&mut self, i: usize, t: usize, agents: &[Pos<F>], v: &[F], r: Option<f64>) {
        let x = self.hist[i].last().unwrap().0.clone();
        let prev = self.vel[i].clone();
        if self.c.rule == 3 && t == 0 && self.c.tmax == 0 {
            return;
        }
        let big = |v: &[F]| v.iter().any(|a| !(a.d().abs() < 1e30));
        if big(&prev) || self.big {
            return;
        }
        if self.odd[i] {
            stat::hit("probe.nan_history");
        }
        // reference points: order of phi
        let refs: Vec<Vec<Vec<F>>> = if self.c.rule == 4 {
            vec![self.ext[i][0].at.clone(), extreme(agents, false), self.all[0].at.clone(), self.ext[i][1].at.clone(), extreme(agents, true), self.all[1].at.clone()]
        } else {
            vec![self.ext[i][0].at.clone(), self.all[0].at.clone()]
        };
        let used: Vec<usize> = (0..refs.len()).filter(|k| self.c.phi[*k] != 0.0).collect();
        let combos: usize = used.iter().map(|k| refs[*k].len()).product();
        if used.iter().any(|k| refs[*k].len() > 4) || combos > 64 {
            stat::hit("probe.ties_skipped");
            return;
        }
        if combos > 1 && !self.exact {
            return;
        }
        stat::hit(["probe.classic", "probe.canonical", "probe.const_inertia", "probe.linear_inertia", "probe.negative"][self.c.rule as usize]);
        if self.c.rule == 3 && t > self.c.tmax {
            stat::hit("probe.after_tmax");
        }
        let (w, f) = self.c.factors(t);
        let mut why = String::new();
        let mut ok = false;
        for combo in 0..combos {
            let mut n = combo;
            let at: Vec<(usize, &Vec<F>)> = used
                .iter()
                .map(|k| {
                    let j = n % refs[*k].len();
                    n /= refs[*k].len();
                    (*k, &refs[*k][j])
                })
                .collect();
            let mut good = true;
            for d in 0..x.len() {
                let term = |(k, p): &(usize, &Vec<F>)| {
                    let sign = if *k >= 3 { -1.0 } else { 1.0 };
                    sign * self.c.phi[*k] * (p[d].d() - x[d].d())
                };
                let terms: Vec<f64> = at.iter().map(term).collect();
                let scale = (w * prev[d].d()).abs() + terms.iter().map(|t| t.abs()).sum::<f64>();
                let tol = f.abs() * scale * 4e-6 + 1e-30;
                let (lo, hi) = match r {
                    Some(r) => {
                        let e = f * (w * prev[d].d() + r * terms.iter().sum::<f64>());
                        (e, e)
                    }
                    None => {
                        let b = f * w * prev[d].d();
                        (b + f * terms.iter().map(|t| t.min(0.0)).sum::<f64>(), b + f * terms.iter().map(|t| t.max(0.0)).sum::<f64>())
                    }
                };
                let got = v[d].d();
                if !(got >= lo - tol && got <= hi + tol) {
                    good = false;
                    why = format!(
                        "rule {} phi {:?} factors {:?} iteration {} particle {} dimension {}: velocity {:e}, documented {:e}..{:e} (r = {:?}, previous velocity {:e}, position {:e}, reference points {:?})",
                        self.c.rule,
                        self.c.phi,
                        (w, f),
                        t,
                        i,
                        d,
                        got,
                        lo,
                        hi,
                        r,
                        prev[d].d(),
                        x[d].d(),
                        at.iter().map(|(k, p)| (*k, p[d].d())).collect::<Vec<_>>()
                    );
                    break;
                }
            }
            if good {
                ok = true;
                break;
            }
        }
        if !ok {
            return stat::fail("equation", why);
        }
        if r.is_some() {
            stat::hit("probe.exact_checked");
            if x.len() > 0 && used.iter().any(|k| refs[*k][0].x() != x.x()) && self.hist[i].len() > 1 {
                stat::nontrivial();
            }
        } else {
            stat::hit("probe.envelope_checked");
            self.recover(&refs, &used, &x, &prev, v, w, f);
        }
    }

    /// free stream: which coefficients were drawn?
    fn recover(&mut self, refs: &[Vec<Vec<F>>], used: &[usize], x: &[F], prev: &[F], v: &[F], w: f64, f: f64) {
        let mut last_dim: Option<f64> = None;
        let mut first: Option<f64> = None;
        if self.got.len() < x.len() {
            self.got.resize(x.len(), Got::default());
        }
        for d in 0..x.len() {
            let g = &mut self.got[d];
            let terms: Vec<f64> = used
                .iter()
                .map(|k| {
                    let sign = if *k >= 3 { -1.0 } else { 1.0 };
                    sign * self.c.phi[*k] * (refs[*k][0][d].d() - x[d].d())
                })
                .filter(|t| *t != 0.0)
                .collect();
            let scale = (w * prev[d].d()).abs() + terms.iter().map(|t| t.abs()).sum::<f64>();
            let noise = scale * 1e-6;
            let rest = v[d].d() / f - w * prev[d].d();
            let mut this = None;
            if terms.len() == 1 && terms[0].abs() > noise * 1e3 {
                let r = rest / terms[0];
                stat::hit("probe.recovered");
                g.n_rec += 1;
                for (j, b) in g.below.iter_mut().enumerate() {
                    *b += (r < (j + 1) as f64 / 10.0) as u64;
                }
                this = Some(r);
            }
            if terms.len() == 2 && terms.iter().all(|t| t.abs() > noise * 1e3) {
                let q = terms[0].abs() / terms[1].abs();
                if q > 0.5 && q < 2.0 {
                    let y = rest - (terms[0] + terms[1]) / 2.0;
                    let z2 = y * y / ((terms[0] * terms[0] + terms[1] * terms[1]) / 12.0);
                    g.n_pair += 1;
                    g.pair_sum += z2 - 1.0;
                    g.pair_signed += (z2 - 1.0) * (terms[0] * terms[1]).signum();
                    stat::hit("probe.pairs");
                }
            }
            if let (Some(a), Some(b)) = (last_dim, this) {
                g.n_dims += 1;
                g.dims += (a < 0.5 && b < 0.5) as u64;
            }
            if d == 0 {
                first = this;
            }
            last_dim = this;
        }
        if let (Some(a), Some(b)) = (self.last_r, first) {
            self.n_both += 1;
            self.both += (a < 0.5 && b < 0.5) as u64;
        }
        self.last_r = first;
    }

    fn verdict(&self) {
        // from every dimension on
        let mut g = Got::default();
        for (d, o) in self.got.iter().enumerate().rev() {
            g.add(o);
            self.verdict_from(d, &g);
        }
        if g.n_rec >= 1000 {
            stat::hit("probe.stat_uniform");
            stat::nontrivial();
        }
        if g.n_dims >= 1000 {
            stat::hit("probe.stat_dims");
        }
        if surprise(self.both, self.n_both, 0.25) > SURPRISE {
            return stat::fail("calls-dependent", format!("rule {}: coefficients of successive particles both below one half {} of {} times", self.c.rule, self.both, self.n_both));
        }
        if g.n_pair > 2000 {
            stat::hit("probe.stat_pairs");
            stat::nontrivial();
            if self.got.len() > 10 {
                stat::hit("probe.stat_many_dims");
            }
        }
    }

    fn verdict_from(&self, d: usize, g: &Got) {
        for (j, b) in g.below.iter().enumerate() {
            let q = (j + 1) as f64 / 10.0;
            if surprise(*b, g.n_rec, q) > SURPRISE {
                return stat::fail("coefficient-distribution", format!("rule {}: {} of {} recovered coefficients of the dimensions from {} on below {}", self.c.rule, b, g.n_rec, d, q));
            }
        }
        if surprise(g.dims, g.n_dims, 0.25) > SURPRISE {
            return stat::fail("dimensions-dependent", format!("rule {}: coefficients of neighbouring dimensions (from {} on) both below one half {} of {} times", self.c.rule, d, g.dims, g.n_dims));
        }
        // Hoeffding: each summand lies in an interval of width 6
        let n = g.n_pair as f64;
        let bound = 6.0 * (SURPRISE / (2.0 * n)).sqrt();
        if g.n_pair > 0 && (g.pair_sum.abs() / n > bound || g.pair_signed.abs() / n > bound) {
            return stat::fail("coefficients-dependent", format!("rule {}: second moment of the sum of two coefficients in the dimensions from {} on off by {:.3} (signed {:.3}) in {} samples, bound {:.3}", self.c.rule, d, g.pair_sum / n, g.pair_signed / n, g.n_pair, bound));
        }
    }
}

fn go<F: Fl>(p: &Plan) -> Res {
    let salt = p.get("salt", 0, 0, i64::MAX) as u64;
    let kind = p.get("goal", 0, 0, GOAL_KINDS);
    let cfg = Cfg::of(p);
    let c = Coef::of::<F>(p);
    let iv = intervals::<F>(cfg.ivl, cfg.dim);
    let rule = c.build::<F>();
    if cfg.pvc > 0 {
        stat::hit("probe.limited");
    }
    let m = Rc::new(RefCell::new(Model {
        c,
        exact: p.scenario != "stat",
        salt,
        hist: vec![],
        ext: vec![],
        all: [Ext::new(false), Ext::new(true)],
        big: false,
        odd: vec![],
        vel: vec![],
        new_vel: vec![],
        iter: None,
        again: false,
        lost: false,
        calls: 0,
        limiters: cfg.post_velocity::<F>(),
        got: vec![],
        both: 0,
        n_both: 0,
        last_r: None,
    }));
    let mut n = 0u64;
    let fuse = Rc::new(Cell::new(0i64));
    let fuse2 = fuse.clone();
    let goal = FnGoal(Box::new(move |x: &Vec<F>| {
        n += 1;
        fuse2.set(fuse2.get() - 1);
        if fuse2.get() == 0 {
            stat::hit("fault.goal_panic");
            std::panic::panic_any(Injected("goal"));
        }
        base_value(kind, x, n, salt)
    }));
    let mut ci = RandomCoordinatesInitializer::new(iv.clone(), cfg.pop);
    let mi = m.clone();
    let coords = FnCoord(Box::new(move || {
        let mut b = mi.borrow_mut();
        b.hist.clear();
        b.new_vel.clear();
        b.iter = None;
        b.again = false;
        b.last_r = None;
        ci.get_coordinates()
    }));
    let mut vi: Box<dyn VelocityInitializer<F>> = if cfg.vinit == 0 { Box::new(ZeroVelocityInitializer::new(cfg.dim, cfg.pop)) } else { Box::new(RandomVelocityInitializer::new(iv, cfg.pop)) };
    let mi = m.clone();
    let vels = FnCoord(Box::new(move || {
        let v = vi.get_velocity();
        mi.borrow_mut().vel = v.clone();
        v
    }));
    let mc = m.clone();
    let mut rule = rule;
    let calc = FnVel(Box::new(move |s: &Swarm<F>, q: &Particle<F>| mc.borrow_mut().call(&mut *rule, s, q)));
    let target = Rc::new(Cell::new(0usize));
    let t2 = target.clone();
    let now = Rc::new(Cell::new(0usize));
    let now2 = now.clone();
    let stop = FnStop(Box::new(move |s: &dyn AlgorithmState<Vec<F>>| {
        now2.set(s.get_iteration());
        s.get_iteration() >= t2.get()
    }));
    let mut pso = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(stop), Box::new(coords), Box::new(vels), Box::new(calc));
    pso.set_post_velocity_calc(cfg.post_velocity::<F>());
    pso.set_post_moves(cfg.post_move::<F>());
    let mut started = false;
    let mut inside = false;
    let mut aborted = false;
    for o in &p.ops {
        let t = o.argc(0, 0, 1500) as usize;
        let done = match o.k.as_str() {
            "run" => {
                if started {
                    stat::hit("probe.rerun");
                }
                started = true;
                target.set(t);
                now.set(usize::MAX);
                guard(|| pso.find_min())?
            }
            "more" if started && inside => {
                stat::hit(if aborted { "probe.resumed_after_abort" } else { "probe.paused" });
                target.set(now.get() + t);
                guard(|| pso.next_iterations())?
            }
            "bad" => {
                fuse.set(o.argc(0, 1, 1000));
                continue;
            }
            _ => continue,
        };
        aborted = done.is_none();
        // an initialization that was aborted cannot be resumed
        inside = now.get() != usize::MAX;
        if aborted {
            m.borrow_mut().again = true;
        }
    }
    m.borrow().verdict();
    Ok(())
}
