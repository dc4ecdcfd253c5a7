//! C09: velocity limiters cap the velocity and change nothing else.
use crate::exec::Prop;
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use crate::with_float;
use optlib::particleswarm::postvelocitycalc::{MaxVelocityAbs, MaxVelocityDimensions};
use optlib::particleswarm::{ParticleSwarmOptimizer, PostVelocityCalc, VelocityCalculator};
use optlib::tools::logging::Logger;
use optlib::{Agent, AgentsState};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct C09;

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self) -> (u64, u64) {
        (450_000, 5_000_000)
    }
    fn rule(&self) -> &'static str {
        "swarms with the real limiters (alone, chained, replaced at pauses) behind real diverging velocity rules and scripted rules with tiny, huge, edge and non-finite velocities; every limiter call is compared with its definition and, without move corrections, every particle's displacement with the limit; non-trivial: a velocity was cut"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.abs_cut", "probe.abs_kept", "probe.abs_edge", "probe.dims_cut", "probe.dims_kept", "probe.displacements", "probe.real_rule", "probe.replaced", "probe.extreme", "fault.nonfinite_velocity", "probe.rerun", "probe.chained"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("MaxVelocityAbs, MaxVelocityDimensions, ParticleSwarmOptimizer, Swarm, velocity rules", "goal, initializers, scripted velocity rule, stop decision")
    }
    fn gen(&self, r: &mut Rng, _deep: bool) -> Plan {
        let mut p = Plan::new("C09", "limit", 0);
        p.set("f32", r.range(0, 1));
        p.set("dim", if r.chance(1, 50) { r.range(13, 140) } else { r.size(1, 12) });
        p.set("n", r.size(1, 8));
        p.set("salt", r.range(0, 1 << 40));
        p.set("real", r.chance(1, 3) as i64);
        p.set("calc", r.range(0, 4));
        for k in ["phi0", "phi1", "phi2", "phi3", "phi4", "phi5"] {
            p.set(k, r.range(0, 4000));
        }
        p.set("xi", r.range(300, 999));
        p.set("shape", r.range(0, 9));
        p.set("lim", r.range(0, 3));
        p.set("max", *r.pick(&[1, 100, 1000, 7777, 1_000_000, 1_000_000_000]));
        p.set("goal", r.range(0, 8));
        let mut any = false;
        for _ in 0..r.range(1, 4) {
            if any && r.chance(1, 3) {
                let a = [r.range(0, 3), *r.pick(&[0, 1, 500, 20_000])];
                p.op("lim", &a);
            }
            p.op(if any && r.chance(2, 3) { "more" } else { "run" }, &[r.size(1, 12)]);
            any = true;
        }
        lengthen(r, &mut p, 200, &[("n", 2), ("dim", 3)]);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

struct Seen<F> {
    /// maxima in force: modulus, per dimension
    abs: Option<F>,
    dims: Option<Vec<F>>,
    prev: Option<Vec<Vec<F>>>,
    cut: bool,
    /// a velocity in this iteration was beyond what the property covers
    skip: bool,
}

fn eps<F: Fl>(dim: usize) -> f64 {
    F::epsilon().d() * (dim as f64 + 8.0) * 8.0
}

/// Length of a vector if its square is safely representable in F.
fn length<F: Fl>(v: &[F]) -> Option<f64> {
    if v.iter().any(|x| !x.is_finite()) {
        return None;
    }
    let m = v.iter().fold(0.0f64, |a, x| a.max(x.d().abs()));
    if m == 0.0 {
        return Some(0.0);
    }
    let l = m * v.iter().map(|x| (x.d() / m) * (x.d() / m)).sum::<f64>().sqrt();
    let (lo, hi) = (F::min_positive_value().d().sqrt() * 1e6, F::max_value().d().sqrt() * 0.1);
    if l > lo && l < hi {
        Some(l)
    } else {
        None
    }
}

fn show<F: Fl>(v: &[F]) -> String {
    format!("{:?}", v)
}

fn check_abs<F: Fl>(max: F, i: &[F], o: &[F], s: &mut Seen<F>) {
    let dim = i.len();
    let Some(len) = length(i) else {
        s.skip = true;
        return;
    };
    if o.len() != dim {
        return stat::fail("abs-length", format!("{} components became {}", dim, o.len()));
    }
    let (e, m) = (eps::<F>(dim), max.d());
    let out = o.iter().map(|x| x.d() * x.d()).sum::<f64>().sqrt();
    if !(out <= m * (1.0 + e)) {
        return stat::fail("abs-exceeded", format!("velocity {} of length {:e} limited to {:e} came out as {} of length {:e}", show(i), len, m, show(o), out));
    }
    if len <= m * (1.0 - e) {
        stat::hit("probe.abs_kept");
        if i.iter().zip(o).any(|(a, b)| a != b) {
            return stat::fail("abs-changed", format!("velocity {} of length {:e} within the limit {:e} was changed to {}", show(i), len, m, show(o)));
        }
    } else if len > m * (1.0 + e) {
        stat::hit("probe.abs_cut");
        s.cut = true;
        // far from the representable range only the bound is asked for
        let ratio = m / len;
        if ratio < 1e-18 || m < 1e-12 {
            stat::hit("probe.extreme");
            return;
        }
        for (a, b) in i.iter().zip(o) {
            let want = a.d() / len * m;
            if (b.d() - want).abs() > e * want.abs() + 1e-30 * m {
                return stat::fail("abs-direction", format!("velocity {} of length {:e} limited to {:e} came out as {}: {:e} where {:e} keeps the direction", show(i), len, m, show(o), b.d(), want));
            }
        }
    } else {
        stat::hit("probe.abs_edge");
    }
}

fn check_dims<F: Fl>(max: &[F], i: &[F], o: &[F], s: &mut Seen<F>) {
    if length(i).is_none() {
        s.skip = true;
        return;
    }
    if o.len() != i.len() {
        return stat::fail("dims-length", format!("{} components became {}", i.len(), o.len()));
    }
    for k in 0..i.len() {
        let (v, m) = (i[k], max[k]);
        let want = if v.abs() <= m {
            stat::hit("probe.dims_kept");
            v
        } else {
            stat::hit("probe.dims_cut");
            s.cut = true;
            if v > F::zero() {
                m
            } else {
                -m
            }
        };
        if o[k] != want {
            return stat::fail("dims-value", format!("component {} of velocity {} with maxima {} came out as {:?}, not {:?}", k, show(i), show(max), o[k], want));
        }
    }
}

fn limiters<F: Fl>(kind: i64, milli: i64, dim: usize, seen: &Rc<RefCell<Seen<F>>>) -> Vec<Box<dyn PostVelocityCalc<F>>> {
    let m = F::of(milli as f64 / 1000.0);
    let maxima: Vec<F> = (0..dim).map(|d| m * F::of([1.0, 0.5, 3.0, 0.0][(mix(d as u64 ^ milli as u64) % 4) as usize])).collect();
    {
        let mut s = seen.borrow_mut();
        s.abs = if kind != 1 { Some(m) } else { None };
        s.dims = if kind != 0 { Some(maxima.clone()) } else { None };
    }
    let abs = || {
        let (mut real, seen) = (MaxVelocityAbs::new(m), seen.clone());
        Box::new(FnPvc(Box::new(move |v: Vec<F>| {
            let o = real.correct_velocity(v.clone());
            check_abs(m, &v, &o, &mut seen.borrow_mut());
            o
        }))) as Box<dyn PostVelocityCalc<F>>
    };
    let dims = || {
        let (mut real, seen, maxima) = (MaxVelocityDimensions::new(maxima.clone()), seen.clone(), maxima.clone());
        Box::new(FnPvc(Box::new(move |v: Vec<F>| {
            let o = real.correct_velocity(v.clone());
            check_dims(&maxima, &v, &o, &mut seen.borrow_mut());
            o
        }))) as Box<dyn PostVelocityCalc<F>>
    };
    match kind {
        0 => vec![abs()],
        1 => vec![dims()],
        2 => {
            stat::hit("probe.chained");
            vec![dims(), abs()]
        }
        _ => {
            stat::hit("probe.chained");
            vec![abs(), dims()]
        }
    }
}

/// Scripted velocities.
fn scripted<F: Fl>(shape: i64, h: u64, dim: usize, max: f64) -> Vec<F> {
    let unit = |k: u64| (mix(h ^ k.wrapping_mul(0x1234_5677)) >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0;
    let scale = match shape {
        0 => max,
        1 => max * 4.0,
        2 => max * 0.3,
        3 => max * 1e4,
        4 => F::max_value().d().sqrt() * 1e-3,
        5 => F::min_positive_value().d().sqrt() * 1e8,
        6 => max / (dim as f64).sqrt(),
        _ => max * 1.5,
    };
    (0..dim)
        .map(|d| {
            let u = unit(d as u64 + 1);
            let v = match (shape, mix(h ^ d as u64 ^ 0xabc) % 6) {
                // exactly at the limit, and its neighbours
                (6, k) => {
                    let m = F::of(scale);
                    match k {
                        0 => m.up(),
                        1 => m.down(),
                        2 => -m,
                        _ => m,
                    }
                }
                // a single component
                (7, _) => {
                    if d as u64 == h % dim as u64 {
                        F::of(scale * u)
                    } else {
                        F::zero()
                    }
                }
                (8, 0) => {
                    stat::hit("fault.nonfinite_velocity");
                    [F::of(nan_of(h)), F::infinity(), F::neg_infinity()][(mix(h) % 3) as usize]
                }
                (9, k) => F::of(max * [1.0, -1.0, 0.0, 0.5, 2.0, -0.0][k as usize]),
                _ => F::of(scale * u),
            };
            v
        })
        .collect()
}

fn go<F: Fl>(p: &Plan) -> Res {
    let cfg = Cfg::of(p);
    let dim = cfg.dim;
    let n = p.get("n", 1, 1, 600) as usize;
    let salt = p.get("salt", 0, 0, i64::MAX) as u64;
    let shape = p.get("shape", 0, 0, 9);
    let milli = p.get("max", 1000, 0, 1_000_000_000_000);
    let real = p.flag("real");
    let seen: Rc<RefCell<Seen<F>>> = Rc::new(RefCell::new(Seen { abs: None, dims: None, prev: None, cut: false, skip: false }));
    let calls = Rc::new(Cell::new(0u64));
    let in_iter = Rc::new(Cell::new(0usize));
    let target = Rc::new(Cell::new(0usize));

    let coord = move || {
        (0..n)
            .map(|i| (0..dim).map(|d| F::of((mix(salt ^ (i as u64) << 8 ^ d as u64) % 2000) as f64 / 10.0 - 100.0)).collect())
            .collect::<Vec<Vec<F>>>()
    };
    let vel0 = move || vec![vec![F::of(1.0); dim]; n];
    let mut rule: Box<dyn VelocityCalculator<F>> = if real {
        stat::hit("probe.real_rule");
        cfg.velocity_calc::<F>()
    } else {
        let calls = calls.clone();
        Box::new(FnVel(Box::new(move |_s, _p| {
            calls.set(calls.get() + 1);
            scripted::<F>(shape, mix(salt ^ calls.get()), dim, (milli as f64 / 1000.0).max(1e-3))
        })))
    };
    let (seen2, in2) = (seen.clone(), in_iter.clone());
    let rule = FnVel(Box::new(move |s, q| {
        if in2.get() == 0 {
            // first call of an iteration: nobody has moved yet
            let now: Vec<Vec<F>> = s.get_agents().iter().map(|a| a.get_parameter().clone()).collect();
            displacement(&mut seen2.borrow_mut(), now);
        }
        in2.set(in2.get() + 1);
        rule.calc_new_velocity(s, q)
    }));
    let kind = p.get("goal", 0, 0, GOAL_KINDS);
    let goal = FnGoal(Box::new({
        let n = Cell::new(0u64);
        move |x: &Vec<F>| {
            n.set(n.get() + 1);
            base_value(kind, x, n.get(), salt)
        }
    }));
    let stop = {
        let t = target.clone();
        FnStop(Box::new(move |s: &dyn optlib::AlgorithmState<Vec<F>>| s.get_iteration() >= t.get()))
    };
    let mut o = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(stop), Box::new(FnCoord(Box::new(coord))), Box::new(FnCoord(Box::new(vel0))), Box::new(rule));
    let (in3, seen3, iter) = (in_iter.clone(), seen.clone(), Rc::new(Cell::new(0usize)));
    let it = iter.clone();
    o.set_loggers(vec![Box::new(FnLogger(Box::new(move |w, s: &dyn optlib::AlgorithmState<Vec<F>>| {
        match w {
            Lg::Start => seen3.borrow_mut().prev = None,
            Lg::Iter => it.set(s.get_iteration()),
            _ => {}
        }
        in3.set(0);
    }))) as Box<dyn Logger<Vec<F>>>]);
    o.set_post_velocity_calc(limiters::<F>(p.get("lim", 0, 0, 3), milli, dim, &seen));
    let mut started = false;
    use optlib::{IterativeOptimizer, Optimizer};
    for op in &p.ops {
        match op.k.as_str() {
            "run" => {
                if started {
                    stat::hit("probe.rerun");
                }
                started = true;
                iter.set(0);
                target.set(op.argc(0, 0, 1500) as usize);
                let r = o.find_min();
                stat::mark(r.map_or(1, |(x, v)| hash_x(&x.x(), fbits(v))));
            }
            "more" if started => {
                target.set(iter.get() + op.argc(0, 0, 1500) as usize);
                let r = o.next_iterations();
                stat::mark(r.map_or(1, |(x, v)| hash_x(&x.x(), fbits(v))));
            }
            "lim" => {
                stat::hit("probe.replaced");
                let l = limiters::<F>(op.argc(0, 0, 3), op.argc(1, 0, 1_000_000_000), dim, &seen);
                // positions reached under the old limiters are not measured against the new
                seen.borrow_mut().prev = None;
                o.set_post_velocity_calc(l);
            }
            _ => {}
        }
        if stat::failed() {
            break;
        }
    }
    if seen.borrow().cut {
        stat::nontrivial();
    }
    Ok(())
}

fn displacement<F: Fl>(s: &mut Seen<F>, now: Vec<Vec<F>>) {
    let skip = std::mem::replace(&mut s.skip, false);
    let Some(prev) = s.prev.replace(now.clone()) else { return };
    if skip || prev.len() != now.len() {
        return;
    }
    for (a, b) in prev.iter().zip(&now) {
        if a.iter().chain(b).any(|x| !x.is_finite()) {
            continue;
        }
        stat::hit("probe.displacements");
        let e = eps::<F>(a.len());
        let size: f64 = a.iter().chain(b).map(|x| x.d().abs()).sum();
        let d: Vec<f64> = a.iter().zip(b).map(|(x, y)| y.d() - x.d()).collect();
        if let Some(m) = s.abs {
            let len = d.iter().map(|x| x * x).sum::<f64>().sqrt();
            if len > m.d() * (1.0 + e) + size * e {
                return stat::fail("moved-too-far", format!("a particle moved from {} to {}: {:e}, limit {:e}", show(a), show(b), len, m.d()));
            }
        }
        if let Some(ms) = &s.dims {
            for k in 0..d.len() {
                if d[k].abs() > ms[k].d() * (1.0 + e) + size * e {
                    return stat::fail("moved-too-far", format!("a particle moved from {} to {}: {:e} along {}, limit {:e}", show(a), show(b), d[k], k, ms[k].d()));
                }
            }
        }
    }
}
