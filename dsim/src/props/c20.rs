//! C20: random initialization and teleport stay in their intervals.
use crate::exec::{must, refuses, Prop};
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res};
use crate::with_float;
use num::{NumCast, Zero};
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::Creator;
use optlib::particleswarm::initializing::{RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer};
use optlib::particleswarm::postmove::RandomTeleport;
use optlib::particleswarm::{CoordinatesInitializer, PostMove, VelocityInitializer};
use optlib::tools::RandomVectorCreator;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::rc::Rc;

pub struct C20;

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn runs(&self) -> (u64, u64) {
        (450_000, 5_000_000)
    }
    fn rule(&self) -> &'static str {
        "every vector the real creators, initializers and the teleport produce is checked against its intervals (wide, narrow down to two neighbouring floats, mixed, integers), called again and again, inside swarm runs, under free, stuck and extreme random streams; statistical runs test spread, independence and probability; invalid intervals and probabilities must be refused; non-trivial: random vectors were produced or an invalid argument refused"
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "probe.extreme_intervals", "probe.creator", "probe.coordinates", "probe.velocities", "probe.vector", "probe.zero_velocity", "probe.integers", "probe.none_requested", "probe.teleported", "probe.stayed", "probe.never", "probe.always", "probe.in_swarm", "probe.spread", "probe.spread_wide", "probe.frequency", "probe.refused_interval",
            "probe.refused_probability", "fault.rng_all_one", "fault.rng_all_zero", "fault.rng_stuck", "fault.rng_alternating",
        ]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("RandomCreator, RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer, RandomVectorCreator, RandomTeleport, ParticleSwarmOptimizer", "random stream, goal function, particle positions")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C20", "make", 0);
        p.set("f32", r.range(0, 1));
        p.set("dim", if r.chance(1, 50) { r.range(10, 140) } else { r.size(1, 9) });
        p.set("ivl", if r.chance(1, 2) { r.range(0, IVL_KINDS) } else { r.range(0, 60) });
        match r.below(24) {
            0 => {
                p.scenario = "spread".into();
                p.set("what", r.range(0, 4));
                let wide = r.chance(1, 12);
                p.set("dim", if wide { r.range(6, 140) } else { r.range(1, 5) });
                p.set("ivl", *r.pick(&[0, 1, 4, 5, 7, 8]));
                p.set("tele", *r.pick(&[0, 1, 50, 500, 900, 999, 1000]));
                p.set("calls", *r.pick(&[2, 2, 60, 200]));
                p.set("n", if wide { 150 } else if deep { 3000 } else { 1200 });
            }
            1 | 2 => {
                p.scenario = "refuse".into();
                for _ in 0..r.range(1, 4) {
                    let a = [r.range(0, 7), r.range(0, 139), r.range(0, 5)];
                    p.op("no", &a);
                }
            }
            3..=7 => {
                p.scenario = "swarm".into();
                let (d, i, f) = (p.p["dim"], p.p["ivl"], p.p["f32"]);
                gen_cfg(r, &mut p, 1, deep);
                p.set("dim", d).set("ivl", i).set("f32", f).set("pop", r.size(1, 12));
                p.set("tele", *r.pick(&[0, 0, 10, 300, 1000, 1000]));
                p.set("pm", 0);
                let total = gen_session(r, &mut p, false);
                let evals = (total + 1) * p.p["pop"];
                gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4, 5]);
                gen_windows(r, &mut p, evals * 4);
            }
            _ => {
                for _ in 0..r.range(1, 6) {
                    // what, how many, position pattern, probability
                    let many = if r.chance(1, 100) { r.range(31, 600) } else { r.size(0, 30) };
                    let a = [r.range(0, 9), many, r.range(0, 3), *r.pick(&[0, 0, 1, 300, 700, 1000, 1000])];
                    p.op("mk", &a);
                }
                gen_windows(r, &mut p, 300);
            }
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        match p.scenario.as_str() {
            "spread" => with_float!(p, spread(p)),
            "refuse" => with_float!(p, refuse(p)),
            "swarm" => with_float!(p, swarm(p)),
            _ => with_float!(p, make(p)),
        }
    }
}

/// Intervals of a plan; kinds above 40: as wide as can be, down to subnormal.
fn ivl<F: Fl>(kind: i64, dim: usize) -> Vec<(F, F)> {
    if kind <= 40 {
        return intervals(kind, dim);
    }
    stat::hit("probe.extreme_intervals");
    let o = F::of;
    let narrow_f64 = if F::max_value().d() > 1e300 { 0.49 } else { 0.99 };
    let max = F::max_value() * o(narrow_f64);
    let tiny = F::of_bits(1);
    (0..dim)
        .map(|i| match if kind <= 46 { kind - 41 } else { (mix(i as u64 ^ (kind as u64) << 16) % 6) as i64 } {
            0 => (-max, max),
            1 => (o(0.0), F::max_value()),
            2 => (-F::max_value(), o(0.0)),
            3 => (F::max_value().down(), F::max_value()),
            4 => (-tiny, tiny),
            _ => (tiny, F::min_positive_value()),
        })
        .collect()
}

/// The requested number of vectors, every component in its interval.
fn shape<T: PartialOrd + Debug>(what: &str, vs: &[Vec<T>], n: usize, iv: &[(T, T)]) -> Res {
    if n == 0 {
        stat::hit("probe.none_requested");
    }
    if vs.len() != n {
        return bad("count", format!("{}: {} vectors instead of {}", what, vs.len(), n));
    }
    for v in vs {
        stat::nontrivial();
        if v.len() != iv.len() {
            return bad("dimension", format!("{}: dimension {} instead of {}", what, v.len(), iv.len()));
        }
        for (x, (lo, hi)) in v.iter().zip(iv) {
            if !(*x >= *lo && *x <= *hi) {
                return bad("outside", format!("{}: {:?} is outside [{:?}, {:?}]", what, x, lo, hi));
            }
        }
    }
    Ok(())
}

fn mark<F: Fl>(vs: &[Vec<F>]) {
    vs.iter().for_each(|v| stat::mark(hash_x(&v.x(), 20)));
}

fn ints<T: NumCast + PartialOrd + Debug + Copy + 'static>(kind: i64, n: usize, iv: &[(T, T)]) -> Res {
    stat::hit("probe.integers");
    let iv = iv.to_vec();
    match kind {
        0 => shape("creator of integers", &must(|| RandomCreator::new(n.max(1), iv.clone()).create())?, n.max(1), &iv),
        1 => shape("coordinates of integers", &must(|| RandomCoordinatesInitializer::new(iv.clone(), n).get_coordinates())?, n, &iv),
        _ => shape("velocities of integers", &must(|| RandomVelocityInitializer::new(iv.clone(), n).get_velocity())?, n, &iv),
    }
}

/// A position of the given kind.
fn position<F: Fl>(kind: i64, iv: &[(F, F)], salt: u64) -> Vec<F> {
    iv.iter()
        .enumerate()
        .map(|(i, (lo, hi))| {
            let h = hash_x(&[i as u64], salt);
            match kind {
                0 => *hi + hi.abs() + F::of(1.0),
                1 => F::of(nan_of(h)),
                2 => {
                    if h % 2 == 0 {
                        *lo
                    } else {
                        *hi
                    }
                }
                _ => match h % 5 {
                    0 => F::infinity(),
                    1 => F::neg_infinity(),
                    2 => F::of(nan_of(mix(h))),
                    3 => lo.down(),
                    _ => *lo + (*hi - *lo) * F::of(0.5),
                },
            }
        })
        .collect()
}

/// Check one application of the teleport; whether it (visibly) teleported.
fn teleported<F: Fl>(before: &[F], after: &[F], iv: &[(F, F)], prob: f64) -> Result<Option<bool>, crate::stat::Violation> {
    let same = before.len() == after.len() && before.iter().zip(after).all(|(a, b)| a.b() == b.b());
    if !same {
        stat::hit("probe.teleported");
        shape("teleport", &[after.to_vec()], 1, iv)?;
        if prob <= 0.0 {
            return bad("teleport-probability", format!("probability 0, but {:?} became {:?}", before, after));
        }
        return Ok(Some(true));
    }
    // unchanged: it stayed, unless the new point happens to be the old one
    let outside = before.iter().zip(iv).any(|(x, (lo, hi))| !(*x >= *lo && *x <= *hi));
    if prob >= 1.0 && outside {
        return bad("teleport-probability", format!("probability 1, but {:?} stayed (intervals {:?})", before, iv));
    }
    if outside {
        stat::hit("probe.stayed");
        return Ok(Some(false));
    }
    Ok(None)
}

fn make<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let dim = p.get("dim", 1, 0, 140) as usize;
    let iv = ivl::<F>(p.get("ivl", 0, 0, 60), dim);
    // the teleport's own distribution refuses widths that overflow
    let representable = iv.iter().all(|(lo, hi)| (*hi - *lo).is_finite());
    for (k, o) in p.ops_of("mk").enumerate() {
        let n = o.argc(1, 0, 600) as usize;
        // long-lived creators are rare
        let calls = if n < 4 && o.arg(3) == 1 { 300 } else { 2 };
        match o.argc(0, 0, 9) {
            0 => {
                if dim == 0 || n == 0 {
                    continue;
                }
                stat::hit("probe.creator");
                let mut c = must(|| RandomCreator::new(n, iv.clone()))?;
                for _ in 0..calls {
                    let vs = must(|| c.create())?;
                    shape("creator", &vs, n, &iv)?;
                    mark(&vs);
                }
            }
            1 => {
                stat::hit("probe.coordinates");
                let mut c = must(|| RandomCoordinatesInitializer::new(iv.clone(), n))?;
                for _ in 0..calls {
                    let vs = must(|| c.get_coordinates())?;
                    shape("coordinates", &vs, n, &iv)?;
                    mark(&vs);
                }
            }
            2 => {
                stat::hit("probe.velocities");
                let mut c = must(|| RandomVelocityInitializer::new(iv.clone(), n))?;
                for _ in 0..calls {
                    let vs = must(|| c.get_velocity())?;
                    shape("velocities", &vs, n, &iv)?;
                    mark(&vs);
                }
            }
            3 => {
                stat::hit("probe.vector");
                let mut c = RandomVectorCreator::new();
                for _ in 0..3 {
                    shape("vector", &[must(|| c.create_vec(&iv))?], 1, &iv)?;
                }
            }
            4 => {
                stat::hit("probe.zero_velocity");
                let mut c = ZeroVelocityInitializer::new(dim, n);
                for _ in 0..2 {
                    let vs: Vec<Vec<F>> = must(|| c.get_velocity())?;
                    shape("zero velocities", &vs, n, &vec![(F::zero(), F::zero()); dim])?;
                }
                let vs: Vec<Vec<i32>> = must(|| c.get_velocity())?;
                shape("zero velocities of integers", &vs, n, &vec![(i32::zero(), i32::zero()); dim])?;
            }
            5 => {
                let j = (k % 3) as i64;
                let m = n as i64;
                ints::<i32>(j, n, &vec![(-5, 5), (0, 1), (-1_000_000, 1_000_000), (i32::MIN, i32::MAX)])?;
                ints::<u8>(j, n, &[(250, 255), (0, 255)])?;
                ints::<i64>(j, n, &[(-m - 1, m), (1 << 40, (1 << 40) + 3)])?;
                ints::<usize>(j, n, &[(0, 1), (7, 1000)])?;
            }
            _ => {
                if !representable {
                    continue;
                }
                let prob = o.argc(3, 0, 1000) as f64 / 1000.0;
                stat::hit(if prob == 0.0 {
                    "probe.never"
                } else if prob == 1.0 {
                    "probe.always"
                } else {
                    "probe.sometimes"
                });
                let mut t = must(|| RandomTeleport::new(iv.clone(), prob as f32))?;
                for i in 0..n.min(20) {
                    let before = position(o.argc(2, 0, 3), &iv, mix(p.seed ^ (i as u64) << 8 ^ k as u64));
                    let mut after = before.clone();
                    must(|| t.post_move(&mut after))?;
                    mark(&[after.clone()]);
                    teleported(&before, &after, &iv, prob)?;
                }
            }
        }
    }
    Ok(())
}

/// The teleport at work inside a swarm, the initializers feeding it.
fn swarm<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    stat::hit("probe.in_swarm");
    let mut s: Session<F> = Session::new(p);
    let cfg = s.cfg.clone();
    let iv = intervals::<F>(cfg.ivl, cfg.dim);
    let mut t = RandomTeleport::new(iv.clone(), cfg.tele as f32);
    let (clear, gone) = (Rc::new(Cell::new(0u64)), Rc::new(Cell::new(0u64)));
    let (c2, g2) = (clear.clone(), gone.clone());
    let prob = cfg.tele;
    let iv2 = iv.clone();
    if let Opt::Pso(o) = &mut s.opt {
        o.set_post_moves(vec![Box::new(FnMove(Box::new(move |x: &mut Vec<F>| {
            let before = x.clone();
            t.post_move(x);
            match teleported(&before, x, &iv2, prob) {
                Ok(Some(b)) => {
                    // seen for certain only when it started outside
                    if before.iter().zip(&iv2).any(|(x, (lo, hi))| !(*x >= *lo && *x <= *hi)) {
                        c2.set(c2.get() + 1);
                        g2.set(g2.get() + b as u64);
                    }
                }
                Ok(None) => {}
                Err(v) => stat::fail(&v.tag, v.detail),
            }
        })))]);
    }
    for o in &p.ops {
        if o.k == "run" || o.k == "more" {
            s.step(o)?;
            if stat::failed() {
                return Ok(());
            }
            // initial positions: in the intervals, teleported or not
            if o.k == "run" {
                let ev = s.rig.take();
                let begin = ev.iter().rposition(|e| *e == Ev::Begin).unwrap_or(0);
                for e in ev[begin..].iter().filter(|e| matches!(e, Ev::Eval(..))).take(cfg.pop) {
                    if let Ev::Eval(x, _) = e {
                        if let Some(Ev::Log { .. }) = ev[begin..].iter().take_while(|f| *f != e).find(|f| matches!(f, Ev::Log { .. })) {
                            break;
                        }
                        let v: Vec<F> = x.iter().map(|b| F::of_bits(*b)).collect();
                        shape("initial position", &[v], 1, &iv)?;
                    }
                }
                s.rig.ev.borrow_mut().extend(ev);
            }
        }
    }
    if p.ops_of("rw").next().is_none() && surprise(gone.get(), clear.get(), prob) > SURPRISE {
        return bad("teleport-probability", format!("teleported {} of {} times at probability {}", gone.get(), clear.get(), prob));
    }
    Ok(())
}

fn spread<F: Fl>(p: &Plan) -> Res {
    let dim = p.get("dim", 1, 1, 140) as usize;
    let iv = intervals::<F>(p.get("ivl", 0, 0, IVL_KINDS), dim);
    let n = p.get("n", 1000, 0, 10_000) as usize;
    let what = p.get("what", 0, 0, 4);
    let prob = p.get("tele", 0, 0, 1000) as f64 / 1000.0;
    let mut vs: Vec<Vec<F>> = vec![];
    // in several portions and instances, the borders between them included
    let calls = p.get("calls", 2, 1, 400) as usize;
    let portions = if calls <= 2 { vec![n / 3, 1, 1, n / 3, n - 2 * (n / 3)] } else { vec![1 + 2 * n / calls] };
    let (mut stays, mut seen) = (0u64, 0u64);
    let mut pair = [0u64; 4];
    let mut last: Option<bool> = None;
    match what {
        0 => {
            for m in portions {
                if m > 0 {
                    let mut c = must(|| RandomCreator::new(m, iv.clone()))?;
                    for _ in 0..calls {
                        vs.extend(must(|| c.create())?);
                    }
                }
            }
        }
        1 => {
            for m in portions {
                let mut c = must(|| RandomCoordinatesInitializer::new(iv.clone(), m))?;
                for _ in 0..calls {
                    vs.extend(must(|| c.get_coordinates())?);
                }
            }
        }
        2 => {
            for m in portions {
                let mut c = must(|| RandomVelocityInitializer::new(iv.clone(), m))?;
                for _ in 0..calls {
                    vs.extend(must(|| c.get_velocity())?);
                }
            }
        }
        _ => {
            let mut t = must(|| RandomTeleport::new(iv.clone(), prob as f32))?;
            for i in 0..2 * n {
                let before = position(what - 3, &iv, i as u64);
                let mut x = before.clone();
                must(|| t.post_move(&mut x))?;
                if let Some(b) = teleported(&before, &x, &iv, prob)? {
                    seen += 1;
                    if b {
                        vs.push(x);
                    } else {
                        stays += 1;
                    }
                    if let Some(l) = last {
                        pair[l as usize * 2 + b as usize] += 1;
                    }
                    last = Some(b);
                }
            }
            stat::hit("probe.frequency");
            if surprise(vs.len() as u64, seen, prob) > SURPRISE {
                return bad("teleport-probability", format!("teleported {} of {} times at probability {}", vs.len(), seen, prob));
            }
            if surprise(pair[3], pair.iter().sum(), prob * prob) > SURPRISE {
                return bad("teleport-probability", format!("teleported twice in a row {} of {} times at probability {}", pair[3], seen, prob));
            }
            let _ = stays;
        }
    }
    shape("spread", &vs, vs.len(), &iv)?;
    mark(&vs);
    if vs.len() < 100 {
        return Ok(());
    }
    stat::hit("probe.spread");
    const K: usize = 10;
    let m = vs.len() as u64;
    let unit = |v: &[F], d: usize| (v[d].d() - iv[d].0.d()) / (iv[d].1.d() - iv[d].0.d());
    let bin = |v: &[F], d: usize| ((unit(v, d) * K as f64) as usize).min(K - 1);
    let bins: Vec<Vec<u8>> = vs.iter().map(|v| (0..dim).map(|d| bin(v, d) as u8).collect()).collect();
    for d in 0..dim {
        let mut count = [0u64; K];
        let mut next = 0u64;
        for (i, v) in vs.iter().enumerate() {
            count[bin(v, d)] += 1;
            if i > 0 {
                next += (bin(v, d) == bin(&vs[i - 1], d)) as u64;
            }
        }
        // the last ones as much as the first ones
        let late = &vs[vs.len() - vs.len() / 4..];
        for b in 0..K {
            let k = late.iter().filter(|v| bin(v, d) == b).count() as u64;
            if surprise(k, late.len() as u64, 1.0 / K as f64) > SURPRISE {
                return bad("not-spread", format!("component {}: {} of the last {} values in part {} of {} of [{:?}, {:?}]", d, k, late.len(), b, K, iv[d].0, iv[d].1));
            }
        }
        for (b, c) in count.iter().enumerate() {
            if surprise(*c, m, 1.0 / K as f64) > SURPRISE {
                return bad("not-spread", format!("component {}: {} of {} values in part {} of {} of [{:?}, {:?}]", d, c, m, b, K, iv[d].0, iv[d].1));
            }
        }
        for e in d + 1..dim {
            let near = bins.iter().filter(|b| b[d] == b[e]).count() as u64;
            if surprise(near, m, 1.0 / K as f64) > SURPRISE {
                return bad("dependent", format!("components {} and {} fall into the same part {} of {} times", d, e, near, m));
            }
        }
        if surprise(next, m - 1, 1.0 / K as f64) > SURPRISE {
            return bad("dependent", format!("component {} of successive vectors falls into the same part {} of {} times", d, next, m));
        }
    }
    if dim > 8 {
        stat::hit("probe.spread_wide");
    }
    // no vector comes twice
    if dim >= 3 {
        let distinct: BTreeSet<X> = vs.iter().map(|v| v.x()).collect();
        if distinct.len() != vs.len() {
            return bad("dependent", format!("{} vectors, {} distinct ones", vs.len(), distinct.len()));
        }
    }
    Ok(())
}

fn refuse<F: Fl>(p: &Plan) -> Res {
    let dim = p.get("dim", 1, 1, 140) as usize;
    let good = intervals::<F>(p.get("ivl", 0, 0, 60), dim);
    for o in p.ops_of("no") {
        let at = o.argc(1, 0, 139) as usize % dim;
        let mut iv = good.clone();
        let (lo, hi) = iv[at];
        let kind = o.argc(2, 0, 5);
        iv[at] = match kind {
            0 => (hi, lo),
            1 => (lo, lo),
            2 => (F::nan(), hi),
            3 => (lo, F::nan()),
            4 => (F::zero(), -F::min_positive_value()),
            _ => (hi.up(), hi),
        };
        stat::nontrivial();
        let n = 3;
        let name;
        let ok = match o.argc(0, 0, 7) {
            0 => {
                name = "RandomCreator";
                refuses(|| RandomCreator::new(n, iv.clone()).create())
            }
            1 => {
                name = "RandomCoordinatesInitializer";
                refuses(|| RandomCoordinatesInitializer::new(iv.clone(), n).get_coordinates())
            }
            2 => {
                name = "RandomVelocityInitializer";
                refuses(|| RandomVelocityInitializer::new(iv.clone(), n).get_velocity())
            }
            3 => {
                name = "RandomVectorCreator";
                refuses(|| RandomVectorCreator::new().create_vec(&iv))
            }
            4 | 5 => {
                // one point is an interval for the teleport
                if kind == 1 {
                    continue;
                }
                name = "RandomTeleport";
                refuses(|| RandomTeleport::new(iv.clone(), 1.0).post_move(&mut vec![F::zero(); dim]))
            }
            _ => {
                let q = [-0.001f32, 1.0001, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1e-40, 1.0 + f32::EPSILON, 100.0, -1.0][o.argc(1, 0, 8) as usize];
                stat::hit("probe.refused_probability");
                if !refuses(|| RandomTeleport::new(good.clone(), q).post_move(&mut vec![F::zero(); dim])) {
                    return bad("accepted", format!("RandomTeleport accepted the probability {:e}", q));
                }
                continue;
            }
        };
        stat::hit("probe.refused_interval");
        stat::mark(mix(o.arg(0) as u64 ^ (at as u64) << 8 ^ (kind as u64) << 16));
        if !ok {
            return bad("accepted", format!("{} accepted the interval {:?}", name, iv[at]));
        }
    }
    Ok(())
}
