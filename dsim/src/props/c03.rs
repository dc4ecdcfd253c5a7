//! C03: genetic best and worst describe the current generation; elitism holds.
use crate::exec::Prop;
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use optlib::genetic::pairing::{RandomPairing, Tournament};
use optlib::genetic::selection::{KillFitnessNaN, LimitPopulation};
use optlib::genetic::{GeneticOptimizer, Pairing, Population, Selection};
use optlib::{AlgorithmState, IterativeOptimizer, Optimizer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct C03;

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn runs(&self) -> (u64, u64) {
        (450_000, 4_000_000)
    }
    fn rule(&self) -> &'static str {
        "runs, pauses and re-runs of a genetic algorithm of tagged individuals with scripted fitness sequences (ties, NaN, infinities, zigzag); `std` uses the standard selection, `any` arbitrary scripted deaths; non-trivial: two or more completed iterations with a non-empty generation and births"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.best_checked", "probe.worst_checked", "probe.elite_checked", "probe.best_got_worse_legally", "probe.nan_in_generation", "probe.neg_inf_best", "probe.extinct", "probe.paused", "probe.rerun"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("GeneticOptimizer, Population, KillFitnessNaN, LimitPopulation, RandomPairing, Tournament", "goal (scripted fitness), creator, crossing, mutation, scripted deaths in `any`")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C03", if r.chance(1, 2) { "std" } else { "any" }, 0);
        gen_dist(r, &mut p);
        let n = if r.chance(1, 300) { r.range(80, 400) } else if r.chance(1, 20) { r.range(20, if deep { 200 } else { 80 }) } else { r.size(1, 14) };
        p.set("n", n);
        p.set("births", r.size(0, 10));
        p.set("pairing", r.range(0, 2));
        p.set("fam", r.size(0, 10));
        p.set("limit", r.range(1, n + 4));
        p.set("order", r.range(0, 3));
        p.set("deaths", r.range(0, 4));
        let mut any = false;
        for _ in 0..r.range(1, 4) {
            let t = if r.chance(1, 20) { r.range(30, 150) } else { r.size(0, 10) };
            if any && r.chance(2, 3) {
                p.op("more", &[t]);
            } else {
                p.op("run", &[t]);
            }
            any = true;
        }
        lengthen(r, &mut p, 200, &[("n", 4), ("births", 1), ("fam", 2)]);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        go(p)
    }
}

#[derive(Default)]
struct Model {
    /// the living after the last completed iteration (None: not yet known)
    gen: Option<Vec<Ind>>,
    /// lowest finite value returned in the run
    low: Option<f64>,
    iter: usize,
    checked: u64,
    last_best: Option<f64>,
}

fn check_best(m: &mut Model, who: &str, best: Option<(X, u64)>, std: bool) {
    let gen = match &m.gen {
        Some(g) => g,
        None => return,
    };
    if gen.is_empty() {
        stat::hit("probe.extinct");
        return;
    }
    stat::hit("probe.best_checked");
    let (x, v) = match best {
        None => return stat::fail("no-best", format!("{}: generation of {} individuals and no best", who, gen.len())),
        Some(b) => (b.0, fval(b.1)),
    };
    let vals = || gen.iter().map(|i| i.val()).collect::<Vec<_>>();
    if !gen.iter().any(|i| i.x == x && fbits(v) == i.v) {
        return stat::fail("best-not-in-generation", format!("{}: best is tag {:?} value {:e}; generation {:?}", who, x, v, gen));
    }
    if gen.iter().any(|i| better(i.val(), v)) {
        return stat::fail("best-not-lowest", format!("{}: best has {:e}, generation {:?}", who, v, vals()));
    }
    if gen.iter().any(|i| i.val().is_nan()) {
        stat::hit("probe.nan_in_generation");
    }
    if v == f64::NEG_INFINITY {
        stat::hit("probe.neg_inf_best");
    }
    if std {
        stat::hit("probe.elite_checked");
        match m.low {
            Some(l) if l == v => {}
            l => return stat::fail("elite-lost", format!("{}: best {:e}, lowest finite value returned in this run {:?}; generation {:?}", who, v, l, vals())),
        }
    }
    if let Some(b) = m.last_best {
        if better(b, v) {
            stat::hit("probe.best_got_worse_legally");
            if std {
                return stat::fail("best-got-worse", format!("{}: best {:e} after {:e}", who, v, b));
            }
        }
    }
}

fn check_worst(m: &Model, pop: &Population<u64>) {
    let gen = match &m.gen {
        Some(g) if !g.is_empty() => g,
        _ => return,
    };
    stat::hit("probe.worst_checked");
    let vals = || gen.iter().map(|i| i.val()).collect::<Vec<_>>();
    match pop.get_worst() {
        None => stat::fail("no-worst", format!("generation {:?} and no worst", vals())),
        Some(w) => {
            let v = w.get_fitness();
            let some = gen.iter().any(|i| !i.val().is_nan());
            if !gen.iter().any(|i| i.x[0] == *w.get_chromosomes() && i.v == fbits(v)) {
                return stat::fail("worst-not-in-generation", format!("worst is tag {} value {:e}; generation {:?}", w.get_chromosomes(), v, gen));
            }
            if (v.is_nan() && some) || gen.iter().any(|i| i.val() > v) {
                stat::fail("worst-not-highest", format!("worst has {:e}, generation {:?}", v, vals()));
            }
        }
    }
    match pop.get_best() {
        None => stat::fail("no-best", format!("generation {:?} and no best", vals())),
        Some(b) => {
            let v = b.get_fitness();
            if gen.iter().any(|i| better(i.val(), v)) || !gen.iter().any(|i| i.v == fbits(v)) {
                stat::fail("best-not-lowest", format!("get_best has {:e}, generation {:?}", v, vals()));
            }
        }
    }
}

fn go(p: &Plan) -> Res {
    let std = p.scenario == "std";
    let (dist, salt) = (p.get("dist", 0, 0, DISTS), p.get("salt", 0, 0, i64::MAX) as u64);
    let n = p.get("n", 1, 1, 600) as u64;
    let births = p.get("births", 0, 0, 20) as u64;
    let fam = p.get("fam", 0, 0, 20) as usize;
    let limit = p.get("limit", 1, 1, 400) as usize;
    let order = p.get("order", 0, 0, 3);
    let deaths = p.get("deaths", 0, 0, 5) as u64;
    let pairing = p.get("pairing", 0, 0, 2);
    let m: Rc<RefCell<Model>> = Rc::new(RefCell::new(Model::default()));
    let target = Rc::new(Cell::new(0usize));
    let tags = Rc::new(Cell::new(0u64));

    let mg = m.clone();
    let goal = FnGoal(Box::new(move |t: &u64| {
        let v = tag_value(dist, salt, *t);
        stat::mark(*t ^ fbits(v));
        let mut m = mg.borrow_mut();
        if v.is_finite() && m.low.map_or(true, |l| v < l) {
            m.low = Some(v);
        }
        v
    }));
    let (ms, ts) = (m.clone(), target.clone());
    let stop = FnStop(Box::new(move |s: &dyn AlgorithmState<u64>| {
        let best = snap(s).best;
        check_best(&mut ms.borrow_mut(), "stop checker", best, std);
        s.get_iteration() >= ts.get()
    }));
    let tc = tags.clone();
    let creator = FnCreator(Box::new(move || {
        let t = tc.get();
        tc.set(t + n);
        (t..t + n).collect()
    }));
    let mut real: Option<Box<dyn Pairing<u64>>> = match pairing {
        0 => Some(Box::new(RandomPairing::new())),
        1 => Some(Box::new(Tournament::new(fam))),
        _ => None,
    };
    let mp = m.clone();
    let pair = FnPairing(Box::new(move |pop: &Population<u64>| {
        {
            let m = mp.borrow();
            if let Some(g) = &m.gen {
                if pop.len() != g.len() {
                    stat::fail("generation-changed", format!("{} individuals survived, the next iteration starts with {}", g.len(), pop.len()));
                }
            }
            check_worst(&m, pop);
        }
        match &mut real {
            Some(r) => r.get_pairs(pop),
            None => vec![vec![]],
        }
    }));
    let tx = tags.clone();
    let cross = FnCross(Box::new(move |_: &[&u64]| {
        let t = tx.get();
        let k = if t > n + 400 && !std { 0 } else { births % 3 + (births > 2) as u64 };
        tx.set(t + k);
        (t..t + k).collect()
    }));
    // last selection: note who is alive
    let my = m.clone();
    let note = FnSel(Box::new(move |pop: &mut Population<u64>| {
        let mut m = my.borrow_mut();
        let best = m.gen.as_ref().and_then(|g| g.iter().map(|i| i.val()).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| if better(b, a) { b } else { a }))));
        m.last_best = best;
        m.gen = Some(inds(pop).into_iter().filter(|i| i.alive).collect());
        m.iter += 1;
    }));
    let nan = || Box::new(KillFitnessNaN::new()) as Box<dyn Selection<u64>>;
    let lim = || Box::new(LimitPopulation::new(limit)) as Box<dyn Selection<u64>>;
    let mut sels: Vec<Box<dyn Selection<u64>>> = if std {
        // limiting first is only elitist without NaN/inf in the limited list
        match order {
            0 | 1 => vec![nan(), lim()],
            2 => vec![nan(), nan(), lim()],
            _ => vec![nan(), lim(), lim()],
        }
    } else {
        let mut k = 0u64;
        let scripted = FnSel(Box::new(move |pop: &mut Population<u64>| {
            k += 1;
            for i in pop.iter_mut() {
                if mix(salt ^ mix(*i.get_chromosomes() ^ k << 32)) % 6 < deaths {
                    i.kill();
                }
            }
        }));
        match order {
            0 => vec![Box::new(scripted) as Box<dyn Selection<u64>>],
            1 => vec![],
            2 => vec![Box::new(scripted) as Box<dyn Selection<u64>>, lim()],
            _ => vec![lim()],
        }
    };
    sels.push(Box::new(note));
    let mut ga = GeneticOptimizer::new(Box::new(goal), Box::new(stop), Box::new(creator), Box::new(pair), Box::new(cross), Box::new(FnMutation(Box::new(|t: &u64| *t))), sels, vec![]);
    let ml = m.clone();
    ga.set_loggers(vec![Box::new(FnLogger(Box::new(move |w: Lg, s: &dyn AlgorithmState<u64>| {
        let st = snap(s);
        let mut m = ml.borrow_mut();
        if w == Lg::Iter && st.iter != m.iter {
            stat::fail("iteration-number", format!("iteration {} logged after {} iterations", st.iter, m.iter));
        }
        check_best(&mut m, "logger", st.best, std);
        if w == Lg::Iter && m.gen.as_ref().map_or(false, |g| !g.is_empty()) {
            m.checked += 1;
        }
    })))]);
    let mut started = false;
    for o in &p.ops {
        let t = o.argc(0, 0, 1500) as usize;
        let r = match o.k.as_str() {
            "run" => {
                if started {
                    stat::hit("probe.rerun");
                }
                let checked = m.borrow().checked;
                *m.borrow_mut() = Model { checked, ..Model::default() };
                started = true;
                target.set(t);
                ga.find_min()
            }
            "more" if started => {
                stat::hit("probe.paused");
                target.set(m.borrow().iter + t);
                ga.next_iterations()
            }
            _ => continue,
        };
        check_best(&mut m.borrow_mut(), "result", r.map(|(x, v)| (x.x(), fbits(v))), std);
    }
    if m.borrow().checked >= 2 && tags.get() > n {
        stat::nontrivial();
    }
    Ok(())
}
