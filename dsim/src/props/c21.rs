//! C21: a run without survivors or solutions ends cleanly.
use crate::exec::{must, Prop};
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::Rng;
use crate::stat::{self, bad, Res};
use crate::with_float;
use optlib::genetic::{GeneticOptimizer, Population, Selection};
use optlib::particleswarm::initializing::{RandomCoordinatesInitializer, RandomVelocityInitializer, ZeroVelocityInitializer};
use optlib::particleswarm::{CoordinatesInitializer, ParticleSwarmOptimizer, VelocityInitializer};
use optlib::tools::logging::{Logger, ResultOnlyLogger, TimeLogger, VerboseLogger};
use optlib::tools::statistics::{Statistics, StatisticsLogger};
use optlib::tools::stopchecker::{CompositeAll, CompositeAny, GoalNotChange, MaxIterations, StopChecker, Threshold};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::rc::Rc;

pub struct C21;

impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn runs(&self) -> (u64, u64) {
        (360_000, 4_000_000)
    }
    fn rule(&self) -> &'static str {
        "sessions of both optimizers whose populations start empty, die out at scheduled generations (nothing survives the filters, the limit is zero, the goal is never finite, a selection kills everybody) or never start (resumption without a run), with the real pairings, selections, stop checkers and loggers; then runs that can succeed; non-trivial: an iteration took place on an empty population or swarm"
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "probe.empty_creation", "probe.died_out", "probe.empty_generation", "probe.reborn", "probe.unstarted", "probe.no_particles", "probe.none", "probe.late_success", "probe.all_nan", "probe.limit_zero", "probe.composite", "probe.kept_after_extinction", "probe.tournament", "probe.random_pairing",
            "fault.kill_all", "fault.goal_nan", "probe.statistics",
        ]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers, pairings, crossings, mutations, selections, pre-birth checks, velocity rules, corrections, random and zero initializers, stop checkers, all loggers", "creation of empty populations, selection that kills everybody, goal function, writers")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C21", "session", 0);
        let algo = if r.chance(3, 4) { 0 } else { 1 };
        gen_cfg(r, &mut p, algo, deep);
        p.set("pop", r.size(1, 10));
        p.set("limit", if r.chance(1, 4) { 0 } else { r.range(1, 8) });
        if r.chance(1, 5) {
            p.set("goal", 13);
        }
        p.set("wild", *r.pick(&[0, 0, 10, 100]));
        p.set("stopkind", r.range(0, 4));
        p.set("loggers", r.range(0, 1));
        p.set("doom_at", r.range(0, 2));
        if r.chance(1, 3) {
            p.op("more", &[r.size(0, 8)]);
        }
        let total = gen_session(r, &mut p, false);
        if r.chance(1, 2) {
            p.op("run", &[r.size(0, 10)]);
        }
        p.ops.retain(|o| o.k != "rep");
        for k in 0..6 {
            if r.chance(1, 3) {
                let a = [k, if r.chance(2, 3) { 0 } else { r.size(1, 8) }];
                p.op("cr", &a);
            }
        }
        for _ in 0..r.below(4) {
            let a = [r.range(0, total + 2)];
            p.op("ka", &a);
        }
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 1, 2, 3, 5]);
        gen_windows(r, &mut p, evals * 4);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

struct Sink;
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simseam::step("write");
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// (kind of run, iterations to go)
fn stop_of<F: Fl>(kind: i64, rig: &Rc<Rig>, target: usize) -> Box<dyn StopChecker<Vec<F>>> {
    let max = || Box::new(MaxIterations::new(target)) as Box<dyn StopChecker<Vec<F>>>;
    let never = || vec![Box::new(GoalNotChange::new(1, 1e300)) as Box<dyn StopChecker<Vec<F>>>, Box::new(Threshold::new(f64::MAX))];
    let inner: Box<dyn StopChecker<Vec<F>>> = match kind {
        0 => Box::new(AtTarget { rig: rig.clone() }),
        1 => max(),
        2 => {
            // the members that look at the solution say no while there is none
            let mut v = never();
            v.push(max());
            Box::new(CompositeAny::new(v))
        }
        3 => Box::new(CompositeAny::new(vec![Box::new(CompositeAll::new(never())), max()])),
        _ => Box::new(CompositeAll::new(vec![max(), Box::new(AtTarget { rig: rig.clone() })])),
    };
    rig.target.set(target);
    Box::new(TapStop { inner, rig: rig.clone() })
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let cfg = Cfg::of(p);
    let rig = Rig::new(goal_spec(p));
    let sizes: Rc<BTreeMap<u64, usize>> = Rc::new(p.ops_of("cr").map(|o| (o.argc(0, 0, 1 << 20) as u64, o.argc(1, 0, 60) as usize)).collect());
    let doomed: BTreeSet<u64> = p.ops_of("ka").map(|o| o.argc(0, 0, 1 << 20) as u64).collect();
    // creations of this run and survivors per generation
    let created = Rc::new(Cell::new(0usize));
    let survivors: Rc<RefCell<Vec<usize>>> = Rc::new(RefCell::new(vec![]));
    let sized = |what: Rc<Cell<u64>>, pop: usize| {
        let sizes = sizes.clone();
        move || {
            let k = what.get();
            what.set(k + 1);
            *sizes.get(&k).unwrap_or(&pop)
        }
    };
    let stopkind = p.get("stopkind", 0, 0, 4);
    let iv = intervals::<F>(cfg.ivl, cfg.dim);
    let goal = || Box::new(SimGoal { rig: rig.clone() });
    let stats: Leak<Statistics<Vec<F>>> = Leak::new(Statistics::new());
    let sinks: Vec<Leak<Sink>> = (0..3).map(|_| Leak::new(Sink)).collect();
    let mut opt: Opt<F> = if cfg.pso {
        let (nc, nv) = (sized(Rc::new(Cell::new(0)), cfg.pop), sized(Rc::new(Cell::new(0)), cfg.pop));
        let (ivc, ivv, created, dim, vinit) = (iv.clone(), iv.clone(), created.clone(), cfg.dim, cfg.vinit);
        let coord: Box<dyn CoordinatesInitializer<F>> = Box::new(FnCoord(Box::new(move || {
            let n = nc();
            created.set(n);
            RandomCoordinatesInitializer::new(ivc.clone(), n).get_coordinates()
        })));
        let vel: Box<dyn VelocityInitializer<F>> = Box::new(FnCoord(Box::new(move || {
            let n = nv();
            if vinit == 0 {
                ZeroVelocityInitializer::new(dim, n).get_velocity()
            } else {
                RandomVelocityInitializer::new(ivv.clone(), n).get_velocity()
            }
        })));
        let mut o = ParticleSwarmOptimizer::new(goal(), stop_of(stopkind, &rig, 0), coord, vel, cfg.velocity_calc::<F>());
        o.set_post_velocity_calc(cfg.tapped_pvc(&rig));
        o.set_post_moves(cfg.tapped_pm(&rig));
        Opt::Pso(o)
    } else {
        let n = sized(Rc::new(Cell::new(0)), cfg.pop);
        let (ivc, cr) = (iv.clone(), created.clone());
        let creator = Box::new(FnCreator(Box::new(move || {
            let n = n();
            cr.set(n);
            if n == 0 {
                vec![]
            } else {
                optlib::genetic::Creator::create(&mut optlib::genetic::creation::vec_float::RandomCreator::new(n, ivc.clone()))
            }
        })));
        let mut sel: Vec<Box<dyn Selection<Vec<F>>>> = cfg.tapped_sel(&rig);
        if cfg.limit == 0 {
            stat::hit("probe.limit_zero");
        }
        let kills = Cell::new(0u64);
        let doom: Box<dyn Selection<Vec<F>>> = Box::new(FnSel(Box::new(move |pop: &mut Population<Vec<F>>| {
            let k = kills.get();
            kills.set(k + 1);
            if doomed.contains(&k) {
                if pop.len() > 0 {
                    stat::hit("fault.kill_all");
                }
                pop.iter_mut().for_each(|i| i.kill());
            }
        })));
        match p.get("doom_at", 0, 0, 2) {
            0 => sel.insert(0, doom),
            1 => sel.insert(1, doom),
            _ => sel.push(doom),
        }
        // the witness: the last selection, which kills nobody
        let sv = survivors.clone();
        sel.push(Box::new(FnSel(Box::new(move |pop: &mut Population<Vec<F>>| {
            let alive = pop.iter().filter(|i| i.is_alive()).count();
            if pop.len() == 0 {
                stat::hit("probe.empty_generation");
                stat::nontrivial();
            }
            sv.borrow_mut().push(alive);
        }))));
        stat::hit(if cfg.pairing == 0 { "probe.random_pairing" } else { "probe.tournament" });
        Opt::Ga(GeneticOptimizer::new(goal(), stop_of(stopkind, &rig, 0), creator, cfg.pairing_of::<F>(), cfg.crossing::<F>(), cfg.mutation::<F>(), sel, cfg.tapped_pre(&rig)))
    };
    let mut l: Vec<Box<dyn Logger<Vec<F>>>> = vec![Box::new(RecLogger { rig: rig.clone(), l: 0 })];
    if p.flag("loggers") {
        stat::hit("probe.statistics");
        l.push(Box::new(StatisticsLogger::new(stats.lend())));
        l.push(Box::new(VerboseLogger::new(sinks[0].lend() as &'static mut dyn io::Write, 6)));
        l.push(Box::new(ResultOnlyLogger::new(sinks[1].lend() as &'static mut dyn io::Write, 6)));
        l.push(Box::new(TimeLogger::new(sinks[2].lend() as &'static mut dyn io::Write)));
    }
    opt.set_loggers(l);

    let mut iter = 0usize;
    let mut failed_before = false;
    // whether a generation of the current run had survivors
    let mut lived = false;
    let mut started = false;
    for (k, o) in p.ops.iter().enumerate() {
        let more = match o.k.as_str() {
            "run" => false,
            "more" => true,
            _ => continue,
        };
        let t = o.argc(0, 0, 1500) as usize;
        let what = format!("operation {} ({} {})", k, o.k, t);
        if !more {
            iter = 0;
            lived = false;
            started = true;
        } else if !started {
            stat::hit("probe.unstarted");
            if t > 0 {
                stat::nontrivial();
            }
            created.set(0);
        }
        let target = iter + t;
        let runs_before = stats.get().get_results().len();
        opt.set_stop(stop_of(stopkind, &rig, target));
        rig.take();
        survivors.borrow_mut().clear();
        let result = {
            let opt = &mut opt;
            must(|| if more { opt.next_iterations() } else { opt.find_min() })?
        };
        let ev = rig.take();
        let sv = survivors.borrow().clone();
        protocol(&what, more, iter, target, stopkind, &ev)?;
        let stops: Vec<&St> = ev.iter().filter_map(|e| if let Ev::Stop { st, .. } = e { Some(st) } else { None }).collect();
        let end = stops.last().unwrap().iter;
        let went = end - iter;
        iter = end;
        let best = result.as_ref().map(|(x, v)| (x.x(), fbits(*v)));
        if best.is_none() {
            stat::hit("probe.none");
        }
        if cfg.pso {
            if started && created.get() == 0 {
                stat::hit("probe.no_particles");
                if went > 0 {
                    stat::nontrivial();
                }
            }
            if (created.get() == 0 || !started) && ev.iter().any(|e| matches!(e, Ev::Eval(..))) {
                return bad("phantom", format!("{}: the goal is evaluated without particles", what));
            }
            if best.is_some() != (created.get() > 0) {
                return bad("solution-without-particles", format!("{}: solution {:?} with {} particles", what, result, created.get()));
            }
        } else {
            if sv.len() != went {
                return bad("iterations", format!("{}: {} generations selected in {} iterations", what, sv.len(), went));
            }
            if !more && created.get() == 0 {
                stat::hit("probe.empty_creation");
            }
            // the dead stay dead: without individuals nobody is born
            let mut size = None;
            for n in &sv {
                if size == Some(0) && *n > 0 {
                    return bad("phantom", format!("{}: generation sizes {:?}", what, sv));
                }
                if *n == 0 && size.map_or(created.get() > 0, |s| s > 0) {
                    stat::hit("probe.died_out");
                }
                size = Some(*n);
            }
            lived |= sv.iter().any(|n| *n > 0);
            if !lived && best.is_some() {
                return bad("phantom-solution", format!("{}: solution {:?} although nobody survived a generation of this run ({:?})", what, result, sv));
            }
            if sv.last().map_or(false, |n| *n > 0) && best.is_none() {
                return bad("lost-solution", format!("{}: no solution although {:?} individuals survived", what, sv));
            }
            if sv.last() == Some(&0) && best.is_some() {
                stat::hit("probe.kept_after_extinction");
            }
        }
        if rig.goal.kind == 13 {
            stat::hit("probe.all_nan");
        }
        if best.is_some() && failed_before {
            stat::hit("probe.late_success");
            if !cfg.pso {
                stat::hit("probe.reborn");
            }
        }
        if best.is_none() {
            failed_before = true;
        }
        // a solution reported was evaluated in this run
        if let (false, Some((x, v))) = (more, &best) {
            if !ev.iter().any(|e| matches!(e, Ev::Eval(ex, ef) if ex == x && ef == v)) {
                return bad("phantom-solution", format!("{}: {} was never evaluated in this run", what, show_x(x)));
            }
        }
        if p.flag("loggers") {
            let res = stats.get().get_results();
            let got = res.last().map(|r| r.as_ref().map(|(x, v)| (x.x(), fbits(*v))));
            let counted = res.len() == runs_before + 1 || (more && res.len() == runs_before);
            if started && (!counted || got != Some(best.clone())) {
                return bad("statistics", format!("{}: {} results before, {} after, the last is {:?}, the run's {:?}", what, runs_before, res.len(), got, best));
            }
        }
    }
    drop(opt);
    Ok(())
}

/// The stop criterion is asked once before every iteration and the run ends at
/// the first yes; the logger is told about every iteration.
fn protocol(what: &str, more: bool, from: usize, target: usize, stopkind: i64, ev: &[Ev]) -> Res {
    let mut at = from;
    let mut told: Vec<(Lg, usize)> = vec![];
    let mut over = false;
    for e in ev {
        match e {
            Ev::Stop { st, ans } => {
                if over || st.iter != at {
                    return bad("iterations", format!("{}: the stop criterion is asked at iteration {} instead of {}{}", what, st.iter, at, if over { " after it held" } else { "" }));
                }
                // while there is no solution only the number of iterations counts
                if st.best.is_none() && *ans != (at >= target) {
                    return bad("stop-without-solution", format!("{}: without a solution at iteration {} the stop criterion (kind {}, target {}) says {}", what, at, stopkind, target, ans));
                }
                over = *ans;
                at += 1;
            }
            Ev::Log { what: w, st, .. } => told.push((*w, st.iter)),
            _ => {}
        }
    }
    if !over {
        return bad("iterations", format!("{}: the run ended although the stop criterion did not hold", what));
    }
    let end = at - 1;
    let decided = match stopkind {
        2 | 3 => {
            stat::hit("probe.composite");
            end <= target
        }
        _ => end == target,
    };
    if !decided {
        return bad("iterations", format!("{}: ended at iteration {} instead of {}", what, end, target));
    }
    let mut want: Vec<(Lg, usize)> = vec![];
    if !more {
        want.push((Lg::Start, 0));
    }
    want.push((Lg::Resume, from));
    want.extend((from + 1..=end).map(|i| (Lg::Iter, i)));
    want.push((Lg::Finish, end));
    if told != want {
        return bad("protocol", format!("{}: the logger was told {:?} instead of {:?}", what, told, want));
    }
    Ok(())
}

