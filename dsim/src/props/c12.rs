//! C12: a reused optimizer runs like a fresh one.
use crate::exec::{guard, Prop};
use crate::kit::*;
use crate::plan::{Op, Plan};
use crate::prng::{mix, Rng};
use crate::stat::{self, bad, Res};
use crate::with_float;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::{CompositeAll, CompositeAny, GoalNotChange, MaxIterations, StopChecker, Threshold};
use optlib::AlgorithmState;
use std::rc::Rc;

pub struct C12;

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn runs(&self) -> (u64, u64) {
        (180_000, 2_000_000)
    }
    fn rule(&self) -> &'static str {
        "optimizers with a random past (finished, paused, resumed, aborted by a panic at any call of any component, stopped by stateful criteria) start a new run that is compared event by event with the run of a newly built optimizer on the same random stream and goal history; non-trivial: the past holds at least one completed iteration or an abort"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.past_finished", "probe.past_paused", "probe.past_aborted", "probe.abort_in_init", "fault.component_panic", "fault.goal_panic", "probe.genetic", "probe.swarm", "probe.several_runs_compared", "probe.stopped_by_tree", "fault.goal_nan"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers, all operators, velocity rules, corrections, selections, pairings, creators, all stop criteria", "goal function, recording loggers")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C12", "reuse", 0);
        gen_cfg(r, &mut p, -1, deep);
        let mut total = 0;
        for i in 0..r.range(1, 4) {
            let t = r.size(0, 12);
            total += t;
            p.op(if i == 0 || r.chance(1, 3) { "run" } else { "more" }, &[t]);
            if r.chance(1, 6) {
                let w = r.range(1, 31);
                p.op("rep", &[w]);
            }
        }
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4, 5, 7]);
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                // early in the run (initialization), or anywhere
                let upto = if r.chance(1, 2) { 12 } else { 4 * evals };
                let a = [r.range(0, upto)];
                p.op("tp", &a);
            }
        }
        gen_windows(r, &mut p, evals);
        let long = r.chance(1, 200);
        for _ in 0..r.range(1, 2) {
            p.op("new", &[if long { r.range(257, 700) } else { r.size(0, 14) }]);
        }
        if long {
            lengthen(r, &mut p, 2, &[]);
            let (n, d) = (p.p["pop"].min(3), p.p["dim"].min(2));
            p.set("pop", n).set("dim", d);
        }
        p.set("tree", r.range(0, 5));
        p.set("tm", r.size(0, 8));
        p.set("td", r.range(0, 4));
        p.set("loggers", r.range(1, 2));
        p.set("agents", r.chance(1, 3) as i64);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

/// The criterion the optimizer keeps for all its runs.
fn criterion<T: 'static>(p: &Plan, rig: &Rc<Rig>) -> Box<dyn StopChecker<T>> {
    let end = || Box::new(AtTarget { rig: rig.clone() }) as Box<dyn StopChecker<T>>;
    let m = p.get("tm", 3, 0, 200) as usize;
    let d = [0.0, 1e-9, 0.5, 20.0, 1e6][p.get("td", 0, 0, 4) as usize];
    let gnc = || Box::new(GoalNotChange::new(m, d)) as Box<dyn StopChecker<T>>;
    let thr = || Box::new(Threshold::new(-d)) as Box<dyn StopChecker<T>>;
    let max = || Box::new(MaxIterations::new(m)) as Box<dyn StopChecker<T>>;
    match p.get("tree", 0, 0, 5) {
        0 => end(),
        1 => Box::new(CompositeAny::new(vec![gnc(), end()])),
        2 => Box::new(CompositeAny::new(vec![end(), thr(), gnc()])),
        3 => Box::new(CompositeAny::new(vec![Box::new(CompositeAll::new(vec![gnc(), max()])), end()])),
        4 => Box::new(CompositeAny::new(vec![thr(), end()])),
        _ => Box::new(CompositeAny::new(vec![Box::new(CompositeAll::new(vec![gnc(), Box::new(CompositeAny::new(vec![thr(), gnc()]))])), end()])),
    }
}

struct Watched<T> {
    inner: Box<dyn StopChecker<T>>,
    rig: Rc<Rig>,
}
impl<T: Point> StopChecker<T> for Watched<T> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        self.rig.tap("stop_checker");
        let ans = self.inner.can_stop(s);
        if ans && s.get_iteration() < self.rig.target.get() {
            stat::hit("probe.stopped_by_tree");
        }
        self.rig.push(Ev::Stop { st: snap(s), ans });
        ans
    }
}

fn build<F: Fl>(p: &Plan) -> Session<F> {
    let mut s: Session<F> = Session::new(p);
    // mode 2: the session leaves the criterion alone
    s.stop_mode = 2;
    s.rig.rec_agents.set(p.flag("agents") && s.cfg.pop <= 24);
    let stop = Box::new(Watched { inner: criterion(p, &s.rig), rig: s.rig.clone() });
    s.opt = s.cfg.build_with::<F>(&s.rig, stop, Box::new(SimGoal { rig: s.rig.clone() }));
    let n = p.get("loggers", 1, 0, 4) as usize;
    s.opt.set_loggers((0..n).map(|l| Box::new(RecLogger { rig: s.rig.clone(), l }) as Box<dyn Logger<Vec<F>>>).collect());
    s
}

fn new_run<F: Fl>(s: &mut Session<F>, seed: u64, target: i64) -> Result<Vec<Ev>, stat::Violation> {
    s.rig.take();
    s.rig.evals.set(0);
    s.rig.panic_taps.borrow_mut().clear();
    simseam::with(|m| m.reseed(seed));
    s.step(&Op { k: "run".into(), a: vec![target] })?;
    Ok(s.rig.take())
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let mut used: Session<F> = build(p);
    used.allow_resume_after_abort = true;
    stat::hit(if used.cfg.pso { "probe.swarm" } else { "probe.genetic" });
    for o in &p.ops {
        if matches!(o.k.as_str(), "run" | "more" | "rep") {
            let was = used.rig.ev.borrow().len();
            if guard(|| used.step(o))?.unwrap_or(Ok(false))? && o.k != "rep" {
                let ev = used.rig.ev.borrow();
                if used.aborted {
                    stat::hit("probe.past_aborted");
                    if !ev[was..].iter().any(|e| matches!(e, Ev::Stop { .. } | Ev::Log { .. })) {
                        stat::hit("probe.abort_in_init");
                    }
                    stat::nontrivial();
                } else {
                    stat::hit(if o.k == "more" { "probe.past_paused" } else { "probe.past_finished" });
                }
                if used.iter > 0 {
                    stat::nontrivial();
                }
            }
        }
    }
    for (k, o) in p.ops_of("new").enumerate() {
        if k > 0 {
            stat::hit("probe.several_runs_compared");
        }
        let seed = mix(p.seed ^ (k as u64 + 1) << 32);
        let target = o.argc(0, 0, 1500);
        let a = new_run(&mut used, seed, target)?;
        let mut fresh: Session<F> = build(p);
        let b = new_run(&mut fresh, seed, target)?;
        for i in 0..a.len().max(b.len()) {
            if a.get(i) != b.get(i) {
                return bad("differs-from-fresh", format!("event {} of new run {}: the reused optimizer {:?}, a fresh one {:?}", i, k, a.get(i), b.get(i)));
            }
        }
    }
    Ok(())
}
