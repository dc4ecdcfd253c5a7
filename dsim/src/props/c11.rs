//! C11: pausing and resuming does not change the run.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::{Op, Plan};
use crate::prng::Rng;
use crate::stat::{self, bad, Res};
use crate::with_float;

pub struct C11;

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn runs(&self) -> (u64, u64) {
        (180_000, 2_000_000)
    }
    fn rule(&self) -> &'static str {
        "each run is executed twice on the same random stream and goal history: uninterrupted, and paused at arbitrary iterations (same or replaced stop checker, components replaced by identical ones); evaluations, per-iteration bests and results are compared; non-trivial: at least one pause strictly inside the run"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.pauses", "probe.pause_at_zero", "probe.pause_without_progress", "probe.replaced", "probe.genetic", "probe.swarm", "probe.second_run", "fault.goal_nan", "fault.rng_all_one", "probe.long"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers, all operators, velocity rules, corrections, selections, pairings, creators, MaxIterations", "goal function, recording loggers")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C11", "pause", 0);
        gen_cfg(r, &mut p, -1, deep);
        let every = r.chance(1, 3);
        let long = r.chance(1, 20);
        let mut total = 0;
        // runs before the one that is paused belong to both executions
        for _ in 0..r.below(2) * r.below(3) {
            let t = r.size(0, 6);
            total += t;
            p.op("pre", &[t]);
        }
        p.op("run", &[r.size(0, if long { 40 } else { 8 })]);
        for _ in 0..r.range(1, if long { 25 } else { 7 }) {
            let t = if every { 1 } else { r.size(0, if long { 12 } else { 7 }) };
            total += t;
            p.op("more", &[t]);
            if r.chance(1, 3) {
                let w = r.range(1, 31);
                p.op("rep", &[w]);
            }
        }
        p.set("stop_mode", r.range(0, 1));
        lengthen(r, &mut p, 200, &[("pop", 4), ("dim", 2)]);
        let evals = (total + 8) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 1, 2, 3, 5, 7]);
        gen_windows(r, &mut p, evals * 2);
        p.set("loggers", r.range(1, 2));
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

/// What must not depend on pauses.
fn essence(ev: &[Ev]) -> Vec<&Ev> {
    ev.iter().filter(|e| matches!(e, Ev::Eval(..) | Ev::Log { what: Lg::Iter, l: 0, .. })).collect()
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let runop = |k: &str, t: i64| Op { k: k.into(), a: vec![t] };
    let mut pre = vec![];
    for o in p.ops_of("pre") {
        stat::hit("probe.second_run");
        pre.push(runop("run", o.argc(0, 0, 1500)));
    }
    // interrupted
    let mut s: Session<F> = Session::new(p);
    stat::hit(if s.cfg.pso { "probe.swarm" } else { "probe.genetic" });
    for o in &pre {
        s.step(o)?;
    }
    s.rig.take();
    let mut ran = false;
    let mut ends = vec![];
    let mut total = 0;
    for o in &p.ops {
        if o.k == "run" && ran || o.k == "more" && !ran || !matches!(o.k.as_str(), "run" | "more" | "rep") {
            continue;
        }
        if o.k == "rep" && ran {
            stat::hit("probe.replaced");
        }
        let before = s.iter;
        if s.step(o)? && o.k != "rep" {
            if o.k == "more" {
                stat::hit("probe.pauses");
                if before == 0 {
                    stat::hit("probe.pause_at_zero");
                } else if s.iter > before {
                    stat::nontrivial();
                }
                if s.iter == before {
                    stat::hit("probe.pause_without_progress");
                }
            }
            ran = true;
            total = s.iter;
            if let Some(Ev::End(r)) = s.rig.ev.borrow().last() {
                ends.push((s.iter, r.clone()));
            }
        }
    }
    if !ran {
        return Ok(());
    }
    let paused = s.rig.take();
    drop(s);
    if total > 60 {
        stat::hit("probe.long");
    }
    // uninterrupted, on the same stream
    simseam::with(|s| s.reseed(p.seed));
    let mut s: Session<F> = Session::new(p);
    for o in &pre {
        s.step(o)?;
    }
    s.rig.take();
    s.step(&runop("run", total as i64))?;
    let whole = s.rig.take();
    let (a, b) = (essence(&whole), essence(&paused));
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return bad("diverged", format!("event {} of the run of {} iterations: uninterrupted {:?}, paused at {:?} {:?}", i, total, a.get(i), ends.iter().map(|e| e.0).collect::<Vec<_>>(), b.get(i)));
        }
    }
    let end = whole.iter().rev().find_map(|e| if let Ev::End(r) = e { Some(r.clone()) } else { None });
    if end.as_ref() != ends.last().map(|e| &e.1) {
        return bad("other-result", format!("the uninterrupted run of {} iterations returned {:?}, the paused one {:?}", total, end, ends.last()));
    }
    // the result at a pause is the best solution at that iteration
    for (iter, r) in &ends {
        let at = a.iter().find_map(|e| match e {
            Ev::Log { st, .. } if st.iter == *iter => Some(st.best.clone()),
            _ => None,
        });
        if let Some(best) = at {
            if best != *r {
                return bad("other-result", format!("paused after iteration {} the result was {:?}, the uninterrupted run's best there is {:?}", iter, r, best));
            }
        }
    }
    Ok(())
}
