//! C01: every reported solution was really evaluated in the current run.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::Plan;
use crate::prng::Rng;
use crate::stat::{self, bad, Res};
use crate::with_float;
use std::collections::{BTreeMap, BTreeSet};

pub struct C01;

/// Provenance of every report: the event log against the table of evaluations.
pub fn provenance(evs: &[Ev], pso: bool) -> Res {
    let mut table: BTreeMap<X, BTreeSet<u64>> = BTreeMap::new();
    let mut n = 0u64;
    for (i, e) in evs.iter().enumerate() {
        let mut reports: Vec<(&str, &(X, u64))> = vec![];
        match e {
            Ev::Begin => {
                table.clear();
                n = 0;
            }
            Ev::Eval(x, v) => {
                table.entry(x.clone()).or_default().insert(*v);
                n += 1;
            }
            Ev::End(b) => {
                if let Some(b) = b {
                    reports.push(("result", b));
                } else if pso && n > 0 {
                    return bad("swarm-without-solution", format!("event {}: a swarm with particles returned no solution", i));
                }
            }
            Ev::Log { st, what, .. } => {
                if let Some(b) = &st.best {
                    reports.push(("logger", b));
                } else if pso && n > 0 {
                    return bad("swarm-without-solution", format!("event {}: a swarm with particles shows no solution to a logger ({:?})", i, what));
                }
            }
            Ev::Stop { st, .. } => {
                if let Some(b) = &st.best {
                    reports.push(("stop checker", b));
                } else if pso && n > 0 {
                    return bad("swarm-without-solution", format!("event {}: a swarm with particles shows no solution to its stop checker", i));
                }
            }
            Ev::Agents(a) => {
                for b in a {
                    reports.push(("agent", b));
                }
            }
            _ => {}
        }
        for (who, (x, v)) in reports {
            stat::hit("probe.reports_checked");
            match table.get(x) {
                None => return bad("never-evaluated", format!("event {}: {} shows point {} (value {:e}), which was not evaluated in this run", i, who, show_x(x), fval(*v))),
                Some(vs) => {
                    if !vs.contains(v) {
                        return bad("wrong-value", format!("event {}: {} shows point {} with value {:e}, the goal function returned {:?}", i, who, show_x(x), fval(*v), vs.iter().map(|b| fval(*b)).collect::<Vec<_>>()));
                    }
                }
            }
        }
    }
    Ok(())
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn runs(&self) -> (u64, u64) {
        (120_000, 1_500_000)
    }
    fn rule(&self) -> &'static str {
        "seeded sessions (run, resume, re-run, component replacement, aborts by injected panics) of GA and PSO configurations with goal faults and random-stream windows; non-trivial: at least one injected fault fired or the session has more than one run/resumption, and a solution was reported"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.reports_checked", "probe.aborted", "probe.resumed", "probe.rerun", "fault.goal_nan", "fault.goal_panic"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers, all operators, velocity rules, corrections, selections, pairings, creators", "goal function, stop decision, recording loggers")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C01", "session", 0);
        gen_cfg(r, &mut p, -1, deep);
        let total = gen_session(r, &mut p, deep);
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 1, 2, 3, 4, 5, 6, 7]);
        gen_windows(r, &mut p, evals * 2);
        if r.chance(1, 6) {
            let a = [r.range(0, evals * 4)];
            p.op("tp", &a);
        }
        p.set("agents", r.chance(1, 2) as i64);
        p.set("loggers", r.range(0, 2));
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let mut s: Session<F> = Session::new(p);
    s.rig.rec_agents.set(p.flag("agents") && s.cfg.pop <= 24);
    let mut ran = 0;
    for o in &p.ops {
        if s.step(o)? && o.k != "rep" {
            ran += 1;
            if s.aborted {
                stat::hit("probe.aborted");
            }
            if o.k == "more" {
                stat::hit("probe.resumed");
            } else if ran > 1 {
                stat::hit("probe.rerun");
            }
        }
    }
    let evs = s.rig.take();
    provenance(&evs, s.cfg.pso)?;
    if stat::get("probe.reports_checked") > 0 && (ran > 1 || FAULT_NAMES.iter().any(|k| stat::get(k) > 0)) {
        stat::nontrivial();
    }
    Ok(())
}
