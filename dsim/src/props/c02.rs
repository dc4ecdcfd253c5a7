//! C02: the swarm's best is the lowest finite value found so far.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::Plan;
use crate::prng::Rng;
use crate::stat::{self, bad, Res};
use crate::with_float;

pub struct C02;

/// The reported best value against the running minimum over finite values.
pub fn running_min(evs: &[Ev]) -> Res {
    let mut min: Option<f64> = None;
    let mut seen = 0u64;
    let mut prev: Option<f64> = None;
    for (i, e) in evs.iter().enumerate() {
        let (who, best) = match e {
            Ev::Begin => {
                min = None;
                seen = 0;
                prev = None;
                continue;
            }
            Ev::Eval(_, v) => {
                seen += 1;
                let v = fval(*v);
                if v.is_finite() && min.map_or(true, |m| v < m) {
                    min = Some(v);
                }
                continue;
            }
            Ev::Log { st, .. } => ("logger", &st.best),
            Ev::Stop { st, .. } => ("stop checker", &st.best),
            Ev::End(b) => ("result", b),
            _ => continue,
        };
        if seen == 0 {
            continue;
        }
        stat::hit("probe.bests_checked");
        let v = match best {
            None => return bad("no-best", format!("event {}: {} shows no best after {} evaluations", i, who, seen)),
            Some((_, v)) => fval(*v),
        };
        match min {
            None => {
                stat::hit("probe.only_nonfinite");
                if v.is_finite() {
                    return bad("invented-best", format!("event {}: {} shows best {:e}, no finite value was returned", i, who, v));
                }
            }
            Some(m) => {
                if v != m {
                    return bad("best-not-minimum", format!("event {}: {} shows best {:e}, the lowest finite value returned in this run is {:e}", i, who, v, m));
                }
            }
        }
        if let Some(p) = prev {
            if p.is_finite() && !(v <= p) {
                return bad("best-got-worse", format!("event {}: {} shows best {:e} after {:e}", i, who, v, p));
            }
        }
        prev = Some(v);
    }
    Ok(())
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn runs(&self) -> (u64, u64) {
        (300_000, 2_500_000)
    }
    fn rule(&self) -> &'static str {
        "seeded swarm sessions (runs, resumptions, re-runs, re-runs after aborts) over all velocity rules and corrections with non-finite values injected; non-trivial: several iterations ran and a non-finite value was returned or the session has several runs/resumptions"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.bests_checked", "probe.only_nonfinite", "probe.improved", "probe.resumed_after_abort", "fault.goal_nan", "fault.goal_pos_inf", "fault.goal_neg_inf", "fault.goal_panic"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("ParticleSwarmOptimizer, Swarm, all velocity rules, limiters, post-move corrections, initializers", "goal function, stop decision, recording loggers")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C02", "session", 0);
        gen_cfg(r, &mut p, 1, deep);
        // mostly goals whose values do not repeat
        if r.chance(1, 2) {
            p.set("goal", *r.pick(&[5, 8, 8, 9, 12, 10, 4]));
        }
        let total = gen_session(r, &mut p, deep);
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 3, 4, 5, 6, 7]);
        gen_windows(r, &mut p, evals * 2);
        if r.chance(1, 6) {
            let a = [r.range(0, evals * 4)];
            p.op("tp", &a);
        }
        p.set("loggers", r.range(1, 2));
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let mut p = p.clone();
    p.set("algo", 1);
    let p = &p;
    let mut s: Session<F> = Session::new(p);
    let mut ran = 0;
    for o in &p.ops {
        let was_aborted = s.aborted;
        if s.step(o)? {
            ran += 1;
            if was_aborted && o.k == "more" {
                stat::hit("probe.resumed_after_abort");
            }
        }
    }
    let evs = s.rig.take();
    running_min(&evs)?;
    let nonfinite = evs.iter().any(|e| matches!(e, Ev::Eval(_, v) if !fval(*v).is_finite()));
    let mut last: Option<u64> = None;
    for e in &evs {
        match e {
            Ev::Begin => last = None,
            Ev::Log { what: Lg::Iter, st, .. } => {
                let b = st.best.as_ref().map(|b| b.1);
                if last.is_some() && b != last {
                    stat::hit("probe.improved");
                }
                last = b;
            }
            _ => {}
        }
    }
    let iters = evs.iter().filter(|e| matches!(e, Ev::Log { what: Lg::Iter, l: 0, .. })).count();
    if iters > 1 && (nonfinite || ran > 1) {
        stat::nontrivial();
    }
    Ok(())
}
