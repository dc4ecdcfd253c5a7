//! C05: a bounded search never evaluates a point outside its box.
use crate::exec::Prop;
use crate::kit::*;
use crate::plan::Plan;
use crate::prng::Rng;
use crate::stat::{self, bad, Res};
use crate::with_float;

pub struct C05;

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn runs(&self) -> (u64, u64) {
        (450_000, 5_000_000)
    }
    fn rule(&self) -> &'static str {
        "sessions of swarms ending their corrections with the boundary correction or the teleport, and of genetic algorithms filtering by the interval check, with components made to emit NaN, infinite, huge and edge values, goal faults, misbehaving stretches of the random stream; non-trivial: a raw value outside the box was produced (wild component) or a birth was filtered"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.points_checked", "probe.on_the_edge", "probe.swarm", "probe.wide_teleport", "probe.fixed_coordinate", "probe.prebirth", "probe.selection", "fault.wild_component", "fault.rng_all_zero", "fault.rng_all_one", "probe.survivors_checked"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("both optimizers, MoveToBoundary, RandomTeleport, CheckChromoInterval (both), initializers, creators, operators, velocity rules", "goal function, stop decision, wild wrappers around real components")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C05", "box", 0);
        gen_cfg(r, &mut p, -1, deep);
        p.set("pm", r.range(1, 4));
        p.set("inner", if r.chance(1, 3) { r.range(1, 1000) } else { 0 });
        if r.chance(1, 2) {
            p.set("pre", 1);
        } else {
            p.set("pre", 0);
            p.set("sel", *r.pick(&[1, 2, 5]));
        }
        p.set("wild", *r.pick(&[0, 1, 5, 20, 60]));
        p.set("ivl", r.range(0, 40));
        let total = gen_session(r, &mut p, deep);
        let evals = (total + 1) * p.p["pop"];
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 4, 5, 7]);
        gen_windows(r, &mut p, evals * 2);
        p.set("loggers", r.range(0, 1));
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

fn inside<F: Fl>(x: &[u64], iv: &[(F, F)]) -> bool {
    x.len() == iv.len()
        && x.iter().zip(iv).all(|(b, (lo, hi))| {
            let v = F::of_bits(*b);
            if v == *lo || v == *hi {
                stat::hit("probe.on_the_edge");
            }
            v >= *lo && v <= *hi
        })
}

fn go<F: Fl>(p: &Plan) -> Res {
    install_windows(p);
    let mut s: Session<F> = Session::new(p);
    // the goal function is guarded by the corrections or by the pre-birth check
    let guarded = s.cfg.pso && s.cfg.pm > 0 || !s.cfg.pso && s.cfg.pre == 1;
    let filtered = !s.cfg.pso && matches!(s.cfg.sel, 1 | 2 | 5);
    if !guarded && !filtered {
        return Ok(());
    }
    s.rig.rec_agents.set(filtered);
    if s.cfg.pso && s.cfg.pm == 4 && s.cfg.tele > 0.0 {
        stat::hit("probe.wide_teleport");
    }
    stat::hit(if s.cfg.pso {
        "probe.swarm"
    } else if guarded {
        "probe.prebirth"
    } else {
        "probe.selection"
    });
    for o in &p.ops {
        s.step(o)?;
    }
    let iv = if s.cfg.pso { s.cfg.bounds::<F>() } else { s.cfg.ivs::<F>() };
    if s.cfg.pso && iv.iter().any(|(lo, hi)| lo == hi) {
        stat::hit("probe.fixed_coordinate");
    }
    let show = |x: &X| format!("{} not in {:?}", show_x(x), iv);
    let mut first = true;
    // an aborted generation has not been filtered yet
    let mut aborted = false;
    for (i, e) in s.rig.take().iter().enumerate() {
        match e {
            Ev::Eval(x, _) | Ev::EvalPanic(x) if guarded => {
                stat::hit("probe.points_checked");
                if !inside(x, &iv) {
                    return bad("evaluated-outside", format!("event {}: {}", i, show(x)));
                }
            }
            Ev::End(Some((x, _))) if (guarded || !aborted) && !inside(x, &iv) => return bad("reported-outside", format!("event {}: result {}", i, show(x))),
            Ev::Log { st, .. } | Ev::Stop { st, .. } => {
                first = true;
                if aborted && !guarded {
                    continue;
                }
                if let Some((x, _)) = &st.best {
                    if !inside(x, &iv) {
                        return bad("reported-outside", format!("event {}: {}", i, show(x)));
                    }
                }
            }
            Ev::Abort => aborted = true,
            Ev::Begin => aborted = false,
            // the first population shown in an iteration (to the pairing) are the survivors
            Ev::Agents(a) if filtered && !aborted => {
                if first {
                    for (x, _) in a {
                        stat::hit("probe.survivors_checked");
                        if !inside(x, &iv) {
                            return bad("survived-outside", format!("event {}: {}", i, show(x)));
                        }
                    }
                }
                first = false;
            }
            _ => {}
        }
    }
    if stat::get("fault.wild_component") > 0 || stat::get("fault.goal_panic") > 0 || s.cfg.wild == 0 {
        stat::nontrivial();
    }
    Ok(())
}
