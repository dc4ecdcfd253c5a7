//! C04: limiting the population kills exactly the surplus worst individuals.
use crate::exec::Prop;
use crate::lab::*;
use crate::plan::{Op, Plan};
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use optlib::genetic::selection::{kill_worst, KillFitnessNaN, LimitPopulation};
use optlib::genetic::{GeneticOptimizer, Population, Selection};
use optlib::{IterativeOptimizer, Optimizer};
use std::cell::Cell;
use std::rc::Rc;

pub struct C04;

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn runs(&self) -> (u64, u64) {
        (600_000, 6_000_000)
    }
    fn rule(&self) -> &'static str {
        "evolving tagged populations; per generation a scripted sequence of deaths, limits and kill_worst calls on the living population; non-trivial: at least one individual had to be killed by a limit or kill_worst while another had to be kept"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.limit_exceeded", "probe.limit_not_exceeded", "probe.limit_zero", "probe.dead_before", "probe.first_dead", "probe.ties_at_the_edge", "probe.nan_present", "probe.kill_all", "probe.kill_none"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("LimitPopulation, kill_worst, KillFitnessNaN, GeneticOptimizer, Population", "goal (scripted fitness), creator, pairing, crossing, mutation, scripted deaths")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C04", "lab", 0);
        gen_dist(r, &mut p);
        let n = if r.chance(1, 80) { r.range(120, 560) } else if r.chance(1, 20) { r.range(30, if deep { 300 } else { 120 }) } else { r.size(0, 12) };
        p.set("n", n);
        let iters = r.range(1, 5);
        p.set("iters", iters);
        p.set("births", r.size(0, 8));
        p.set("pause", r.range(0, 5));
        for it in 0..iters {
            for _ in 0..r.range(1, 4) {
                let k = r.range(0, 4);
                let a = match k {
                    0 => r.range(0, 1 << 20),
                    3 => r.range(0, n + 2),
                    _ => *r.pick(&[0, 1, 1, 2, n / 2, n - 1, n, n + 3, r.clone().range(0, n + 8)]),
                };
                p.op("sel", &[it, k, a]);
            }
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        go(p)
    }
}

/// The law of a limit: `killed` of the living die, no killed one strictly
/// better than a kept one, the dead stay dead, nothing else changes.
pub fn check_cull(before: &[Ind], after: &[Ind], kill: usize, what: &str) -> bool {
    let show = || format!("{}: before {:?}, after {:?}", what, before.iter().map(|i| (i.val(), i.alive)).collect::<Vec<_>>(), after.iter().map(|i| (i.val(), i.alive)).collect::<Vec<_>>());
    if before.len() != after.len() || before.iter().zip(after).any(|(b, a)| b.x != a.x || b.v != a.v) {
        stat::fail("individuals-changed", show());
        return false;
    }
    if before.iter().zip(after).any(|(b, a)| !b.alive && a.alive) {
        stat::fail("revived", show());
        return false;
    }
    let killed: Vec<f64> = before.iter().zip(after).filter(|(b, a)| b.alive && !a.alive).map(|(b, _)| b.val()).collect();
    let kept: Vec<f64> = after.iter().filter(|a| a.alive).map(|a| a.val()).collect();
    if killed.len() != kill {
        stat::fail("wrong-number-killed", format!("{} killed instead of {}; {}", killed.len(), kill, show()));
        return false;
    }
    for k in &killed {
        for j in &kept {
            if better(*k, *j) {
                stat::fail("better-one-killed", format!("{:e} killed, {:e} kept; {}", k, j, show()));
                return false;
            }
        }
    }
    if killed.iter().any(|k| kept.iter().any(|j| k == j)) {
        stat::hit("probe.ties_at_the_edge");
    }
    if !killed.is_empty() && !kept.is_empty() {
        stat::nontrivial();
    }
    true
}

fn apply(o: &Op, limit: &mut LimitPopulation, pop: &mut Population<u64>) {
    let before = inds(pop);
    let living = before.iter().filter(|i| i.alive).count();
    let arg = o.arg(2);
    match o.argc(1, 0, 4) {
        0 => {
            // scripted deaths
            for i in pop.iter_mut() {
                if mix(*i.get_chromosomes() ^ arg as u64) % 3 == 0 {
                    i.kill();
                }
            }
            return;
        }
        4 => {
            let mut k = KillFitnessNaN::new();
            k.kill(pop);
            return;
        }
        k @ (1 | 2) => {
            let m = arg.clamp(0, 1000) as usize;
            if k == 1 {
                LimitPopulation::new(m).kill(pop);
            } else {
                limit.set_limit(m);
                limit.kill(pop);
            }
            let kill = living.saturating_sub(m);
            stat::hit(if kill > 0 { "probe.limit_exceeded" } else { "probe.limit_not_exceeded" });
            if m == 0 {
                stat::hit("probe.limit_zero");
            }
            note(&before, kill, living);
            check_cull(&before, &inds(pop), kill, &format!("limit {}", m));
        }
        _ => {
            let c = (arg.clamp(0, 1000) as usize).min(living);
            kill_worst(pop, c);
            note(&before, c, living);
            check_cull(&before, &inds(pop), c, &format!("kill_worst {}", c));
        }
    }
    for i in inds(pop) {
        stat::mark(i.x[0] * 2 + i.alive as u64);
    }
}

fn note(before: &[Ind], kill: usize, living: usize) {
    if before.iter().any(|i| !i.alive) {
        stat::hit("probe.dead_before");
        if !before[0].alive {
            stat::hit("probe.first_dead");
        }
    }
    if before.iter().any(|i| i.alive && i.val().is_nan()) {
        stat::hit("probe.nan_present");
    }
    if kill == living && living > 0 {
        stat::hit("probe.kill_all");
    }
    if kill == 0 {
        stat::hit("probe.kill_none");
    }
}

fn go(p: &Plan) -> Res {
    let (dist, salt) = (p.get("dist", 0, 0, DISTS), p.get("salt", 0, 0, i64::MAX) as u64);
    let n = p.get("n", 1, 0, 600) as u64;
    let iters = p.get("iters", 1, 1, 12) as usize;
    let births = p.get("births", 0, 0, 20) as u64;
    let pause = p.get("pause", 0, 0, 12) as usize;
    let ops: Vec<Op> = p.ops_of("sel").cloned().collect();
    let target = Rc::new(Cell::new(iters));
    let t1 = target.clone();
    let mut next = n;
    let it = Rc::new(Cell::new(0i64));
    let mut limit = LimitPopulation::new(5);
    let mut ga = GeneticOptimizer::new(
        Box::new(FnGoal(Box::new(move |t: &u64| tag_value(dist, salt, *t)))),
        Box::new(FnStop(Box::new(move |s| s.get_iteration() >= t1.get()))),
        Box::new(FnCreator(Box::new(move || (0..n).collect()))),
        Box::new(FnPairing(Box::new(move |_| if births == 0 { vec![] } else { vec![vec![]] }))),
        Box::new(FnCross(Box::new(move |_| {
            next += births;
            (next - births..next).collect()
        }))),
        Box::new(FnMutation(Box::new(|t: &u64| *t))),
        vec![Box::new(FnSel(Box::new(move |pop: &mut Population<u64>| {
            let k = it.get();
            it.set(k + 1);
            for o in ops.iter().filter(|o| o.argc(0, 0, 11) == k) {
                apply(o, &mut limit, pop);
            }
        })))],
        vec![],
    );
    if pause > 0 && pause < iters {
        target.set(pause);
        ga.find_min();
        target.set(iters);
        ga.next_iterations();
    } else {
        ga.find_min();
    }
    Ok(())
}
