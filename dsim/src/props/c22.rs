//! C22: filters reject exactly the offending individuals.
use crate::exec::Prop;
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use crate::with_float;
use optlib::genetic::selection::KillFitnessNaN;
use optlib::genetic::{self, GeneticOptimizer, Population, PreBirth, Selection};
use optlib::Optimizer;

pub struct C22;

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn runs(&self) -> (u64, u64) {
        (360_000, 4_000_000)
    }
    fn rule(&self) -> &'static str {
        "evolving populations of vectors drawn from a palette of boundary values (on, just inside and just outside the interval ends, NaN, infinities, signed zeros), filters in every order after scripted deaths; non-trivial: a filter saw both an offending and an innocent individual"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.fitness_killed", "probe.fitness_kept", "probe.interval_killed", "probe.interval_kept", "probe.birth_removed", "probe.birth_kept", "probe.dead_before", "fault.goal_nan", "fault.goal_pos_inf", "fault.goal_neg_inf"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("KillFitnessNaN, CheckChromoInterval (selection and pre-birth), GeneticOptimizer, Population", "goal, creator, pairing, crossing, mutation, scripted deaths")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C22", "lab", 0);
        p.set("f32", r.range(0, 1));
        p.set("dim", if r.chance(1, 60) { r.range(40, 130) } else if r.chance(1, 10) { r.range(10, 40) } else { r.size(1, 6) });
        p.set("ivl", r.range(0, 60));
        p.set("n", if r.chance(1, 80) { r.range(120, 560) } else if deep && r.chance(1, 20) { r.range(20, 120) } else { r.size(0, 16) });
        p.set("iters", r.range(1, 4));
        p.set("births", r.size(0, 8));
        p.set("order", r.range(0, 5));
        p.set("deaths", r.range(0, 3));
        p.set("pre", r.range(0, 2));
        p.set("wild", r.range(0, 6));
        p.set("salt", r.range(0, 1 << 40));
        p.set("goal", *r.pick(&[5, 8, 8, 13, 6, 9]));
        let evals = 40;
        gen_goal_faults(r, &mut p, evals, &[1, 2, 3, 5, 6, 7]);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        with_float!(p, go(p))
    }
}

/// A gene from the palette; `wild` = how often (of 8) it may be outside.
fn gene<F: Fl>(iv: (F, F), h: u64, wild: u64) -> F {
    let (lo, hi) = iv;
    let u = F::of((mix(h) >> 11) as f64 / (1u64 << 53) as f64);
    if mix(h ^ 5) % 8 < wild {
        match h % 10 {
            0 => lo.down(),
            1 => hi.up(),
            2 => F::of(nan_of(mix(h))),
            3 => F::infinity(),
            4 => F::neg_infinity(),
            5 => -F::zero(),
            6 => F::max_value(),
            7 => F::min_value(),
            8 => F::zero(),
            _ => hi + (hi - lo),
        }
    } else {
        match h % 6 {
            0 => lo,
            1 => hi,
            2 => lo.up(),
            3 => hi.down(),
            _ => {
                let v = lo + (hi - lo) * u;
                if v < lo {
                    lo
                } else if v > hi {
                    hi
                } else {
                    v
                }
            }
        }
    }
}

fn inside<F: Fl>(x: &[F], iv: &[(F, F)]) -> bool {
    x.iter().zip(iv).all(|(v, (lo, hi))| v.is_finite() && *v >= *lo && *v <= *hi)
}

fn check_filter<F: Fl>(before: &[Ind], pop: &Population<Vec<F>>, kill: impl Fn(usize) -> bool, what: &'static str) {
    let after = inds(pop);
    if after.len() != before.len() {
        return stat::fail("population-changed", format!("{}: {} individuals became {}", what, before.len(), after.len()));
    }
    let (mut k, mut l) = (0, 0);
    for (i, (b, a)) in before.iter().zip(&after).enumerate() {
        let must_die = kill(i);
        if b.x != a.x || b.v != a.v {
            return stat::fail("individual-changed", format!("{}: individual {} was {:?} and is {:?}", what, i, b, a));
        }
        if !b.alive {
            if a.alive {
                return stat::fail("revived", format!("{}: individual {} {:?}", what, i, b));
            }
            stat::hit("probe.dead_before");
            continue;
        }
        if a.alive == must_die {
            return stat::fail(if must_die { "offender-kept" } else { "innocent-killed" }, format!("{}: individual {} chromosomes {} fitness {:e} is {}", what, i, show_x(&b.x), b.val(), if a.alive { "kept" } else { "killed" }));
        }
        if must_die {
            k += 1
        } else {
            l += 1
        }
        stat::mark(hash_x(&b.x, must_die as u64));
    }
    let (pk, pl) = if what == "fitness filter" { ("probe.fitness_killed", "probe.fitness_kept") } else { ("probe.interval_killed", "probe.interval_kept") };
    stat::add(pk, k);
    stat::add(pl, l);
    if k > 0 && l > 0 {
        stat::nontrivial();
    }
}

fn go<F: Fl>(p: &Plan) -> Res {
    let dim = p.get("dim", 1, 1, 140) as usize;
    let iv: Vec<(F, F)> = intervals(p.get("ivl", 0, 0, 100), dim);
    let n = p.get("n", 1, 0, 600) as u64;
    let iters = p.get("iters", 1, 1, 10) as usize;
    let births = p.get("births", 0, 0, 20) as u64;
    let order = p.get("order", 0, 0, 5);
    let deaths = p.get("deaths", 0, 0, 3) as u64;
    let pre = p.get("pre", 0, 0, 2);
    let salt = p.get("salt", 0, 0, i64::MAX) as u64;
    let wild = p.get("wild", 1, 0, 8) as u64;
    let rig = Rig::new(goal_spec(p));
    let count = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let make = {
        let iv = iv.clone();
        let count = count.clone();
        move || -> Vec<F> {
            let c = count.get();
            count.set(c + 1);
            // half of the vectors are innocent throughout
            let w = if mix(salt ^ c) % 2 == 0 { 0 } else { wild };
            iv.iter().enumerate().map(|(i, v)| gene(*v, mix(salt ^ mix(c * 64 + i as u64)), w)).collect()
        }
    };
    let (m1, m2) = (make.clone(), make);
    let mut fit = KillFitnessNaN::new();
    let mut chk = genetic::selection::vec_float::CheckChromoInterval::new(iv.clone());
    let iv1 = iv.clone();
    let mut k = 0u64;
    let sel = FnSel(Box::new(move |pop: &mut Population<Vec<F>>| {
        k += 1;
        if deaths > 0 {
            let mut j = 0;
            for i in pop.iter_mut() {
                j += 1;
                if mix(salt ^ k * 1000 ^ j) % 4 < deaths {
                    i.kill();
                }
            }
        }
        let seq: &[i64] = match order {
            0 => &[0, 1],
            1 => &[1, 0],
            2 => &[0],
            3 => &[1],
            4 => &[0, 0, 1, 1],
            _ => &[1, 0, 1, 0],
        };
        for s in seq {
            let before = inds(pop);
            if *s == 0 {
                fit.kill(pop);
                check_filter(&before, pop, |i| !before[i].val().is_finite(), "fitness filter");
            } else {
                let vals: Vec<Vec<F>> = pop.iter().map(|i| i.get_chromosomes().clone()).collect();
                chk.kill(pop);
                check_filter(&before, pop, |i| !inside(&vals[i], &iv1), "interval filter");
            }
        }
    }));
    let mut birth = genetic::pre_birth::vec_float::CheckChromoInterval::new(iv.clone());
    let iv2 = iv.clone();
    let pres: Vec<Box<dyn PreBirth<Vec<F>>>> = (0..pre.min(1))
        .map(|_| -> Box<dyn PreBirth<Vec<F>>> {
            let mut b = std::mem::replace(&mut birth, genetic::pre_birth::vec_float::CheckChromoInterval::new(vec![]));
            let iv = iv2.clone();
            Box::new(FnPre(Box::new(move |pop: &Population<Vec<F>>, list: &mut Vec<Vec<F>>| {
                for _ in 0..pre {
                    let before = list.clone();
                    b.pre_birth(pop, list);
                    let want: Vec<X> = before.iter().filter(|x| inside(x, &iv)).map(|x| x.x()).collect();
                    let got: Vec<X> = list.iter().map(|x| x.x()).collect();
                    stat::add("probe.birth_kept", want.len() as u64);
                    stat::add("probe.birth_removed", (before.len() - want.len()) as u64);
                    if !want.is_empty() && want.len() < before.len() {
                        stat::nontrivial();
                    }
                    if want != got {
                        return stat::fail("pre-birth-check", format!("of {:?} in {:?} kept {:?}", before, iv, list));
                    }
                }
            })))
        })
        .collect();
    let mut ga = GeneticOptimizer::new(
        Box::new(SimGoal { rig: rig.clone() }),
        Box::new(FnStop(Box::new(move |s| s.get_iteration() >= iters))),
        Box::new(FnCreator(Box::new(move || (0..n).map(|_| m1()).collect()))),
        Box::new(FnPairing(Box::new(move |_| if births == 0 { vec![] } else { vec![vec![]] }))),
        Box::new(FnCross(Box::new(move |_| (0..births).map(|_| m2()).collect()))),
        Box::new(FnMutation(Box::new(|t: &Vec<F>| t.clone()))),
        vec![Box::new(sel)],
        pres,
    );
    ga.find_min();
    Ok(())
}
