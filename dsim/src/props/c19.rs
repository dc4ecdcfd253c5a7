//! C19: pairing selects valid families; tournaments are won by the best.
use crate::exec::Prop;
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use optlib::genetic::pairing::{RandomPairing, Tournament};
use optlib::genetic::{GeneticOptimizer, Pairing, Population};
use optlib::{Agent, Optimizer};
use std::cell::Cell;
use std::rc::Rc;

pub struct C19;

impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn runs(&self) -> (u64, u64) {
        (180_000, 600_000)
    }
    fn rule(&self) -> &'static str {
        "evolving tagged populations (0..60 individuals, ties, NaN, infinities) with the real pairings called at every generation, under free, stuck and extreme random streams; statistical runs sample thousands of families; non-trivial: a family was drawn from a population of two or more, or the population was empty"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.empty_population", "probe.single", "probe.with_nan", "probe.stat_runs", "probe.many_rounds", "probe.stat_many", "fault.rng_all_one", "fault.rng_all_zero", "fault.rng_stuck"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("RandomPairing, Tournament, GeneticOptimizer, Population", "goal (scripted fitness), creator, crossing, mutation, selection (scripted)")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let stat = r.chance(1, 12);
        let mut p = Plan::new("C19", if stat { "stat" } else { "shape" }, 0);
        gen_dist(r, &mut p);
        p.set("n", if r.chance(1, 12) { 0 } else if !stat && r.chance(1, 60) { r.range(200, 560) } else if stat && r.chance(1, 40) { r.range(200, 600) } else { r.size(1, if stat { 16 } else { 60 }) });
        p.set("tournament", r.chance(3, 4) as i64);
        p.set("default", r.chance(1, 8) as i64);
        p.set("fam", if !stat && r.chance(1, 100) { r.range(21, 600) } else { r.size(0, 20) });
        p.set("partners", if !stat && r.chance(1, 60) { r.range(7, 70) } else { r.size(0, 6) });
        p.set("rounds", if r.chance(1, 6) { r.range(100, 400) } else { r.size(0, 8) });
        p.set("iters", if stat { 1 } else { r.range(1, 8) });
        if stat {
            p.set("samples", if deep { 8000 } else { 3000 });
        } else {
            gen_windows(r, &mut p, 400);
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        go(p)
    }
}

struct Set {
    tournament: bool,
    fam: usize,
    partners: usize,
    rounds: usize,
    stat: bool,
    samples: u64,
    windows: bool,
}

fn check(s: &Set, real: &mut dyn Pairing<u64>, pop: &Population<u64>) {
    let n = pop.len();
    let vals: Vec<f64> = pop.iter().map(|i| i.get_goal()).collect();
    if n == 0 {
        stat::hit("probe.empty_population");
        stat::nontrivial();
    } else if n == 1 {
        stat::hit("probe.single");
    }
    if vals.iter().any(|v| v.is_nan()) && vals.iter().any(|v| !v.is_nan()) {
        stat::hit("probe.with_nan");
    }
    let families = real.get_pairs(pop);
    for f in &families {
        for i in f {
            stat::mark(*i as u64);
        }
    }
    let (count, size) = if n == 0 {
        (0, 0)
    } else if s.tournament {
        (s.fam, s.partners)
    } else {
        (n / 2, 2)
    };
    if families.len() != count {
        return stat::fail("family-count", format!("{} families instead of {} from a population of {}", families.len(), count, n));
    }
    for f in &families {
        if f.len() != size {
            return stat::fail("family-size", format!("family {:?} has {} members instead of {}", f, f.len(), size));
        }
        if f.iter().any(|i| *i >= n) {
            return stat::fail("invalid-index", format!("family {:?} in a population of {}", f, n));
        }
        if n >= 2 && !f.is_empty() {
            stat::nontrivial();
        }
    }
    // with very many rounds the winner must be among the very best
    if s.tournament && !s.windows && n >= 2 {
        let k = 1.0 + s.rounds as f64;
        let best = vals.iter().cloned().fold(f64::NAN, |a, b| if better(b, a) { b } else { a });
        let nbest = vals.iter().filter(|v| **v == best).count();
        if !best.is_nan() && k * (1.0 / (1.0 - nbest as f64 / n as f64)).ln() > SURPRISE + 10.0 {
            stat::hit("probe.many_rounds");
            for f in &families {
                for i in f {
                    if vals[*i] != best {
                        return stat::fail("tournament-lost-by-best", format!("after {} rounds in {:?} the winner is {} (value {:e}), the best value is {:e}", s.rounds, vals, i, vals[*i], best));
                    }
                }
            }
        }
    }
    if !s.stat || n == 0 || count == 0 || size == 0 {
        return;
    }
    // frequencies
    stat::hit("probe.stat_runs");
    if n > 256 {
        stat::hit("probe.stat_many");
    }
    let mut hits = vec![0u64; n];
    // by position in the family: how many, in the upper half, the upper quarter, odd
    let mut place = vec![[0u64; 4]; size];
    let mut m = 0u64;
    let k = if s.tournament { 1 + s.rounds as i32 } else { 1 };
    // individuals that a tournament cannot tell apart are one class; a lottery tells all apart
    let class: Vec<usize> = (0..n).map(|i| if k == 1 { i } else { (0..n).filter(|j| better(vals[i], vals[*j])).count() }).collect();
    // the chance that two independent winners are of one class
    let same: f64 = if k == 1 {
        1.0 / n as f64
    } else {
        let mut c = class.clone();
        c.sort();
        c.dedup();
        let up_to = |x: usize| ((0..n).filter(|i| class[*i] <= x).count() as f64 / n as f64).powi(k);
        let below = |x: usize| (x as f64 / n as f64).powi(k);
        c.iter().map(|x| (up_to(*x) - below(*x)).powi(2)).sum()
    };
    // by pair of positions in one family and by position in two successive families
    let mut pairs = vec![0u64; size * size];
    let mut next = vec![0u64; size];
    let (mut families, mut twos) = (0u64, 0u64);
    let per = (count * size) as u64;
    let want = s.samples.max(80 * n as u64);
    // long tournaments cost draws; keep the run bounded
    let rounds = (want / per + 1).min(400_000 / (per * (1 + s.rounds as u64)) + 1);
    let mut last: Option<Vec<usize>> = None;
    for _ in 0..rounds {
        for f in real.get_pairs(pop) {
            for (j, i) in f.iter().enumerate() {
                if *i >= n {
                    return stat::fail("invalid-index", format!("family {:?} in a population of {}", f, n));
                }
                hits[*i] += 1;
                place[j][0] += 1;
                place[j][1] += (*i >= n / 2) as u64;
                place[j][2] += (*i >= n - n / 4) as u64;
                place[j][3] += (*i % 2 == 1) as u64;
                m += 1;
                for h in 0..j.min(8) {
                    pairs[h * size + j] += (class[f[h]] == class[*i]) as u64;
                }
                if let Some(l) = &last {
                    next[j] += (class[l[j]] == class[*i]) as u64;
                }
            }
            families += 1;
            // every family belongs to one comparison only, so that comparisons are independent
            last = if last.is_some() {
                twos += 1;
                None
            } else {
                Some(f)
            };
        }
    }
    for j in 0..size {
        for h in 0..j.min(8) {
            let c = pairs[h * size + j];
            if surprise(c, families, same) > SURPRISE {
                return stat::fail("partners-dependent", format!("values {:?}: members {} and {} of a family are alike {} of {} times after {} draws each, expected share {:.6}", vals, h, j, c, families, k, same));
            }
        }
        if surprise(next[j], twos, same) > SURPRISE {
            return stat::fail("families-dependent", format!("values {:?}: members {} of successive families are alike {} of {} times after {} draws each, expected share {:.6}", vals, j, next[j], twos, k, same));
        }
    }
    // the winner is worse than value v with probability (share of individuals worse than v)^k
    for t in 0..n {
        let worse = |i: usize| better(vals[t], vals[i]);
        let share = (0..n).filter(|i| worse(*i)).count() as f64 / n as f64;
        let obs: u64 = (0..n).filter(|i| worse(*i)).map(|i| hits[i]).sum();
        if surprise(obs, m, share.powi(k)) > SURPRISE {
            return stat::fail("selection-pressure", format!("values {:?}: {} of {} winners worse than {:e} after {} draws each, expected share {:.6}", vals, obs, m, vals[t], k, share.powi(k)));
        }
    }
    if k == 1 {
        for i in 0..n {
            if surprise(hits[i], m, 1.0 / n as f64) > SURPRISE {
                return stat::fail("not-uniform", format!("individual {} of {} drawn {} times in {}", i, n, hits[i], m));
            }
        }
        for (j, c) in place.iter().enumerate() {
            for (k, (what, share)) in [("upper half", n - n / 2), ("upper quarter", n / 4), ("odd", n / 2)].iter().enumerate() {
                if surprise(c[k + 1], c[0], *share as f64 / n as f64) > SURPRISE {
                    return stat::fail("not-uniform", format!("member {} of a family is among the {} ({}) of {} individuals {} of {} times", j, share, what, n, c[k + 1], c[0]));
                }
            }
        }
    } else {
        // every individual that can win (a tie or better than someone) does win sometimes
        for i in 0..n {
            let not_better = (0..n).filter(|j| !better(vals[*j], vals[i])).count() as f64 / n as f64;
            // drawn first, then only challengers that are not better
            let p = (1.0 / n as f64) * not_better.powi(k - 1);
            if hits[i] == 0 && m as f64 * p > SURPRISE {
                return stat::fail("never-eligible", format!("values {:?}: individual {} never won in {} draws", vals, i, m));
            }
        }
    }
}

fn go(p: &Plan) -> Res {
    install_windows(p);
    let (dist, salt) = (p.get("dist", 0, 0, DISTS), p.get("salt", 0, 0, i64::MAX) as u64);
    let n = p.get("n", 1, 0, 600) as u64;
    let iters = p.get("iters", 1, 1, 20) as usize;
    let default = p.flag("default");
    let mut set = Set {
        tournament: p.flag("tournament"),
        fam: p.get("fam", 1, 0, 600) as usize,
        partners: p.get("partners", 2, 0, 70) as usize,
        rounds: p.get("rounds", 1, 0, 500) as usize,
        stat: p.scenario == "stat",
        samples: p.get("samples", 1000, 0, 20_000) as u64,
        windows: p.ops_of("rw").next().is_some(),
    };
    let mut real: Box<dyn Pairing<u64>> = if set.tournament {
        if default {
            set.partners = 2;
            set.rounds = 1;
            Box::new(Tournament::new(set.fam))
        } else {
            Box::new(Tournament::new(set.fam).rounds_count(set.rounds).partners_count(set.partners))
        }
    } else {
        Box::new(RandomPairing::new())
    };
    let tags = Rc::new(Cell::new(n));
    let t2 = tags.clone();
    let mut step = 0u64;
    let mut ga = GeneticOptimizer::new(
        Box::new(FnGoal(Box::new(move |t: &u64| tag_value(dist, salt, *t)))),
        Box::new(FnStop(Box::new(move |s| s.get_iteration() >= iters))),
        Box::new(FnCreator(Box::new(move || (0..n).collect()))),
        Box::new(FnPairing(Box::new(move |pop| {
            check(&set, &mut *real, pop);
            // churn: a scripted number of births
            step += 1;
            let births = mix(salt ^ step) % 5;
            if pop.len() == 0 {
                vec![]
            } else {
                (0..births).map(|_| vec![0]).collect()
            }
        }))),
        Box::new(FnCross(Box::new(move |_| {
            let t = t2.get();
            t2.set(t + 1);
            vec![t]
        }))),
        Box::new(FnMutation(Box::new(|t: &u64| *t))),
        vec![Box::new(FnSel(Box::new(move |pop: &mut Population<u64>| {
            for i in pop.iter_mut() {
                if mix(*i.get_chromosomes() ^ salt ^ 77) % 4 == 0 {
                    i.kill();
                }
            }
        })))],
        vec![],
    );
    ga.find_min();
    Ok(())
}
