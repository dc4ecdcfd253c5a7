//! C28: every view a component has of the population or swarm is one coherent,
//! current state.
use crate::exec::{guard, Injected, Prop};
use crate::kit::*;
use crate::lab::*;
use crate::plan::{Op, Plan};
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use crate::with_float;
use optlib::genetic::pairing::{RandomPairing, Tournament};
use optlib::genetic::selection::{KillFitnessNaN, LimitPopulation};
use optlib::genetic::{GeneticOptimizer, Individual, Pairing, Population, Selection};
use optlib::particleswarm::{Particle, ParticleSwarmOptimizer, PostMove, Swarm};
use optlib::tools::logging::Logger;
use optlib::{Agent, AgentsState, AlgorithmState, IterativeOptimizer, Optimizer};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct C28;

impl Prop for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn runs(&self) -> (u64, u64) {
        (180_000, 2_500_000)
    }
    fn rule(&self) -> &'static str {
        "runs, pauses, aborts and re-runs with components that look at the population or swarm in every way the interface offers, before, between and after kills, births and moves, against a model of who is in it; `ga` tagged individuals with real and scripted pairings and selections, `pso` particles with numbered positions; non-trivial: a population or swarm of two or more was looked at after an iteration"
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "probe.pairing_looked", "probe.pre_birth_looked", "probe.selection_looked", "probe.dead_listed", "probe.killed_by_index", "probe.killed_by_iter", "probe.first_pairing_of_rerun", "probe.rerun_after_abort", "probe.best_seen", "probe.worst_seen",
            "probe.resumed_after_abort", "probe.empty", "probe.clone_dead", "probe.swarm_looked", "probe.swarm_half_moved", "probe.swarm_empty", "fault.component_panic",
        ]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("GeneticOptimizer, Population, Individual, ParticleSwarmOptimizer, Swarm, Particle, RandomPairing, Tournament, KillFitnessNaN, LimitPopulation", "goal, creator, crossing, mutation, looking components, initializers, velocity rule (scripted)")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let ga = r.chance(2, 3);
        let mut p = Plan::new("C28", if ga { "ga" } else { "pso" }, 0);
        gen_dist(r, &mut p);
        p.set("f32", r.range(0, 1));
        let n = if r.chance(1, 20) { r.range(15, if deep { 150 } else { 60 }) } else { r.size(0, 12) };
        p.set("n", n);
        p.set("dim", if r.chance(1, 100) { r.range(6, 140) } else { r.size(1, 5) });
        p.set("births", r.size(0, 4));
        p.set("pairing", r.range(0, 2));
        p.set("fam", r.size(0, 8));
        p.set("limit", r.range(0, n + 4));
        p.set("order", r.range(0, 7));
        p.set("deaths", r.range(0, 4));
        let mut total = 0;
        for i in 0..r.range(1, 5) {
            let t = if r.chance(1, 30) { r.range(15, 60) } else { r.size(0, 6) };
            total += t + 1;
            if i > 0 && r.chance(1, 2) {
                p.op("more", &[t]);
            } else {
                p.op("run", &[t]);
            }
        }
        lengthen(r, &mut p, 200, &[("n", 3), ("dim", 2), ("births", 1), ("fam", 2)]);
        if r.chance(2, 5) {
            for _ in 0..r.range(1, 3) {
                let a = [r.range(0, total * (6 + 2 * n))];
                p.op("tp", &a);
            }
        }
        p
    }
    fn run(&self, p: &Plan) -> Res {
        if p.scenario == "pso" {
            with_float!(p, pso(p))
        } else {
            ga(p)
        }
    }
}

struct Taps {
    n: Cell<u64>,
    at: BTreeSet<u64>,
}
impl Taps {
    fn of(p: &Plan) -> Rc<Taps> {
        Rc::new(Taps { n: Cell::new(0), at: p.ops_of("tp").map(|o| o.argc(0, 0, i64::MAX) as u64).collect() })
    }
    fn hit(&self, what: &'static str) {
        let n = self.n.get();
        self.n.set(n + 1);
        if self.at.contains(&n) {
            stat::hit("fault.component_panic");
            std::panic::panic_any(Injected(what));
        }
    }
}

// ------------------------------------------------------------------ genetic

#[derive(Default)]
struct M {
    /// who is in the population (tag -> alive), None: find out at the next look
    members: Option<BTreeMap<u64, bool>>,
    /// after an abort: who must be there
    must: BTreeSet<u64>,
    /// ... and who may be
    may: BTreeSet<u64>,
    /// evaluated in this run
    value: BTreeMap<u64, f64>,
    /// born in this iteration
    newborn: BTreeSet<u64>,
    /// the initialization of the run is not over
    init: bool,
    /// selections of this iteration finished
    sel: usize,
    iter: usize,
    iter_known: bool,
    looks: u64,
    runs: u64,
}

impl M {
    /// the population between two iterations
    fn settle(&mut self, nsel: usize) {
        if self.sel == nsel && nsel > 0 {
            if let Some(m) = &mut self.members {
                m.retain(|_, a| *a);
            }
            self.newborn.clear();
            self.iter += 1;
            stat::mark(self.iter as u64);
            self.sel = 0;
        }
    }
    fn end_init(&mut self) {
        if self.init {
            self.init = false;
            self.newborn.clear();
        }
    }
    fn born(&mut self, t: u64, v: f64) {
        self.value.insert(t, v);
        self.newborn.insert(t);
        if let Some(m) = &mut self.members {
            m.insert(t, true);
        }
    }
}

fn one(i: &Individual<u64>) -> (u64, u64, bool) {
    let by = (*i.get_chromosomes(), fbits(i.get_fitness()), i.is_alive());
    if (*i.get_parameter(), fbits(i.get_goal())) != (by.0, by.1) {
        stat::fail("agent-view", format!("individual {:?} shows the parameter {} and the value {:e} as an agent", by, i.get_parameter(), i.get_goal()));
    }
    by
}

fn look(m: &Rc<RefCell<M>>, pop: &Population<u64>, who: &str) {
    if stat::failed() {
        return;
    }
    let all: Vec<_> = pop.iter().map(one).collect();
    let agents: Vec<_> = pop.get_agents().into_iter().map(one).collect();
    let n = pop.len();
    if all.len() != n || agents != all {
        return stat::fail("listings-differ", format!("{}: length {}, iteration over {:?}, listed agents {:?}", who, n, all, agents));
    }
    let by_index: Vec<_> = (0..n).map(|i| one(&pop[i])).collect();
    if by_index != all {
        return stat::fail("listings-differ", format!("{}: iteration over {:?}, by index {:?}", who, all, by_index));
    }
    let alive = all.iter().filter(|i| i.2).count();
    if pop.len_alive() != alive {
        return stat::fail("living-count", format!("{}: {} living counted in {:?}", who, pop.len_alive(), all));
    }
    if alive < n {
        stat::hit("probe.dead_listed");
    }
    if n == 0 {
        stat::hit("probe.empty");
    }
    for i in pop.iter() {
        let c = i.clone();
        if !i.is_alive() {
            stat::hit("probe.clone_dead");
        }
        if one(&c) != one(i) {
            return stat::fail("clone-differs", format!("{}: {:?} cloned gives {:?}", who, one(i), one(&c)));
        }
    }
    let mut m = m.borrow_mut();
    m.looks += 1;
    // who is there
    let shown: BTreeMap<u64, bool> = all.iter().map(|i| (i.0, i.2)).collect();
    if shown.len() != n {
        return stat::fail("listed-twice", format!("{}: {:?}", who, all));
    }
    match &m.members {
        Some(k) => {
            if *k != shown {
                return stat::fail("wrong-members", format!("{}: shows {:?}, should be {:?}", who, shown, k));
            }
        }
        None => {
            if m.must.iter().any(|t| !shown.contains_key(t)) || shown.keys().any(|t| !m.must.contains(t) && !m.may.contains(t)) {
                return stat::fail("wrong-members", format!("{} after an abort: shows {:?}, should hold {:?} and nobody but these and {:?}", who, shown, m.must, m.may));
            }
            m.members = Some(shown);
        }
    }
    for i in &all {
        match m.value.get(&i.0) {
            Some(v) if fbits(*v) == i.1 => {}
            v => return stat::fail("stale-value", format!("{}: individual {:?}, evaluated in this run to {:?}", who, i, v)),
        }
    }
    // numbers of the iteration
    let (a, b) = (pop.get_iteration(), AlgorithmState::get_iteration(pop));
    if !m.iter_known {
        m.iter = a;
        m.iter_known = true;
    }
    if a != b || a != m.iter {
        return stat::fail("iteration-number", format!("{}: {} and {} shown after {} iterations", who, a, b, m.iter));
    }
    // best and worst
    let sol = pop.get_best_solution().map(|(x, v)| (x, fbits(v)));
    let best = pop.get_best().as_ref().map(|i| (*i.get_chromosomes(), fbits(i.get_fitness())));
    if sol != best {
        return stat::fail("best-differs", format!("{}: best individual {:?}, best solution {:?}", who, best, sol));
    }
    let worst = pop.get_worst().as_ref().map(|i| (*i.get_chromosomes(), fbits(i.get_fitness())));
    for (name, probe, e) in [("best", "probe.best_seen", best), ("worst", "probe.worst_seen", worst)] {
        if let Some((t, v)) = e {
            stat::hit(probe);
            match m.value.get(&t) {
                Some(w) if fbits(*w) == v => {}
                w => return stat::fail("stale-extreme", format!("{}: {} is {} with {:e}, evaluated in this run to {:?}", who, name, t, fval(v), w)),
            }
        }
    }
    if n >= 2 && m.iter > 0 {
        stat::nontrivial();
    }
}

fn ga(p: &Plan) -> Res {
    let (dist, salt) = (p.get("dist", 0, 0, DISTS), p.get("salt", 0, 0, i64::MAX) as u64);
    let n = p.get("n", 1, 0, 600) as u64;
    let births = p.get("births", 0, 0, 6) as u64;
    let fam = p.get("fam", 0, 0, 20) as usize;
    let limit = p.get("limit", 1, 0, 400) as usize;
    let order = p.get("order", 0, 0, 7);
    let deaths = p.get("deaths", 0, 0, 5) as u64;
    let m: Rc<RefCell<M>> = Rc::new(RefCell::new(M::default()));
    let taps = Taps::of(p);
    let target = Rc::new(Cell::new(0usize));
    let tags = Rc::new(Cell::new(1u64));
    let nsel = Rc::new(Cell::new(0usize));

    let (mg, tg) = (m.clone(), taps.clone());
    let goal = FnGoal(Box::new(move |t: &u64| {
        tg.hit("goal");
        let v = tag_value(dist, salt, *t);
        stat::mark(*t ^ fbits(v));
        mg.borrow_mut().born(*t, v);
        v
    }));
    let (ms, ts, tt, ns) = (m.clone(), target.clone(), taps.clone(), nsel.clone());
    let stop = FnStop(Box::new(move |s: &dyn AlgorithmState<u64>| {
        tt.hit("stop_checker");
        let mut m = ms.borrow_mut();
        m.end_init();
        m.settle(ns.get());
        if m.iter_known && s.get_iteration() != m.iter {
            stat::fail("iteration-number", format!("stop checker sees iteration {} after {}", s.get_iteration(), m.iter));
        }
        s.get_iteration() >= ts.get()
    }));
    let (tc, tt) = (tags.clone(), taps.clone());
    let creator = FnCreator(Box::new(move || {
        tt.hit("creator");
        let t = tc.get();
        tc.set(t + n);
        (t..t + n).collect()
    }));
    let mut real: Option<Box<dyn Pairing<u64>>> = match p.get("pairing", 0, 0, 2) {
        0 => Some(Box::new(RandomPairing::new())),
        1 => Some(Box::new(Tournament::new(fam))),
        _ => None,
    };
    let (mp, tt, ns) = (m.clone(), taps.clone(), nsel.clone());
    let pair = FnPairing(Box::new(move |pop: &Population<u64>| {
        mp.borrow_mut().settle(ns.get());
        look(&mp, pop, "pairing");
        stat::hit("probe.pairing_looked");
        {
            let m = mp.borrow();
            if m.runs > 1 && m.iter == 0 {
                stat::hit("probe.first_pairing_of_rerun");
            }
        }
        tt.hit("pairing");
        let r = match &mut real {
            Some(r) => r.get_pairs(pop),
            None => (0..pop.len()).map(|i| vec![i]).collect(),
        };
        look(&mp, pop, "pairing, at the end");
        r
    }));
    let (tx, tt) = (tags.clone(), taps.clone());
    let cross = FnCross(Box::new(move |_: &[&u64]| {
        tt.hit("cross");
        let t = tx.get();
        let k = if t > n + 400 { 0 } else { births % 3 + (births > 2) as u64 };
        tx.set(t + k);
        (t..t + k).collect()
    }));
    let (mb, tt) = (m.clone(), taps.clone());
    let pre = FnPre(Box::new(move |pop: &Population<u64>, _: &mut Vec<u64>| {
        look(&mb, pop, "pre-birth");
        stat::hit("probe.pre_birth_looked");
        tt.hit("pre_birth");
    }));
    // scripted deaths, every kill visible at once in every view
    let (mk, tt) = (m.clone(), taps.clone());
    let mut round = 0u64;
    let killer = move || {
        let (mk, tt) = (mk.clone(), tt.clone());
        round += 1;
        let mut k = round << 20;
        FnSel(Box::new(move |pop: &mut Population<u64>| {
            look(&mk, pop, "selection");
            stat::hit("probe.selection_looked");
            tt.hit("selection");
            k += 1;
            let die = |t: u64| mix(salt ^ mix(t ^ k << 32)) % 14 < deaths;
            if k % 2 == 0 {
                for i in pop.iter_mut() {
                    if die(*i.get_chromosomes()) {
                        i.kill();
                        stat::hit("probe.killed_by_iter");
                        mk.borrow_mut().members.as_mut().map(|m| m.insert(*i.get_chromosomes(), false));
                    }
                }
                look(&mk, pop, "selection, after kills");
            } else {
                for i in 0..pop.len() {
                    let t = *pop[i].get_chromosomes();
                    if die(t) {
                        pop[i].kill();
                        stat::hit("probe.killed_by_index");
                        mk.borrow_mut().members.as_mut().map(|m| m.insert(t, false));
                        if i % 7 == 0 {
                            look(&mk, pop, "selection, after a kill");
                        }
                    }
                }
                look(&mk, pop, "selection, after kills");
            }
            tt.hit("selection");
        }))
    };
    // a real selection: what it does is taken from one view and must show in all
    let mn = m.clone();
    let watched = move |mut inner: Box<dyn Selection<u64>>| {
        let mn = mn.clone();
        Box::new(FnSel(Box::new(move |pop: &mut Population<u64>| {
            look(&mn, pop, "selection");
            inner.kill(pop);
            let now: BTreeMap<u64, bool> = pop.iter().map(|i| (*i.get_chromosomes(), i.is_alive())).collect();
            {
                let mut m = mn.borrow_mut();
                if let Some(k) = &mut m.members {
                    for (t, a) in k.iter_mut() {
                        *a = *a && *now.get(t).unwrap_or(&false);
                    }
                }
            }
            look(&mn, pop, "selection, at the end");
        }))) as Box<dyn Selection<u64>>
    };
    let mut killer = killer;
    let nan = || watched(Box::new(KillFitnessNaN::new()));
    let lim = || watched(Box::new(LimitPopulation::new(limit)));
    let mut kil = || Box::new(killer()) as Box<dyn Selection<u64>>;
    let inner: Vec<Box<dyn Selection<u64>>> = match order {
        0 => vec![nan(), lim()],
        1 => vec![kil(), lim()],
        2 => vec![kil(), kil(), kil()],
        3 => vec![lim(), kil(), nan()],
        4 => vec![kil()],
        5 => vec![lim(), nan()],
        6 => vec![nan(), kil(), lim(), kil()],
        _ => vec![lim()],
    };
    nsel.set(inner.len());
    let sels: Vec<Box<dyn Selection<u64>>> = inner
        .into_iter()
        .map(|mut s| {
            let m = m.clone();
            Box::new(FnSel(Box::new(move |pop: &mut Population<u64>| {
                s.kill(pop);
                m.borrow_mut().sel += 1;
            }))) as Box<dyn Selection<u64>>
        })
        .collect();
    let tt = taps.clone();
    let mutation = FnMutation(Box::new(move |t: &u64| {
        tt.hit("mutation");
        *t
    }));
    let mut ga = GeneticOptimizer::new(Box::new(goal), Box::new(stop), Box::new(creator), Box::new(pair), Box::new(cross), Box::new(mutation), sels, vec![Box::new(pre)]);
    let (ml, tt, ns) = (m.clone(), taps.clone(), nsel.clone());
    ga.set_loggers(vec![Box::new(FnLogger(Box::new(move |w: Lg, s: &dyn AlgorithmState<u64>| {
        tt.hit("logger");
        let mut m = ml.borrow_mut();
        m.end_init();
        m.settle(ns.get());
        if m.iter_known && s.get_iteration() != m.iter {
            stat::fail("iteration-number", format!("logger ({:?}) sees iteration {} after {}", w, s.get_iteration(), m.iter));
        }
        if let Some((t, v)) = s.get_best_solution() {
            if m.value.get(&t).map(|w| fbits(*w)) != Some(fbits(v)) {
                stat::fail("stale-extreme", format!("logger ({:?}): best is {} with {:e}, evaluated in this run to {:?}", w, t, v, m.value.get(&t)));
            }
        }
    })))]);
    let mut st = Life::default();
    let mut fit = false;
    for o in &p.ops {
        if o.k == "more" && st.aborted && !fit {
            continue;
        }
        let fresh = match st.next(o) {
            Some(f) => f,
            None => continue,
        };
        let t = o.argc(0, 0, 1500) as usize;
        let r = if fresh {
            let (looks, runs) = (m.borrow().looks, m.borrow().runs);
            *m.borrow_mut() = M { members: Some(BTreeMap::new()), looks, runs: runs + 1, iter_known: true, init: true, ..M::default() };
            target.set(t);
            guard(|| ga.find_min())?
        } else {
            let it = m.borrow().iter;
            target.set(it + t);
            guard(|| ga.next_iterations())?
        };
        let done = r.is_some();
        let mut b = m.borrow_mut();
        if !done {
            // an aborted iteration: its newborns and its dead may or may not be there
            if b.sel == nsel.get() {
                b.settle(nsel.get());
            }
            if let Some(members) = b.members.take() {
                b.must = members.iter().filter(|(t, a)| **a && !b.newborn.contains(t)).map(|(t, _)| *t).collect();
                b.may = members.keys().cloned().collect();
            }
            let newborn = b.newborn.clone();
            b.may.extend(newborn);
            b.sel = 0;
            b.iter_known = false;
            fit = !b.init;
        }
        drop(b);
        st.ended(done);
        if stat::failed() {
            break;
        }
    }
    if st.rerun_after_abort {
        stat::hit("probe.rerun_after_abort");
    }
    if st.resumed_after_abort {
        stat::hit("probe.resumed_after_abort");
    }
    Ok(())
}

/// Which operations apply.
#[derive(Default)]
struct Life {
    started: bool,
    aborted: bool,
    fresh: bool,
    resumed_after_abort: bool,
    rerun_after_abort: bool,
}
impl Life {
    /// Some(true): a new run, Some(false): a resumption
    fn next(&mut self, o: &Op) -> Option<bool> {
        match o.k.as_str() {
            "run" => {
                self.rerun_after_abort |= self.aborted;
                self.started = true;
                self.fresh = true;
                Some(true)
            }
            "more" if self.started => {
                self.resumed_after_abort |= self.aborted;
                self.fresh = false;
                Some(false)
            }
            _ => None,
        }
    }
    fn ended(&mut self, done: bool) {
        self.aborted = !done;
    }
}

// ------------------------------------------------------------------ swarm

#[derive(Default)]
struct S {
    /// evaluated in this run: number -> (point, value)
    seen: BTreeMap<u64, (X, u64)>,
    /// number of the position before and, once moved, after this iteration
    parts: Vec<(u64, Option<u64>)>,
    fuzzy: bool,
    iter: usize,
    iter_known: bool,
    moving: Option<usize>,
    init: bool,
}

impl S {
    fn settle(&mut self, iter: usize, who: &str) {
        if !self.iter_known {
            self.iter = iter;
            self.iter_known = true;
        }
        if iter == self.iter + 1 && self.parts.iter().all(|p| p.1.is_some()) {
            self.iter = iter;
            for p in &mut self.parts {
                p.0 = p.1.take().unwrap();
            }
        }
        if iter != self.iter {
            stat::fail("iteration-number", format!("{} sees iteration {} after {}", who, iter, self.iter));
        }
    }
}

fn pso<F: Fl>(p: &Plan) -> Res {
    let (dist, salt) = (p.get("dist", 0, 0, DISTS), p.get("salt", 0, 0, i64::MAX) as u64);
    let n = p.get("n", 1, 0, 600) as usize;
    let dim = p.get("dim", 1, 1, 140) as usize;
    let s: Rc<RefCell<S>> = Rc::new(RefCell::new(S::default()));
    let taps = Taps::of(p);
    let target = Rc::new(Cell::new(0usize));
    let numbers = Rc::new(Cell::new(0u64));

    let empty: Swarm<F> = Swarm::new();
    if empty.len() != 0 || !empty.get_agents().is_empty() || AlgorithmState::get_iteration(&empty) != 0 || empty.get_best_solution().is_some() {
        stat::fail("new-swarm", "a new swarm is not empty");
    }

    let (sg, tt) = (s.clone(), taps.clone());
    let goal = FnGoal(Box::new(move |x: &Vec<F>| {
        tt.hit("goal");
        let t = x[0].d() as u64;
        let v = tag_value(dist, salt, t);
        stat::mark(t ^ fbits(v));
        let mut s = sg.borrow_mut();
        s.seen.insert(t, (x.x(), fbits(v)));
        if s.init {
            s.parts.push((t, None));
        } else if let Some(i) = s.moving.take() {
            s.parts[i].1 = Some(t);
        }
        v
    }));
    let (ss, ts, tt) = (s.clone(), target.clone(), taps.clone());
    let stop = FnStop(Box::new(move |a: &dyn AlgorithmState<Vec<F>>| {
        tt.hit("stop_checker");
        let mut s = ss.borrow_mut();
        s.init = false;
        s.settle(a.get_iteration(), "stop checker");
        a.get_iteration() >= ts.get()
    }));
    let (sc, tt) = (s.clone(), taps.clone());
    let coords = FnCoord(Box::new(move || {
        tt.hit("coordinates");
        sc.borrow_mut().init = true;
        vec![vec![F::zero(); dim]; n]
    }));
    let tt = taps.clone();
    let vels = FnCoord(Box::new(move || {
        tt.hit("velocity_init");
        vec![vec![F::zero(); dim]; n]
    }));
    // every position gets its own number as its first coordinate
    let (nc, tt) = (numbers.clone(), taps.clone());
    let number = FnMove(Box::new(move |x: &mut Vec<F>| {
        tt.hit("post_move");
        let t = nc.get() + 1;
        nc.set(t);
        x[0] = F::of(t as f64);
        for (d, v) in x.iter_mut().enumerate().skip(1) {
            *v = F::of((mix(t ^ (d as u64) << 40) % 1000) as f64);
        }
    }));
    let (sv, tt) = (s.clone(), taps.clone());
    let calc = FnVel(Box::new(move |w: &Swarm<F>, q: &Particle<F>| {
        {
            let mut s = sv.borrow_mut();
            let it = AlgorithmState::get_iteration(w);
            s.init = false;
            s.settle(it, "velocity rule");
            look_swarm(&mut s, w, q);
        }
        tt.hit("velocity_calc");
        vec![F::of(1.0); q.get_parameter().len()]
    }));
    let mut o = ParticleSwarmOptimizer::new(Box::new(goal), Box::new(stop), Box::new(coords), Box::new(vels), Box::new(calc));
    o.set_post_moves(vec![Box::new(number) as Box<dyn PostMove<F>>]);
    let (sl, tt) = (s.clone(), taps.clone());
    o.set_loggers(vec![Box::new(FnLogger(Box::new(move |w: Lg, a: &dyn AlgorithmState<Vec<F>>| {
        tt.hit("logger");
        let mut s = sl.borrow_mut();
        s.init = false;
        s.settle(a.get_iteration(), "logger");
        let best = a.get_best_solution();
        if best.is_some() != (n > 0) {
            stat::fail("best-differs", format!("logger ({:?}): best {:?} of {} particles", w, best, n));
        }
        if let Some((x, v)) = best {
            known(&s, "logger: best", &x, v);
        }
    }))) as Box<dyn Logger<Vec<F>>>]);
    let mut st = Life::default();
    let mut fit = false;
    for op in &p.ops {
        if op.k == "more" && st.aborted && !fit {
            continue;
        }
        let fresh = match st.next(op) {
            Some(f) => f,
            None => continue,
        };
        let t = op.argc(0, 0, 1500) as usize;
        let r = if fresh {
            *s.borrow_mut() = S { iter_known: true, init: true, ..S::default() };
            target.set(t);
            guard(|| o.find_min())?
        } else {
            let it = s.borrow().iter;
            target.set(it + t);
            guard(|| o.next_iterations())?
        };
        if r.is_none() {
            let mut s = s.borrow_mut();
            // aborted during the initialization: only a new run makes sense
            fit = !s.init;
            s.fuzzy = true;
            s.iter_known = false;
            s.moving = None;
        }
        st.ended(r.is_some());
        if n == 0 {
            stat::hit("probe.swarm_empty");
        }
        if stat::failed() {
            break;
        }
    }
    if st.rerun_after_abort {
        stat::hit("probe.rerun_after_abort");
    }
    if st.resumed_after_abort {
        stat::hit("probe.resumed_after_abort");
    }
    Ok(())
}

fn known<F: Fl>(s: &S, who: &str, x: &Vec<F>, v: f64) {
    let t = x.first().map_or(0.0, |a| a.d()) as u64;
    match s.seen.get(&t) {
        Some((y, w)) if *y == x.x() && *w == fbits(v) => {}
        k => stat::fail("stale-value", format!("{}: {:?} with {:e}, evaluated in this run: {:?}", who, x, v, k.map(|k| (show_x(&k.0), fval(k.1))))),
    }
}

fn look_swarm<F: Fl>(s: &mut S, w: &Swarm<F>, q: &Particle<F>) {
    if stat::failed() {
        return;
    }
    stat::hit("probe.swarm_looked");
    let agents = w.get_agents();
    if agents.len() != w.len() || agents.len() != s.parts.len() {
        return stat::fail("listings-differ", format!("length {}, {} agents listed, {} particles", w.len(), agents.len(), s.parts.len()));
    }
    let id = |a: &Particle<F>| a.get_parameter().first().map_or(0.0, |a| a.d()) as u64;
    for a in agents.iter().chain(Some(&q)) {
        known(s, "agent", a.get_parameter(), a.get_goal());
        let c = (*a).clone();
        if c.get_parameter().x() != a.get_parameter().x() || fbits(c.get_goal()) != fbits(a.get_goal()) {
            return stat::fail("clone-differs", "a cloned particle differs from the original");
        }
    }
    let mut shown: BTreeSet<u64> = agents.iter().map(|a| id(a)).collect();
    if shown.len() != agents.len() {
        return stat::fail("listed-twice", format!("agents {:?}", agents.iter().map(|a| id(a)).collect::<Vec<_>>()));
    }
    if s.fuzzy {
        // after an abort each particle is where it was or where it went
        for p in &mut s.parts {
            if let Some(b) = p.1 {
                if shown.contains(&b) {
                    p.0 = b;
                }
            }
            p.1 = None;
        }
        s.fuzzy = false;
    }
    let me = match s.parts.iter().position(|p| p.1.is_none() && p.0 == id(q)) {
        Some(i) => i,
        None => return stat::fail("wrong-particle", format!("a velocity is asked for the particle at {}, particles (before, after): {:?}", id(q), s.parts)),
    };
    if s.parts.iter().any(|p| p.1.is_some()) {
        stat::hit("probe.swarm_half_moved");
    }
    for p in &s.parts {
        // at its old position, or at its new one once it has moved
        let hit = p.1.map_or(false, |b| shown.remove(&b)) || shown.remove(&p.0);
        if !hit {
            return stat::fail("wrong-members", format!("particle {:?} (before, after) is not among the agents {:?}", p, agents.iter().map(|a| id(a)).collect::<Vec<_>>()));
        }
    }
    if let Some((x, v)) = w.get_best_solution() {
        known(s, "best", &x, v);
        stat::hit("probe.best_seen");
    } else {
        stat::fail("best-differs", "a swarm with particles shows no best");
    }
    if s.parts.len() >= 2 && s.iter > 0 {
        stat::nontrivial();
    }
    s.moving = Some(me);
}
