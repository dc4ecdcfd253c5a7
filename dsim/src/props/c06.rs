//! C06: a generation loses, duplicates and re-evaluates nobody.
use crate::exec::Prop;
use crate::kit::*;
use crate::lab::*;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::stat::{self, Res};
use optlib::genetic::{GeneticOptimizer, Population, PreBirth, Selection};
use optlib::{AlgorithmState, IterativeOptimizer, Optimizer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct C06;

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn runs(&self) -> (u64, u64) {
        (360_000, 4_000_000)
    }
    fn rule(&self) -> &'static str {
        "runs, pauses, re-runs and component replacement of a genetic algorithm of uniquely tagged individuals with arbitrary families, litters, mutations, pre-birth edits and deaths, every trait call recorded; non-trivial: an iteration with births and deaths was checked"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["probe.iterations_checked", "probe.births", "probe.deaths", "probe.stillborn", "probe.adopted", "probe.empty_family", "probe.no_families", "probe.big_family", "probe.litter", "probe.replaced", "probe.rerun", "probe.paused"]
    }
    fn real_stub(&self) -> (&'static str, &'static str) {
        ("GeneticOptimizer, Population", "every component (recording, scripted)")
    }
    fn gen(&self, r: &mut Rng, deep: bool) -> Plan {
        let mut p = Plan::new("C06", "tags", 0);
        gen_dist(r, &mut p);
        p.set("n", if r.chance(1, 400) { r.range(100, 300) } else if r.chance(1, 25) { r.range(20, if deep { 250 } else { 80 }) } else { r.size(0, 10) });
        p.set("fam", if r.chance(1, 200) { r.range(9, 300) } else { r.size(0, 8) });
        p.set("members", if r.chance(1, 30) { r.range(6, 70) } else { r.size(0, 5) });
        p.set("litter", if r.chance(1, 40) { r.range(5, 40) } else { r.size(0, 4) });
        p.set("same", r.range(0, 3));
        p.set("pres", if r.chance(1, 60) { r.range(4, 20) } else { r.range(0, 3) });
        p.set("sels", if r.chance(1, 60) { r.range(4, 20) } else { r.range(0, 3) });
        p.set("deaths", r.range(0, 4));
        p.set("loggers", r.range(0, 2));
        let mut any = false;
        for _ in 0..r.range(1, 5) {
            if any && r.chance(1, 4) {
                p.op("rep", &[r.range(1, 63)]);
            }
            let t = if r.chance(1, 30) { r.range(20, 80) } else { r.size(0, 7) };
            if any && r.chance(2, 3) {
                p.op("more", &[t]);
            } else {
                p.op("run", &[t]);
            }
            any = true;
        }
        lengthen(r, &mut p, 200, &[("n", 4), ("fam", 1), ("members", 2), ("litter", 1), ("pres", 2), ("sels", 2)]);
        p
    }
    fn run(&self, p: &Plan) -> Res {
        go(p)
    }
}

/// What was seen of the iteration in progress.
#[derive(Default)]
struct Seen {
    /// population at pairing
    pop0: Option<Vec<Ind>>,
    pairs: Vec<Vec<usize>>,
    crossed: Vec<(Vec<u64>, Vec<u64>)>,
    mutated: Vec<(u64, u64)>,
    pres: Vec<(usize, u64, Vec<Ind>, Vec<u64>, Vec<u64>)>,
    evals: Vec<(u64, u64)>,
    sels: Vec<(usize, u64, Vec<Ind>, Vec<Ind>)>,
    pairings: u64,
}

#[derive(Default)]
struct Model {
    seen: Seen,
    /// individuals the next iteration must start with
    expect: Option<Vec<Ind>>,
    iter: usize,
    /// version of each replaceable component: 0 pairing, 1 cross, 2 mutation, 3 selections, 4 pre-births, 5 stop checker
    version: [u64; 6],
    npre: usize,
    nsel: usize,
    in_iteration: bool,
    created: Option<Vec<u64>>,
    initialized: bool,
    checked: u64,
    rich: bool,
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn key(i: &Ind) -> (u64, u64, bool) {
    (i.x[0], i.v, i.alive)
}
fn keys(v: &[Ind]) -> Vec<(u64, u64, bool)> {
    let mut k: Vec<_> = v.iter().map(key).collect();
    k.sort();
    k
}

/// The iteration is over: everything recorded must fit together.
fn verify(m: &mut Model) {
    let s = std::mem::take(&mut m.seen);
    let pop0 = match &s.pop0 {
        None => return stat::fail("no-pairing", format!("iteration {} ended without pairing", m.iter)),
        Some(p) => p.clone(),
    };
    if s.pairings != 1 {
        return stat::fail("pairing-count", format!("pairing called {} times in iteration {}", s.pairings, m.iter));
    }
    // crossing: exactly the named families
    let named: Vec<Vec<u64>> = s.pairs.iter().map(|f| f.iter().map(|i| pop0[*i].x[0]).collect()).collect();
    let got: Vec<Vec<u64>> = s.crossed.iter().map(|c| c.0.clone()).collect();
    if sorted(&named) != sorted(&got) {
        return stat::fail("families-crossed", format!("named {:?}, crossed {:?}", named, got));
    }
    // mutation: every child once
    let children: Vec<u64> = s.crossed.iter().flat_map(|c| c.1.clone()).collect();
    let muts: Vec<u64> = s.mutated.iter().map(|m| m.0).collect();
    if sorted(&children) != sorted(&muts) {
        return stat::fail("children-mutated", format!("children {:?}, mutated {:?}", children, muts));
    }
    // pre-birth chain
    let mutants: Vec<u64> = s.mutated.iter().map(|m| m.1).collect();
    let mut list = mutants.clone();
    if s.pres.len() != m.npre {
        return stat::fail("pre-birth-count", format!("{} pre-birth calls instead of {}", s.pres.len(), m.npre));
    }
    for (k, (i, ver, pop, before, after)) in s.pres.iter().enumerate() {
        if *i != k || *ver != m.version[4] {
            return stat::fail("pre-birth-order", format!("call {} went to pre-birth {} of version {} (current {})", k, i, ver, m.version[4]));
        }
        if keys(pop) != keys(&pop0) {
            return stat::fail("pre-birth-population", format!("pre-birth {} was shown {:?}, the generation is {:?}", k, pop, pop0));
        }
        if (k == 0 && sorted(before) != sorted(&list)) || (k > 0 && *before != list) {
            return stat::fail("pre-birth-list", format!("pre-birth {} was given {:?} instead of {:?}", k, before, list));
        }
        list = after.clone();
    }
    // evaluation: every one left, once
    let evals: Vec<u64> = s.evals.iter().map(|e| e.0).collect();
    if sorted(&evals) != sorted(&list) {
        return stat::fail("evaluations", format!("to be born {:?}, evaluated {:?}", list, evals));
    }
    let mut next: Vec<Ind> = pop0.clone();
    next.extend(s.evals.iter().map(|(t, v)| Ind { x: vec![*t], v: *v, alive: true }));
    // selections
    if s.sels.len() != m.nsel {
        return stat::fail("selection-count", format!("{} selection calls instead of {}", s.sels.len(), m.nsel));
    }
    let mut deaths = 0;
    for (k, (i, ver, before, after)) in s.sels.iter().enumerate() {
        if *i != k || *ver != m.version[3] {
            return stat::fail("selection-order", format!("call {} went to selection {} of version {} (current {})", k, i, ver, m.version[3]));
        }
        if keys(before) != keys(&next) {
            return stat::fail("selection-population", format!("selection {} was given {:?} instead of {:?}", k, keys(before), keys(&next)));
        }
        next = after.clone();
    }
    deaths += next.iter().filter(|i| !i.alive).count();
    next.retain(|i| i.alive);
    m.expect = Some(next);
    m.checked += 1;
    stat::hit("probe.iterations_checked");
    stat::add("probe.births", s.evals.len() as u64);
    stat::add("probe.deaths", deaths as u64);
    if mutants.iter().any(|t| !list.contains(t)) {
        stat::hit("probe.stillborn");
    }
    if list.iter().any(|t| !mutants.contains(t)) {
        stat::hit("probe.adopted");
    }
    if s.pairs.iter().any(|f| f.is_empty()) {
        stat::hit("probe.empty_family");
    }
    if s.pairs.is_empty() {
        stat::hit("probe.no_families");
    }
    if s.pairs.iter().any(|f| f.len() > 2) {
        stat::hit("probe.big_family");
    }
    if s.crossed.iter().any(|c| c.1.len() > 1) {
        stat::hit("probe.litter");
    }
    if !s.evals.is_empty() && deaths > 0 {
        m.rich = true;
    }
}

/// The initial generation is complete: everyone created was evaluated once.
fn initial(m: &mut Model) {
    if m.initialized {
        return;
    }
    m.initialized = true;
    let created = m.created.clone().unwrap_or_default();
    let evals: Vec<u64> = m.seen.evals.iter().map(|e| e.0).collect();
    if sorted(&created) != sorted(&evals) {
        stat::fail("initial-evaluations", format!("created {:?}, evaluated {:?}", created, evals));
    }
    m.expect = Some(m.seen.evals.iter().map(|(t, v)| Ind { x: vec![*t], v: *v, alive: true }).collect());
    m.seen = Seen::default();
}

type M = Rc<RefCell<Model>>;

#[derive(Clone)]
struct Kit {
    m: M,
    tags: Rc<Cell<u64>>,
    salt: u64,
    fam: u64,
    members: u64,
    litter: u64,
    same: u64,
    deaths: u64,
}

impl Kit {
    fn fresh(&self) -> u64 {
        let t = self.tags.get();
        self.tags.set(t + 1);
        t
    }
    fn pairing(&self, ver: u64) -> FnPairing<u64> {
        let k = self.clone();
        FnPairing(Box::new(move |pop: &Population<u64>| {
            let mut m = k.m.borrow_mut();
            let now = inds(pop);
            if ver != m.version[0] {
                stat::fail("stale-component", "a replaced pairing was called");
            }
            m.in_iteration = true;
            initial(&mut m);
            if let Some(e) = m.expect.take() {
                if keys(&e) != keys(&now) {
                    stat::fail("next-generation", format!("iteration {} must start with {:?}, starts with {:?}", m.iter, keys(&e), keys(&now)));
                }
            }
            if pop.get_iteration() != m.iter {
                stat::fail("iteration-number", format!("population shows iteration {} during iteration {}", pop.get_iteration(), m.iter));
            }
            let n = now.len() as u64;
            let h = mix(k.salt ^ k.tags.get() ^ (m.iter as u64) << 20);
            let pairs: Vec<Vec<usize>> = if n == 0 && k.members > 0 {
                (0..k.fam % 2).map(|_| vec![]).collect()
            } else {
                (0..if k.fam == 0 { 0 } else { h % (k.fam + 1) })
                    .map(|f| {
                        let c = if k.members == 0 { 0 } else { mix(h ^ f) % (k.members + 1) };
                        (0..c).map(|j| (mix(h ^ f << 8 ^ j << 16) % n) as usize).collect()
                    })
                    .collect()
            };
            for f in &pairs {
                for i in f {
                    stat::mark(*i as u64);
                }
            }
            m.seen.pop0 = Some(now);
            m.seen.pairs = pairs.clone();
            m.seen.pairings += 1;
            pairs
        }))
    }
    fn cross(&self, ver: u64) -> FnCross<u64> {
        let k = self.clone();
        FnCross(Box::new(move |parents: &[&u64]| {
            let mut m = k.m.borrow_mut();
            if ver != m.version[1] {
                stat::fail("stale-component", "a replaced crossing was called");
            }
            let c = if k.litter == 0 { 0 } else { mix(k.salt ^ k.tags.get() ^ 3) % (k.litter + 1) };
            let kids: Vec<u64> = (0..c).map(|_| k.fresh()).collect();
            m.seen.crossed.push((parents.iter().map(|p| **p).collect(), kids.clone()));
            kids
        }))
    }
    fn mutation(&self, ver: u64) -> FnMutation<u64> {
        let k = self.clone();
        FnMutation(Box::new(move |t: &u64| {
            let mut m = k.m.borrow_mut();
            if ver != m.version[2] {
                stat::fail("stale-component", "a replaced mutation was called");
            }
            let out = if mix(*t ^ k.salt) % 4 < k.same { *t } else { k.fresh() };
            m.seen.mutated.push((*t, out));
            out
        }))
    }
    fn pres(&self, ver: u64, n: usize) -> Vec<Box<dyn PreBirth<u64>>> {
        (0..n)
            .map(|i| {
                let k = self.clone();
                Box::new(FnPre(Box::new(move |pop: &Population<u64>, list: &mut Vec<u64>| {
                    let before = list.clone();
                    let h = mix(k.salt ^ k.tags.get() ^ i as u64);
                    match h % 4 {
                        0 => {}
                        1 => list.retain(|t| mix(*t ^ h) % 2 == 0),
                        2 => {
                            list.reverse();
                            list.push(k.fresh());
                        }
                        _ => {
                            if let Some(t) = list.first_mut() {
                                *t = k.fresh();
                            }
                        }
                    }
                    k.m.borrow_mut().seen.pres.push((i, ver, inds(pop), before, list.clone()));
                }))) as Box<dyn PreBirth<u64>>
            })
            .collect()
    }
    fn sels(&self, ver: u64, n: usize) -> Vec<Box<dyn Selection<u64>>> {
        (0..n)
            .map(|i| {
                let k = self.clone();
                Box::new(FnSel(Box::new(move |pop: &mut Population<u64>| {
                    let before = inds(pop);
                    let h = mix(k.salt ^ k.tags.get() ^ (i as u64) << 9);
                    for i in pop.iter_mut() {
                        if mix(h ^ *i.get_chromosomes()) % 8 < k.deaths {
                            i.kill();
                        }
                    }
                    k.m.borrow_mut().seen.sels.push((i, ver, before, inds(pop)));
                }))) as Box<dyn Selection<u64>>
            })
            .collect()
    }
    fn stop(&self, ver: u64, target: Rc<Cell<usize>>) -> FnStop<u64> {
        let k = self.clone();
        FnStop(Box::new(move |s: &dyn AlgorithmState<u64>| {
            let mut m = k.m.borrow_mut();
            if ver != m.version[5] {
                stat::fail("stale-component", "a replaced stop checker was asked");
            }
            if m.in_iteration {
                m.in_iteration = false;
                m.iter += 1;
                verify(&mut m);
            }
            initial(&mut m);
            if s.get_iteration() != m.iter {
                stat::fail("iteration-number", format!("stop checker sees iteration {} after {} iterations", s.get_iteration(), m.iter));
            }
            s.get_iteration() >= target.get()
        }))
    }
}

fn go(p: &Plan) -> Res {
    let (dist, salt) = (p.get("dist", 0, 0, DISTS), p.get("salt", 0, 0, i64::MAX) as u64);
    let n = p.get("n", 1, 0, 600) as u64;
    let g = |k: &str, hi: i64| p.get(k, 0, 0, hi) as u64;
    let (npre, nsel) = (g("pres", 20) as usize, g("sels", 20) as usize);
    let m: M = Rc::new(RefCell::new(Model { npre, nsel, ..Model::default() }));
    let kit = Kit { m: m.clone(), tags: Rc::new(Cell::new(1)), salt, fam: g("fam", 300), members: g("members", 80), litter: g("litter", 40), same: g("same", 4), deaths: g("deaths", 8) };
    let target = Rc::new(Cell::new(0usize));
    let mg = m.clone();
    let goal = FnGoal(Box::new(move |t: &u64| {
        let v = tag_value(dist, salt, *t);
        stat::mark(*t ^ fbits(v));
        mg.borrow_mut().seen.evals.push((*t, fbits(v)));
        v
    }));
    let kc = kit.clone();
    let creator = FnCreator(Box::new(move || {
        let v: Vec<u64> = (0..n).map(|_| kc.fresh()).collect();
        let mut m = kc.m.borrow_mut();
        if m.created.is_some() {
            stat::fail("created-twice", "the creator was asked twice in one run");
        }
        m.created = Some(v.clone());
        v
    }));
    let mut ga = GeneticOptimizer::new(
        Box::new(goal),
        Box::new(kit.stop(0, target.clone())),
        Box::new(creator),
        Box::new(kit.pairing(0)),
        Box::new(kit.cross(0)),
        Box::new(kit.mutation(0)),
        kit.sels(0, nsel),
        kit.pres(0, npre),
    );
    let ml = m.clone();
    let nlog = p.get("loggers", 1, 0, 3);
    ga.set_loggers(
        (0..nlog)
            .map(|_| {
                let ml = ml.clone();
                Box::new(FnLogger(Box::new(move |w: Lg, s: &dyn AlgorithmState<u64>| {
                    let m = ml.borrow();
                    let want = match w {
                        Lg::Iter => m.iter + 1,
                        _ => m.iter,
                    };
                    if s.get_iteration() != want {
                        stat::fail("iteration-number", format!("{:?} shows iteration {} instead of {}", w, s.get_iteration(), want));
                    }
                }))) as Box<dyn optlib::tools::logging::Logger<u64>>
            })
            .collect(),
    );
    let mut started = false;
    for o in &p.ops {
        let t = o.argc(0, 0, 1500) as usize;
        match o.k.as_str() {
            "run" => {
                if started {
                    stat::hit("probe.rerun");
                }
                started = true;
                {
                    let mut b = m.borrow_mut();
                    b.seen = Seen::default();
                    b.expect = None;
                    b.iter = 0;
                    b.in_iteration = false;
                    b.created = None;
                    b.initialized = false;
                }
                target.set(t);
                ga.find_min();
                // a run that ends before its first iteration shows the initial generation through get_agents only
                stat::hit("probe.run");
            }
            "more" if started => {
                stat::hit("probe.paused");
                let it = m.borrow().iter;
                target.set(it + t);
                ga.next_iterations();
            }
            "rep" if started => {
                let w = o.argc(0, 0, 63);
                stat::hit("probe.replaced");
                let bump = |i: usize| {
                    let mut b = m.borrow_mut();
                    b.version[i] += 1;
                    b.version[i]
                };
                if w & 1 != 0 {
                    ga.set_pairing(Box::new(kit.pairing(bump(0))));
                }
                if w & 2 != 0 {
                    ga.set_cross(Box::new(kit.cross(bump(1))));
                }
                if w & 4 != 0 {
                    ga.set_mutation(Box::new(kit.mutation(bump(2))));
                }
                if w & 8 != 0 {
                    let ver = bump(3);
                    let n = (mix(salt ^ ver) % 4) as usize;
                    m.borrow_mut().nsel = n;
                    ga.set_selection(kit.sels(ver, n));
                }
                if w & 16 != 0 {
                    let ver = bump(4);
                    let n = (mix(salt ^ ver ^ 99) % 4) as usize;
                    m.borrow_mut().npre = n;
                    ga.set_pre_birth(kit.pres(ver, n));
                }
                if w & 32 != 0 {
                    ga.set_stop_checker(Box::new(kit.stop(bump(5), target.clone())));
                }
            }
            _ => {}
        }
    }
    if m.borrow().rich {
        stat::nontrivial();
    }
    Ok(())
}
